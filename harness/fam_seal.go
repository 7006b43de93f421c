package main

import (
	"bytes"
	stdb64 "encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"io"
	"io/ioutil"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/kisom/psignify/base64"
	"github.com/kisom/psignify/crypto"
	"github.com/kisom/psignify/signify"
	"golang.org/x/crypto/nacl/auth"
	"golang.org/x/crypto/nacl/box"
)

var errEOF = io.EOF

func init() {
	families["seal"] = famSeal
	families["refopen"] = famRefOpen
	families["tamper"] = famTamper
	families["bytes"] = famBytes
	families["garbage"] = famGarbage
	families["golden"] = famGolden
	families["hugehdr"] = famHugeHeader
	families["hugeseal"] = famHugeSeal
	families["wrongkey"] = famWrongKey
	families["pub"] = famPub
	families["nonces"] = famNonces
	families["failio"] = famFailIO
}

func writeFile(path string, data []byte, perm os.FileMode) {
	if err := os.WriteFile(path, data, perm); err != nil {
		fatal("%v", err)
	}
}

func readFile(path string) []byte {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	return b
}

// keyOnDisk writes the two files of a key, and returns their paths.
func keyOnDisk(dir, name string, k *refKey, pass []byte, rounds int, r io.Reader) (sec, pub string) {
	salt := make([]byte, 16)
	io.ReadFull(r, salt)
	sec, pub = filepath.Join(dir, name+".sec"), filepath.Join(dir, name+".pub")
	writeFile(sec, refFile("signify private key", k.secPayload(pass, rounds, salt)), 0600)
	writeFile(pub, refFile("signify public key", k.pubPayload()), 0644)
	return
}

func setPrompt(pass []byte, err error) *prompts {
	p := &prompts{}
	signify.PassphrasePrompt = func(confirm bool) ([]byte, error) {
		p.calls++
		if confirm {
			p.confirms++
		}
		if err != nil {
			return nil, err
		}
		b := append([]byte(nil), pass...)
		p.bufs = append(p.bufs, b)
		return b, nil
	}
	return p
}

type prompts struct {
	calls, confirms int
	bufs            [][]byte
}

func (p *prompts) wiped() bool {
	for _, b := range p.bufs {
		for _, v := range b {
			if v != 0 {
				return false
			}
		}
	}
	return true
}

func makeMessage(n int, fill string, r *rand.Rand) []byte {
	b := make([]byte, n)
	switch fill {
	case "zero":
	case "ff":
		for i := range b {
			b[i] = 0xff
		}
	case "text":
		const t = "He who fears death either fears the loss of sensation or a different kind of sensation.\n"
		for i := range b {
			b[i] = t[i%len(t)]
		}
	case "lf":
		for i := range b {
			b[i] = '\n'
		}
	case "bom", "comment", "gzip", "sig", "b64", "enc", "crlf", "trail", "nul", "eof":
		// Contents that something could take for more than bytes.
		r.Read(b)
		switch fill {
		case "bom":
			copy(b, "\xef\xbb\xbf")
		case "comment":
			copy(b, "untrusted comment: signify private key\nRWQ\n")
		case "gzip":
			copy(b, "\x1f\x8b\x08")
		case "sig":
			copy(b, "untrusted comment: verify with k.pub\n"+string(refB64(append([]byte("Ed"), bytes.Repeat([]byte{7}, 72)...)))+"\n")
		case "b64":
			copy(b, refB64(append([]byte(nil), b...)))
		case "enc":
			copy(b, encComment)
		case "crlf":
			for i := 0; i < n; i += 1 + r.Intn(40) {
				copy(b[i:], "\r\n")
			}
		case "trail":
			for i := n / 2; i < n; i++ {
				b[i] = " \t\r\n"[r.Intn(4)]
			}
		case "nul":
			for i := n - n/3; i < n; i++ {
				b[i] = 0
			}
		case "eof":
			for i := 0; i < n; i += 1 + r.Intn(20) {
				b[i] = 0x1a
			}
		}
	case "same": // every chunk the same
		c := make([]byte, refChunk)
		r.Read(c)
		for i := range b {
			b[i] = c[i%refChunk]
		}
	default:
		r.Read(b)
		// Given bytes at the beginning, at the end or somewhere.
		if i := strings.IndexByte(fill, ':'); i > 0 {
			given, err := hex.DecodeString(fill[i+1:])
			if err != nil {
				fatal("%v", err)
			}
			at := 0
			if len(given) < n {
				switch fill[:i] {
				case "end":
					at = n - len(given)
				case "mid":
					at = r.Intn(n - len(given))
				}
			}
			copy(b[at:], given)
		}
	}
	return b
}

func hang(res Res) {
	if res.Class == "hang" {
		hangExit()
	}
}

// famSeal seals with the code, has the result analyzed, and opens it again.
func famSeal(c *Ctx) {
	var k struct {
		Via     string `json:"via"` // api, default (no output path), fifo, proc, pkg, cli
		Len     int    `json:"len"`
		Fill    string `json:"fill"`
		Claim   int    `json:"claim"` // pkg: claimed size minus length
		Segs    []int  `json:"segs"`
		EOFd    bool   `json:"eofd"`
		Fail    int    `json:"fail"` // the source fails there; -1: never
		FailW   bool   `json:"failw"`
		Prot    bool   `json:"prot"`    // protected key
		Existed int    `json:"existed"` // the output path holds that many bytes
		Stream  bool   `json:"stream"`  // zeros, never held in memory
		Name    string `json:"name"`
		Times   int    `json:"times"`
	}
	k.Fail = -1
	c.Parse(&k)
	if !haveInpkg && (k.Via == "pkg") {
		return
	}
	key := newKey(c.Rng)
	pass := []byte("pässwörd")
	rounds := 0
	if k.Prot {
		rounds = 1
	}
	sec, pub := keyOnDisk(c.Dir, "key", key, pass, rounds, c.Rng)
	setPrompt(pass, nil)
	var msg []byte
	if !k.Stream {
		msg = makeMessage(k.Len, k.Fill, c.Rng)
	}
	for t := 0; t <= k.Times; t++ {
		famSealOnce(c, k.Via, k.Len, msg, k.Claim, &source{text: msg, segs: k.Segs, eofWithData: k.EOFd, failAt: k.Fail, failWith: k.FailW},
			key, sec, pub, k.Existed, k.Stream, k.Name)
	}
}

func famSealOnce(c *Ctx, via string, n int, msg []byte, claim int, src *source, key *refKey, sec, pub string, existed int, stream bool, name string) {
	given, fails := n, false
	if src.failAt >= 0 {
		fails = true
		if src.failAt < n {
			given = src.failAt
		}
	}
	ev := Ev{"keyok": true, "given": given, "claimed": n + claim, "fails": fails, "via": via, "named": true, "back": false,
		"eph": "", "reuse": 0, "out": Ev{}}
	var res Res
	switch via {
	case "pkg":
		p, err := signify.LoadPublicKey(pub)
		if err != nil {
			fatal("loading a well formed key: %v", err)
		}
		if stream {
			priv, err := signify.LoadPrivateKey(sec)
			if err != nil {
				fatal("loading a well formed key: %v", err)
			}
			a := newAnalyzer(key, zeroMsg{})
			// It is opened while it is made.
			pr, pw := io.Pipe()
			var z zeroCount
			back := make(chan error, 1)
			go func() {
				err := pkgOpen(priv, pr, &z)
				io.Copy(ioutil.Discard, pr)
				back <- err
			}()
			res = guard(func() error { return pkgSeal(p, &zeroReader{int64(n)}, n+claim, io.MultiWriter(a, pw)) })
			hang(res)
			pw.Close()
			ev["back"] = <-back == nil && z.n == n && z.zero()
			ev["out"], ev["eph"], ev["reuse"] = a.finish(), a.eph(), a.reuse
			break
		}
		var w bytes.Buffer
		res = guard(func() error { return pkgSeal(p, src, n+claim, &w) })
		hang(res)
		a := newAnalyzer(key, bytesMsg(msg))
		raw := append([]byte(nil), w.Bytes()...)
		a.feed(raw)
		ev["out"], ev["eph"], ev["reuse"] = a.finish(), a.eph(), a.reuse
		priv, err := signify.LoadPrivateKey(sec)
		if err != nil {
			fatal("loading a well formed key: %v", err)
		}
		var back bytes.Buffer
		r2 := guard(func() error { return pkgOpen(priv, bytes.NewReader(raw), &back) })
		hang(r2)
		ev["back"] = r2.Class == "ok" && bytes.Equal(back.Bytes(), msg[:given])
	default:
		if name == "" {
			name = "message"
		}
		in := filepath.Join(c.Dir, name)
		os.MkdirAll(filepath.Dir(in), 0755)
		out := filepath.Join(c.Dir, "sealed.out")
		arg := out
		if via == "default" || via == "clidefault" {
			out, arg = in+".enc", ""
		}
		if existed > 0 {
			writeFile(out, bytes.Repeat([]byte("old\n"), existed), 0644)
		} else {
			os.Remove(out)
		}
		var wg sync.WaitGroup
		if via == "fifo" {
			os.Remove(in)
			if err := syscall.Mkfifo(in, 0600); err != nil {
				fatal("%v", err)
			}
			ev["claimed"] = 0
			wg.Add(1)
			go func() {
				defer wg.Done()
				f, err := os.OpenFile(in, os.O_WRONLY, 0)
				if err == nil {
					io.Copy(f, struct{ io.Reader }{src})
					f.Close()
				}
			}()
		} else {
			writeFile(in, msg, 0644)
		}
		switch via {
		case "cli", "clidefault":
			args := []string{"-E", "-p", pub, "-m", in}
			if arg != "" {
				args = append(args, "-c", arg)
			}
			o := runCLI(c.Dir, args, nil)
			res = o.res()
		default:
			res = guard(func() error { return crypto.Seal(pub, in, arg) })
		}
		hang(res)
		if via == "fifo" {
			// Unblock the writer if the pipe was never opened.
			if f, err := os.OpenFile(in, os.O_RDONLY|syscall.O_NONBLOCK, 0); err == nil {
				io.Copy(io.Discard, f)
				wg.Wait()
				f.Close()
			}
		}
		wg.Wait()
		file := readFile(out)
		_, err := os.Stat(out)
		ev["named"] = err == nil
		o, a := analyzeFile(file, key, bytesMsg(msg))
		ev["out"], ev["eph"], ev["reuse"] = o, a.eph(), a.reuse
		opened := filepath.Join(c.Dir, "opened")
		os.Remove(opened)
		if existed > 0 {
			writeFile(opened, bytes.Repeat([]byte{'o'}, n+existed), 0644)
		}
		r2 := guard(func() error { return crypto.Open(sec, out, opened) })
		hang(r2)
		got := readFile(opened)
		ev["back"] = r2.Class == "ok" && bytes.Equal(got, msg)
		ev["backres"], ev["backmsg"] = r2.Class, r2.Msg
	}
	ev["res"], ev["msg"] = res.Class, res.Msg
	c.Emit("seal", ev)
}

// famHugeSeal: the command starts sealing a file too long to be sealed here;
// it has not failed by the time it is stopped.
func famHugeSeal(c *Ctx) {
	var k struct {
		Size int64 `json:"size"`
	}
	c.Parse(&k)
	key := newKey(c.Rng)
	_, pub := keyOnDisk(c.Dir, "key", key, nil, 0, c.Rng)
	msg, out := filepath.Join(c.Dir, "msg"), filepath.Join(c.Dir, "sealed")
	f, err := os.Create(msg)
	if err != nil {
		fatal("%v", err)
	}
	err = f.Truncate(k.Size)
	f.Close()
	if err != nil {
		return // no such files here
	}
	defer func() {
		os.Remove(msg)
		os.Remove(out)
	}()
	chown(c.Dir)
	cmd := exec.Command(*flagCLI, "-E", "-p", filepath.Base(pub), "-m", "msg", "-c", "sealed")
	cmd.Dir, cmd.Env = c.Dir, cliEnv(c.Dir)
	cmd.SysProcAttr = userAttr()
	if cmd.SysProcAttr == nil {
		cmd.SysProcAttr = &syscall.SysProcAttr{}
	}
	cmd.SysProcAttr.Setpgid = true
	var se bytes.Buffer
	cmd.Stderr = &se
	if err := cmd.Start(); err != nil {
		fatal("running the command: %v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	// Stopped when it has written something, or after a while.
	res, deadline := "", time.Now().Add(2*time.Second)
	for res == "" {
		select {
		case err := <-done:
			res = "err"
			if err == nil {
				res = "ok"
			} else if strings.Contains(se.String(), "goroutine ") {
				res = "panic"
			}
		case <-time.After(20 * time.Millisecond):
			if fi, err := os.Stat(out); err == nil && fi.Size() > 1<<20 || time.Now().After(deadline) {
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				<-done
				res = "running"
			}
		}
	}
	fi, err := os.Stat(out)
	c.Emit("sealhuge", Ev{"res": res, "whole": err == nil && fi.Size() > k.Size, "msg": se.String()})
}

// famHugeHeader: the header for a message too long to be sealed here.
func famHugeHeader(c *Ctx) {
	var k struct {
		Chunks uint64 `json:"chunks"`
		Rem    int    `json:"rem"`
	}
	c.Parse(&k)
	if !haveInpkg {
		return
	}
	key := newKey(c.Rng)
	_, pub := keyOnDisk(c.Dir, "key", key, nil, 0, c.Rng)
	p, err := signify.LoadPublicKey(pub)
	if err != nil {
		fatal("%v", err)
	}
	size := int64(k.Chunks)*refChunk + int64(k.Rem)
	want := k.Chunks
	if k.Rem > 0 {
		want++
	}
	var w bytes.Buffer
	res := guard(func() error { return pkgSeal(p, bytes.NewReader(nil), int(size), &w) })
	hang(res)
	made := w.Len() >= 72
	c.Emit("sealhdr", Ev{"res": res.Class, "made": made, "countok": made && binary.BigEndian.Uint64(w.Bytes()[:8]) == want,
		"size": fmt.Sprint(size)})
}

// openFacts opens a file and reports the outcome.
func openFile(c *Ctx, via, sec string, file []byte, segs []int) (Res, []byte) {
	switch via {
	case "pkg":
		priv, err := signify.LoadPrivateKey(sec)
		if err != nil {
			fatal("loading a well formed key: %v", err)
		}
		_, text, _ := splitEnc(file)
		var w bytes.Buffer
		res := guard(func() error {
			return pkgOpen(priv, base64.NewDecoder(&source{text: text, segs: segs, failAt: -1}), &w)
		})
		hang(res)
		return res, w.Bytes()
	case "fifo":
		in, out := filepath.Join(c.Dir, "in.enc"), filepath.Join(c.Dir, "out")
		os.Remove(in)
		os.Remove(out)
		if err := syscall.Mkfifo(in, 0600); err != nil {
			fatal("%v", err)
		}
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			f, err := os.OpenFile(in, os.O_WRONLY, 0)
			if err == nil {
				io.Copy(f, struct{ io.Reader }{&source{text: file, segs: segs, failAt: -1}})
				f.Close()
			}
		}()
		res := guard(func() error { return crypto.Open(sec, in, out) })
		hang(res)
		// Unblock the writer if the pipe was never opened.
		if f, err := os.OpenFile(in, os.O_RDONLY|syscall.O_NONBLOCK, 0); err == nil {
			io.Copy(io.Discard, f)
			wg.Wait()
			f.Close()
		}
		return res, readFile(out)
	default:
		in, out := filepath.Join(c.Dir, "in.enc"), filepath.Join(c.Dir, "out")
		writeFile(in, file, 0644)
		os.Remove(out)
		var res Res
		if via == "cli" {
			res = runCLI(c.Dir, []string{"-D", "-s", sec, "-c", in, "-m", out}, nil).res()
		} else {
			res = guard(func() error { return crypto.Open(sec, in, out) })
		}
		hang(res)
		return res, readFile(out)
	}
}

// famRefOpen: files made by the reference implementation must open.
func famRefOpen(c *Ctx) {
	var k struct {
		Via      string `json:"via"`
		Len      int    `json:"len"`
		Fill     string `json:"fill"`
		Width    int    `json:"width"`
		Segs     []int  `json:"segs"`
		EOFd     bool   `json:"eofd"`
		NoLF     bool   `json:"nolf"` // no line break at the end of the file
		ExtraLF  bool   `json:"extralf"`
		Comment  string `json:"comment"`
		CommentB []int  `json:"commentb"`
		Raw      bool   `json:"raw"` // straight into open
		Stream   bool   `json:"stream"`
		Prot     bool   `json:"prot"`
	}
	c.Parse(&k)
	if k.CommentB != nil {
		k.Comment = string(unints(k.CommentB))
	}
	if !haveInpkg && (k.Via == "pkg" || k.Raw || k.Stream) {
		return
	}
	key := newKey(c.Rng)
	pass := []byte("a passphrase")
	rounds := 0
	if k.Prot {
		rounds = 1
	}
	sec, _ := keyOnDisk(c.Dir, "key", key, pass, rounds, c.Rng)
	setPrompt(pass, nil)
	var res Res
	outlen, prefix := 0, true
	base, baseOut, same := "", []byte(nil), true
	switch {
	case k.Stream:
		priv, err := signify.LoadPrivateKey(sec)
		if err != nil {
			fatal("%v", err)
		}
		pr, pw := io.Pipe()
		go func() {
			refSealStream(key.pub[:], k.Len, c.Rng, pw)
			pw.Close()
		}()
		var z zeroCount
		res = guard(func() error { return pkgOpen(priv, pr, &z) })
		pr.CloseWithError(io.ErrClosedPipe)
		hang(res)
		outlen, prefix = z.n, z.zero()
	default:
		msg := makeMessage(k.Len, k.Fill, c.Rng)
		ci := refSealMsg(key.pub[:], msg, c.Rng)
		var got []byte
		if k.Raw {
			priv, err := signify.LoadPrivateKey(sec)
			if err != nil {
				fatal("%v", err)
			}
			var w bytes.Buffer
			res = guard(func() error {
				return pkgOpen(priv, &source{text: ci.bytes(), segs: k.Segs, eofWithData: k.EOFd, failAt: -1}, &w)
			})
			hang(res)
			got = w.Bytes()
		} else {
			w := k.Width
			if w == 0 {
				w = 72
			}
			text := refEncText(ci.bytes(), w)
			if k.NoLF {
				text = bytes.TrimRight(text, "\n")
			}
			if k.ExtraLF {
				text = append(text, '\n', '\n')
			}
			cm := encComment
			if k.Comment != "" {
				r0, got0 := openFile(c, k.Via, sec, append([]byte(cm), text...), k.Segs)
				base, baseOut = r0.Class, got0
				cm = "untrusted comment: " + k.Comment + "\n"
			}
			res, got = openFile(c, k.Via, sec, append([]byte(cm), text...), k.Segs)
		}
		outlen, prefix = len(got), bytes.HasPrefix(msg, got)
		same = base == "" || bytes.Equal(got, baseOut)
	}
	c.Emit("openx", Ev{"auth": "A", "len": k.Len, "base": base, "same": same, "complete": true, "intact": true, "outlen": outlen, "prefix": prefix,
		"res": res.Class, "msg": res.Msg, "via": k.Via})
}

// famFailIO seals or opens from a source and to a destination that fail, for
// good or once.
func famFailIO(c *Ctx) {
	var k struct {
		Op   string `json:"op"`
		Len  int    `json:"len"`
		Room int    `json:"room"` // the destination fails after so many bytes, or never
		Late bool   `json:"late"`
		Once bool   `json:"once"`
		Fail int    `json:"fail"` // and the source
		End  bool   `json:"end"`  // the source fails once and then ends
		Segs []int  `json:"segs"`
		B64  bool   `json:"b64"` // with base64 in between
	}
	c.Parse(&k)
	if !haveInpkg {
		return
	}
	key := newKey(c.Rng)
	sec, pub := keyOnDisk(c.Dir, "key", key, nil, 0, c.Rng)
	msg := makeMessage(k.Len, "", c.Rng)
	sink := &limitedSink{room: k.Room, late: k.Late, once: k.Once}
	if k.Room < 0 {
		sink.room = 1 << 30
	}
	src := &source{text: msg, segs: k.Segs, failAt: k.Fail, failOnce: k.Once, end: k.End}
	var res Res
	var got []byte
	ok := true
	var closed Res
	if k.Op == "seal" {
		p, err := signify.LoadPublicKey(pub)
		if err != nil {
			fatal("%v", err)
		}
		var w io.Writer = sink
		enc := base64.NewEncoder(sink)
		if k.B64 {
			w = enc
		}
		if src.failAt > len(src.text) {
			src.failAt = len(src.text)
		}
		res = guard(func() error { return pkgSeal(p, src, k.Len, w) })
		hang(res)
		if k.B64 && res.Class == "ok" {
			closed = guard(enc.Close)
			hang(closed)
			res = closed
		}
		raw := sink.got
		if k.B64 {
			raw, err = stdb64.StdEncoding.DecodeString(strings.ReplaceAll(string(raw), "\n", ""))
			ok = err == nil
		}
		if ok {
			got, ok = refOpen(refEncFile(raw), key)
		}
		ok = ok && bytes.Equal(got, msg)
		c.Emit("failio", Ev{"op": k.Op, "res": res.Class, "once": k.Once, "sinkfailed": sink.did, "complete": ok, "prefix": true})
		return
	}
	priv, err := signify.LoadPrivateKey(sec)
	if err != nil {
		fatal("%v", err)
	}
	raw := refSealMsg(key.pub[:], msg, c.Rng).bytes()
	src.text = raw
	var r io.Reader = src
	if k.B64 {
		src.text = refEncText(raw, 72)
		r = base64.NewDecoder(src)
	}
	if src.failAt > len(src.text) {
		src.failAt = len(src.text)
	}
	res = guard(func() error { return pkgOpen(priv, r, sink) })
	hang(res)
	c.Emit("failio", Ev{"op": k.Op, "res": res.Class, "once": k.Once, "sinkfailed": sink.did, "complete": bytes.Equal(sink.got, msg),
		"prefix": bytes.HasPrefix(msg, sink.got)})
}

type zeroCount struct {
	n   int
	bad bool
}

func (z *zeroCount) Write(p []byte) (int, error) {
	for _, v := range p {
		if v != 0 {
			z.bad = true
		}
	}
	z.n += len(p)
	return len(p), nil
}
func (z *zeroCount) zero() bool { return !z.bad }

// refSealStream writes the raw encrypted form of n zeros.
func refSealStream(pub []byte, n int, r io.Reader, w io.Writer) {
	epub, epriv, err := box.GenerateKey(r)
	if err != nil {
		fatal("%v", err)
	}
	var shared [32]byte
	bp := refBoxPub(pub)
	box.Precompute(&shared, &bp, epriv)
	var header [72]byte
	chunks := (n + refChunk - 1) / refChunk
	binary.BigEndian.PutUint64(header[:8], uint64(chunks))
	copy(header[8:40], epub[:])
	tag := auth.Sum(header[:40], &shared)
	copy(header[40:], tag[:])
	if _, err := w.Write(header[:]); err != nil {
		return
	}
	zeros := make([]byte, refChunk)
	for i := 0; i < chunks; i++ {
		m := zeros
		if rem := n - i*refChunk; rem < refChunk {
			m = zeros[:rem]
		}
		if _, err := w.Write(box.SealAfterPrecomputation(nil, m, refNonce(uint64(i)), &shared)); err != nil {
			return
		}
	}
}

// ---- files put together from cells ------------------------------------------

type hdrCell struct {
	Count int    `json:"count"`
	Eph   string `json:"eph"`
	Tag   string `json:"tag"`
	Cut   bool   `json:"cut"`
}

type cell struct {
	op   string
	idx  int
	part int
	mode string
}

func (x *cell) UnmarshalJSON(b []byte) error {
	var raw []interface{}
	if err := jsonUnmarshal(b, &raw); err != nil {
		return err
	}
	x.op, x.idx, x.part, x.mode = raw[0].(string), int(raw[1].(float64)), int(raw[2].(float64)), raw[3].(string)
	return nil
}

func (x cell) MarshalJSON() ([]byte, error) {
	return []byte(fmt.Sprintf(`[%q,%d,%d,%q]`, x.op, x.idx, x.part, x.mode)), nil
}

type world struct {
	keys   map[string]*refKey // K1, K2
	msgs   map[string][]byte
	sealed map[string]*refCipher
	cut    map[string]int
}

var worlds = map[string]*world{}

func shapeLen(shape []string, r *rand.Rand) int {
	n := 0
	for _, s := range shape {
		if s == "F" {
			n += refChunk
		} else {
			n += []int{1, 2, 15, 16, 17, 100, 8192, 16384, 1 + r.Intn(16384)}[r.Intn(9)]
		}
	}
	return n
}

// ownSeal seals a message by the code. Nil if that is not the header and
// the chunks that it should be.
func ownSeal(c *Ctx, key *refKey, msg []byte) *refCipher {
	d := filepath.Join(c.Dir, "own")
	os.MkdirAll(d, 0755)
	pub, in, out := filepath.Join(d, "k.pub"), filepath.Join(d, "m"), filepath.Join(d, "m.enc")
	writeFile(pub, refFile("x", key.pubPayload()), 0644)
	writeFile(in, msg, 0644)
	os.Remove(out)
	hang(guard(func() error { return crypto.Seal(pub, in, out) }))
	_, text, _ := splitEnc(readFile(out))
	raw, err := stdb64.StdEncoding.DecodeString(string(bytes.ReplaceAll(text, []byte("\n"), nil)))
	chunks := (len(msg) + refChunk - 1) / refChunk
	if err != nil || len(raw) != 72+len(msg)+(refSealed-refChunk)*chunks {
		return nil
	}
	ci := &refCipher{}
	copy(ci.header[:], raw)
	for raw = raw[72:]; len(raw) > 0; {
		n := len(raw)
		if n > refSealed {
			n = refSealed
		}
		ci.chunks = append(ci.chunks, raw[:n:n])
		raw = raw[n:]
	}
	return ci
}

func getWorld(c *Ctx, own bool, id string, shapes map[string][]string, seed int64) *world {
	if w, ok := worlds[id]; ok {
		return w
	}
	r := rand.New(rand.NewSource(seed))
	w := &world{keys: map[string]*refKey{"K1": newKey(r), "K2": newKey(r)}, msgs: map[string][]byte{}, sealed: map[string]*refCipher{}, cut: map[string]int{}}
	for _, op := range []string{"A", "B", "C"} {
		w.msgs[op] = makeMessage(shapeLen(shapes[op], r), "", r)
		key := w.keys["K1"]
		if op == "C" {
			key = w.keys["K2"]
		}
		w.sealed[op] = refSealMsg(key.pub[:], w.msgs[op], r)
		if own {
			if ci := ownSeal(c, key, w.msgs[op]); ci != nil {
				w.sealed[op] = ci
			}
		}
		w.cut[op] = []int{16, 8, 15, 17, 8200, refSealed - 8, refSealed - 16, 8 + r.Intn(refSealed-16)}[r.Intn(8)]
	}
	worlds[id] = w
	return w
}

func famTamper(c *Ctx) {
	var k struct {
		Via    string   `json:"via"`
		ShapeA []string `json:"shapeA"`
		ShapeB []string `json:"shapeB"`
		ShapeC []string `json:"shapeC"`
		File   struct {
			Hdr   hdrCell `json:"hdr"`
			Cells []cell  `json:"cells"`
		} `json:"file"`
	}
	c.Parse(&k)
	if k.Via == "" {
		k.Via = "pkg"
	}
	if k.Via == "pkg" && !haveInpkg {
		k.Via = "api"
	}
	w := getWorld(c, c.Rid%5 >= 3, fmt.Sprint(k.ShapeA, c.Rid%5), map[string][]string{"A": k.ShapeA, "B": k.ShapeB, "C": k.ShapeC}, *flagSeed*1000+c.Rid%5)
	var raw []byte
	h := make([]byte, 72)
	switch {
	case k.File.Hdr.Count >= 0:
		binary.BigEndian.PutUint64(h[:8], uint64(k.File.Hdr.Count))
	default:
		binary.BigEndian.PutUint64(h[:8], []uint64{77, 1 << 32, uint64(len(k.ShapeA)) + 1<<32, 1<<64 - 1, 1 << 63, 256 + uint64(len(k.ShapeA))}[c.Rng.Intn(6)])
	}
	field := func(op string, from, to int) {
		if op == "J" {
			copy(h[from:to], w.sealed["A"].header[from:to])
			h[from+c.Rng.Intn(to-from)] ^= 1 << uint(c.Rng.Intn(8))
			if bytes.Equal(h[from:to], w.sealed["A"].header[from:to]) {
				fatal("not altered")
			}
			// The top bit of an X25519 key is ignored by the function.
			if from == 8 && bytes.Equal(h[8:39], w.sealed["A"].header[8:39]) && (h[39]^w.sealed["A"].header[39]) == 128 {
				h[20] ^= 1
			}
		} else {
			copy(h[from:to], w.sealed[op].header[from:to])
		}
	}
	field(k.File.Hdr.Eph, 8, 40)
	field(k.File.Hdr.Tag, 40, 72)
	if k.File.Hdr.Cut {
		h = h[:c.Rng.Intn(72)]
	}
	raw = append(raw, h...)
	for _, x := range k.File.Cells {
		rec := w.sealed[x.op].chunks[x.idx]
		switch x.part {
		case 1:
			rec = rec[:w.cut[x.op]]
		case 2:
			rec = rec[w.cut[x.op]:]
		}
		rec = append([]byte(nil), rec...)
		switch x.mode {
		case "flip":
			pos := []int{0, len(rec) - 1, c.Rng.Intn(len(rec))}[c.Rng.Intn(3)]
			rec[pos] ^= 1 << uint(c.Rng.Intn(8))
		case "cut":
			n := []int{1, len(rec) - 1, 1 + c.Rng.Intn(len(rec)-1)}[c.Rng.Intn(3)]
			rec = rec[:n]
		}
		raw = append(raw, rec...)
	}
	sec, _ := keyOnDisk(c.Dir, "k1", w.keys["K1"], nil, 0, c.Rng)
	file := refEncFile(raw)
	var res Res
	var out []byte
	if k.Via == "pkg" {
		priv, err := signify.LoadPrivateKey(sec)
		if err != nil {
			fatal("%v", err)
		}
		var b bytes.Buffer
		res = guard(func() error { return pkgOpen(priv, bytes.NewReader(raw), &b) })
		hang(res)
		out = b.Bytes()
	} else {
		res, out = openFile(c, k.Via, sec, file, nil)
	}
	c.Emit("open", Ev{"shapeA": k.ShapeA, "shapeB": k.ShapeB, "file": Ev{"hdr": k.File.Hdr, "cells": cellList(k.File.Cells)},
		"res": res.Class, "msg": res.Msg, "outlen": len(out),
		"lens":   Ev{"A": len(w.msgs["A"]), "B": len(w.msgs["B"])},
		"prefix": Ev{"A": bytes.HasPrefix(w.msgs["A"], out), "B": bytes.HasPrefix(w.msgs["B"], out)}})
}

func cellList(c []cell) []cell {
	if c == nil {
		return []cell{}
	}
	return c
}

// ---- files altered byte by byte ----------------------------------------------

func famBytes(c *Ctx) {
	var k struct {
		Via   string `json:"via"`
		Len   int    `json:"len"`
		Level string `json:"level"` // raw, text, file
		Kind  string `json:"kind"`  // flip, cut, del, ins, set, append, dup
		Pos   int    `json:"pos"`   // -n: from the end
		To    int    `json:"to"`    // fill: up to there
		Val   int    `json:"val"`
		Count string `json:"count"` // the authentic header names another number of chunks
		Bulk  int    `json:"bulk"`  // this many consecutive positions
		Own   bool   `json:"own"`   // sealed by the code
	}
	c.Parse(&k)
	if k.Via == "pkg" && !haveInpkg {
		k.Via = "api"
	}
	r := rand.New(rand.NewSource(*flagSeed*31 + int64(k.Len)))
	key := newKey(r)
	msg := makeMessage(k.Len, "", r)
	sec, _ := keyOnDisk(c.Dir, "k1", key, nil, 0, r)
	var ci *refCipher
	if k.Own && k.Count == "" {
		ci = ownSeal(c, key, msg)
	}
	if ci == nil {
		k.Own = false
		ci = refSealMsg(key.pub[:], msg, r)
	}
	length := len(msg)
	incomplete := false
	if k.Count != "" {
		var n uint64
		fmt.Sscan(k.Count, &n)
		if n <= uint64(len(ci.chunks)) {
			fatal("count")
		}
		binary.BigEndian.PutUint64(ci.header[:8], n)
		shared := refShared(key, ci.header[8:40])
		tag := auth.Sum(ci.header[:40], &shared)
		copy(ci.header[40:], tag[:])
		incomplete = true
	}
	if k.Bulk == 0 {
		k.Bulk = 1
	}
	for b := 0; b < k.Bulk; b++ {
		raw := ci.bytes()
		orig := append([]byte(nil), raw...)
		pos := k.Pos + b
		mutate := func(t []byte) []byte {
			p := pos
			if p < 0 {
				p += len(t)
			}
			if p < 0 {
				p = 0
			}
			switch k.Kind {
			case "flip":
				if p/8 < len(t) {
					t[p/8] ^= 1 << uint(p%8)
				}
			case "cut":
				if p <= len(t) {
					t = t[:p]
				}
			case "del":
				if p < len(t) {
					t = append(t[:p], t[p+1:]...)
				}
			case "set":
				if p < len(t) {
					t[p] = byte(k.Val)
				}
			case "ins":
				if p <= len(t) {
					t = append(t[:p], append([]byte{byte(k.Val)}, t[p:]...)...)
				}
			case "fill": // a whole field
				for ; p < len(t) && p < k.To; p++ {
					t[p] = byte(k.Val)
				}
			case "append":
				for i := 0; i < k.Val; i++ {
					t = append(t, byte(c.Rng.Intn(256)))
				}
			case "dup":
				t = append(t, t...)
			}
			return t
		}
		if k.Level == "raw" {
			raw = mutate(raw)
		}
		file := refEncFile(raw)
		if k.Level == "text" {
			cm, text, _ := splitEnc(file)
			file = append(append(append([]byte(nil), cm...), '\n'), mutate(append([]byte(nil), text...))...)
		}
		if k.Level == "file" {
			file = mutate(file)
		}
		_, text, _ := splitEnc(file)
		authOp, complete := "none", false
		for _, d := range lenientDecodes(text) {
			if len(d) >= 72 {
				// The top bit of the ephemeral key is not part of it.
				e := append([]byte(nil), d[:72]...)
				if k.Own {
					// Only this header is authentic.
					e[39] = e[39]&127 | orig[39]&128
					if bytes.Equal(e, orig[:72]) {
						authOp = "A"
					}
				} else {
					shared := refShared(key, e[8:40])
					if auth.Verify(e[40:72], e[:40], &shared) {
						authOp = "A"
					}
				}
			}
			complete = complete || (len(d) >= len(orig) && bytes.Equal(d[:len(orig)], orig) && !incomplete)
		}
		intact := complete && bytes.Equal(file, refEncFile(orig))
		res, out := openFile(c, k.Via, sec, file, nil)
		c.Emit("openx", Ev{"auth": authOp, "len": length, "complete": complete, "intact": intact, "base": "", "same": true, "outlen": len(out),
			"prefix": bytes.HasPrefix(msg, out), "res": res.Class, "msg": res.Msg, "pos": pos})
	}
}

// famGolden opens files sealed by the pinned version.
func famGolden(c *Ctx) {
	var k struct {
		Name string `json:"name"`
		Via  string `json:"via"`
	}
	c.Parse(&k)
	d := filepath.Join(*flagData, "golden")
	msg := readFile(filepath.Join(d, k.Name+".msg"))
	file := readFile(filepath.Join(d, k.Name+".enc"))
	if file == nil {
		fatal("no golden file %s", k.Name)
	}
	setPrompt([]byte("golden passphrase"), nil)
	sec := filepath.Join(c.Dir, "k.sec")
	writeFile(sec, readFile(filepath.Join(d, k.Name+".sec")), 0600)
	res, out := openFile(c, "api", sec, file, nil)
	c.Emit("openx", Ev{"auth": "A", "len": len(msg), "complete": true, "intact": true, "base": "", "same": true, "outlen": len(out),
		"prefix": bytes.HasPrefix(msg, out), "res": res.Class, "msg": res.Msg, "via": "golden " + k.Name})
}

// ---- keys --------------------------------------------------------------------

// famWrongKey opens a file with keys it was not sealed to.
func famWrongKey(c *Ctx) {
	var k struct {
		Via   string `json:"via"`
		Len   int    `json:"len"`
		Kind  string `json:"kind"` // other, samenum, seedbit, bothseals
		Pos   int    `json:"pos"`
		Real  bool   `json:"real"` // sealed by the code
		Prot  bool   `json:"prot"`
		Reuse bool   `json:"reuse"`
		First bool   `json:"first"` // something is sealed to the other key before
	}
	c.Parse(&k)
	key := newKey(c.Rng)
	other := newKey(c.Rng)
	switch k.Kind {
	case "samenum":
		other = keyFromSeed(other.seed[:], key.num[:])
	case "seedbit":
		s := key.seed
		s[(k.Pos/8)%32] ^= 1 << uint(k.Pos%8)
		other = keyFromSeed(s[:], key.num[:])
	case "pubhalf":
		// The secret half of another key next to the recipient's public half.
		other = keyFromSeed(other.seed[:], key.num[:])
		copy(other.priv[32:], key.pub[:])
	}
	pass := []byte("pw")
	rounds := 0
	if k.Prot {
		rounds = 1
	}
	setPrompt(pass, nil)
	msg := makeMessage(k.Len, "", c.Rng)
	sec, pub := keyOnDisk(c.Dir, "right", key, pass, rounds, c.Rng)
	wsec, wpub := keyOnDisk(c.Dir, "wrong", other, pass, rounds, c.Rng)
	var file []byte
	if k.Real {
		in := filepath.Join(c.Dir, "message")
		writeFile(in, msg, 0644)
		if k.First {
			hang(guard(func() error { return crypto.Seal(wpub, in, in+".other") }))
		}
		res := guard(func() error { return crypto.Seal(pub, in, "") })
		hang(res)
		if res.Class != "ok" {
			return // decided elsewhere
		}
		file = readFile(in + ".enc")
	} else {
		file = refEncFile(refSealMsg(key.pub[:], msg, c.Rng).bytes())
	}
	if k.Reuse {
		openFile(c, k.Via, sec, file, nil)
	}
	res, out := openFile(c, k.Via, wsec, file, nil)
	c.Emit("openx", Ev{"auth": "none", "len": 0, "complete": false, "intact": false, "base": "", "same": true, "outlen": len(out),
		"prefix": bytes.HasPrefix(msg, out), "res": res.Class, "msg": res.Msg, "kind": k.Kind})
	if k.Reuse {
		res, out = openFile(c, k.Via, sec, file, nil)
		c.Emit("openx", Ev{"auth": "A", "len": len(msg), "complete": true, "intact": true, "base": "", "same": true, "outlen": len(out),
			"prefix": bytes.HasPrefix(msg, out), "res": res.Class, "msg": res.Msg, "kind": "right"})
	}
}

// famPub: public keys that must or must not be used.
func famPub(c *Ctx) {
	var k struct {
		Kind string `json:"kind"` // valid, small, nonpoint, algo, noncanon
		Pos  int    `json:"pos"`
		Op   string `json:"op"` // tobox, seal, cli
		Val  int    `json:"val"`
	}
	c.Parse(&k)
	key := newKey(c.Rng)
	payload := key.pubPayload()
	must := "ok"
	switch k.Kind {
	case "algo":
		payload[k.Pos%2] ^= byte(k.Val)
		must = "err"
	case "small":
		enc := smallOrderEncodings()
		copy(payload[10:], enc[k.Pos%len(enc)])
		must = "err"
	case "nonpoint":
		p := nonPoint(c.Rng)
		copy(payload[10:], p[:])
		must = "err"
	}
	pub := filepath.Join(c.Dir, "k.pub")
	writeFile(pub, refFile("signify public key", payload), 0644)
	in := filepath.Join(c.Dir, "message")
	writeFile(in, []byte("hello"), 0644)
	var res Res
	switch k.Op {
	case "tobox":
		p, err := signify.LoadPublicKey(pub)
		if err != nil {
			res = Res{Class: "err", Msg: err.Error()}
			break
		}
		res = guard(func() error { _, err := p.ToBox(); return err })
	case "cli":
		res = runCLI(c.Dir, []string{"-E", "-p", pub, "-m", in}, nil).res()
	default:
		res = guard(func() error { return crypto.Seal(pub, in, "") })
	}
	hang(res)
	c.Emit("pub", Ev{"res": res.Class, "msg": res.Msg, "must": must, "kind": k.Kind, "op": k.Op, "key": fmt.Sprintf("%x", payload[10:])})
}

// famGarbage opens files that are no encrypted files.
func famGarbage(c *Ctx) {
	var k struct {
		Seed int64  `json:"seed"`
		Kind string `json:"kind"`
		Len  int    `json:"len"`
	}
	c.Parse(&k)
	r := rand.New(rand.NewSource(k.Seed))
	key := newKey(r)
	sec, _ := keyOnDisk(c.Dir, "k", key, nil, 0, r)
	b := make([]byte, k.Len)
	r.Read(b)
	switch k.Kind {
	case "text":
		for i := range b {
			b[i] = " \nabcXYZ=+/\r"[int(b[i])%12]
		}
	case "b64":
		b = refEncFile(b)
	case "lf":
		for i := range b {
			b[i] = '\n'
		}
	case "header": // a random header that names few chunks
		for i := 0; i < 7 && i < len(b); i++ {
			b[i] = 0
		}
		b = refEncFile(b)
	}
	res, out := openFile(c, "api", sec, b, nil)
	c.Emit("openx", Ev{"auth": "none", "len": 0, "complete": false, "intact": false, "base": "", "same": true, "outlen": len(out),
		"prefix": false, "res": res.Class, "msg": res.Msg, "kind": k.Kind})
}

// nextNonce is the nonce counter, if the package has one.
var nextNonce func(*[24]byte) error

// famNonces steps the nonce counter at many places.
func famNonces(c *Ctx) {
	var k struct {
		Befores [][]int `json:"befores"`
	}
	c.Parse(&k)
	if nextNonce == nil {
		fatal("no nonce counter")
	}
	steps := []interface{}{}
	res := guard(func() error {
		for _, b := range k.Befores {
			var n [24]byte
			copy(n[:], unints(b))
			err := nextNonce(&n)
			steps = append(steps, Ev{"before": b, "after": ints(n[:]), "ok": err == nil})
		}
		return nil
	})
	c.Emit("nonces", Ev{"res": res.Class, "steps": steps})
}
