package main

import (
	"bytes"
	"crypto/sha256"
	stdb64 "encoding/base64"
	"encoding/binary"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/kisom/psignify/crypto"
	"github.com/kisom/psignify/signify"
	"golang.org/x/crypto/ed25519"
	"golang.org/x/crypto/nacl/auth"
	"golang.org/x/crypto/nacl/box"
)

func init() {
	families["history"] = famHistory
}

// refOpen opens an encrypted file by the reference implementation.
func refOpen(file []byte, k *refKey) ([]byte, bool) {
	cm, text, ok := splitEnc(file)
	if !ok || !bytes.HasPrefix(cm, []byte("untrusted comment: ")) || !bytes.HasSuffix(text, []byte("\n")) {
		return nil, false
	}
	raw, err := stdb64.StdEncoding.DecodeString(string(bytes.ReplaceAll(text, []byte("\n"), nil)))
	if err != nil || len(raw) < 72 || bytes.IndexByte(text, '\r') >= 0 {
		return nil, false
	}
	shared := refShared(k, raw[8:40])
	if !auth.Verify(raw[40:72], raw[:40], &shared) {
		return nil, false
	}
	n := binary.BigEndian.Uint64(raw[:8])
	raw = raw[72:]
	var out []byte
	for i := uint64(0); i < n; i++ {
		c := raw
		if len(c) > refSealed {
			c = c[:refSealed]
		}
		raw = raw[len(c):]
		m, ok := box.OpenAfterPrecomputation(nil, c, refNonce(i), &shared)
		if !ok {
			return nil, false
		}
		out = append(out, m...)
	}
	return out, len(raw) == 0
}

type content struct {
	T    string `json:"t"`
	K    int    `json:"k"`
	P    string `json:"p"`
	Over int    `json:"over"`
	ID   int    `json:"id"`
}

// lookalikes are messages that something could take for more than bytes.
var lookalikes = []string{"zero", "ff", "text", "lf", "bom", "comment", "gzip", "sig", "b64", "enc", "crlf", "trail", "nul", "eof"}

// histOp is an operation, or (Env set) a change made by the environment.
type histOp struct {
	Via   string   `json:"via"`
	Mode  string   `json:"mode"`
	S     string   `json:"s"`
	P     string   `json:"p"`
	M     string   `json:"m"`
	X     string   `json:"x"`
	C     string   `json:"c"`
	N     bool     `json:"n"`
	Given []string `json:"given"`
	Odd   string   `json:"odd"`
	Base  string   `json:"base"`
	Env   string   `json:"env"`
	Src   string   `json:"src"`
	Dst   string   `json:"dst"`
	Args  []string `json:"args,omitempty"` // the command line, if odd
	Form  string   `json:"form"`           // how flags are written
	Size  int      `json:"size"`           // of a message written
	Fill  string   `json:"fill"`           // and what it looks like

	Nil bool `json:"nil,omitempty"` // the default options are used

	// Probe: whatever other files the operation would create, according to
	// a trial elsewhere, exist already.
	Probe bool `json:"probe,omitempty"`

	// Decoys: there are files of similar names, and of those it looks for.
	Decoys bool `json:"decoys,omitempty"`
	Lost   int  `json:"lost,omitempty"` // and this of its inputs, counted from 1, is not there

	Limit  *int64   `json:"limit,omitempty"`  // largest size of a file
	Inject []string `json:"inject,omitempty"` // faults on the output files
}

type entry struct {
	dir   bool
	link  string
	mode  os.FileMode
	sum   [32]byte
	ino   uint64
	mtime int64
}

type hist struct {
	c      *Ctx
	dir    string
	pass   map[string][]byte
	ids    map[[32]byte]int
	data   map[int][]byte
	keyIDs map[string]int // public key record -> number
	keys   map[int]*refKey
	seen   map[string]entry
	memo   map[int]content
	nokeys map[int]int
	base   string

	user, home string   // for the command
	occupied   bool     // files exist that the operation would create
	outside    []string // files elsewhere that an operation changed
	vars       []string
	frozen     bool // all files have the same modification time
	alias      []string // a beginning of names, and what is written instead

	cwd       string // where relative names are relative to
	cliRounds int    // that the command, a fresh process, used

	opts *signify.GenerateOptions // for all keys that are generated
}

func newHist(c *Ctx, dir string) *hist {
	return &hist{c: c, dir: dir, pass: map[string][]byte{"p": []byte("pass one"), "q": []byte("pass two"), "r": []byte("pass on")},
		ids: map[[32]byte]int{}, data: map[int][]byte{}, keyIDs: map[string]int{}, keys: map[int]*refKey{}, seen: map[string]entry{},
		memo: map[int]content{}, nokeys: map[int]int{}, base: ".signify/tester",
		user: "tester", home: dir, opts: &signify.GenerateOptions{Rounds: 1}}
}

func (h *hist) id(b []byte) int {
	s := sha256.Sum256(b)
	if v, ok := h.ids[s]; ok {
		return v
	}
	v := len(h.ids) + 1
	h.ids[s] = v
	h.data[v] = append([]byte(nil), b...)
	return v
}

func (h *hist) keyID(rec []byte) int {
	if v, ok := h.keyIDs[string(rec)]; ok {
		return v
	}
	v := len(h.keyIDs) + 1
	h.keyIDs[string(rec)] = v
	return v
}

// strictPayload is the payload of a file in the form every implementation
// writes, or nil.
func strictPayload(file []byte, n int) []byte {
	ls := strings.SplitAfter(string(file), "\n")
	if len(ls) < 2 || len(ls) > 3 || (len(ls) == 3 && ls[2] != "") || !strings.HasPrefix(ls[0], "untrusted comment: ") {
		return nil
	}
	b, err := stdb64.StdEncoding.Strict().DecodeString(strings.TrimSuffix(ls[1], "\n"))
	if err != nil || len(b) != n || strings.ContainsRune(ls[1], '\r') {
		return nil
	}
	return b
}

// classify tells what a content is to psignify.
func (h *hist) classify(b []byte) content {
	id := h.id(b)
	// The signatures and encrypted files that can be recognized depend on
	// the keys known.
	if v, ok := h.memo[id]; ok && (v.T != "data" || h.nokeys[id] == len(h.keys)) {
		return v
	}
	v := h.classify1(b, id)
	v.ID = id
	h.memo[id], h.nokeys[id] = v, len(h.keys)
	return v
}

func (h *hist) classify1(b []byte, id int) content {
	if p := strictPayload(b, 42); p != nil && string(p[:2]) == "Ed" {
		return content{T: "pub", K: h.keyID(p)}
	}
	if p := strictPayload(b, 104); p != nil && string(p[:4]) == "EdBK" && binary.BigEndian.Uint32(p[4:8]) <= 300 {
		prot := binary.BigEndian.Uint32(p[4:8]) > 0
		for _, name := range h.passNames() {
			if (name == "") == prot {
				continue
			}
			if ok, m := unlocks(p, h.pass[name]); ok {
				k := keyFromSeed(m[:32], p[32:40])
				n := h.keyID(k.pubPayload())
				h.keys[n] = k
				return content{T: "sec", K: n, P: name}
			}
		}
	}
	if p := strictPayload(b, 74); p != nil && string(p[:2]) == "Ed" {
		for rec, n := range h.keyIDs {
			if rec[2:10] != string(p[2:10]) {
				continue
			}
			for mid, m := range h.data {
				if ed25519.Verify(ed25519.PublicKey(rec[10:]), m, p[10:]) {
					return content{T: "sig", K: n, Over: mid}
				}
			}
		}
	}
	for n, k := range h.keys {
		if m, ok := refOpen(b, k); ok {
			return content{T: "enc", K: n, Over: h.id(m)}
		}
	}
	return content{T: "data"}
}

func (h *hist) passNames() []string {
	out := []string{""}
	for n := range h.pass {
		out = append(out, n)
	}
	return out
}

// look compares the directory with what it was before.
func (h *hist) look() [][]interface{} {
	now := map[string]entry{}
	files := map[string][]byte{}
	var names []string
	filepath.Walk(h.dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || p == h.dir {
			return nil
		}
		rel, _ := filepath.Rel(h.dir, p)
		e := entry{mode: fi.Mode()}
		switch {
		case fi.Mode()&os.ModeNamedPipe != 0:
			return nil
		case fi.IsDir():
			e.dir = true
		case fi.Mode()&os.ModeSymlink != 0:
			e.link, _ = os.Readlink(p)
			// What can be read there.
			files[rel] = readFile(p)
			e.sum = sha256.Sum256(files[rel])
		case fi.Mode().IsRegular():
			files[rel] = readFile(p)
			e.sum = sha256.Sum256(files[rel])
			st := fi.Sys().(*syscall.Stat_t)
			e.ino, e.mtime = st.Ino, fi.ModTime().UnixNano()
		}
		now[rel] = e
		names = append(names, rel)
		return nil
	})
	out := [][]interface{}{}
	// Keys first: they are needed to recognize the other files.
	for pass := 0; pass < 2; pass++ {
		for _, n := range names {
			if old, ok := h.seen[n]; ok && old == now[n] {
				continue
			}
			isKey := strings.HasSuffix(n, ".sec") || strings.HasSuffix(n, ".pub")
			if isKey != (pass == 0) {
				continue
			}
			v := content{T: "dir"}
			if !now[n].dir {
				v = h.classify(files[n])
			}
			out = append(out, []interface{}{n, v})
		}
	}
	for n := range h.seen {
		if _, ok := now[n]; !ok {
			out = append(out, []interface{}{n, content{T: "none"}})
		}
	}
	if h.frozen {
		for n, e := range now {
			if e.mode.IsRegular() {
				if err := os.Chtimes(h.abs(n), longAgo, longAgo); err != nil {
					fatal("%v", err)
				}
				e.mtime = longAgo.UnixNano()
				now[n] = e
			}
		}
	}
	h.seen = now
	return out
}

var longAgo = time.Unix(1500000000, 0)

// path maps the names of the specification to those used here.
func (h *hist) path(n string) string {
	if n == "a" || strings.HasPrefix(n, "a.") {
		return h.base + n[1:]
	}
	return n
}

var okWord = regexp.MustCompile(`\bOK\b`)

// as is another way to write the name of a file.
func (h *hist) as(n string, abs bool) string {
	if n != "" && len(h.alias) == 2 && strings.HasPrefix(n, h.alias[0]) {
		n = h.alias[1] + n[len(h.alias[0]):]
		if abs {
			n = h.dir + "/" + n
		}
		return n
	}
	if abs {
		return h.abs(n)
	}
	return n
}

func (h *hist) abs(n string) string {
	if n == "" {
		return ""
	}
	return filepath.Join(h.dir, n)
}

// importKey installs a key pair that another implementation made.
func (h *hist) importKey(o *histOp, d string) {
	r := h.c.Rng
	pattern := func(n int) []byte {
		b := make([]byte, n)
		switch r.Intn(12) {
		case 0:
		case 9, 10, 11:
			r.Read(b)
			v := oddBytes[r.Intn(len(oddBytes))]
			for i := 1 + r.Intn(n-1); i > 0; i-- {
				if v&1 == 0 {
					b[i] = v
				} else {
					b[n-i] = v
				}
			}
		case 1:
			copy(b, bytes.Repeat([]byte{255}, n))
		case 2:
			copy(b, bytes.Repeat([]byte{10}, n))
		case 3:
			copy(b, bytes.Repeat([]byte{13, 10}, n))
		case 4:
			copy(b, bytes.Repeat([]byte("Ed"), n))
		case 5:
			b[r.Intn(n)] = 1 << uint(r.Intn(8))
		case 6:
			r.Read(b)
			b[0], b[n-1] = 0, 0
		default:
			r.Read(b)
		}
		return b
	}
	k := keyFromSeed(pattern(32), pattern(8))
	rounds, pass := 0, h.pass[o.Src]
	if len(pass) > 0 {
		rounds = 1 + r.Intn(3)
	}
	cs := []string{"signify private key", "signify secret key", "x", "", "bcrypt_pbkdf"}
	for q, b := range map[string][]byte{".sec": refFile(cs[r.Intn(len(cs))], k.secPayload(pass, rounds, pattern(16))), ".pub": refFile(cs[r.Intn(len(cs))], k.pubPayload())} {
		os.RemoveAll(d + q)
		writeFile(d+q, b, 0600)
	}
}

func (h *hist) env(o *histOp) {
	d := h.abs(o.Dst)
	switch o.Env {
	case "write":
		n := o.Size
		switch {
		case n < 0:
			n = 0
		case n == 0:
			n = []int{0, 1, 2, 55, 100, 1000, 4096, refChunk, refChunk + 1, 2*refChunk + 3}[h.c.Rng.Intn(10)]
		}
		if fi, err := os.Lstat(d); err == nil && !fi.Mode().IsRegular() {
			os.RemoveAll(d)
		}
		fill := o.Fill
		if fill == "" && h.c.Rng.Intn(3) == 0 {
			fill = lookalikes[h.c.Rng.Intn(len(lookalikes))]
		}
		writeFile(d, makeMessage(n, fill, h.c.Rng), 0644)
	case "copy":
		b, err := os.ReadFile(h.abs(o.Src))
		if err == nil {
			os.Remove(d)
			os.WriteFile(d, b, 0600)
		}
	case "cd":
		d = filepath.Join(h.dir, o.Dst)
		if err := os.Chdir(d); err != nil {
			fatal("%v", err)
		}
		h.cwd = o.Dst
		if h.cwd == "" {
			h.cwd = "."
		}
	case "delete":
		os.RemoveAll(d)
	case "mkdir":
		os.RemoveAll(d)
		os.MkdirAll(d, 0755)
	case "key":
		h.importKey(o, d)
	case "symlink":
		os.RemoveAll(d)
		os.Symlink(o.Src, d)
	case "alter":
		// Nearly what it was.
		b, err := os.ReadFile(d)
		if err != nil {
			return
		}
		r := h.c.Rng
		at := func(from, to int) int {
			if from < 0 || from >= to {
				return 0
			}
			return from + r.Intn(to-from)
		}
		line := bytes.IndexByte(b, '\n') + 1
		if n := r.Intn(9); len(b) == 0 || n == 0 {
			b = append(b, "\nx"[r.Intn(2)])
		} else if n == 1 {
			b = b[:len(b)-1]
		} else if n == 2 {
			b[at(0, line)] ^= 1
		} else if n == 3 {
			b = b[:at(len(b)/2, len(b))]
		} else if n == 4 {
			b = append(b, b[at(0, len(b)):]...)
		} else if j := at([]int{0, line, len(b) / 2, len(b) - 8}[r.Intn(4)], len(b)); b[j] == '\n' {
			b = append(b[:j], b[j+1:]...)
		} else if b[j] == 'A' {
			b[j] = 'B'
		} else {
			b[j] = 'A'
		}
		os.WriteFile(d, b, 0644)
	case "damage":
		b, err := os.ReadFile(d)
		if err != nil {
			return
		}
		v := h.classify(b)
		i := bytes.IndexByte(b, '\n')
		switch {
		case (v.T == "sig" || v.T == "enc") && h.c.Rng.Intn(2) == 0:
			// The payload begins after a line break; leave out its end.
			j := i + 1 + h.c.Rng.Intn(60)
			if b[j] == 'A' {
				b[j] = 'B'
			} else if b[j] != '\n' {
				b[j] = 'A'
			}
			if v.T == "enc" && len(b) > i+200 && h.c.Rng.Intn(2) == 0 {
				j = i + 100 + h.c.Rng.Intn(len(b)-i-190)
				if b[j] == 'Q' {
					b[j] = 'R'
				} else if b[j] != '\n' {
					b[j] = 'Q'
				}
			}
		case v.T == "data":
			b = append(b, 'x')
		default:
			b = b[:len(b)*6/10]
		}
		os.WriteFile(d, b, 0644)
	}
}

// outputs are the files an operation writes.
func (h *hist) outputs(o *histOp) []string {
	or := func(a, b string) string {
		if a != "" {
			return a
		}
		return b
	}
	switch o.Mode {
	case "G":
		b := or(o.P, h.base)
		return []string{h.abs(b + ".sec"), h.abs(b + ".pub")}
	case "S":
		return []string{h.abs(or(o.X, o.M+".sig"))}
	case "E":
		return []string{h.abs(or(o.C, o.M+".enc"))}
	case "D":
		return []string{h.abs(o.M)}
	}
	return nil
}

// limited runs f while files can't grow beyond a size.
func limited(limit *int64, f func() Res) Res {
	if limit == nil {
		return f()
	}
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		fatal("rlimit: %v", err)
	}
	signal.Ignore(syscall.SIGXFSZ)
	lim := syscall.Rlimit{Cur: uint64(*limit), Max: old.Max}
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
		fatal("rlimit: %v", err)
	}
	res := f()
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		fatal("rlimit: %v", err)
	}
	return res
}

// faulted tells if a fault was injected that makes the output incomplete, or
// possibly so.
func faulted(log string) bool {
	synced, wrote := false, map[int]bool{}
	for _, c := range parseStrace(log) {
		fd := -1
		if len(c.args) > 0 {
			fd, _ = fdPath(c.args[0])
		}
		switch {
		case strings.HasPrefix(c.name, "write") || strings.HasPrefix(c.name, "pwrite"):
			wrote[fd] = true
		case c.name == "fsync" || c.name == "fdatasync":
			synced = c.ret == 0
		case c.name == "close":
			if c.injected && !synced && wrote[fd] {
				return true
			}
			delete(wrote, fd)
		}
	}
	return false
}

func (h *hist) runAPI(o *histOp) (Res, *prompts) {
	var p *prompts
	if len(o.Given) == 0 || o.Given[0] == "error" {
		p = setPrompt(nil, errors.New("no passphrase"))
	} else {
		p = setPrompt(h.pass[o.Given[0]], nil)
	}
	rel := h.c.Rng.Intn(2) == 0 || h.cwd != ""
	name := func(n string) string {
		if n != "" && h.cwd != "" && len(h.alias) == 0 {
			if n, err := filepath.Rel(h.cwd, n); err == nil {
				return n
			}
		}
		return h.as(n, !rel)
	}
	s, pb, m, x, e := name(o.S), name(o.P), name(o.M), name(o.X), name(o.C)
	return limited(o.Limit, func() Res {
		return guard(func() error {
			switch o.Mode {
			case "G":
				var pass []byte
				if !o.N {
					pass = append(pass, h.pass[o.Given[0]]...)
				}
				opts := h.opts
				if o.Nil {
					opts = nil
				}
				return signify.GenerateKey(pb, pass, opts)
			case "S":
				return signify.Sign(s, m, x)
			case "V":
				return signify.Verify(pb, m, x)
			case "E":
				return crypto.Seal(pb, m, e)
			case "D":
				return crypto.Open(s, e, m)
			}
			fatal("mode %q", o.Mode)
			return nil
		})
	}), p
}

// flags makes the command line.
func (h *hist) flags(o *histOp) []string {
	if o.Args != nil {
		return o.Args
	}
	val := func(f, v string) []string {
		if v == "" {
			return nil
		}
		v = h.as(v, h.c.Rng.Intn(5) == 0)
		switch o.Form {
		case "eq":
			return []string{"-" + f + "=" + v}
		case "long":
			return []string{"--" + f, v}
		}
		return []string{"-" + f, v}
	}
	parts := [][]string{{"-" + o.Mode}}
	if o.Mode == "" {
		parts = nil
	}
	if o.N {
		parts = append(parts, []string{"-n"})
	}
	for _, f := range [][2]string{{"s", o.S}, {"p", o.P}, {"m", o.M}, {"x", o.X}, {"c", o.C}} {
		if v := val(f[0], f[1]); v != nil {
			parts = append(parts, v)
		}
	}
	h.c.Rng.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	out := []string{}
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

func (h *hist) runOp(o *histOp, setup bool) {
	notfree := []string{}
	for _, n := range []string{o.M, o.X, o.C, o.M + ".sig", o.M + ".enc", o.P + ".sec", o.P + ".pub", h.base + ".sec", h.base + ".pub"} {
		if n == "" {
			continue
		}
		fi, err := os.Stat(h.abs(n))
		if err == nil && fi.IsDir() {
			notfree = append(notfree, n)
		} else if fi, err := os.Stat(filepath.Dir(h.abs(n))); err != nil || !fi.IsDir() || strings.HasSuffix(n, "/") {
			notfree = append(notfree, n)
		}
	}
	o.Base = h.base
	if o.Given == nil {
		o.Given = []string{}
	}
	e := Ev{"o": o, "notfree": notfree, "saysok": false, "code": 0, "faulted": false, "occupied": h.occupied}
	h.occupied = false
	var res Res
	if o.Via == "cli" {
		args := h.flags(o)
		argv := append([]string{*flagCLI}, args...)
		l := noLimits
		if o.Limit != nil {
			l.fsize = *o.Limit
		}
		argv = withLimits(l, argv)
		log := ""
		if len(o.Inject) > 0 {
			log = filepath.Join(logDir(h.c), "log")
			os.Remove(log)
			argv = traced(log, o.Inject, h.outputs(o), argv)
		}
		var lines []string
		if len(o.Given) > 0 && o.Given[0] != "error" {
			for _, g := range o.Given {
				if g == "error" {
					lines = append(lines, "\x04")
				} else {
					lines = append(lines, string(h.pass[g]))
				}
			}
			if o.Mode == "G" && len(lines) == 1 {
				lines = append(lines, "\x04")
			}
		}
		out := runUserEnv(h.dir, append(cliEnvOf(h.home, h.user), h.vars...), argv, lines)
		if log != "" {
			checkStrace(out)
			e["faulted"] = faulted(log)
		}
		res = out.res()
		e["saysok"], e["code"], e["args"] = okWord.Match(out.stdout), out.code, args
	} else {
		res, _ = h.runAPI(o)
	}
	e["res"], e["msg"] = res.Class, string(limit([]byte(res.Msg), 300))
	if res.Class == "hang" {
		hang(res)
	}
	e["changed"] = h.look()
	e["setup"], e["asfresh"] = setup, true
	if o.Mode == "G" && res.Class == "ok" && o.P != "" && !o.N {
		if b, err := os.ReadFile(h.abs(o.P) + ".sec"); err == nil && protectedFile(b) {
			rec := secRecord(b)
			n := int(rec[4])<<24 | int(rec[5])<<16 | int(rec[6])<<8 | int(rec[7])
			switch {
			case o.Via == "cli":
				h.cliRounds = n
			case o.Nil && h.cliRounds > 0:
				e["asfresh"] = n == h.cliRounds
			}
		}
	}
	h.c.Emit("run", e)
}

// try runs an operation in a copy of the directory and calls f with what it
// does to paths.
func under(p, dir string) bool { return p == dir || strings.HasPrefix(p, dir+"/") }

// deviceLike tells if writing to a file does not change files.
func deviceLike(p string) bool { return under(p, "/dev") || under(p, "/proc") || under(p, "/sys") }

func (h *hist) try(o *histOp, f func(c *sysCall, rel string, made bool)) {
	trial := filepath.Join(filepath.Dir(h.c.Dir), filepath.Base(h.c.Dir)+"-trial")
	os.RemoveAll(trial)
	defer os.RemoveAll(trial)
	if out, err := exec.Command("cp", "-a", h.dir, trial).CombinedOutput(); err != nil {
		fatal("cp: %v %s", err, out)
	}
	os.Setenv("TMPDIR", trial)
	defer os.Setenv("TMPDIR", h.c.Dir)
	t := *o
	t.Form = ""
	args := []string{"-" + t.Mode}
	if t.N {
		args = append(args, "-n")
	}
	for _, f := range [][2]string{{"-s", t.S}, {"-p", t.P}, {"-m", t.M}, {"-x", t.X}, {"-c", t.C}} {
		if f[1] != "" {
			args = append(args, f[0], f[1])
		}
	}
	var lines []string
	for _, g := range t.Given {
		lines = append(lines, string(h.pass[g]))
	}
	if t.Mode == "G" && len(lines) == 1 {
		lines = append(lines, lines[0])
	}
	log := filepath.Join(logDir(h.c), "log")
	os.Remove(log)
	rel, _ := filepath.Rel(h.dir, h.home)
	out := runUserEnv(trial, cliEnvOf(filepath.Join(trial, rel), h.user), traced(log, nil, nil, append([]string{*flagCLI}, args...)), lines)
	checkStrace(out)
	for _, c := range parseStrace(log) {
		c, made := c, true
		at := func(d, n int) {
			if n < len(c.args) {
				var p string
				if d < 0 {
					p = atPath(fmt.Sprintf("AT_FDCWD<%s>", hexed(trial)), c.args[n])
				} else {
					p = atPath(c.args[d], c.args[n])
				}
				if r, err := filepath.Rel(trial, p); err == nil && r != "." && !strings.HasPrefix(r, "..") {
					f(&c, r, made)
				} else if err == nil && r != "." && made && !deviceLike(p) && !under(p, h.dir) {
					// Whether it is allowed to is not its merit.
					denied := c.errno == "EACCES" || c.errno == "EPERM" || c.errno == "EROFS"
					if _, err := os.Lstat(p); err == nil && (c.errno == "" || denied) {
						h.outside = append(h.outside, p)
					}
				}
			}
		}
		switch c.name {
		case "openat":
			w := map[string]bool{}
			if len(c.args) > 2 {
				w = flagWords(c.args[2])
			}
			made = w["O_CREAT"]
			at(0, 1)
		case "open":
			made = len(c.args) > 1 && flagWords(c.args[1])["O_CREAT"]
			at(-1, 0)
		case "creat", "mkdir", "mknod":
			at(-1, 0)
		case "mkdirat", "mknodat":
			at(0, 1)
		case "unlink", "rmdir", "truncate", "chmod", "chown", "lchown", "utime", "utimes":
			at(-1, 0)
		case "unlinkat", "fchmodat", "fchownat", "utimensat", "futimesat":
			at(0, 1)
		case "rename", "link":
			at(-1, 0)
			at(-1, 1)
		case "symlink":
			at(-1, 1)
		case "renameat", "renameat2", "linkat":
			at(0, 1)
			at(2, 3)
		case "stat", "lstat", "access", "readlink", "statfs":
			made = false
			at(-1, 0)
		case "newfstatat", "statx", "faccessat", "faccessat2", "readlinkat":
			made = false
			at(0, 1)
		case "symlinkat":
			at(1, 2)
		}
	}
}

// occupy creates the files that the operation creates or removes besides its
// outputs in a trial in another directory.
func (h *hist) occupy(o *histOp) {
	outputs := map[string]bool{}
	for _, q := range h.outputs(o) {
		outputs[q] = true
	}
	var names []string
	h.try(o, func(c *sysCall, r string, made bool) {
		if !made || outputs[h.abs(r)] {
			return
		}
		if _, err := os.Lstat(h.abs(r)); os.IsNotExist(err) {
			names = append(names, r)
		}
	})
	h.occupied = len(names) > 0
	// Files of similar names.
	near := h.outputs(o)
	for _, q := range h.inputs(o) {
		if q != "" {
			near = append(near, h.abs(q))
		}
	}
	for _, q := range near {
		d, b := filepath.Dir(q), filepath.Base(q)
		stem := strings.TrimSuffix(b, filepath.Ext(b))
		like := []string{stem, "." + b, "#" + b + "#", "." + b + ".swp", strings.ToUpper(b), "tmp", "." + b + ".tmp"}
		for _, t := range []string{"~", ".tmp", ".bak", ".old", ".new", ".lock", ".part", ".partial", ".sig", ".enc", ".sec", ".pub", ".key", ".orig", ".1"} {
			like = append(like, b+t, stem+t)
		}
		for _, n := range like {
			if n = filepath.Join(d, n); outputs[n] || n == d {
				continue
			}
			if r, err := filepath.Rel(h.dir, n); err == nil && !strings.HasPrefix(r, "..") && h.c.Rng.Intn(4) != 0 {
				if _, err := os.Lstat(n); os.IsNotExist(err) {
					names = append(names, r)
				}
			}
		}
	}
	for i, r := range names {
		if os.MkdirAll(filepath.Dir(h.abs(r)), 0755) != nil {
			continue
		}
		if _, err := os.Lstat(h.abs(r)); err == nil {
			continue
		}
		if i > 0 && h.c.Rng.Intn(4) == 0 {
			os.Symlink(h.abs(names[0]), h.abs(r))
		} else {
			writeFile(h.abs(r), makeMessage([]int{0, 100, 300000}[h.c.Rng.Intn(3)], "", h.c.Rng), 0644)
		}
	}
	if len(names) > 0 {
		h.c.Emit("env", Ev{"changed": h.look(), "what": "occupied"})
	}
}

// inputs are the files an operation reads.
func (h *hist) inputs(o *histOp) []string {
	or := func(a, b string) string {
		if a != "" {
			return a
		}
		return b
	}
	switch o.Mode {
	case "S":
		return []string{or(o.S, h.base+".sec"), o.M}
	case "V":
		return []string{or(o.P, h.base+".pub"), o.M, or(o.X, o.M+".sig")}
	case "E":
		return []string{or(o.P, h.base+".pub"), o.M}
	case "D":
		return []string{or(o.S, h.base+".sec"), o.C}
	}
	return nil
}

// decoys creates files the operation is not to use: those it looks for in
// vain, and some of similar names.
func (h *hist) decoys(o *histOp) {
	not := map[string]bool{}
	for _, q := range append(h.outputs(o)) {
		not[q] = true
	}
	var names []string
	add := func(r string) {
		r = filepath.Clean(r)
		if r == "." || strings.HasPrefix(r, "..") || filepath.IsAbs(r) || not[h.abs(r)] {
			return
		}
		not[h.abs(r)] = true
		if _, err := os.Lstat(h.abs(r)); os.IsNotExist(err) {
			names = append(names, r)
		}
	}
	in := h.inputs(o)
	for _, q := range in {
		not[h.abs(q)] = true
	}
	var lost []byte
	if o.Lost > 0 && o.Lost <= len(in) {
		lost = readFile(h.abs(in[o.Lost-1]))
		os.Remove(h.abs(in[o.Lost-1]))
	}
	h.try(o, func(c *sysCall, r string, made bool) {
		if !made && c.errno == "ENOENT" {
			add(r)
		}
	})
	home, _ := filepath.Rel(h.dir, h.home)
	for _, q := range in {
		if q == "" {
			continue
		}
		b, d, e := filepath.Base(q), filepath.Dir(q), filepath.Ext(q)
		add(filepath.Join(home, ".signify", b))
		add(filepath.Join(home, b))
		add(filepath.Join(home, "keys", b))
		add(b)
		for _, t := range []string{".sec", ".pub", ".sig", ".enc", ".minisig", ".asc", ".txt", "~"} {
			add(q + t)
			add(strings.TrimSuffix(q, e) + t)
		}
		add(filepath.Join(d, strings.TrimSuffix(b, e)))
		add(filepath.Join(d, strings.ToUpper(b)))
		add(filepath.Join(d, strings.ToLower(b)))
		add(filepath.Join(d, strings.TrimSpace(b)))
		add(filepath.Join(d, ".signify", b))
	}
	// What they contain is of use.
	var have []string
	for n, e := range h.seen {
		if e.mode.IsRegular() {
			have = append(have, n)
		}
	}
	sort.Strings(have)
	src := map[string][]byte{}
	for _, n := range have {
		src[n] = readFile(h.abs(n))
	}
	for _, r := range names {
		var same []string
		for _, n := range have {
			e := filepath.Ext(r)
			if (e == ".sec" || e == ".pub") && filepath.Ext(n) == e {
				same = append(same, n)
			}
		}
		for _, n := range in {
			// The like of what it reads.
			if _, ok := src[n]; ok && same == nil && filepath.Base(n) == filepath.Base(r) {
				same = append(same, n)
			}
		}
		if same == nil || h.c.Rng.Intn(5) == 0 {
			same = have
		}
		if os.MkdirAll(filepath.Dir(h.abs(r)), 0755) != nil || len(same) == 0 {
			continue
		}
		if _, err := os.Lstat(h.abs(r)); err == nil {
			continue
		}
		data := src[same[h.c.Rng.Intn(len(same))]]
		if lost != nil && h.c.Rng.Intn(4) > 0 {
			data = lost
		}
		os.WriteFile(h.abs(r), data, 0644)
	}
	if len(names) > 0 || lost != nil {
		h.c.Emit("env", Ev{"changed": h.look(), "what": "decoys"})
	}
}

func hexed(s string) string {
	out := ""
	for i := 0; i < len(s); i++ {
		out += fmt.Sprintf(`\x%02x`, s[i])
	}
	return out
}

type histCase struct {
	Ops   []histOp         `json:"ops"`
	Nodir bool             `json:"nodir"` // there is no ~/.signify
	As    []string         `json:"as"`
	Pass  map[string][]int `json:"pass"`  // passphrases for names in given
	Pre   int              `json:"pre"`   // number of operations that only set things up

	User   string `json:"user"`   // who uses the command
	Home   string `json:"home"`   // the home directory, if not the current one
	Frozen bool   `json:"frozen"` // modification times tell nothing

	Vars []string `json:"vars"` // further environment variables
	Few  int      `json:"few"`  // no more than so many further files may be open at a time
}

func famHistory(c *Ctx) {
	var k histCase
	c.Parse(&k)
	for _, o := range k.Ops {
		if len(o.Inject) > 0 || o.Probe || o.Decoys {
			c.Retrying(func(t *Ctx, _ int) { histRun(t, &k) })
			return
		}
	}
	histRun(c, &k)
}

// fewFiles limits the number of open files, and keeps the garbage collector
// from closing any.
func fewFiles(n int) func() {
	fds, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		fatal("%v", err)
	}
	top := 0
	for _, e := range fds {
		if v, err := strconv.Atoi(e.Name()); err == nil && v > top {
			top = v
		}
	}
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_NOFILE, &old); err != nil {
		fatal("rlimit: %v", err)
	}
	if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &syscall.Rlimit{Cur: uint64(top + 1 + n), Max: old.Max}); err != nil {
		fatal("rlimit: %v", err)
	}
	gc := debug.SetGCPercent(-1)
	return func() {
		debug.SetGCPercent(gc)
		if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &old); err != nil {
			fatal("rlimit: %v", err)
		}
	}
}

func histRun(c *Ctx, kk *histCase) {
	k := *kk
	k.Ops = append([]histOp(nil), k.Ops...)
	syscall.Umask(022)
	// Whatever is left behind is to be seen.
	os.Setenv("TMPDIR", c.Dir)
	home := os.Getenv("HOME")
	os.Setenv("HOME", filepath.Join(c.Dir, k.Home))
	if err := os.Chdir(c.Dir); err != nil {
		fatal("%v", err)
	}
	defer func() {
		os.Chdir("/")
		os.Unsetenv("TMPDIR")
		os.Setenv("HOME", home)
	}()
	if k.Few > 0 {
		defer fewFiles(k.Few)()
	}
	h := newHist(c, c.Dir)
	h.frozen, h.vars, h.alias = k.Frozen, k.Vars, k.As
	if k.User != "" {
		h.user = k.User
	}
	h.home = filepath.Join(c.Dir, k.Home)
	h.base = filepath.Join(k.Home, ".signify", h.user)
	os.MkdirAll(h.home, 0755)
	if !k.Nodir {
		os.Mkdir(filepath.Join(h.home, ".signify"), 0700)
	}
	for n, p := range k.Pass {
		b := make([]byte, len(p))
		for i := range p {
			b[i] = byte(p[i])
		}
		h.pass[n] = b
	}
	first := makeMessage([]int{0, 1, 100, refChunk, 20000}[c.Rng.Intn(5)], "", c.Rng)
	writeFile(filepath.Join(c.Dir, "m"), first, 0644)
	writeFile(filepath.Join(c.Dir, "n"), first, 0644)
	c.Emit("begin", Ev{"changed": h.look()})
	for i := range k.Ops {
		o := &k.Ops[i]
		o.S, o.P, o.M, o.X, o.C, o.Src, o.Dst = h.path(o.S), h.path(o.P), h.path(o.M), h.path(o.X), h.path(o.C), h.path(o.Src), h.path(o.Dst)
		if o.Env != "" {
			h.env(o)
			c.Emit("env", Ev{"changed": h.look(), "what": o.Env})
			continue
		}
		if o.Probe {
			h.occupy(o)
			if len(h.outside) > 0 {
				c.Emit("outside", Ev{"mode": o.Mode, "paths": h.outside})
				h.outside = nil
			}
		}
		if o.Decoys {
			h.decoys(o)
		}
		h.runOp(o, i < k.Pre)
	}
}
