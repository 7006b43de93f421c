package main

import (
	"bytes"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	stdb64 "encoding/base64"
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/kisom/psignify/crypto"
	"github.com/kisom/psignify/signify"
	"golang.org/x/crypto/ed25519"
)

func init() {
	families["verify"] = famVerify
	families["sec"] = famSec
	families["load"] = famLoad
	families["op"] = famOp
	families["written"] = famWritten
	families["goldensig"] = famGoldenSig
	families["hugesig"] = famHugeSig
}

// fileForm says how a payload is written to a file.
type fileForm struct {
	Comment *string `json:"comment"`
	Form    string  `json:"form"`
	Flip    int     `json:"flip"` // bit of the payload, plus one
	Cut     int     `json:"cut"`  // change of length
	To      int     `json:"to"`   // length, plus one
	Mut     struct {
		Kind string `json:"kind"`
		Pos  int    `json:"pos"`
		Val  int    `json:"val"`
	} `json:"mut"`
	Mut2    bool   `json:"mut2"` // the mutation applies to the payload line only
	Special string `json:"special"`
	Fields  []struct {
		From int `json:"from"`
		To   int `json:"to"`
		Val  int `json:"val"`
	} `json:"fields"` // these bytes of the payload are set
	Commentb []int `json:"commentb"` // the comment, byte by byte
	Splice   []struct {
		At   int    `json:"at"`
		Del  int    `json:"del"`
		Ins  int    `json:"ins"`
		With string `json:"with"`
	} `json:"splice"` // bytes of the payload are taken out, others put in
}

// commented tells whether the case chooses the comment.
func (f *fileForm) commented() bool { return f.Comment != nil || f.Commentb != nil }

func (f *fileForm) uncommented() fileForm {
	g := *f
	g.Comment, g.Commentb = nil, nil
	return g
}

func mutateBytes(t []byte, kind string, p, val int) []byte {
	t = append([]byte(nil), t...)
	if p < 0 {
		p += len(t)
	}
	if p < 0 || p > len(t) {
		return t
	}
	switch kind {
	case "cut":
		t = t[:p]
	case "del":
		if p < len(t) {
			t = append(t[:p], t[p+1:]...)
		}
	case "set":
		if p < len(t) {
			t[p] = byte(val)
		}
	case "ins":
		t = append(t[:p], append([]byte{byte(val)}, t[p:]...)...)
	case "flip":
		if p < len(t) {
			t[p] ^= 1 << uint(val%8)
		}
	}
	return t
}

// render makes the file for a payload. ok is false if there is no file.
func (f *fileForm) render(payload []byte, r *rand.Rand) []byte {
	payload = append([]byte(nil), payload...)
	if f.Flip > 0 {
		b := f.Flip - 1
		if b/8 < len(payload) {
			payload[b/8] ^= 1 << uint(b%8)
		}
	}
	if f.Cut < 0 {
		if n := len(payload) + f.Cut; n >= 0 {
			payload = payload[:n]
		}
	}
	for i := 0; i < f.Cut; i++ {
		payload = append(payload, byte(r.Intn(256)))
	}
	if f.To > 0 {
		for len(payload) < f.To-1 {
			payload = append(payload, byte(r.Intn(256)))
		}
		payload = payload[:f.To-1]
	}
	for _, x := range f.Fields {
		for i := x.From; i < x.To && i < len(payload); i++ {
			payload[i] = byte(x.Val)
		}
	}
	for _, x := range f.Splice {
		if x.At+x.Del > len(payload) {
			continue
		}
		in := make([]byte, x.Ins)
		switch x.With {
		case "next": // what comes there anyway
			copy(in, payload[x.At:])
		case "prev":
			if x.At >= x.Ins {
				copy(in, payload[x.At-x.Ins:])
			}
		case "zero":
		default:
			r.Read(in)
		}
		rest := append(in, payload[x.At+x.Del:]...)
		payload = append(payload[:x.At:x.At], rest...)
	}
	comment := "untrusted comment: "
	if f.Commentb != nil {
		comment += string(unints(f.Commentb))
	} else if f.Comment != nil {
		comment += *f.Comment
	} else {
		comment += "some comment"
	}
	b64 := refB64(payload)
	if f.Mut2 {
		b64 = mutateBytes(b64, f.Mut.Kind, f.Mut.Pos, f.Mut.Val)
	}
	line := string(b64)
	var s string
	switch f.Form {
	case "nolf":
		s = comment + "\n" + line
	case "crlf":
		s = comment + "\r\n" + line + "\r\n"
	case "nocomment":
		s = line + "\n"
	case "twocomments":
		s = comment + "\n" + comment + "\n" + line + "\n"
	case "extra":
		s = comment + "\n" + line + "\n" + "more\n"
	case "extrapayload":
		s = comment + "\n" + line + "\n" + line + "\n"
	case "split":
		k := len(line) / 2
		s = comment + "\n" + line[:k] + "\n" + line[k:] + "\n"
	case "space":
		s = comment + "\n" + " " + line + "\n"
	case "trailspace":
		s = comment + "\n" + line + " \n"
	case "url":
		s = comment + "\n" + stdb64.URLEncoding.EncodeToString(payload) + "\n"
	case "unpadded":
		s = comment + "\n" + strings.TrimRight(line, "=") + "\n"
	case "reversed":
		s = line + "\n" + comment + "\n"
	case "oneline":
		s = comment + line + "\n"
	case "incomment": // the payload only in the comment
		s = "untrusted comment: " + line + "\n"
	case "emptypayload":
		s = comment + "\n\n"
	case "blankbefore":
		s = comment + "\n\n" + line + "\n"
	case "leadblank":
		s = "\n" + comment + "\n" + line + "\n"
	case "hugeline":
		s = comment + "\n" + strings.Repeat("A", 70000) + "\n"
	case "hugepayload":
		s = comment + "\n" + line + strings.Repeat("AAAA", 25000) + "\n"
	case "nuls":
		s = comment + "\n" + line + "\x00\x00\n"
	case "otherprefix":
		s = "trusted comment: x\n" + line + "\n"
	default:
		s = comment + "\n" + line + "\n"
	}
	out := []byte(s)
	if !f.Mut2 && f.Mut.Kind != "" {
		out = mutateBytes(out, f.Mut.Kind, f.Mut.Pos, f.Mut.Val)
	}
	return out
}

// place puts a file (or what stands in its place) at path.
func place(path, special string, content []byte, r *rand.Rand) (data []byte, readable bool) {
	os.RemoveAll(path)
	switch special {
	case "missing":
		return nil, false
	case "dir":
		os.Mkdir(path, 0755)
		return nil, false
	case "empty":
		content = nil
	case "lf":
		content = []byte("\n")
	case "garbage":
		content = make([]byte, r.Intn(300))
		r.Read(content)
	case "comment":
		content = []byte("untrusted comment: only\n")
	case "text":
		content = []byte("hello world\nhello again\n")
	case "notdir":
		return nil, false
	}
	writeFile(path, content, 0644)
	return content, true
}

// goCandidates are the payloads of length n that a file might be taken to
// hold; the facts about the primitives are recorded for these.
func goCandidates(file []byte, n int) [][]byte {
	lines := strings.Split(string(file), "\n")
	lines = append(lines, strings.Join(lines[1:], ""))
	var out [][]byte
	seen := map[string]bool{}
	for _, ln := range lines {
		ln = strings.ReplaceAll(ln, "\r", "")
		b, err := stdb64.StdEncoding.DecodeString(ln)
		if err == nil && len(b) == n && !seen[string(b)] {
			seen[string(b)] = true
			out = append(out, b)
		}
	}
	return out
}

type fileWorld struct {
	keys [3]*refKey
	msgs [3][]byte
}

func newFileWorld(seed int64, mlen int) *fileWorld {
	r := rand.New(rand.NewSource(seed))
	w := &fileWorld{}
	for i := 1; i <= 2; i++ {
		w.keys[i] = newKey(r)
		w.msgs[i] = makeMessage(mlen, "", r)
	}
	if mlen == 0 {
		w.msgs[2] = []byte{0}
	}
	return w
}

func limit(b []byte, n int) []byte {
	if len(b) > n {
		return b[:n]
	}
	return b
}

func famVerify(c *Ctx) {
	var k struct {
		Pub struct {
			Algo string `json:"algo"`
			Num  int    `json:"num"`
			Key  int    `json:"key"`
			Len  int    `json:"len"`
		} `json:"pub"`
		Sig struct {
			Algo   string `json:"algo"`
			Num    int    `json:"num"`
			Signer int    `json:"signer"`
			Over   int    `json:"over"`
			Bad    bool   `json:"bad"`
			Len    int    `json:"len"`
		} `json:"sig"`
		Msg     int      `json:"msg"`
		MLen    int      `json:"mlen"`
		MMut    fileForm `json:"mmut"` // mutation of the message
		PForm   fileForm `json:"pform"`
		SForm   fileForm `json:"sform"`
		NumFlip int      `json:"numflip"` // the numbers differ in one bit only
		NumRel  string   `json:"numrel"`  // how the numbers are related otherwise
		Via     string   `json:"via"`
		Real    bool     `json:"real"` // the signature is made by the code
		Default bool     `json:"default"`
		Special struct {
			Msg string `json:"msg"`
		} `json:"special"`
		Signed []int  `json:"signed"` // if not nil: the message signed, and
		Given  []int  `json:"given"`  // the one given
		S      string `json:"s"`      // "plusl": the equivalent, not reduced signature
	}
	c.Parse(&k)
	w := newFileWorld(*flagSeed*7+c.Rid%11, k.MLen)
	if k.Signed != nil {
		w.msgs[k.Sig.Over] = unints(k.Signed)
	}
	w.relate(k.NumRel, c.Rng)
	if k.NumFlip > 0 {
		w.keys[2].num = w.keys[1].num
		w.keys[2].num[(k.NumFlip-1)/8] ^= 1 << uint((k.NumFlip-1)%8)
	}
	pp := append([]byte(k.Pub.Algo), w.keys[k.Pub.Num].num[:]...)
	pp = append(pp, w.keys[k.Pub.Key].pub[:]...)
	sg := ed25519.Sign(w.keys[k.Sig.Signer].priv[:], w.msgs[k.Sig.Over])
	if k.Sig.Bad {
		b := c.Rng.Intn(512)
		sg[b/8] ^= 1 << uint(b%8)
	}
	if k.S == "plusl" {
		addOrder(sg[32:])
	}
	sp := append([]byte(k.Sig.Algo), w.keys[k.Sig.Num].num[:]...)
	sp = append(sp, sg...)
	amount := func(v int) int {
		if v == 0 {
			return 0
		}
		return v * []int{1, 1, 2, 3, 8, 32, 41}[c.Rng.Intn(7)]
	}
	if k.PForm.Cut == 0 {
		k.PForm.Cut = amount(k.Pub.Len)
	}
	if k.SForm.Cut == 0 {
		k.SForm.Cut = amount(k.Sig.Len)
	}
	mp, pubp, sigp := filepath.Join(c.Dir, "m"), filepath.Join(c.Dir, "k.pub"), filepath.Join(c.Dir, "m.sig")
	if !k.Default {
		sigp = filepath.Join(c.Dir, "other.signature")
		// A valid signature at the default place must not be used.
		if c.Rng.Intn(2) == 0 {
			writeFile(mp+".sig", refFile("decoy", w.keys[k.Pub.Key].sigPayload(w.msgs[k.Msg])), 0644)
		}
	}
	base := ""
	if k.PForm.commented() || k.SForm.commented() {
		p0, s0 := k.PForm.uncommented(), k.SForm.uncommented()
		place(pubp, p0.Special, p0.render(pp, c.Rng), c.Rng)
		place(sigp, s0.Special, s0.render(sp, c.Rng), c.Rng)
		writeFile(mp, w.msgs[k.Msg], 0644)
		r0 := guard(func() error { return signify.Verify(pubp, mp, sigp) })
		hang(r0)
		base = r0.Class
	}
	pf, pr := place(pubp, k.PForm.Special, k.PForm.render(pp, c.Rng), c.Rng)
	sf, sr := place(sigp, k.SForm.Special, k.SForm.render(sp, c.Rng), c.Rng)
	msg := w.msgs[k.Msg]
	if k.Given != nil {
		msg = unints(k.Given)
	}
	msg = mutateBytes(msg, k.MMut.Mut.Kind, k.MMut.Mut.Pos, k.MMut.Mut.Val)
	msg, mr := place(mp, k.Special.Msg, msg, c.Rng)
	arg := sigp
	if k.Default {
		arg = ""
	}
	var res Res
	if k.Via == "cli" {
		args := []string{"-V", "-p", pubp, "-m", mp}
		if arg != "" {
			args = append(args, "-x", arg)
		}
		res = runCLI(c.Dir, args, nil).res()
	} else {
		res = guard(func() error { return signify.Verify(pubp, mp, arg) })
	}
	hang(res)
	ed := [][]interface{}{}
	for _, p := range goCandidates(pf, 42) {
		for _, s := range goCandidates(sf, 74) {
			ed = append(ed, []interface{}{ints(p[10:]), ints(s[10:]), ed25519.Verify(ed25519.PublicKey(p[10:]), msg, s[10:])})
		}
	}
	c.Emit("verify", Ev{"pub": ints(limit(pf, 3000)), "sig": ints(limit(sf, 3000)), "readable": pr && sr && mr, "ed": ed, "base": base,
		"res": res.Class, "msg": res.Msg})
}

// addOrder adds the group order to a scalar.
func addOrder(s []byte) {
	order := leInt([]byte{0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14,
		0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10})
	v := leInt(s)
	v.Add(v, order)
	b := leBytes(v)
	copy(s, b[:])
}

// unlocks tells whether a secret key record is unlocked by the passphrase,
// and the key material then.
func unlocks(p, pass []byte) (bool, []byte) {
	rounds := binary.BigEndian.Uint32(p[4:8])
	key := append([]byte(nil), p[40:104]...)
	if rounds > 0 {
		mask := refKDF(pass, p[8:24], int(rounds))
		if mask == nil {
			return false, nil
		}
		for i := range key {
			key[i] ^= mask[i]
		}
	}
	sum := sha512.Sum512(key)
	return bytes.Equal(sum[:8], p[24:32]), key
}

// famSec uses secret key files.
func famSec(c *Ctx) {
	var k struct {
		Op     string   `json:"op"` // sign, open, tobox
		Prot   bool     `json:"prot"`
		Rounds int      `json:"rounds"`
		Algo   string   `json:"algo"`
		Kdf    string   `json:"kdf"`
		Form   fileForm `json:"form"`
		Via    string   `json:"via"`
		Damage string   `json:"damage"` // zerokey, swapkey, othercheck
		Which  int      `json:"which"`
		Pass   string   `json:"pass"`
	}
	c.Parse(&k)
	r := rand.New(rand.NewSource(*flagSeed*13 + c.Rid%7))
	key := newKey(r)
	pass := []byte("the passphrase")
	if k.Pass != "" {
		pass = []byte(k.Pass)
	}
	rounds := 0
	if k.Prot {
		rounds = 1
		if k.Rounds > 0 {
			rounds = k.Rounds
		}
	}
	salt := make([]byte, 16)
	r.Read(salt)
	p := key.secPayload(pass, rounds, salt)
	if k.Algo != "" {
		copy(p[:2], k.Algo)
	}
	if k.Kdf != "" {
		copy(p[2:4], k.Kdf)
	}
	switch k.Damage {
	case "zerokey":
		for i := 40; i < 104; i++ {
			p[i] = 0
		}
	case "othercheck":
		sum := sha512.Sum512(p[40:104])
		copy(p[24:32], sum[:8])
	case "check":
		// Other sums of the same key.
		plain := key.priv[:]
		sum := sha512.Sum512(plain)
		s256, s1, seedsum, pubsum := sha256.Sum256(plain), sha1.Sum(plain), sha512.Sum512(plain[:32]), sha512.Sum512(plain[32:])
		s384, m := sha512.Sum384(plain), md5.Sum(plain)
		with := sha512.Sum512(append(append([]byte(nil), p[32:40]...), plain...))
		rev := make([]byte, 8)
		for i := range rev {
			rev[i] = sum[7-i]
		}
		sums := [][]byte{sum[8:16], sum[56:], sum[1:9], sum[32:40], s256[:8], s384[:8], s1[:8], m[:8], seedsum[:8], pubsum[:8], with[:8], rev, make([]byte, 8), p[32:40], p[40:48], plain[:8]}
		copy(p[24:32], sums[k.Which%len(sums)])
	case "swaphalves":
		a := append([]byte(nil), p[40:72]...)
		copy(p[40:72], p[72:104])
		copy(p[72:104], a)
	case "otherpub":
		o := newKey(r)
		key2 := *key
		copy(key2.priv[32:], o.pub[:])
		q := key2.secPayload(pass, rounds, salt)
		copy(p[40:], q[40:])
	case "keyandsum": // another key, with the old checksum
		q := newKey(r).secPayload(pass, rounds, salt)
		copy(p[40:], q[40:])
	}
	base, baseOut := "", []byte(nil)
	if k.Form.commented() {
		f0 := k.Form.uncommented()
		d := filepath.Join(c.Dir, "base")
		os.Mkdir(d, 0755)
		e, out, _ := useSec(c, d, k.Op, "api", f0, p, pass, key, c.Rng)
		if e == nil {
			return
		}
		base, baseOut = e["res"].(string), out
	}
	ev, out, ok := useSec(c, c.Dir, k.Op, k.Via, k.Form, p, pass, key, c.Rng)
	if !ok {
		return
	}
	ev["base"], ev["same"] = base, bytes.Equal(out, baseOut)
	c.Emit("use", ev)
}

// useSec uses one secret key file in directory dir.
func useSec(c *Ctx, dir, op, via string, form fileForm, p, pass []byte, key *refKey, r *rand.Rand) (Ev, []byte, bool) {
	sec := filepath.Join(dir, "k.sec")
	file, readable := place(sec, form.Special, form.render(p, r), r)
	os.Chmod(sec, 0600)
	tbl := [][]interface{}{}
	var used []byte
	var usedRec []byte
	for _, q := range goCandidates(file, 104) {
		if binary.BigEndian.Uint32(q[4:8]) > 300 {
			return nil, nil, false // would take too long
		}
		ok, m := unlocks(q, pass)
		sum := sha512.Sum512(q[40:104])
		tbl = append(tbl, []interface{}{ints(q), ok, bytes.Equal(sum[:8], q[24:32])})
		if usedRec == nil {
			used, usedRec = m, q
		}
	}
	setPrompt(pass, nil)
	msg := bytes.Repeat([]byte("message "), 7)
	mp := filepath.Join(dir, "m")
	ev := Ev{"file": ints(limit(file, 3000)), "readable": readable, "unlocks": tbl, "op": op, "right": false, "out": false}
	var res Res
	var output []byte
	switch op {
	case "sign":
		writeFile(mp, msg, 0644)
		if via == "cli" {
			res = runCLI(dir, []string{"-S", "-s", sec, "-m", mp}, nil).res()
		} else {
			res = guard(func() error { return signify.Sign(sec, mp, "") })
		}
		hang(res)
		_, err := os.Lstat(mp + ".sig")
		ev["out"] = err == nil
		if usedRec != nil && len(used) == 64 {
			want := append(append([]byte("Ed"), usedRec[32:40]...), ed25519.Sign(used, msg)...)
			for _, s := range goCandidates(readFile(mp+".sig"), 74) {
				ev["right"] = bytes.Equal(s, want)
				output = s
			}
		}
	case "open":
		enc := filepath.Join(dir, "m.enc")
		writeFile(enc, refEncFile(refSealMsg(key.pub[:], msg, r).bytes()), 0644)
		if via == "cli" {
			res = runCLI(dir, []string{"-D", "-s", sec, "-c", enc, "-m", mp}, nil).res()
		} else {
			res = guard(func() error { return crypto.Open(sec, enc, mp) })
		}
		hang(res)
		got := readFile(mp)
		ev["out"] = len(got) > 0
		ev["right"] = bytes.Equal(got, msg)
		output = got
		if usedRec != nil && len(used) == 64 && !bytes.Equal(used[:32], key.seed[:]) {
			return nil, nil, false // a different, consistent key: nothing to open
		}
	default:
		var box *[32]byte
		res = guard(func() error {
			p, err := signify.LoadPrivateKey(sec)
			if err != nil {
				return err
			}
			box, err = p.ToBox()
			return err
		})
		hang(res)
		ev["out"] = res.Class == "err" && box != nil
		if usedRec != nil && len(used) == 64 && box != nil {
			ev["right"] = *box == refBoxPriv(used[:32])
			output = box[:]
		}
	}
	ev["res"], ev["msg"] = res.Class, res.Msg
	return ev, output, true
}

func famLoad(c *Ctx) {
	var k struct {
		Kind string   `json:"kind"`
		Prot bool     `json:"prot"`
		Form fileForm `json:"form"`
	}
	c.Parse(&k)
	key := newKey(c.Rng)
	p := key.pubPayload()
	if k.Kind == "sec" {
		salt := make([]byte, 16)
		rounds := 0
		if k.Prot {
			rounds = 1
		}
		p = key.secPayload([]byte("x"), rounds, salt)
	}
	path := filepath.Join(c.Dir, "f")
	base := ""
	if k.Form.commented() {
		f0 := k.Form.uncommented()
		place(path, f0.Special, f0.render(p, c.Rng), c.Rng)
		r0 := guard(func() (err error) {
			if k.Kind == "sec" {
				_, err = signify.LoadPrivateKey(path)
			} else {
				_, err = signify.LoadPublicKey(path)
			}
			return
		})
		hang(r0)
		base = r0.Class
	}
	file, readable := place(path, k.Form.Special, k.Form.render(p, c.Rng), c.Rng)
	isenc := false
	res := guard(func() error {
		if k.Kind == "sec" {
			priv, err := signify.LoadPrivateKey(path)
			if err == nil {
				isenc = priv.IsEncrypted()
			}
			return err
		}
		_, err := signify.LoadPublicKey(path)
		return err
	})
	hang(res)
	c.Emit("load", Ev{"kind": k.Kind, "file": ints(limit(file, 3000)), "readable": readable, "isenc": isenc, "base": base, "res": res.Class, "msg": res.Msg})
}

// famOp: operations where one of the files is missing, a directory, or no
// file of the kind at all.
func famOp(c *Ctx) {
	var k struct {
		Op      string `json:"op"`
		Arg     string `json:"arg"`
		Special string `json:"special"`
		Via     string `json:"via"`
	}
	c.Parse(&k)
	key := newKey(c.Rng)
	sec, pub := keyOnDisk(c.Dir, "k", key, nil, 0, c.Rng)
	msg := makeMessage(100, "", c.Rng)
	mp, sp, ep := filepath.Join(c.Dir, "m"), filepath.Join(c.Dir, "s"), filepath.Join(c.Dir, "e")
	writeFile(mp, msg, 0644)
	writeFile(sp, refFile("x", key.sigPayload(msg)), 0644)
	writeFile(ep, refEncFile(refSealMsg(key.pub[:], msg, c.Rng).bytes()), 0644)
	setPrompt(nil, nil)
	outp := filepath.Join(c.Dir, "out")
	path := map[string]string{"sec": sec, "pub": pub, "msg": mp, "sig": sp, "enc": ep, "out": outp}[k.Arg]
	must := "err"
	if k.Arg == "msg" {
		switch k.Special {
		case "missing", "dir":
		default:
			if k.Op != "verify" {
				must = "any"
			}
		}
	}
	if p, ok := oddPaths[k.Special]; ok {
		must = "err"
		if k.Arg == "msg" && k.Special == "null" && k.Op != "verify" || k.Arg == "out" && (p == "*" || p == "+/") {
			must = "any"
		}
		if p[0] == '+' {
			path += p[1:]
		} else if path = p; p == "*" {
			path = ""
		}
		switch k.Arg {
		case "sec":
			sec = path
		case "pub":
			pub = path
		case "msg":
			mp = path
		case "sig":
			sp = path
		case "enc":
			ep = path
		case "out":
			outp = path
		}
	} else {
		place(path, k.Special, nil, c.Rng)
	}
	var args []string
	var f func() error
	switch k.Op {
	case "sign":
		args, f = []string{"-S", "-s", sec, "-m", mp, "-x", outp}, func() error { return signify.Sign(sec, mp, outp) }
	case "verify":
		args, f = []string{"-V", "-p", pub, "-m", mp, "-x", sp}, func() error { return signify.Verify(pub, mp, sp) }
	case "seal":
		args, f = []string{"-E", "-p", pub, "-m", mp, "-c", outp}, func() error { return crypto.Seal(pub, mp, outp) }
	case "open":
		args, f = []string{"-D", "-s", sec, "-c", ep, "-m", outp}, func() error { return crypto.Open(sec, ep, outp) }
	}
	var res Res
	if k.Via == "cli" {
		res = runCLI(c.Dir, args, nil).res()
	} else {
		res = guard(f)
	}
	hang(res)
	c.Emit("op", Ev{"op": k.Op, "arg": k.Arg, "special": k.Special, "res": res.Class, "msg": res.Msg, "must": must})
}

// Paths that are not those of files.
var oddPaths = map[string]string{"notdir": "+/x", "nothing": "*", "slash": "+/", "nul": "+\x00", "root": "/", "dot": ".", "dotdot": "..", "long": "+" + strings.Repeat("x", 300), "longest": "+" + strings.Repeat("/x", 5000),
	"null": "/dev/null", "space": " ", "slashes": "//", "tilde": "~", "percent": "%s%n", "one": "x"}

// famWritten: the files that the code writes.
func famWritten(c *Ctx) {
	var k struct {
		What   string `json:"what"` // sig, keys
		Len    int    `json:"len"`
		Prot   bool   `json:"prot"`
		Rounds int    `json:"rounds"`
		Pass   []int  `json:"pass"`
		Via    string `json:"via"`
		Name   string `json:"name"`
		Over   int    `json:"over"` // the output exists with that many bytes
	}
	c.Parse(&k)
	var pass []byte
	for _, v := range k.Pass {
		pass = append(pass, byte(v))
	}
	setPrompt(pass, nil)
	if k.Name == "" {
		k.Name = "key"
	}
	if k.What == "sig" {
		key := newKey(c.Rng)
		rounds := 0
		if len(pass) > 0 {
			rounds = 1
		}
		sec, _ := keyOnDisk(c.Dir, k.Name, key, pass, rounds, c.Rng)
		msg := makeMessage(k.Len, "", c.Rng)
		mp := filepath.Join(c.Dir, "m")
		writeFile(mp, msg, 0644)
		if k.Over > 0 {
			writeFile(mp+".sig", bytes.Repeat([]byte("x"), k.Over), 0644)
		}
		var res Res
		if k.Via == "cli" && rounds == 0 {
			res = runCLI(c.Dir, []string{"-S", "-s", sec, "-m", mp}, nil).res()
		} else {
			res = guard(func() error { return signify.Sign(sec, mp, "") })
		}
		hang(res)
		c.Emit("written", Ev{"kind": "sig", "res": res.Class, "msg": res.Msg, "file": ints(limit(readFile(mp+".sig"), 5000)),
			"want": Ev{"algo": ints([]byte("Ed")), "num": ints(key.num[:]), "sig": ints(ed25519.Sign(key.priv[:], msg))}})
		return
	}
	base := filepath.Join(c.Dir, k.Name)
	opts := &signify.GenerateOptions{Rounds: k.Rounds}
	rounds := k.Rounds
	if k.Rounds == 0 {
		opts = nil
		rounds = 42
	}
	var res Res
	if k.Via == "cli" && len(pass) == 0 {
		res = runCLI(c.Dir, []string{"-G", "-n", "-p", base}, nil).res()
	} else {
		res = guard(func() error { return signify.GenerateKey(base, pass, opts) })
	}
	hang(res)
	sf, pf := readFile(base+".sec"), readFile(base+".pub")
	if len(pass) == 0 {
		rounds = 0
	}
	wantS := Ev{"algo": ints([]byte("Ed")), "kdf": ints([]byte("BK")),
		"rounds": []int{rounds >> 24, rounds >> 16 & 255, rounds >> 8 & 255, rounds & 255}}
	wantP := Ev{"algo": ints([]byte("Ed"))}
	// The two files must agree with each other, and the checksum with the key.
	sp, pp := goCandidates(sf, 104), goCandidates(pf, 42)
	if len(sp) == 1 && len(pp) == 1 {
		_, m := unlocks(sp[0], pass)
		if m != nil {
			sum := sha512.Sum512(m)
			wantS["checksum"] = ints(sum[:8])
			full := ed25519.NewKeyFromSeed(m[:32])
			wantP["key"] = ints(full[32:])
			wantP["num"] = ints(sp[0][32:40])
			masked := append([]byte(nil), full...)
			if rounds > 0 {
				mask := refKDF(pass, sp[0][8:24], rounds)
				for i := range masked {
					masked[i] ^= mask[i]
				}
			}
			wantS["key"] = ints(masked)
		}
	}
	c.Emit("written", Ev{"kind": "sec", "res": res.Class, "msg": res.Msg, "file": ints(limit(sf, 5000)), "want": wantS})
	c.Emit("written", Ev{"kind": "pub", "res": res.Class, "msg": res.Msg, "file": ints(limit(pf, 5000)), "want": wantP})
}

// famGoldenSig: keys and signatures of the pinned version.
func famGoldenSig(c *Ctx) {
	var k struct {
		Name string `json:"name"`
	}
	c.Parse(&k)
	d := filepath.Join(*flagData, "golden")
	p := func(ext string) string {
		q := filepath.Join(c.Dir, k.Name+ext)
		writeFile(q, readFile(filepath.Join(d, k.Name+ext)), 0600)
		return q
	}
	sec, pub, msg, sig := p(".sec"), p(".pub"), p(".msg"), p(".sig")
	setPrompt([]byte("golden passphrase"), nil)
	res := guard(func() error { return signify.Verify(pub, msg, sig) })
	hang(res)
	pf, sf := readFile(pub), readFile(sig)
	pl, sl := goCandidates(pf, 42)[0], goCandidates(sf, 74)[0]
	c.Emit("verify", Ev{"pub": ints(pf), "sig": ints(sf), "readable": true, "ed": [][]interface{}{{ints(pl[10:]), ints(sl[10:]), true}},
		"base": "", "res": res.Class, "msg": res.Msg})
	out := filepath.Join(c.Dir, "again.sig")
	res = guard(func() error { return signify.Sign(sec, msg, out) })
	hang(res)
	c.Emit("written", Ev{"kind": "sig", "res": res.Class, "msg": res.Msg, "file": ints(readFile(out)),
		"want": Ev{"algo": ints(sl[:2]), "num": ints(sl[2:10]), "sig": ints(sl[10:])}})
}

// relate makes the second key number a different one that something could
// take for the first.
func (w *fileWorld) relate(how string, r *rand.Rand) {
	a, b := w.keys[1].num, w.keys[1].num
	i := r.Intn(8)
	j := (i + 1 + r.Intn(7)) % 8
	switch how {
	case "":
		return
	case "swap":
		for a[i] == a[j] {
			i, j = r.Intn(8), r.Intn(8)
		}
		b[i], b[j] = a[j], a[i]
	case "rotate":
		for x := range b {
			b[x] = a[(x+1)%8]
		}
	case "reverse":
		for x := range b {
			b[x] = a[7-x]
		}
	case "sum":
		b[i]++
		b[j]--
	case "xor":
		m := byte(1 << uint(r.Intn(8)))
		b[i] ^= m
		b[j] ^= m
	case "inverse":
		for x := range b {
			b[x] = ^a[x]
		}
	case "case":
		a[i], b[i] = 'a', 'A'
	case "space":
		a[7], b[7] = 0, ' '
	case "nul":
		a[i], b[i] = 0, 0
		b[j]++
	case "first":
		r.Read(b[1:])
	case "last":
		r.Read(b[:7])
	case "half":
		copy(b[4:], a[:4])
		a, b = b, a
		copy(b[4:], b[:4])
		b[0]++
		b[4]++
	case "words":
		copy(b[:4], a[4:])
		copy(b[4:], a[:4])
	}
	w.keys[1].num, w.keys[2].num = a, b
}

// famHugeSig: signing and verifying a file of gigabytes, by the command.
func famHugeSig(c *Ctx) {
	var k struct {
		Size  int64 `json:"size"`
		Alter bool  `json:"alter"`
	}
	c.Parse(&k)
	if availableMemory() < 3*k.Size+(2<<30) {
		return
	}
	key := newKey(c.Rng)
	_, pub := keyOnDisk(c.Dir, "key", key, nil, 0, c.Rng)
	other := newKey(c.Rng)
	keyOnDisk(c.Dir, "other", other, nil, 0, c.Rng)
	msg := filepath.Join(c.Dir, "msg")
	f, err := os.Create(msg)
	if err != nil {
		fatal("%v", err)
	}
	defer os.Remove(msg)
	defer f.Close()
	if f.Truncate(k.Size) != nil {
		return // no such files here
	}
	b := make([]byte, 100)
	for _, at := range []int64{0, k.Size / 2, k.Size - 100} {
		c.Rng.Read(b)
		if _, err := f.WriteAt(b, at); err != nil {
			return
		}
	}
	// No outcome: stopped from outside, or too slow here.
	run := func(args ...string) (string, bool) {
		r := runCLI(c.Dir, args, nil).res()
		return r.Class, r.Class != "hang" && !(r.Class == "panic" && (strings.Contains(r.Msg, "killed by killed") || strings.Contains(r.Msg, "out of memory")))
	}
	sign, ok := run("-S", "-s", "key.sec", "-m", "msg")
	if !ok {
		return
	}
	ev := Ev{"size": fmt.Sprint(k.Size), "sign": sign, "ref": false, "verify": "ok", "altered": []string{}}
	m, err := syscall.Mmap(int(f.Fd()), 0, int(k.Size), syscall.PROT_READ, syscall.MAP_SHARED)
	if err != nil {
		return
	}
	if sigs := goCandidates(readFile(msg+".sig"), 74); len(sigs) > 0 {
		ev["ref"] = ed25519.Verify(ed25519.PublicKey(key.pub[:]), m, sigs[0][10:])
	}
	if ev["ref"] == false {
		// What is verified is the right signature in any case.
		s := ed25519.Sign(ed25519.PrivateKey(key.priv[:]), m)
		writeFile(msg+".sig", refFile("x", append(append([]byte("Ed"), key.num[:]...), s...)), 0644)
	}
	syscall.Munmap(m)
	if ev["verify"], ok = run("-V", "-p", filepath.Base(pub), "-m", "msg"); !ok {
		return
	}
	if k.Alter {
		altered := []string{}
		for _, at := range []int64{k.Size - 1, k.Size / 2, k.Size} {
			if _, err := f.ReadAt(b[:1], at); err != nil {
				b[0] = 0
			}
			if _, err := f.WriteAt([]byte{b[0] ^ 1}, at); err != nil {
				return
			}
			r, ok := run("-V", "-p", filepath.Base(pub), "-m", "msg")
			if !ok {
				return
			}
			altered = append(altered, r)
			f.WriteAt(b[:1], at)
		}
		ev["altered"] = altered
	}
	c.Emit("hugesig", ev)
}

func availableMemory() int64 {
	for _, l := range strings.Split(string(readFile("/proc/meminfo")), "\n") {
		var n int64
		if _, err := fmt.Sscanf(l, "MemAvailable: %d kB", &n); err == nil {
			return n << 10
		}
	}
	return 0
}
