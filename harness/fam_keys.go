package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"os"
	"path/filepath"
	"strings"

	"github.com/kisom/psignify/crypto"
	"github.com/kisom/psignify/signify"
	"golang.org/x/crypto/curve25519"
	"golang.org/x/crypto/ed25519"
)

func init() {
	families["keylife"] = famKeyLife
	families["genstored"] = famGenStored
	families["failuse"] = famFailUse
}

var passphrases = [][]byte{
	[]byte("p"), []byte("passphrase"), []byte("Correct Horse"), []byte("p\u00e4ssw\u00f6rd"), []byte("a\x00b"), []byte("line\n"), []byte(" "),
	[]byte("\x00"), []byte("aa"), bytes.Repeat([]byte("x"), 71), bytes.Repeat([]byte("y"), 72), bytes.Repeat([]byte("z"), 73),
	append(bytes.Repeat([]byte("l"), 127), 'M', 'N'), bytes.Repeat([]byte("0123456789"), 26), {0xff, 0xfe, 0x80}, []byte("\r\n"), []byte("tab\tx "),
	bytes.Repeat([]byte("w"), 257), bytes.Repeat([]byte("v"), 1025), bytes.Repeat([]byte("long "), 1000),
}

// wrongPass is a passphrase near p that differs from it.
func wrongPass(c *Ctx, p []byte) []byte {
	if len(p) == 0 {
		return []byte("some passphrase")
	}
	for {
		q := append([]byte(nil), p...)
		i := c.Rng.Intn(len(q))
		switch c.Rng.Intn(17) {
		case 0:
			q = q[:len(q)-1]
		case 1:
			q = q[1:]
		case 2:
			q = append(q, 0)
		case 3:
			q = append(q, '\n')
		case 4:
			q = append(q, ' ')
		case 5:
			q = bytes.ToUpper(q)
		case 6:
			q = bytes.ToLower(q)
		case 7:
			q[i] ^= 1 << uint(c.Rng.Intn(8))
		case 8:
			q = append(q, q...)
		case 9:
			q[len(q)-1] ^= 1
		case 10:
			q = limit(q, []int{8, 56, 72, 127, 128, 255, 256, 1024, 4096}[c.Rng.Intn(9)])
		case 11:
			q = bytes.TrimSpace(q)
		case 12:
			if k := bytes.IndexByte(q, 0); k >= 0 {
				q = q[:k]
			}
		case 13:
			q = []byte("other")
		case 14:
			q[i] ^= 0x80
		case 15:
			for a, b := 0, len(q)-1; a < b; a, b = a+1, b-1 {
				q[a], q[b] = q[b], q[a]
			}
		case 16:
			q = append(append(append([]byte(nil), q[:i]...), 'q'), q[i:]...)
		}
		if !bytes.Equal(p, q) && len(q) > 0 {
			return q
		}
		if len(p) == 1 && c.Rng.Intn(3) == 0 {
			return []byte("different")
		}
	}
}

var errPrompt = errors.New("the prompt failed")

// damageSec alters one field of a secret key record.
func damageSec(c *Ctx, p []byte, what string) {
	flip := func(from, to int) { p[from+c.Rng.Intn(to-from)] ^= 1 << uint(c.Rng.Intn(8)) }
	switch what {
	case "key":
		flip(40, 104)
	case "checksum":
		flip(24, 32)
	case "salt":
		flip(8, 24)
	case "kdf":
		flip(2, 4)
	case "algo":
		flip(0, 2)
	}
}

type keyUse struct {
	c       *Ctx
	pass    []byte
	key     *refKey // nil if generated
	boxPub  [32]byte
	pubKey  []byte
	sec     string
	pub     string
	num     []byte
	given   []byte
	prompte bool
	p       *prompts
}

// prepare sets what the next prompt will give.
func (u *keyUse) prepare(given string, b []int) {
	u.prompte = false
	switch given {
	case "right":
		u.given = u.pass
		if len(u.pass) == 0 {
			u.given = []byte("x")
		}
	case "wrong":
		u.given = wrongPass(u.c, u.pass)
	case "empty":
		u.given = nil
	case "bytes":
		u.given = unints(b)
	default:
		u.given, u.prompte = nil, true
	}
	if u.prompte {
		u.p = setPrompt(nil, errPrompt)
	} else {
		u.p = setPrompt(u.given, nil)
	}
}

func (u *keyUse) event(res Res) Ev {
	return Ev{"given": ints(u.given), "prompterr": u.prompte, "prompts": u.p.calls, "confirms": u.p.confirms, "wiped": u.p.wiped(),
		"sameerr": res.Err != nil && (errors.Is(res.Err, errPrompt) || strings.Contains(res.Err.Error(), errPrompt.Error())),
		"res":     res.Class, "msg": res.Msg, "right": false, "out": false}
}

func famKeyLife(c *Ctx) {
	var k struct {
		File struct {
			Prot   bool   `json:"prot"`
			Damage string `json:"damage"`
			Src    string `json:"src"`
		} `json:"file"`
		Ops []struct {
			H     string `json:"h"`
			Op    string `json:"op"`
			Given string `json:"given"`
			Bytes []int  `json:"bytes"` // the passphrase itself
		} `json:"ops"`
		Pass   []int `json:"pass"`
		Rounds int   `json:"rounds"`
	}
	c.Parse(&k)
	u := &keyUse{c: c}
	if k.File.Prot {
		u.pass = passphrases[c.Rng.Intn(len(passphrases))]
		if k.Pass != nil {
			u.pass = nil
			for _, v := range k.Pass {
				u.pass = append(u.pass, byte(v))
			}
		}
	}
	rounds := k.Rounds
	if rounds == 0 {
		rounds = 1 + c.Rng.Intn(2)
	}
	handles := map[string]*signify.Private{}
	pubs := map[string][32]byte{}
	setPrompt(nil, errors.New("no prompt expected"))
	var res Res
	opts := &signify.GenerateOptions{Rounds: rounds}
	sound := k.File.Damage == "none" || (!k.File.Prot && (k.File.Damage == "salt" || k.File.Damage == "kdf"))
	onDisk := k.File.Src == "file"
	switch {
	case k.File.Src == "generated" && c.Rid%2 == 0:
		res = guard(func() error {
			for _, h := range []string{"h1", "h2"} {
				priv, pub, err := signify.GenerateKeypair(append([]byte(nil), u.pass...), opts)
				if err != nil {
					return err
				}
				b, err := pub.ToBox()
				if err != nil {
					return err
				}
				handles[h], pubs[h] = priv, *b
			}
			return nil
		})
	default:
		base := filepath.Join(c.Dir, "k")
		u.sec, u.pub = base+".sec", base+".pub"
		if k.File.Src == "generated" || (k.File.Damage == "none" && c.Rid%4 == 0) {
			res = guard(func() error { return signify.GenerateKey(base, append([]byte(nil), u.pass...), opts) })
		} else {
			u.key = newKey(c.Rng)
			r := 0
			if k.File.Prot {
				r = rounds
			}
			salt := make([]byte, 16)
			c.Rng.Read(salt)
			p := u.key.secPayload(u.pass, r, salt)
			damageSec(c, p, k.File.Damage)
			writeFile(u.sec, refFile("signify secret key", p), 0600)
			writeFile(u.pub, refFile("signify public key", u.key.pubPayload()), 0644)
			res = Res{Class: "ok"}
		}
		if res.Class == "ok" {
			if cand := goCandidates(readFile(u.pub), 42); len(cand) == 1 {
				u.pubKey, u.num = cand[0][10:], cand[0][2:10]
			} else {
				return // decided elsewhere
			}
			res = guard(func() error {
				for _, h := range []string{"h1", "h2"} {
					priv, err := signify.LoadPrivateKey(u.sec)
					if err != nil {
						return err
					}
					handles[h], pubs[h] = priv, refBoxPub(u.pubKey)
				}
				return nil
			})
		}
	}
	hang(res)
	c.Emit("key", Ev{"res": res.Class, "msg": res.Msg, "pass": ints(u.pass), "sound": sound, "damage": k.File.Damage, "src": k.File.Src})
	if res.Class == "panic" {
		return
	}
	boxes := map[string]*[32]byte{}
	for _, o := range k.Ops {
		if o.H == "file" {
			if onDisk {
				u.fileUse(o.Op, o.Given, o.Bytes)
			}
			continue
		}
		priv := handles[o.H]
		if priv == nil {
			continue
		}
		u.prepare(o.Given, o.Bytes)
		switch o.Op {
		case "tobox":
			var b *[32]byte
			res := guard(func() (err error) { b, err = priv.ToBox(); return })
			hang(res)
			e := u.event(res)
			e["h"] = o.H
			e["out"] = res.Class == "err" && b != nil && *b != [32]byte{}
			if res.Class == "ok" && b != nil {
				var pub [32]byte
				curve25519.ScalarBaseMult(&pub, b)
				e["right"] = pub == pubs[o.H] && (boxes[o.H] == nil || *boxes[o.H] == *b) && (u.key == nil || *b == refBoxPriv(u.key.seed[:]))
				cp := *b
				boxes[o.H] = &cp
				// What the caller does with its copy is its own business.
				*b = [32]byte{}
			}
			c.Emit("tobox", e)
		case "check":
			res := guard(priv.Check)
			hang(res)
			c.Emit("check", Ev{"h": o.H, "res": res.Class, "msg": res.Msg, "prompts": u.p.calls})
		case "isenc":
			val := false
			res := guard(func() error { val = priv.IsEncrypted(); return nil })
			hang(res)
			c.Emit("isenc", Ev{"h": o.H, "res": res.Class, "val": val, "prompts": u.p.calls})
		}
	}
}

// fileUse signs or opens with the key file.
func (u *keyUse) fileUse(op, given string, b []int) {
	c := u.c
	msg := makeMessage(1+c.Rng.Intn(200), "", c.Rng)
	mp, out := filepath.Join(c.Dir, "m"), filepath.Join(c.Dir, "out")
	os.Remove(out)
	u.prepare(given, b)
	switch op {
	case "sign":
		writeFile(mp, msg, 0644)
		res := guard(func() error { return signify.Sign(u.sec, mp, out) })
		hang(res)
		e := u.event(res)
		_, err := os.Lstat(out)
		e["out"] = err == nil
		for _, s := range goCandidates(readFile(out), 74) {
			e["right"] = bytes.Equal(s[:2], []byte("Ed")) && bytes.Equal(s[2:10], u.num) && ed25519.Verify(ed25519.PublicKey(u.pubKey), msg, s[10:])
		}
		c.Emit("fileuse", e)
	default:
		enc := filepath.Join(c.Dir, "m.enc")
		writeFile(enc, refEncFile(refSealMsg(u.pubKey, msg, c.Rng).bytes()), 0644)
		res := guard(func() error { return crypto.Open(u.sec, enc, out) })
		hang(res)
		e := u.event(res)
		got := readFile(out)
		e["out"] = len(got) > 0
		e["right"] = bytes.Equal(got, msg)
		c.Emit("fileuse", e)
	}
	// Operations that need no secret key.
	if c.Rng.Intn(4) == 0 {
		u.prepare("right", nil)
		writeFile(mp, msg, 0644)
		res := guard(func() error { return crypto.Seal(u.pub, mp, "") })
		hang(res)
		c.Emit("pubuse", u.event(res))
		u.prepare("right", nil)
		writeFile(mp+".sig", refFile("x", append([]byte("Ed"), make([]byte, 72)...)), 0644)
		res = guard(func() error { return signify.Verify(u.pub, mp, "") })
		hang(res)
		c.Emit("pubuse", u.event(res))
	}
}

// famGenStored: what GenerateKey stores for a passphrase and rounds.
func famGenStored(c *Ctx) {
	var k struct {
		Pass   []int `json:"pass"`
		Rounds int64 `json:"rounds"`
		Nil    bool  `json:"nil"` // default options
	}
	c.Parse(&k)
	var pass []byte
	for _, v := range k.Pass {
		pass = append(pass, byte(v))
	}
	setPrompt(nil, errors.New("no prompt expected"))
	base := filepath.Join(c.Dir, "k")
	opts := &signify.GenerateOptions{Rounds: int(k.Rounds)}
	if k.Nil {
		opts = nil
	}
	given := append([]byte(nil), pass...)
	res := guard(func() error { return signify.GenerateKey(base, given, opts) })
	hang(res)
	e := Ev{"res": res.Class, "msg": res.Msg, "pass": ints(pass), "isenc": false, "recrounds": -1, "masked": false, "rounds": 0,
		"odd": !k.Nil && (k.Rounds < 1 || k.Rounds >= 1<<32)}
	if !e["odd"].(bool) {
		e["rounds"] = k.Rounds
		if k.Nil {
			e["rounds"] = 42
		}
	}
	if res.Class == "ok" {
		priv, err := signify.LoadPrivateKey(base + ".sec")
		if err == nil {
			e["isenc"] = priv.IsEncrypted()
		}
		s, p := goCandidates(readFile(base+".sec"), 104), goCandidates(readFile(base+".pub"), 42)
		if len(s) == 1 && len(p) == 1 {
			r := binary.BigEndian.Uint32(s[0][4:8])
			if r < 1<<31 {
				e["recrounds"] = int(r)
			}
			if r <= 1100 {
				key := append([]byte(nil), s[0][40:]...)
				if len(pass) > 0 && r > 0 {
					mask := refKDF(pass, s[0][8:24], int(r))
					for i := range key {
						key[i] ^= mask[i]
					}
				}
				full := ed25519.NewKeyFromSeed(key[:32])
				e["masked"] = bytes.Equal(full, key) && bytes.Equal(key[32:], p[0][10:]) &&
					(len(pass) == 0 || !bytes.Equal(key[:32], s[0][40:72]))
			}
		}
	}
	c.Emit("gen", e)
}

// famFailUse: signing and opening that fail for other reasons than the key.
func famFailUse(c *Ctx) {
	var k struct {
		Prot bool   `json:"prot"`
		Op   string `json:"op"`
		Why  string `json:"why"`
	}
	c.Parse(&k)
	u := &keyUse{c: c, key: newKey(c.Rng)}
	rounds := 0
	if k.Prot {
		u.pass, rounds = passphrases[c.Rng.Intn(len(passphrases))], 1
	}
	u.sec, u.pub = keyOnDisk(c.Dir, "k", u.key, u.pass, rounds, c.Rng)
	c.Emit("key", Ev{"res": "ok", "msg": "", "pass": ints(u.pass), "sound": true})
	u.prepare("right", nil)
	msg := makeMessage(100, "", c.Rng)
	mp, ep, out := filepath.Join(c.Dir, "m"), filepath.Join(c.Dir, "e"), filepath.Join(c.Dir, "out")
	raw := refSealMsg(u.key.pub[:], msg, c.Rng).bytes()
	switch k.Why {
	case "tag":
		raw[50] ^= 1
	case "chunk":
		raw[len(raw)-1] ^= 1
	case "short":
		raw = raw[:40]
	case "foreign":
		raw = refSealMsg(newKey(c.Rng).pub[:], msg, c.Rng).bytes()
	}
	writeFile(mp, msg, 0644)
	writeFile(ep, refEncFile(raw), 0644)
	switch k.Why {
	case "missing":
		os.Remove(mp)
		os.Remove(ep)
	case "dir":
		os.Remove(mp)
		os.Remove(ep)
		os.Mkdir(mp, 0755)
		os.Mkdir(ep, 0755)
	case "garbage":
		writeFile(ep, []byte("untrusted comment: x\n!!!!\n"), 0644)
	case "outdir":
		os.Mkdir(out, 0755)
	case "nodir":
		out = filepath.Join(c.Dir, "no", "out")
	}
	var res Res
	if k.Op == "sign" {
		res = guard(func() error { return signify.Sign(u.sec, mp, out) })
	} else {
		res = guard(func() error { return crypto.Open(u.sec, ep, out) })
	}
	hang(res)
	e := u.event(res)
	e["op"], e["why"] = k.Op, k.Why
	c.Emit("failuse", e)
}
