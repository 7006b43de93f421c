package main

import (
	"bytes"
	"crypto/rand"
	stdb64 "encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	mrand "math/rand"
	"os"
	"path/filepath"
	"strconv"
	"syscall"

	"github.com/kisom/psignify/crypto"
	"github.com/kisom/psignify/signify"
	"golang.org/x/crypto/ed25519"
)

func init() {
	families["fresh"] = famFresh
	families["many"] = famMany
	families["scarce"] = famScarce
	families["sealscarce"] = famSealScarce
	families["stat"] = func(c *Ctx) { c.Emit("stat", Ev{}) }
}

// oddSource is a source of true randomness that gives few bytes at a time,
// and fails after some.
type oddSource struct {
	r    io.Reader
	step int
	left int // -1: never fails
}

func (s *oddSource) Read(b []byte) (int, error) {
	if s.left == 0 {
		return 0, errors.New("no randomness")
	}
	if len(b) > s.step {
		b = b[:s.step]
	}
	if s.left > 0 && len(b) > s.left {
		b = b[:s.left]
	}
	n, err := s.r.Read(b)
	if s.left > 0 {
		s.left -= n
	}
	return n, err
}

// childEntropy generates a key pair from an odd source.
func childEntropy(args []string) {
	step, _ := strconv.Atoi(args[1])
	left, _ := strconv.Atoi(args[2])
	pass, _ := hex.DecodeString(args[3])
	src := rand.Reader
	if len(args) > 4 {
		seed, _ := strconv.ParseInt(args[4], 10, 64)
		src = mrand.New(mrand.NewSource(seed))
	}
	rand.Reader = &oddSource{src, step, left}
	if err := signify.GenerateKey(args[0], pass, &signify.GenerateOptions{Rounds: 1}); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

// famScarce generates a key pair twice from the same few random bytes. (A
// program that has other sources is free to use them.)
func famScarce(c *Ctx) {
	var k struct {
		Left int   `json:"left"`
		Step int   `json:"step"`
		Pass []int `json:"pass"`
	}
	c.Parse(&k)
	syscall.Umask(022)
	var pass []byte
	for _, v := range k.Pass {
		pass = append(pass, byte(v))
	}
	self, _ := os.Executable()
	seed := c.Rng.Int63()
	var outcome [2]string
	var pair [2][]byte
	for i := range outcome {
		base := filepath.Join(c.Dir, fmt.Sprintf("k%d", i))
		out := runUser(c.Dir, []string{self, "-child", "entropy", "--", base, strconv.Itoa(k.Step), strconv.Itoa(k.Left), hex.EncodeToString(pass), strconv.FormatInt(seed, 10)}, nil)
		outcome[i] = out.res().Class
		if outcome[i] == "ok" {
			pair[i] = append(readFile(base+".sec"), readFile(base+".pub")...)
		}
	}
	c.Emit("scarce", Ev{"left": k.Left, "first": outcome[0], "second": outcome[1], "same": bytes.Equal(pair[0], pair[1])})
}

// childSealEntropy seals some messages with an odd source.
func childSealEntropy(args []string) {
	step, _ := strconv.Atoi(args[1])
	left, _ := strconv.Atoi(args[2])
	seed, _ := strconv.ParseInt(args[3], 10, 64)
	rand.Reader = &oddSource{mrand.New(mrand.NewSource(seed)), step, left}
	code := 0
	for i := 0; i < 4; i++ {
		out := fmt.Sprintf("%s.%d", args[0], i)
		if err := crypto.Seal("k.pub", "m", out); err != nil {
			os.Remove(out)
			fmt.Fprintln(os.Stderr, err)
			code = 1
		}
	}
	os.Exit(code)
}

// famSealScarce seals with a source of randomness that has few bytes, in two
// processes the same ones.
func famSealScarce(c *Ctx) {
	var k struct {
		Left int `json:"left"`
		Step int `json:"step"`
		Len  int `json:"len"`
	}
	c.Parse(&k)
	random := make([]byte, 40)
	c.Rng.Read(random)
	key := keyFromSeed(random[:32], random[32:])
	writeFile(filepath.Join(c.Dir, "k.pub"), refFile("k", key.pubPayload()), 0644)
	writeFile(filepath.Join(c.Dir, "m"), makeMessage(k.Len, "", c.Rng), 0644)
	self, _ := os.Executable()
	seed := c.Rng.Int63()
	var ephs [2][]string
	for i := range ephs {
		runUser(c.Dir, []string{self, "-child", "sealentropy", "--", fmt.Sprintf("o%d", i), strconv.Itoa(k.Step), strconv.Itoa(k.Left), strconv.FormatInt(seed, 10)}, nil)
		for j := 0; j < 4; j++ {
			// A file that was left when the process ended counts as well.
			_, text, ok := splitEnc(readFile(filepath.Join(c.Dir, fmt.Sprintf("o%d.%d", i, j))))
			if raw, err := stdb64.StdEncoding.DecodeString(string(bytes.ReplaceAll(text, []byte("\n"), nil))); ok && err == nil && len(raw) >= 72 {
				ephs[i] = append(ephs[i], string(raw[8:40]))
			}
		}
	}
	all := map[string]bool{}
	for _, e := range ephs[0] {
		all[e] = true
	}
	again := len(ephs[0]) > 0 && len(ephs[1]) > 0 && ephs[0][0] == ephs[1][0]
	c.Emit("sealscarce", Ev{"left": k.Left, "sealed": len(ephs[0]), "ephs": len(all), "again": again})
}

func famFresh(c *Ctx) {
	var k struct {
		Via    string `json:"via"` // api, cli, entropy
		Pass   []int  `json:"pass"`
		Rounds int    `json:"rounds"`
		Times  int    `json:"times"`
		Stat   bool   `json:"stat"`
		Step   int    `json:"step"`
		Left   int    `json:"left"`
	}
	c.Parse(&k)
	syscall.Umask(022)
	var pass []byte
	for _, v := range k.Pass {
		pass = append(pass, byte(v))
	}
	if k.Times == 0 {
		k.Times = 1
	}
	for i := 0; i < k.Times; i++ {
		base := filepath.Join(c.Dir, fmt.Sprintf("k%d", i))
		var res Res
		source := "good"
		e := Ev{"stat": k.Stat}
		switch k.Via {
		case "api":
			res = guard(func() error {
				return signify.GenerateKey(base, append([]byte(nil), pass...), &signify.GenerateOptions{Rounds: k.Rounds})
			})
		case "cli":
			res = runCLI(c.Dir, []string{"-G", "-n", "-p", base}, nil).res()
		case "entropy":
			if k.Left >= 0 {
				source = "fails"
			}
			self, _ := os.Executable()
			out := runUser(c.Dir, []string{self, "-child", "entropy", "--", base, strconv.Itoa(k.Step), strconv.Itoa(k.Left), hex.EncodeToString(pass)}, nil)
			res = out.res()
			if out.code != 0 && out.code != 1 && out.code != -2 {
				// Go ends programs that read randomness when there is none.
				c.Emit("nopair", Ev{"source": source, "msg": string(limit(out.stderr, 300))})
				continue
			}
		}
		hang(res)
		e["res"], e["source"], e["msg"] = res.Class, source, res.Msg
		if res.Class == "ok" {
			pairFacts(e, base, pass)
		}
		c.Emit("pair", e)
	}
}

// pairFacts observes a key pair in its files.
func pairFacts(e Ev, base string, pass []byte) {
	sec, pub := strictPayload(readFile(base+".sec"), 104), strictPayload(readFile(base+".pub"), 42)
	for _, f := range []string{"num", "salt", "seed", "pnum", "pub"} {
		e[f] = []int{}
	}
	for _, f := range []string{"pubmatch", "selfpub", "checksum", "verifies", "opens", "reloads"} {
		e[f] = false
	}
	if sec == nil || pub == nil || string(sec[:4]) != "EdBK" || string(pub[:2]) != "Ed" || (binary.BigEndian.Uint32(sec[4:8]) > 0) != (len(pass) > 0) {
		return
	}
	ok, plain := unlocks(sec, pass)
	if plain == nil {
		return
	}
	e["checksum"] = ok
	e["num"], e["salt"], e["seed"] = ints(sec[32:40]), ints(sec[8:24]), ints(plain[:32])
	e["pnum"], e["pub"] = ints(pub[2:10]), ints(pub[10:])
	derived := ed25519.NewKeyFromSeed(plain[:32])
	e["pubmatch"] = bytes.Equal(derived[32:], pub[10:])
	e["selfpub"] = bytes.Equal(plain[32:], pub[10:])
	e["reloads"] = guard(func() error {
		priv, err := signify.LoadPrivateKey(base + ".sec")
		if err != nil {
			return err
		}
		pk, err := signify.LoadPublicKey(base + ".pub")
		if err != nil {
			return err
		}
		setPrompt(pass, nil)
		b, err := priv.ToBox()
		if err != nil {
			return err
		}
		pb, err := pk.ToBox()
		if err != nil {
			return err
		}
		if want := refBoxPriv(plain[:32]); *b != want {
			return errors.New("another secret key")
		}
		if want := refBoxPub(pub[10:]); *pb != want {
			return errors.New("another public key")
		}
		return nil
	}).Class == "ok"
	m, x, o := base+".msg", base+".x", base+".o"
	msg := []byte("a message\n")
	writeFile(m, msg, 0644)
	e["verifies"] = guard(func() error {
		setPrompt(pass, nil)
		if err := signify.Sign(base+".sec", m, x); err != nil {
			return err
		}
		if !ed25519.Verify(ed25519.PublicKey(pub[10:]), msg, strictPayload(readFile(x), 74)[10:]) {
			return errors.New("not a signature by this key")
		}
		return signify.Verify(base+".pub", m, x)
	}).Class == "ok"
	os.Remove(x)
	e["opens"] = guard(func() error {
		if err := crypto.Seal(base+".pub", m, x); err != nil {
			return err
		}
		setPrompt(pass, nil)
		if err := crypto.Open(base+".sec", x, o); err != nil {
			return err
		}
		if !bytes.Equal(readFile(o), msg) {
			return errors.New("another message")
		}
		return nil
	}).Class == "ok"
}

// famMany generates many key pairs in one process.
func famMany(c *Ctx) {
	var k struct {
		N    int  `json:"n"`
		Conc int  `json:"conc"` // at a time
		Prot bool `json:"prot"`
	}
	c.Parse(&k)
	syscall.Umask(022)
	if k.Conc == 0 {
		k.Conc = 1
	}
	type out struct{ num, salt, seed, pub string }
	outs := make([]out, k.N)
	var pass []byte
	if k.Prot {
		pass = []byte("pw")
	}
	res := guard(func() error {
		errs := make(chan error, k.Conc)
		for w := 0; w < k.Conc; w++ {
			go func(w int) {
				var err error
				for i := w; i < k.N && err == nil; i += k.Conc {
					base := filepath.Join(c.Dir, fmt.Sprintf("k%d", i))
					if err = signify.GenerateKey(base, append([]byte(nil), pass...), &signify.GenerateOptions{Rounds: 1}); err != nil {
						break
					}
					sec, pub := strictPayload(readFile(base+".sec"), 104), strictPayload(readFile(base+".pub"), 42)
					os.Remove(base + ".sec")
					os.Remove(base + ".pub")
					if sec == nil || pub == nil {
						err = errors.New("not a key pair")
						break
					}
					outs[i] = out{string(sec[32:40]), string(sec[8:24]), string(sec[40:72]), string(pub[10:])}
				}
				errs <- err
			}(w)
		}
		var first error
		for w := 0; w < k.Conc; w++ {
			if err := <-errs; err != nil {
				first = err
			}
		}
		return first
	})
	hang(res)
	nums, salts, seeds, pubs := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	for _, o := range outs {
		nums[o.num], salts[o.salt], seeds[o.seed], pubs[o.pub] = true, true, true, true
	}
	// How far the number of ones of any bit is from half, how many values
	// any byte takes, and how often any two bytes differ in the same way.
	var all []string
	dev, values, pair := 0, 256, 0
	for _, o := range outs {
		s := o.num + o.salt + o.pub
		if !k.Prot {
			s += o.seed
		}
		all = append(all, s)
	}
	for i := 0; res.Class == "ok" && i < len(all[0]); i++ {
		var ones [8]int
		seen := map[byte]bool{}
		for _, s := range all {
			seen[s[i]] = true
			for b := range ones {
				ones[b] += int(s[i] >> uint(b) & 1)
			}
		}
		for _, n := range ones {
			if d := 2*n - k.N; d > dev {
				dev = d
			} else if -d > dev {
				dev = -d
			}
		}
		if len(seen) < values {
			values = len(seen)
		}
		for j := 0; j < i; j++ {
			var diff [256]int
			for _, s := range all {
				if diff[s[i]^s[j]]++; diff[s[i]^s[j]] > pair {
					pair++
				}
			}
		}
	}
	c.Emit("many", Ev{"dev": dev, "values": values, "pair": pair, "res": res.Class, "msg": res.Msg, "n": k.N, "nums": len(nums), "salts": len(salts), "seeds": len(seeds), "pubs": len(pubs)})
}
