package main

import (
	"bytes"
	"errors"
	"io"

	"github.com/kisom/psignify/base64"
)

var errInjected = errors.New("injected failure")

// limitedSink accepts room bytes and then fails for good.
type limitedSink struct {
	room   int
	got    []byte
	failed bool
	calls  int
	late   bool // the write that fails has taken everything
	once   bool // it fails only once
	did    bool
}

func (s *limitedSink) Write(p []byte) (int, error) {
	s.calls++
	if s.once && s.did {
		s.got = append(s.got, p...)
		return len(p), nil
	}
	if len(p) <= s.room {
		s.got = append(s.got, p...)
		s.room -= len(p)
		return len(p), nil
	}
	n := s.room
	if s.late && !s.did {
		n = len(p)
	}
	s.got = append(s.got, p[:n]...)
	s.room = 0
	s.failed, s.did = true, true
	return n, errInjected
}

func init() {
	families["enc"] = famEnc
	families["encbig"] = famEncBig
	families["dec"] = famDec
}

func famEnc(c *Ctx) {
	var k struct {
		Room  int    `json:"room"`
		Sizes []int  `json:"sizes"`
		Fill  string `json:"fill"`
		Late  bool   `json:"late"`
		Once  bool   `json:"once"`
	}
	c.Parse(&k)
	sink := &limitedSink{room: k.Room, late: k.Late, once: k.Once}
	enc := base64.NewEncoder(sink)
	c.Emit("enc.new", Ev{})
	for _, size := range k.Sizes {
		p := make([]byte, size)
		c.Rng.Read(p)
		orig := append([]byte(nil), p...)
		before := len(sink.got)
		sink.failed = false
		n := 0
		r := guard(func() (err error) { n, err = enc.Write(p); return })
		c.Emit("enc.write", Ev{"p": ints(orig), "n": n, "res": r.Class, "sinkfailed": sink.failed, "once": k.Once,
			"delta": ints(sink.got[before:]), "kept": string(p) == string(orig)})
		if r.Class == "hang" {
			hangExit()
		}
		// The encoder must not keep a reference to the caller's buffer.
		for i := range p {
			p[i] ^= 0xa5
		}
	}
	before := len(sink.got)
	sink.failed = false
	r := guard(enc.Close)
	c.Emit("enc.close", Ev{"res": r.Class, "sinkfailed": sink.failed, "once": k.Once, "delta": ints(sink.got[before:])})
	if r.Class == "hang" {
		hangExit()
	}
}

// famEncBig: large writes come to the same as many small ones.
func famEncBig(c *Ctx) {
	var k struct {
		Room  int   `json:"room"`
		Sizes []int `json:"sizes"`
	}
	c.Parse(&k)
	room := k.Room
	if room < 0 {
		room = 1 << 40
	}
	big, small := &limitedSink{room: room}, &limitedSink{room: 1 << 40}
	enc, ref := base64.NewEncoder(big), base64.NewEncoder(small)
	var all []byte
	class, wrote, kept := "ok", []int{}, true
	step := func(f func() error) {
		if class != "ok" {
			return
		}
		r := guard(f)
		hang(r)
		class = r.Class
	}
	for _, size := range k.Sizes {
		p := make([]byte, size)
		c.Rng.Read(p)
		all = append(all, p...)
		step(func() error {
			n, err := enc.Write(p)
			wrote = append(wrote, n)
			return err
		})
		kept = kept && bytes.Equal(p, all[len(all)-size:])
		for i := range p {
			p[i] ^= 0x5a
		}
	}
	step(enc.Close)
	for i := 0; i < len(all); i += 40 {
		end := i + 40
		if end > len(all) {
			end = len(all)
		}
		if _, err := ref.Write(all[i:end]); err != nil {
			fatal("%v", err)
		}
	}
	if err := ref.Close(); err != nil {
		fatal("%v", err)
	}
	c.Emit("enc.big", Ev{"sizes": k.Sizes, "wrote": wrote, "res": class, "sinkfailed": big.failed, "kept": kept,
		"same": bytes.Equal(big.got, small.got), "prefix": bytes.HasPrefix(small.got, big.got)})
}

// source delivers text in pieces: segs is a list of piece sizes (0: a read
// that returns no data), repeated; eofWithData returns io.EOF together with
// the last piece; failAt >= 0 makes the source fail there.
type source struct {
	text        []byte
	pos         int
	segs        []int
	i           int
	eofWithData bool
	failAt      int
	failWith    bool // error together with the last data before failAt
	zeros       int
	failErr     error
	failOnce    bool // then it goes on
	end         bool // or ends
}

func (s *source) Read(p []byte) (int, error) {
	if s.failErr == nil {
		s.failErr = errInjected
	}
	if len(p) == 0 {
		return 0, nil
	}
	end := len(s.text)
	if s.failAt >= 0 && s.failAt < end {
		end = s.failAt
	}
	if s.pos >= end {
		if s.failAt >= 0 {
			if s.failOnce {
				if s.end {
					s.text = s.text[:s.pos]
				}
				s.failAt = -1
			}
			return 0, s.failErr
		}
		return 0, io.EOF
	}
	n := len(p)
	if len(s.segs) > 0 {
		g := s.segs[s.i%len(s.segs)]
		s.i++
		if g == 0 {
			s.zeros++
			if s.zeros < 20 {
				return 0, nil
			}
			g = 1
		}
		s.zeros = 0
		if g < n {
			n = g
		}
	}
	if n > end-s.pos {
		n = end - s.pos
	}
	copy(p, s.text[s.pos:s.pos+n])
	s.pos += n
	if s.pos == end {
		if s.failAt >= 0 {
			if s.failWith {
				return n, s.failErr
			}
		} else if s.eofWithData {
			return n, io.EOF
		}
	}
	return n, nil
}

func errClass(r Res) string {
	switch {
	case r.Class != "err":
		return r.Class
	case r.Err == io.EOF:
		return "eof"
	default:
		return "err"
	}
}

func famDec(c *Ctx) {
	var k struct {
		Text  []int `json:"text"`
		Bytes int   `json:"bytes"` // if > 0: encode that many random bytes instead
		Brk   []int `json:"brk"`   // line break positions, as lengths of lines, repeated
		Tail  int   `json:"tail"`  // line breaks at the end
		Mut   struct {
			Kind string `json:"kind"`
			Pos  int    `json:"pos"`
			Val  int    `json:"val"`
		} `json:"mut"`
		Sizes []int `json:"sizes"` // read sizes, the last one repeated
		Segs  []int `json:"segs"`
		EOFd  bool  `json:"eofd"`
		Fail  int   `json:"fail"` // -1: never
		FailW bool  `json:"failw"`
		Once  bool  `json:"once"`
		End   bool  `json:"end"`
	}
	c.Parse(&k)
	var text []byte
	for _, v := range k.Text {
		text = append(text, byte(v))
	}
	if k.Bytes > 0 {
		b := make([]byte, k.Bytes)
		c.Rng.Read(b)
		text = breakText(refB64(b), k.Brk)
	}
	for i := 0; i < k.Tail; i++ {
		text = append(text, '\n')
	}
	switch k.Mut.Kind {
	case "set":
		if len(text) > 0 {
			text[k.Mut.Pos%len(text)] = byte(k.Mut.Val)
		}
	case "cut":
		if k.Mut.Pos < len(text) {
			text = text[:k.Mut.Pos]
		}
	}
	src := &source{text: text, segs: k.Segs, eofWithData: k.EOFd, failAt: k.Fail, failWith: k.FailW && !k.Once, failOnce: k.Once, end: k.End}
	if src.failAt > len(text) {
		src.failAt = len(text)
	}
	dec := base64.NewDecoder(src)
	c.Emit("dec.new", Ev{"text": ints(text), "fail": src.failAt})
	sizes := k.Sizes
	if len(sizes) == 0 {
		sizes = []int{16}
	}
	ends, idle := 0, 0
	for i := 0; i < 100000; i++ {
		size := sizes[len(sizes)-1]
		if i < len(sizes) {
			size = sizes[i]
		}
		if i >= len(sizes) && size == 0 {
			size = 7
		}
		// The bytes beyond len(p) must stay untouched.
		full := make([]byte, size+8)
		for j := range full {
			full[j] = 0x5a
		}
		p := full[:size]
		n := 0
		r := guard(func() (err error) { n, err = dec.Read(p); return })
		data := []int{}
		if r.Class != "hang" && n >= 0 && n <= len(p) {
			data = ints(p[:n])
		}
		over := false
		if r.Class != "hang" {
			for _, v := range full[size:] {
				over = over || v != 0x5a
			}
		}
		cls := errClass(r)
		if cls == "ok" && n == 0 && size > 0 {
			idle++
			if idle >= 100 {
				cls = "noprogress"
			}
		} else {
			idle = 0
		}
		c.Emit("dec.read", Ev{"size": size, "n": n, "res": cls, "data": data, "over": over})
		if cls == "hang" {
			hangExit()
		}
		if cls != "ok" {
			// After a clean end, the end must be reported again.
			if cls == "eof" && ends == 0 {
				ends++
				continue
			}
			break
		}
	}
	c.Emit("dec.end", Ev{})
}
