package main

// Analysis of encrypted files by the reference implementation.

import (
	"bytes"
	"crypto/sha256"
	stdb64 "encoding/base64"
	"encoding/binary"
	"encoding/hex"

	"golang.org/x/crypto/nacl/auth"
	"golang.org/x/crypto/nacl/box"
)

// message gives the bytes [off, off+len(p)) of a message.
type message interface {
	at(off int64, p []byte)
}

type bytesMsg []byte

func (m bytesMsg) at(off int64, p []byte) {
	for i := range p {
		p[i] = 0
	}
	if off < int64(len(m)) {
		copy(p, m[off:])
	}
}

// zeroMsg is a message of zeros of any length.
type zeroMsg struct{}

func (zeroMsg) at(off int64, p []byte) {
	for i := range p {
		p[i] = 0
	}
}

type zeroReader struct{ left int64 }

func (z *zeroReader) Read(p []byte) (int, error) {
	if z.left <= 0 {
		return 0, errEOF
	}
	if int64(len(p)) > z.left {
		p = p[:z.left]
	}
	for i := range p {
		p[i] = 0
	}
	z.left -= int64(len(p))
	return len(p), nil
}

type run struct {
	first, n, size int
	nonce, match   bool
}

// analyzer is fed the raw bytes of an encrypted file.
type analyzer struct {
	key    *refKey
	msg    message
	header []byte
	buf    []byte

	shared  [32]byte
	authok  bool
	count   uint64
	started bool
	n       int // records seen
	runs    []run
	plain   int64
	match   bool
	reuse   int
	used    map[uint64]bool
	digests map[[16]byte]bool
	last    uint64
	extra   int // bytes after the last record the header names
}

func newAnalyzer(key *refKey, msg message) *analyzer {
	return &analyzer{key: key, msg: msg, match: true, used: map[uint64]bool{}, digests: map[[16]byte]bool{}}
}

func (a *analyzer) Write(p []byte) (int, error) {
	a.feed(p)
	return len(p), nil
}

func (a *analyzer) feed(p []byte) {
	if len(a.header) < 72 {
		k := 72 - len(a.header)
		if k > len(p) {
			k = len(p)
		}
		a.header = append(a.header, p[:k]...)
		p = p[k:]
		if len(a.header) == 72 {
			a.started = true
			a.count = binary.BigEndian.Uint64(a.header[:8])
			a.shared = refShared(a.key, a.header[8:40])
			a.authok = auth.Verify(a.header[40:72], a.header[:40], &a.shared)
		}
	}
	for len(p) > 0 {
		k := refSealed - len(a.buf)
		if k > len(p) {
			k = len(p)
		}
		a.buf = append(a.buf, p[:k]...)
		p = p[k:]
		if len(a.buf) == refSealed {
			a.record(a.buf)
			a.buf = a.buf[:0]
		}
	}
}

func (a *analyzer) record(rec []byte) {
	i := uint64(a.n)
	a.n++
	if i >= a.count {
		a.extra += len(rec)
	}
	sum := sha256.Sum256(rec)
	var d [16]byte
	copy(d[:], sum[:])
	dup := a.digests[d]
	a.digests[d] = true
	try := func(n uint64) ([]byte, bool) {
		return box.OpenAfterPrecomputation(nil, rec, refNonce(n), &a.shared)
	}
	out, ok := try(i)
	nonce := i
	if !ok {
		cand := []uint64{a.last, a.last + 1, i + 1, i & 0xff, i & 0xffff, i & 0xffffff, i << 8}
		for n := uint64(0); n < 300 && n <= i+1; n++ {
			cand = append(cand, n)
		}
		for _, n := range cand {
			if out, ok = try(n); ok {
				nonce = n
				break
			}
		}
	}
	if ok && a.used[nonce] || dup {
		a.reuse++
	}
	if ok {
		a.used[nonce] = true
		a.last = nonce
	}
	want := make([]byte, len(out))
	a.msg.at(a.plain, want)
	match := ok && bytes.Equal(out, want)
	a.match = a.match && match
	a.plain += int64(len(out))
	r := run{first: int(i), n: 1, size: len(out), nonce: ok && nonce == i, match: match}
	if k := len(a.runs); k > 0 && a.runs[k-1].size == r.size && a.runs[k-1].nonce == r.nonce && a.runs[k-1].match == r.match {
		a.runs[k-1].n++
	} else if k < 1000 {
		a.runs = append(a.runs, r)
	}
}

// finish is called at the end of the data, and describes it.
func (a *analyzer) finish() Ev {
	if len(a.buf) > 0 {
		a.record(a.buf)
		a.buf = nil
	}
	runs := [][]interface{}{}
	for _, r := range a.runs {
		runs = append(runs, []interface{}{r.first, r.n, r.nonce, r.size, r.match})
	}
	count := -1
	if a.started && a.count < 1<<31 {
		count = int(a.count)
	}
	plain := int64(-1)
	if a.plain < 1<<31 {
		plain = a.plain
	}
	return Ev{"comment": true, "lines": true, "decodes": true, "count": count, "auth": a.authok,
		"trailing": a.extra, "runs": runs, "plain": plain, "match": a.match}
}

func (a *analyzer) eph() string {
	if !a.started {
		return ""
	}
	return hex.EncodeToString(a.header[8:40])
}

const b64Alphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"

// splitEnc separates the comment line from the text of an encrypted file.
func splitEnc(file []byte) (comment, text []byte, ok bool) {
	i := bytes.IndexByte(file, '\n')
	if i < 0 {
		return file, nil, false
	}
	return file[:i], file[i+1:], true
}

// analyzeFile analyzes the contents of an encrypted file.
func analyzeFile(file []byte, key *refKey, msg message) (Ev, *analyzer) {
	a := newAnalyzer(key, msg)
	comment, text, ok := splitEnc(file)
	commentOK := ok && bytes.HasPrefix(comment, []byte("untrusted comment: "))
	lines := true
	if len(text) > 0 && text[len(text)-1] != '\n' {
		lines = false
	}
	for _, ln := range bytes.Split(text, []byte("\n")) {
		if len(ln) > 72 {
			lines = false
		}
	}
	raw, err := stdb64.StdEncoding.DecodeString(string(bytes.ReplaceAll(text, []byte("\n"), nil)))
	a.feed(raw)
	ev := a.finish()
	ev["comment"], ev["lines"], ev["decodes"] = commentOK, lines, err == nil && !bytes.ContainsRune(text, '\r')
	return ev, a
}

// lenientDecodes are the byte strings that text might be taken for.
func lenientDecodes(text []byte) [][]byte {
	dec := func(t []byte) []byte {
		t = bytes.TrimRight(t, "=")
		if len(t)%4 == 1 {
			t = t[:len(t)-1]
		}
		b, _ := stdb64.RawStdEncoding.DecodeString(string(t))
		return b
	}
	var skip, stop []byte
	stopped := false
	for _, c := range text {
		if c == '\n' || c == '\r' {
			continue
		}
		if c < 128 && bytes.IndexByte([]byte(b64Alphabet), c) >= 0 {
			skip = append(skip, c)
			if !stopped {
				stop = append(stop, c)
			}
		} else {
			stopped = true
		}
	}
	return [][]byte{dec(stop), dec(skip)}
}
