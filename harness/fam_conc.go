package main

import (
	"bytes"
	crand "crypto/rand"
	stdb64 "encoding/base64"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/kisom/psignify/base64"
	"github.com/kisom/psignify/crypto"
	"github.com/kisom/psignify/signify"
)

func init() {
	families["conc"] = famConc
}

// conc runs operations at the same time.  If a schedule is given, one of them
// runs at a time, from one point to the next: points are where it opens one of
// its files, asks for a passphrase, needs randomness, or reads or writes data
// in memory.
type conc struct {
	c      *Ctx
	h      *hist
	ops    []*concOp
	gated  bool
	cur    int32 // operation whose turn it is, or -1
	arrive chan arrival
	stop   chan struct{} // ends feeders
	privs  []*signify.Private
	pubs   []*signify.Public
	prot   []bool // keys that are protected

	mu   sync.Mutex
	bufs [][]byte // passphrases that were supplied in this phase
}

// prompted tells how often a passphrase was asked for, and how many of those
// supplied are still there.
func (k *conc) prompted(ph int) {
	left := 0
	for _, b := range k.bufs {
		for _, v := range b {
			if v != 0 {
				left++
				break
			}
		}
	}
	k.c.Emit("prompted", Ev{"ph": ph, "asked": len(k.bufs), "left": left})
	k.bufs = nil
}

type arrival struct {
	op   int
	done bool
}

type concOp struct {
	i        int
	kind     string
	via      string
	o        *histOp // if it is one of the operations of psignify
	pass     []byte
	fifos    map[string]string // input -> file the content comes from
	plain    map[string]string // input -> file
	msg      []byte
	width    int
	sizes    []int
	key      int
	resume   chan struct{}
	at       int
	finished bool
	res      Res
	out      []byte // output in memory
	saysok   bool
}

func (k *conc) point(i int) {
	if !k.gated {
		return
	}
	op := k.ops[i]
	k.arrive <- arrival{op: i}
	<-op.resume
}

// feed writes the content of a pipe when its operation has opened it.
func (k *conc) feed(op *concOp, path string, data []byte, stop chan struct{}) {
	var f *os.File
	for {
		var err error
		if f, err = os.OpenFile(path, os.O_WRONLY|syscall.O_NONBLOCK, 0); err == nil {
			break
		}
		select {
		case <-stop:
			return
		case <-time.After(50 * time.Microsecond):
		}
	}
	defer f.Close()
	k.point(op.i)
	f.Write(data)
}

// gatedIO reads and writes memory, with points between.
type gatedIO struct {
	k     *conc
	op    *concOp
	in    []byte
	out   bytes.Buffer
	n     int
	sizes []int
}

func (g *gatedIO) Read(p []byte) (int, error) {
	g.k.point(g.op.i)
	if len(g.in) == 0 {
		return 0, io.EOF
	}
	n := len(p)
	if len(g.sizes) > 0 {
		if s := g.sizes[g.n%len(g.sizes)]; s < n {
			n = s
		}
		g.n++
	}
	n = copy(p[:n], g.in)
	g.in = g.in[n:]
	return n, nil
}

func (g *gatedIO) Write(p []byte) (int, error) {
	g.k.point(g.op.i)
	return g.out.Write(p)
}

type gatedRand struct {
	k *conc
	r io.Reader
}

func (g *gatedRand) Read(p []byte) (int, error) {
	if i := atomic.LoadInt32(&g.k.cur); i >= 0 && g.k.ops[i].via != "cli" {
		g.k.point(int(i))
	}
	return g.r.Read(p)
}

// place is the path of an input or output in a phase.
func (op *concOp) input(ph, name string) string {
	if _, ok := op.fifos[name]; ok {
		return fmt.Sprintf("%s/i%d.%s", ph, op.i, name)
	}
	return op.plain[name]
}

func (op *concOp) opAt(ph string) *histOp {
	o := *op.o
	out := fmt.Sprintf("%s/o%d", ph, op.i)
	switch op.kind {
	case "G":
		o.P = out
	case "S":
		o.S, o.M, o.X = op.input(ph, "key.sec"), op.input(ph, "m"), out
	case "V":
		o.P, o.M, o.X = op.input(ph, "key.pub"), op.input(ph, "m"), op.input(ph, "sig")
	case "E":
		o.P, o.M, o.C = op.input(ph, "key.pub"), op.input(ph, "m"), out
	case "D":
		o.S, o.C, o.M = op.input(ph, "key.sec"), op.input(ph, "enc"), out
	}
	return &o
}

// run is the operation itself.
func (k *conc) run(op *concOp, ph string) {
	io0 := &gatedIO{k: k, op: op, sizes: op.sizes}
	var f func() error
	keep := func(v *[32]byte, err error) error {
		if err == nil {
			io0.out.Write(v[:])
		}
		return err
	}
	if op.o != nil {
		o := op.opAt(ph)
		switch {
		case op.via == "cli":
			args := k.h.flagsOf(o)
			out := runUserIn(k.h.dir, append([]string{*flagCLI}, args...))
			op.res, op.saysok = out.res(), okWord.Match(out.stdout)
			return
		case op.via == "pkg" && op.kind == "E":
			io0.in = readFile(o.M)
			f = func() error { return pkgSeal(k.pubs[op.key], io0, len(io0.in), io0) }
		case op.via == "pkg":
			_, text, _ := splitEnc(readFile(o.C))
			io0.in, _ = stdb64.StdEncoding.DecodeString(string(text))
			f = func() error { return pkgOpen(k.privs[op.key], io0, io0) }
		default:
			f = func() error { return k.api(op, o) }
		}
	} else {
		switch op.kind {
		case "Ts":
			f = func() error { return keep(k.privs[op.key].ToBox()) }
		case "Tp":
			f = func() error { return keep(k.pubs[op.key].ToBox()) }
		case "Tl": // a key of its own, which is still locked
			f = func() error {
				p, err := signify.LoadPrivateKey(op.input(ph, "key.sec"))
				if err != nil {
					return err
				}
				if !p.IsEncrypted() {
					return errors.New("not protected")
				}
				v, err := p.ToBox()
				if err := keep(v, err); err != nil {
					return err
				}
				return p.Check()
			}
		case "C":
			f = func() error {
				if k.privs[op.key].IsEncrypted() != k.prot[op.key] {
					return errors.New("protection")
				}
				return k.privs[op.key].Check()
			}
		case "Be":
			f = func() error {
				w := base64.NewEncoder(io0)
				in := op.msg
				for i := 0; len(in) > 0; i++ {
					n := len(in)
					if len(op.sizes) > 0 && op.sizes[i%len(op.sizes)] < n {
						n = op.sizes[i%len(op.sizes)]
					}
					if _, err := w.Write(in[:n]); err != nil {
						return err
					}
					in = in[n:]
				}
				return w.Close()
			}
		case "Bd":
			f = func() error {
				io0.in = refEncText(op.msg, op.width)
				r := base64.NewDecoder(io0)
				buf := make([]byte, 1000)
				for i := 0; ; i++ {
					n, err := r.Read(buf[:1+i*7%1000])
					io0.out.Write(buf[:n])
					if err == io.EOF {
						return nil
					} else if err != nil {
						return err
					}
				}
			}
		default:
			fatal("kind %q", op.kind)
		}
	}
	op.res = guard(f)
	op.out = io0.out.Bytes()
}

func (k *conc) api(op *concOp, o *histOp) error {
	name := func(n string) string {
		if n != "" && op.i%2 == 0 {
			return k.h.abs(n)
		}
		return n
	}
	s, p, m, x, e := name(o.S), name(o.P), name(o.M), name(o.X), name(o.C)
	switch o.Mode {
	case "G":
		return signify.GenerateKey(p, append([]byte(nil), op.pass...), &signify.GenerateOptions{Rounds: 1})
	case "S":
		return signify.Sign(s, m, x)
	case "V":
		return signify.Verify(p, m, x)
	case "E":
		return crypto.Seal(p, m, e)
	}
	return crypto.Open(s, e, m)
}

func (k *conc) setup(op *concOp, ph string, stop chan struct{}) {
	for name, src := range op.fifos {
		p := k.h.abs(op.input(ph, name))
		if err := syscall.Mkfifo(p, 0666); err != nil {
			fatal("fifo: %v", err)
		}
		os.Chmod(p, 0666)
		go k.feed(op, p, readFile(k.h.abs(src)), stop)
	}
	op.finished, op.at = false, 0
	op.resume = make(chan struct{}, 100)
}

// turn lets an operation run to its next point.  False: it does not get there.
func (k *conc) turn(i int, ph string, started map[int]bool, limit time.Duration) bool {
	op := k.ops[i]
	if op.finished {
		return true
	}
	atomic.StoreInt32(&k.cur, int32(i))
	if !started[i] {
		started[i] = true
		go func() {
			k.run(op, ph)
			k.arrive <- arrival{op: i, done: true}
		}()
	} else {
		// It may be at several points, if it does several things at once.
		for ; op.at > 0; op.at-- {
			op.resume <- struct{}{}
		}
	}
	t := time.After(limit)
	for {
		select {
		case a := <-k.arrive:
			if a.done {
				k.ops[a.op].finished = true
			} else {
				k.ops[a.op].at++
			}
			if a.op == i {
				return true
			}
		case <-t:
			return false
		}
	}
}

// phase runs the operations in the order of the schedule, and after that one
// after the other.
func (k *conc) phase(ph string, ops []*concOp, sched []int, limit time.Duration) (order []int, stuck int) {
	stop := make(chan struct{})
	defer close(stop)
	for _, op := range ops {
		k.setup(op, ph, stop)
	}
	started := map[int]bool{}
	do := func(i int) bool {
		was := k.ops[i].finished
		if !k.turn(i, ph, started, limit) {
			return false
		}
		if !was && k.ops[i].finished {
			order = append(order, i)
		}
		return true
	}
	for _, i := range sched {
		if !do(i) {
			return order, i
		}
	}
	for _, op := range ops {
		for !op.finished {
			if !do(op.i) {
				return order, op.i
			}
		}
	}
	atomic.StoreInt32(&k.cur, -1)
	return order, -1
}

func (k *conc) emit(op *concOp, ph int, changed [][]interface{}) {
	if op.o == nil {
		k.c.Emit("call", Ev{"i": op.i, "ph": ph, "kind": op.kind, "res": op.res.Class, "msg": op.res.Msg, "id": k.h.id(op.out)})
		return
	}
	o := op.opAt(fmt.Sprint(ph))
	o.Base = k.h.base
	modes := []int{}
	if op.via != "pkg" && op.res.Class == "ok" {
		for _, q := range k.h.outputs(o) {
			fi, err := os.Stat(q)
			if err != nil {
				modes = append(modes, -1)
			} else {
				modes = append(modes, int(fi.Mode().Perm()))
			}
		}
	}
	k.c.Emit("run", Ev{"o": o, "i": op.i, "ph": ph, "notfree": []string{}, "saysok": op.saysok, "code": 0, "faulted": false, "occupied": false,
		"res": op.res.Class, "msg": string(limit([]byte(op.res.Msg), 300)), "changed": changed, "modes": modes})
}

// report tells what has happened in a phase: each operation with what has
// changed among its outputs, and the last one with all other changes.
func (k *conc) report(ph int, order []int) {
	changes := k.h.look()
	// What was written to memory.
	for _, i := range order {
		op := k.ops[i]
		if op.via != "pkg" || op.o == nil || (op.kind == "E" && op.res.Class != "ok") {
			continue
		}
		o := op.opAt(fmt.Sprint(ph))
		if op.kind == "E" {
			changes = append(changes, []interface{}{o.C, k.h.classify(refEncFile(op.out))})
		} else {
			changes = append(changes, []interface{}{o.M, k.h.classify(op.out)})
		}
	}
	last := -1
	for n, i := range order {
		if k.ops[i].o != nil {
			last = n
		}
	}
	for n, i := range order {
		op := k.ops[i]
		mine, rest := [][]interface{}{}, [][]interface{}{}
		if op.o != nil {
			outs := k.h.outputs(op.opAt(fmt.Sprint(ph)))
			for _, c := range changes {
				is := n == last
				for _, q := range outs {
					is = is || k.h.abs(c[0].(string)) == q
				}
				if is {
					mine = append(mine, c)
				} else {
					rest = append(rest, c)
				}
			}
			changes = rest
		}
		k.emit(op, ph, mine)
	}
	if len(changes) > 0 {
		k.c.Emit("stray", Ev{"changed": changes, "ph": ph})
	}
}

func famConc(c *Ctx) {
	var a struct {
		Kinds []string `json:"kinds"`
		Sched []int    `json:"sched"` // operations are numbered from 1
		Times int      `json:"times"` // without a schedule: so many times
		Procs bool     `json:"procs"` // as processes
		Gates int      `json:"gates"`
		Fails int      `json:"fails"` // operations that fail before
		Keys  int      `json:"keys"`  // so many keys, not two
		Cold  int      `json:"cold"`  // at the same time first, then each alone; with 2, keys are shared
	}
	c.Parse(&a)
	syscall.Umask(022)
	os.Setenv("TMPDIR", c.Dir)
	if err := os.Chdir(c.Dir); err != nil {
		fatal("%v", err)
	}
	randReader := crand.Reader
	defer func() {
		crand.Reader = randReader
		os.Chdir("/")
		os.Unsetenv("TMPDIR")
	}()
	h := newHist(c, c.Dir)
	k := &conc{c: c, h: h, cur: -1, arrive: make(chan arrival, 100)}
	r := c.Rng
	// What there is: key a is not protected, key b is.
	for _, d := range []string{"in", "0", "1", "2", ".signify"} {
		os.Mkdir(d, 0777)
		os.Chmod(d, 0777)
	}
	if a.Keys < 2 {
		a.Keys = 2
	}
	var keys []*refKey
	var kname []string
	for i := 0; i < a.Keys; i++ {
		kk, n := newKey(r), string('a'+rune(i))
		pr := i == 1 || (i > 1 && r.Intn(4) == 0)
		if pr {
			keyOnDisk("in", n, kk, h.pass["p"], 1, r)
		} else {
			keyOnDisk("in", n, kk, nil, 0, r)
		}
		keys, kname, k.prot = append(keys, kk), append(kname, "in/"+n), append(k.prot, pr)
	}
	lens := []int{0, 1, 53, 54, 55, 100, 1000, 5000, 16384, 16385, 16386, 40000}
	var msgs [][]byte
	for i := 0; i < 4; i++ {
		m := makeMessage(lens[r.Intn(len(lens))], "", r)
		m = append(m, byte(i))
		msgs = append(msgs, m)
		writeFile(fmt.Sprintf("in/m%d", i), m, 0644)
		for j, kk := range keys {
			writeFile(fmt.Sprintf("in/m%d.%d.sig", i, j), refFile("x", kk.sigPayload(m)), 0644)
			raw := refSealMsg(kk.pub[:], m, r).bytes()
			writeFile(fmt.Sprintf("in/m%d.%d.enc", i, j), refEncFile(raw), 0644)
		}
	}
	// Keys that are shared.
	setPrompt(h.pass["p"], nil)
	for i := range keys {
		if a.Cold == 1 {
			break
		}
		s, err := signify.LoadPrivateKey(kname[i] + ".sec")
		if err != nil {
			fatal("a key can't be loaded: %v", err)
		}
		p, err := signify.LoadPublicKey(kname[i] + ".pub")
		if err != nil {
			fatal("a key can't be loaded: %v", err)
		}
		k.privs, k.pubs = append(k.privs, s), append(k.pubs, p)
		if a.Cold != 0 {
			continue
		}
		if _, err := s.ToBox(); err != nil {
			fatal("a key can't be unlocked: %v", err)
		}
	}
	gate := a.Sched != nil
	for i, kind := range a.Kinds {
		op := &concOp{i: i, kind: kind, via: "api", fifos: map[string]string{}, plain: map[string]string{}, key: r.Intn(a.Keys)}
		op.pass = h.pass["p"]
		if a.Procs || (gate && r.Intn(6) == 0) {
			op.via = "cli"
			op.key = 0
		} else if (kind == "E" || kind == "D") && haveInpkg && a.Cold != 1 && r.Intn(2) == 0 {
			op.via = "pkg"
			op.sizes = [][]int{{}, {5000}, {16000, 1000}, {1000, 7000}, {16384, 1}}[r.Intn(5)]
		}
		switch kind {
		case "T":
			op.kind = []string{"Ts", "Ts", "Tp", "Tl", "C"}[r.Intn(5)]
			if a.Cold == 1 {
				op.kind = "Tl"
			}
		case "B":
			op.kind = []string{"Be", "Bd"}[r.Intn(2)]
		}
		// A key that is shared must not be locked.
		for a.Cold == 2 && (op.via == "pkg" || op.kind == "Ts") && k.prot[op.key] {
			op.key = r.Intn(a.Keys)
		}
		in := func(name, src string) {
			if gate && op.via != "pkg" && (a.Gates>>uint(len(op.fifos)+len(op.plain)))&1 == 0 {
				op.fifos[name] = src
			} else {
				op.plain[name] = src
			}
		}
		mi, mj, other := r.Intn(4), r.Intn(4), op.key
		if r.Intn(4) != 0 {
			mj = mi
		}
		if r.Intn(4) == 0 {
			other = r.Intn(a.Keys)
		}
		o := &histOp{Via: op.via, Mode: kind, Given: []string{"p"}}
		if op.via == "pkg" {
			o.Via = "api"
		}
		wrong := gate && op.via == "api" && r.Intn(8) == 0
		if wrong {
			op.pass, o.Given = h.pass["q"], []string{"q"}
		}
		switch op.kind {
		case "G":
			if op.via == "cli" || r.Intn(2) == 0 {
				o.N, op.pass, o.Given = true, nil, []string{}
			}
			op.o = o
		case "S":
			in("key.sec", kname[op.key]+".sec")
			in("m", fmt.Sprintf("in/m%d", mi))
			op.o = o
		case "V":
			in("key.pub", kname[op.key]+".pub")
			in("m", fmt.Sprintf("in/m%d", mi))
			in("sig", fmt.Sprintf("in/m%d.%d.sig", mj, other))
			op.o = o
		case "E":
			in("key.pub", kname[op.key]+".pub")
			op.plain["m"] = fmt.Sprintf("in/m%d", mi)
			op.o = o
		case "D":
			in("key.sec", kname[op.key]+".sec")
			in("enc", fmt.Sprintf("in/m%d.%d.enc", mi, other))
			op.o = o
		case "Tl":
			for !k.prot[op.key] {
				op.key = r.Intn(a.Keys)
			}
			in("key.sec", kname[op.key]+".sec")
		case "Be", "Bd":
			op.msg = msgs[mi]
			if len(op.msg) > 2000 {
				op.msg = op.msg[:2000]
			}
			op.width = []int{72, 4, 64, 1}[r.Intn(4)]
			op.sizes = [][]int{{1, 2, 3, 50}, {54}, {200}, {1000}, {}}[r.Intn(5)]
		}
		k.ops = append(k.ops, op)
	}
	// If an operation does not get on with pipes, it gets files.
	if gate {
		crand.Reader = &gatedRand{k, randReader}
		for _, op := range k.ops {
			if len(op.fifos) > 0 && !k.probe(op) {
				for n, src := range op.fifos {
					op.plain[n] = src
				}
				op.fifos = map[string]string{}
			}
		}
		k.gated = true
	}
	k.gated = gate
	signify.PassphrasePrompt = func(confirm bool) ([]byte, error) {
		pass := h.pass["p"]
		if i := atomic.LoadInt32(&k.cur); i >= 0 {
			k.point(int(i))
			pass = k.ops[i].pass
		}
		b := append([]byte(nil), pass...)
		k.mu.Lock()
		k.bufs = append(k.bufs, b)
		k.mu.Unlock()
		return b, nil
	}
	// The command runs as another user.
	chown(c.Dir)
	changed := h.look()
	for _, ph := range []string{"1", "2"} {
		for _, op := range k.ops {
			for name, src := range op.fifos {
				changed = append(changed, []interface{}{op.input(ph, name), h.classify(readFile(h.abs(src)))})
			}
		}
	}
	c.Emit("begin", Ev{"changed": changed})

	if a.Cold == 0 {
		k.alone()
		if a.Fails > 0 {
			k.failures(a.Fails)
		}
	}
	k.bufs = nil
	// All together.
	if gate {
		k.gated = true
		k.arrive = make(chan arrival, 1000)
		sched := make([]int, len(a.Sched))
		for i, v := range a.Sched {
			sched[i] = v - 1
		}
		order, stuck := k.phase("2", k.ops, sched, *flagTimeout)
		if stuck >= 0 {
			k.ops[stuck].res = Res{Class: "hang"}
			k.emit(k.ops[stuck], 2, [][]interface{}{})
			hangExit()
		}
		k.prompted(2)
		k.report(2, order)
		return
	}
	for t := 0; t < a.Times; t++ {
		var wg sync.WaitGroup
		var order []int
		go1 := make(chan struct{})
		var mu sync.Mutex
		for _, op := range k.ops {
			wg.Add(1)
			go func(op *concOp) {
				defer wg.Done()
				<-go1
				k.run(op, "2")
				mu.Lock()
				order = append(order, op.i)
				mu.Unlock()
			}(op)
		}
		close(go1)
		wg.Wait()
		for _, op := range k.ops {
			if op.res.Class == "hang" {
				k.emit(op, 2, [][]interface{}{})
				hangExit()
			}
		}
		k.prompted(2)
		k.report(2, order)
		if t+1 < a.Times {
			os.RemoveAll("2")
			os.Mkdir("2", 0777)
			os.Chmod("2", 0777)
			c.Emit("env", Ev{"changed": h.look(), "what": "clear"})
		}
	}
	if a.Cold != 0 {
		k.alone()
	}
}

// alone runs each operation alone.
func (k *conc) alone() {
	gated := k.gated
	k.gated = false
	k.bufs = nil
	var order []int
	for _, op := range k.ops {
		k.arrive = make(chan arrival, 1000)
		if _, stuck := k.phase("1", []*concOp{op}, nil, *flagTimeout); stuck >= 0 {
			// Nothing can be said about it.
			k.c.Emit("alonehang", Ev{"i": op.i})
			hangExit()
		}
		order = append(order, op.i)
	}
	k.prompted(1)
	k.report(1, order)
	k.gated = gated
}

// failIO delivers some bytes and takes some, and then fails.
type failIO struct {
	in  []byte
	out int
}

func (f *failIO) Read(p []byte) (int, error) {
	if len(f.in) == 0 {
		return 0, errors.New("failing source")
	}
	n := copy(p, f.in)
	f.in = f.in[n:]
	return n, nil
}

func (f *failIO) Write(p []byte) (int, error) {
	if len(p) > f.out {
		n := f.out
		f.out = 0
		return n, errors.New("failing destination")
	}
	f.out -= len(p)
	return len(p), nil
}

// failures runs operations that fail, in another directory; what they leave
// behind in the process must not harm.
func (k *conc) failures(n int) {
	r := k.c.Rng
	dir := filepath.Join(filepath.Dir(k.c.Dir), filepath.Base(k.c.Dir)+"-failures")
	if err := os.MkdirAll(dir, 0777); err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(dir)
	out := filepath.Join(dir, "out")
	bad := func(src string) string {
		b := readFile(src)
		switch r.Intn(3) {
		case 0:
			b = b[:len(b)-1-r.Intn(len(b)/2)]
		case 1:
			b[len(b)-3] ^= 1
		default:
			b[60+r.Intn(60)] ^= 1
		}
		p := filepath.Join(dir, "bad")
		writeFile(p, b, 0644)
		return p
	}
	in := func(f string, a ...interface{}) string { return k.h.abs("in/" + fmt.Sprintf(f, a...)) }
	// Passphrases are not asked for in these.
	ops := []func() error{
		func() error { return crypto.Seal(in("a.pub"), dir, out) },
		func() error { return crypto.Seal(in("a.pub"), in("no"), out) },
		func() error { return crypto.Seal(in("a.sec"), in("m0"), out) },
		func() error { return crypto.Seal(in("a.pub"), in("m1"), "/dev/full") },
		func() error { return crypto.Seal(in("a.pub"), in("m1"), dir) },
		func() error { return crypto.Open(in("a.sec"), bad(in("m%d.0.enc", r.Intn(4))), out) },
		func() error { return crypto.Open(in("a.sec"), in("m%d.1.enc", r.Intn(4)), out) },
		func() error { return crypto.Open(in("a.sec"), in("m%d.0.enc", r.Intn(4)), "/dev/full") },
		func() error { return crypto.Open(in("a.sec"), in("m%d.0.enc", r.Intn(4)), dir) },
		func() error { return signify.Sign(in("a.sec"), dir, out) },
		func() error { return signify.Sign(in("a.sec"), in("m0"), "/dev/full") },
		func() error { return signify.Sign(in("a.pub"), in("m0"), out) },
		func() error { return signify.Verify(in("a.pub"), in("m0"), in("m1.0.sig")) },
		func() error { return signify.Verify(in("a.pub"), in("m0"), bad(in("m0.0.sig"))) },
		func() error { return signify.Verify(in("a.pub"), dir, in("m0.0.sig")) },
		func() error { return signify.GenerateKey(in("a"), nil, nil) },
		func() error {
			return signify.GenerateKey(filepath.Join(dir, "no", "k"), []byte("x"), &signify.GenerateOptions{Rounds: 1})
		},
		func() error {
			return signify.GenerateKey(filepath.Join(dir, "k"), []byte("x"), &signify.GenerateOptions{Rounds: -1})
		},
		func() error {
			w := base64.NewEncoder(&failIO{out: r.Intn(200)})
			w.Write(make([]byte, 300))
			return w.Close()
		},
		func() error {
			_, err := io.Copy(io.Discard, base64.NewDecoder(&failIO{in: []byte("AAAAAAA")}))
			return err
		},
		func() error {
			_, err := io.Copy(io.Discard, base64.NewDecoder(bytes.NewReader([]byte("AAAA*AAAAA"))))
			return err
		},
	}
	if haveInpkg {
		_, text, _ := splitEnc(readFile(in("m3.0.enc")))
		raw, _ := stdb64.StdEncoding.DecodeString(string(text))
		ops = append(ops,
			func() error { return pkgSeal(k.pubs[0], &failIO{in: make([]byte, r.Intn(40000))}, 40000, io.Discard) },
			func() error { return pkgSeal(k.pubs[0], bytes.NewReader(make([]byte, 30000)), 40000, io.Discard) },
			func() error { return pkgSeal(k.pubs[0], bytes.NewReader(make([]byte, 40001)), 40000, io.Discard) },
			func() error {
				return pkgSeal(k.pubs[0], bytes.NewReader(make([]byte, 40000)), 40000, &failIO{out: r.Intn(40000)})
			},
			func() error { return pkgOpen(k.privs[0], &failIO{in: raw[:r.Intn(len(raw))]}, io.Discard) },
			func() error { return pkgOpen(k.privs[0], bytes.NewReader(raw), &failIO{}) },
			func() error { return pkgOpen(k.privs[0], bytes.NewReader(raw[:len(raw)-1]), io.Discard) },
			func() error { return pkgOpen(k.privs[1], bytes.NewReader(raw), io.Discard) })
	}
	for i := 0; i < n; i++ {
		for _, j := range r.Perm(len(ops)) {
			if res := guard(ops[j]); res.Class == "hang" {
				// That is for other checks to find.
				hangExit()
			}
		}
	}
}

// probe tells if an operation ends that reads pipes.
func (k *conc) probe(op *concOp) bool {
	k.gated = false
	k.arrive = make(chan arrival, 1000)
	signify.PassphrasePrompt = func(bool) ([]byte, error) { return append([]byte(nil), op.pass...), nil }
	_, stuck := k.phase("0", []*concOp{op}, nil, 5*time.Second)
	if stuck >= 0 {
		// Make it end.
		for n := 0; n < 200; n++ {
			for name := range op.fifos {
				if f, err := os.OpenFile(k.h.abs(op.input("0", name)), os.O_WRONLY|syscall.O_NONBLOCK, 0); err == nil {
					f.Close()
				}
			}
			select {
			case <-k.arrive:
				n = 200
			case <-time.After(20 * time.Millisecond):
			}
		}
	}
	os.RemoveAll("0")
	os.Mkdir("0", 0777)
	os.Chmod("0", 0777)
	atomic.StoreInt32(&k.cur, -1)
	return stuck < 0
}

// flagsOf makes the command line, without random choices.
func (h *hist) flagsOf(o *histOp) []string {
	out := []string{"-" + o.Mode}
	if o.N {
		out = append(out, "-n")
	}
	for _, f := range [][2]string{{"s", o.S}, {"p", o.P}, {"m", o.M}, {"x", o.X}, {"c", o.C}} {
		if f[1] != "" {
			out = append(out, "-"+f[0], filepath.Clean(f[1]))
		}
	}
	return out
}
