// Command psdrv executes cases produced from the TLA+ specifications on the
// real psignify code and records one event per call.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"time"
)

// Ev is one recorded event.
type Ev map[string]interface{}

// Ctx is what a family's executor gets for one case.
type Ctx struct {
	Idx  int
	Rid  int64
	Raw  json.RawMessage
	Rng  *rand.Rand
	Dir  string // scratch directory of this case
	emit func(Ev)
	seed int64 // of Rng
}

// again is the reason why a case has to be run again.
type again string

// Retrying runs a case, and runs it again for as long as it panics with again:
// something went wrong that has nothing to do with the code under test. Only
// the events of the last run count. The number of the run is passed to f.
func (c *Ctx) Retrying(f func(t *Ctx, try int)) {
	flush := flushOut
	defer func() { flushOut = flush }()
	for try := 0; ; try++ {
		var evs []Ev
		done := func() {
			for _, e := range evs {
				c.emit(e)
			}
			evs = nil
		}
		flushOut = func() {
			done()
			flush()
		}
		t := *c
		t.emit = func(e Ev) { evs = append(evs, e) }
		t.Rng = rand.New(rand.NewSource(c.seed))
		why := func() (a again) {
			defer func() {
				r := recover()
				if r == nil {
					return
				}
				var ok bool
				if a, ok = r.(again); !ok {
					panic(r)
				}
			}()
			f(&t, try)
			return ""
		}()
		if why == "" {
			done()
			return
		}
		if try == 20 {
			fatal("%s", why)
		}
		fs, _ := os.ReadDir(c.Dir)
		for _, f := range fs {
			os.RemoveAll(filepath.Join(c.Dir, f.Name()))
		}
	}
}

// checkStrace makes the case run again if strace failed.
func checkStrace(o *cliOut) {
	if bytes.Contains(o.stderr, []byte("strace: ")) {
		panic(again(o.stderr))
	}
}

func (c *Ctx) Emit(ev string, e Ev) {
	e["ev"] = ev
	e["c"] = c.Idx
	c.emit(e)
}

func (c *Ctx) Parse(v interface{}) {
	if err := json.Unmarshal(c.Raw, v); err != nil {
		fatal("bad case %s: %v", c.Raw, err)
	}
}

var families = map[string]func(*Ctx){}

var (
	flagCLI     = flag.String("cli", "", "the psignify command")
	flagSeed    = flag.Int64("seed", 1, "seed")
	flagTimeout = flag.Duration("timeout", 60*time.Second, "a call that takes longer hangs")
	flagData    = flag.String("data", "", "directory of committed data files")
	flushOut    func()
)

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "psdrv: "+f+"\n", a...)
	os.Exit(2)
}

// hangExit ends the process after a hang has been recorded: the goroutine
// that hangs can't be stopped.
func hangExit() {
	flushOut()
	os.Exit(4)
}

// Res is the class of a result.
type Res struct {
	Class string // ok, err, panic, hang
	Err   error
	Msg   string
}

// guard runs f, and classifies its outcome.
func guard(f func() error) Res {
	ch := make(chan Res, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				ch <- Res{Class: "panic", Msg: fmt.Sprint(r)}
			}
		}()
		err := f()
		if err != nil {
			ch <- Res{Class: "err", Err: err, Msg: err.Error()}
		} else {
			ch <- Res{Class: "ok"}
		}
	}()
	select {
	case r := <-ch:
		return r
	case <-time.After(*flagTimeout):
		return Res{Class: "hang", Msg: "no return within " + flagTimeout.String()}
	}
}

func main() {
	cases := flag.String("cases", "", "cases (ndjson)")
	out := flag.String("out", "", "trace (ndjson, appended)")
	scratch := flag.String("scratch", "", "scratch directory")
	progress := flag.String("progress", "", "file holding the number of the current case")
	skip := flag.Int("skip", 0, "number of cases to skip")
	child := flag.String("child", "", "run as a helper process")
	flag.Parse()
	if *child != "" {
		childMain(*child, flag.Args())
		return
	}

	f, err := os.Open(*cases)
	if err != nil {
		fatal("%v", err)
	}
	o, err := os.OpenFile(*out, os.O_WRONLY|os.O_CREATE|os.O_APPEND, 0644)
	if err != nil {
		fatal("%v", err)
	}
	w := bufio.NewWriterSize(o, 1<<20)
	flushOut = func() { w.Flush() }
	if len(*progress) == 0 {
		fatal("no -progress")
	}

	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for i := 0; sc.Scan(); i++ {
		if i < *skip {
			continue
		}
		line := append([]byte(nil), sc.Bytes()...)
		var head struct {
			Fam string `json:"fam"`
			Idx int    `json:"idx"`
			Rid int64  `json:"rid"`
		}
		if err := json.Unmarshal(line, &head); err != nil {
			fatal("bad case %s: %v", line, err)
		}
		fam, ok := families[head.Fam]
		if !ok {
			fatal("unknown family %q", head.Fam)
		}
		if err := os.WriteFile(*progress, []byte(strconv.Itoa(i)), 0644); err != nil {
			fatal("%v", err)
		}
		h := fnv.New64a()
		fmt.Fprint(h, head.Fam, head.Rid)
		c := &Ctx{
			Idx:  head.Idx,
			Rid:  head.Rid,
			Raw:  line,
			seed: *flagSeed ^ int64(h.Sum64()),
			Dir:  filepath.Join(*scratch, "case"),
			emit: func(e Ev) {
				b, err := json.Marshal(e)
				if err != nil {
					fatal("%v", err)
				}
				w.Write(b)
				w.WriteByte('\n')
			},
		}
		c.Rng = rand.New(rand.NewSource(c.seed))
		os.RemoveAll(c.Dir)
		if err := os.MkdirAll(c.Dir, 0755); err != nil {
			fatal("%v", err)
		}
		fam(c)
		os.RemoveAll(c.Dir)
		// Everything recorded for this case survives a later crash.
		if err := w.Flush(); err != nil {
			fatal("%v", err)
		}
	}
	if err := sc.Err(); err != nil {
		fatal("%v", err)
	}
	if err := w.Flush(); err != nil {
		fatal("%v", err)
	}
}

// ints converts bytes to a JSON array of numbers.
func ints(b []byte) []int {
	out := make([]int, len(b))
	for i, v := range b {
		out[i] = int(v)
	}
	return out
}

func unints(v []int) []byte {
	b := make([]byte, len(v))
	for i := range v {
		b[i] = byte(v[i])
	}
	return b
}
