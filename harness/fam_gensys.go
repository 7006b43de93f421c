package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

func init() {
	families["gensys"] = famGenSys
}

// genKey tells what a complete key file is: kind, and identity of the key pair.
func (g *gensys) genKey(b []byte) (string, int) {
	var id []byte
	kind := "part"
	if p := strictPayload(b, 42); p != nil && string(p[:2]) == "Ed" {
		kind, id = "pub", p[2:]
	} else if p := strictPayload(b, 104); p != nil && string(p[:4]) == "EdBK" && binary.BigEndian.Uint32(p[4:8]) <= 300 {
		if ok, m := unlocks(p, g.pass); ok {
			k := keyFromSeed(m[:32], p[32:40])
			kind, id = "sec", k.pubPayload()[2:]
		}
	}
	if id == nil {
		return "part", 0
	}
	v, ok := g.keys[string(id)]
	if !ok {
		v = len(g.keys) + 1
		g.keys[string(id)] = v
	}
	return kind, v
}

// secretAttempt tells if data written contains more than a comment and a
// public key.
func secretAttempt(b []byte) bool {
	if bytes.HasPrefix(b, []byte("untrusted comment")) {
		i := bytes.IndexByte(b, '\n')
		if i < 0 {
			return len(b) > 200
		}
		b = b[i+1:]
	}
	return len(b) > 57
}

type inode struct {
	id       int
	data     []byte
	attempts []byte
	dir      bool
	private  bool // directory
}

type ofd struct {
	ino *inode
	off int64
	app bool
}

type gensys struct {
	c     *Ctx
	dir   string
	pass  []byte
	keys  map[string]int
	names map[string]*inode
	fds   map[int]*ofd
	next  int
	rival string // what somebody else has created
}

// rel is the name in the scratch directory, or "".
func (g *gensys) rel(p string) string {
	r, err := filepath.Rel(g.dir, p)
	if err != nil || r == "." || strings.HasPrefix(r, "..") {
		return ""
	}
	return r
}

func (g *gensys) privateIn(q string) bool {
	for d := filepath.Dir(q); d != "."; d = filepath.Dir(d) {
		if n := g.names[d]; n != nil && n.private {
			return true
		}
	}
	return false
}

func (g *gensys) changed(n *inode) {
	has, key := g.genKey(n.data)
	g.c.Emit("change", Ev{"i": n.id, "secret": secretAttempt(n.attempts), "has": has, "key": key})
}

// replay turns the system calls into events.
func (g *gensys) replay(calls []sysCall) (stuck bool) {
	for _, c := range calls {
		arg := func(i int) string {
			if i < len(c.args) {
				return c.args[i]
			}
			return ""
		}
		fdOf := func(i int) *ofd {
			fd, _ := fdPath(arg(i))
			return g.fds[fd]
		}
		if c.delayed && g.rival != "" {
			n := &inode{id: g.next}
			g.next++
			g.names[g.rival] = n
			g.c.Emit("rival", Ev{"q": g.rival, "i": n.id})
		}
		switch c.name {
		case "openat", "open", "creat", "openat2":
			path, flags, mode := "", arg(2), arg(3)
			switch c.name {
			case "openat":
				path = atPath(arg(0), arg(1))
			case "openat2":
				fatal("strace: openat2 is not handled")
			case "creat":
				path, flags, mode = atPath("", arg(0)), "O_CREAT|O_WRONLY|O_TRUNC", arg(1)
			default:
				path, flags, mode = atPath("", arg(0)), arg(1), arg(2)
			}
			q := g.rel(path)
			if c.ret < 0 || c.injected {
				continue
			}
			fd := int(c.ret)
			delete(g.fds, fd)
			w := flagWords(flags)
			if w["O_TMPFILE"] {
				n := &inode{id: g.next}
				g.next++
				g.fds[fd] = &ofd{ino: n}
				g.c.Emit("create", Ev{"q": fmt.Sprintf(" anonymous %d", n.id), "i": n.id, "mode": octal(mode), "private": true})
				continue
			}
			if q == "" {
				continue
			}
			n := g.names[q]
			if n == nil {
				if !w["O_CREAT"] {
					continue
				}
				n = &inode{id: g.next}
				g.next++
				g.names[q] = n
				g.c.Emit("create", Ev{"q": q, "i": n.id, "mode": octal(mode), "private": g.privateIn(q)})
			} else if w["O_TRUNC"] {
				n.data = nil
				g.changed(n)
			}
			g.fds[fd] = &ofd{ino: n, app: w["O_APPEND"]}
		case "close":
			fd, _ := fdPath(arg(0))
			if !c.injected {
				delete(g.fds, fd)
			}
		case "dup", "dup2", "dup3":
			if f := fdOf(0); f != nil && c.ret >= 0 {
				g.fds[int(c.ret)] = f
			}
		case "fcntl":
			if f := fdOf(0); f != nil && c.ret >= 0 && strings.HasPrefix(arg(1), "F_DUPFD") {
				g.fds[int(c.ret)] = f
			}
		case "lseek":
			if f := fdOf(0); f != nil && c.ret >= 0 {
				f.off = c.ret
			}
		case "write", "pwrite64", "writev", "pwritev", "pwritev2":
			f := fdOf(0)
			if f == nil {
				continue
			}
			var b []byte
			if strings.Contains(c.name, "writev") {
				for _, part := range strings.Split(arg(1), "iov_base=")[1:] {
					b = append(b, unhex(strings.SplitN(part, ", iov_len", 2)[0])...)
				}
			} else {
				b = unhex(arg(1))
			}
			at := f.off
			if f.app {
				at = int64(len(f.ino.data))
			}
			if c.name[0] == 'p' {
				fmt.Sscan(arg(len(c.args)-1), &at)
			}
			// What the file would hold if the write were to succeed.
			for int64(len(f.ino.attempts)) < at+int64(len(b)) {
				f.ino.attempts = append(f.ino.attempts, 0)
			}
			copy(f.ino.attempts[at:], b)
			n := int(c.ret)
			if n < 0 || c.injected {
				n = 0
			}
			off := f.off
			if f.app {
				off = int64(len(f.ino.data))
			}
			if c.name[0] == 'p' {
				fmt.Sscan(arg(len(c.args)-1), &off)
			}
			for int64(len(f.ino.data)) < off+int64(n) {
				f.ino.data = append(f.ino.data, 0)
			}
			copy(f.ino.data[off:], b[:n])
			if c.name[0] != 'p' {
				f.off = off + int64(n)
			}
			g.changed(f.ino)
		case "ftruncate", "truncate":
			var n *inode
			if c.name == "truncate" {
				n = g.names[g.rel(atPath("", arg(0)))]
			} else if f := fdOf(0); f != nil {
				n = f.ino
			}
			if n != nil && c.ret == 0 && !c.injected {
				var size int
				fmt.Sscan(arg(1), &size)
				for len(n.data) < size {
					n.data = append(n.data, 0)
				}
				n.data = n.data[:size]
				g.changed(n)
			}
		case "copy_file_range", "sendfile", "splice":
			if c.ret > 0 {
				for i := range c.args {
					if f := fdOf(i); f != nil {
						fatal("strace: %s is not handled", c.name)
					}
				}
			}
		case "chmod", "fchmod", "fchmodat", "fchmodat2":
			var n *inode
			mode := arg(1)
			switch c.name {
			case "fchmod":
				if f := fdOf(0); f != nil {
					n = f.ino
				}
			case "chmod":
				n = g.names[g.rel(atPath("", arg(0)))]
			default:
				n = g.names[g.rel(atPath(arg(0), arg(1)))]
				mode = arg(2)
			}
			if n != nil && c.ret == 0 && !c.injected {
				g.c.Emit("chmod", Ev{"i": n.id, "mode": octal(mode) & 0777})
			}
		case "mkdir", "mkdirat":
			q, mode := "", arg(1)
			if c.name == "mkdirat" {
				q, mode = g.rel(atPath(arg(0), arg(1))), arg(2)
			} else {
				q = g.rel(atPath("", arg(0)))
			}
			if q != "" && c.ret == 0 && !c.injected {
				n := &inode{id: g.next, dir: true, private: octal(mode)&077 == 0}
				g.next++
				g.names[q] = n
				g.c.Emit("create", Ev{"q": q, "i": n.id, "mode": octal(mode), "private": g.privateIn(q)})
			}
		case "symlink", "symlinkat":
			q := ""
			if c.name == "symlinkat" {
				q = g.rel(atPath(arg(1), arg(2)))
			} else {
				q = g.rel(atPath("", arg(1)))
			}
			if q != "" && c.ret == 0 && !c.injected {
				n := &inode{id: g.next}
				g.next++
				g.names[q] = n
				g.c.Emit("create", Ev{"q": q, "i": n.id, "mode": 0700, "private": g.privateIn(q)})
			}
		case "link", "linkat", "rename", "renameat", "renameat2":
			var from, to string
			fd := -1
			if strings.Contains(c.name, "at") {
				from, to = g.rel(atPath(arg(0), arg(1))), g.rel(atPath(arg(2), arg(3)))
				if string(unhex(arg(1))) == "" || strings.HasPrefix(string(unhex(arg(1))), "/proc/self/fd/") {
					fmt.Sscanf(string(unhex(arg(1))), "/proc/self/fd/%d", &fd)
					if fd < 0 {
						fd, _ = fdPath(arg(0))
					}
				}
			} else {
				from, to = g.rel(atPath("", arg(0))), g.rel(atPath("", arg(1)))
			}
			if c.ret != 0 || c.injected {
				continue
			}
			n := g.names[from]
			if f := g.fds[fd]; f != nil {
				n = f.ino
			}
			if n == nil || to == "" {
				continue
			}
			if strings.HasPrefix(c.name, "rename") {
				delete(g.names, from)
				g.names[to] = n
				g.c.Emit("rename", Ev{"q": from, "r": to, "private": g.privateIn(to)})
			} else {
				g.names[to] = n
				g.c.Emit("point", Ev{"q": to, "i": n.id, "private": g.privateIn(to)})
			}
		case "unlink", "unlinkat", "rmdir":
			q := ""
			if c.name == "unlinkat" {
				q = g.rel(atPath(arg(0), arg(1)))
			} else {
				q = g.rel(atPath("", arg(0)))
			}
			if q == "" || g.names[q] == nil {
				continue
			}
			if c.injected {
				stuck = true
			} else if c.ret == 0 {
				delete(g.names, q)
				g.c.Emit("point", Ev{"q": q, "i": 0, "private": false})
			}
		}
	}
	return stuck
}

// scratchCall is a call on the scratch directory: the nth of its name made by
// its thread.
type scratchCall struct {
	name string
	nth  int
	file string
	fail bool
}

func (g *gensys) scratchCalls(calls []sysCall) []scratchCall {
	var out []scratchCall
	count := map[string]int{}
	for _, c := range calls {
		k := fmt.Sprint(c.pid, " ", c.name)
		count[k]++
		file := ""
		if c.name == "execve" || c.name == "epoll_ctl" {
			continue
		}
		for _, a := range c.args {
			if _, p := fdPath(a); p != "" && g.rel(p) != "" {
				file = g.rel(p)
			} else if strings.HasPrefix(a, `"`) {
				if p := string(unhex(a)); filepath.IsAbs(p) && g.rel(p) != "" {
					file = g.rel(p)
				}
			}
		}
		if file != "" {
			out = append(out, scratchCall{c.name, count[k], file, c.ret < 0})
		}
	}
	return out
}

var plainRuns = map[string][]scratchCall{}

type genCase struct {
	Via   string   `json:"via"` // api or cli
	Pass  []int    `json:"pass"`
	Pre   []string `json:"pre"` // of the two files
	Umask int      `json:"umask"`
	Fault string   `json:"fault"` // none, open1, write2, ...: as in the specification
	J     int      `json:"j"`     // any: which of the calls
	Errno string   `json:"errno"`
	Kill  bool     `json:"kill"`
	Limit *int64   `json:"limit"`
	Rival int      `json:"rival"` // somebody creates this file (1: secret) ...
	Rat   string   `json:"rat"`   // ... just before this call
}

func (g *gensys) argv(k *genCase, base string) ([]string, []string) {
	if k.Via == "api" {
		self, _ := os.Executable()
		return []string{self, "-child", "gen", "--", base, hex.EncodeToString(g.pass), "1"}, nil
	}
	if len(g.pass) == 0 {
		return []string{*flagCLI, "-G", "-n", "-p", base}, nil
	}
	return []string{*flagCLI, "-G", "-p", base}, []string{string(g.pass), string(g.pass)}
}

// findFault translates the fault to something strace understands.
func (g *gensys) findFault(k *genCase) string {
	if k.Rival > 0 {
		k.Fault = k.Rat
	}
	if k.Fault == "none" || k.Fault == "" {
		return ""
	}
	key := fmt.Sprint(k.Via, len(k.Pass) > 0)
	calls, ok := plainRuns[key]
	if !ok {
		d := filepath.Join(logDir(g.c), "plain")
		os.RemoveAll(d)
		os.MkdirAll(d, 0777)
		log := filepath.Join(logDir(g.c), "plainlog")
		os.Remove(log)
		argv, lines := g.argv(k, filepath.Join(d, "k"))
		out := runUser(d, traced(log, nil, nil, withLimits(limits{022, -1}, argv)), lines)
		if out.code == -2 {
			hang(out.res())
		}
		checkStrace(out)
		h := &gensys{c: g.c, dir: d}
		calls = h.scratchCalls(parseStrace(log))
		plainRuns[key] = calls
		os.RemoveAll(d)
	}
	var at *scratchCall
	if k.Fault == "any" {
		if len(calls) == 0 {
			return ""
		}
		at = &calls[k.J%len(calls)]
	} else {
		file := map[byte]string{'1': "k.sec", '2': "k.pub"}[k.Fault[len(k.Fault)-1]]
		for i := range calls {
			if strings.HasPrefix(calls[i].name, k.Fault[:len(k.Fault)-1]) && calls[i].file == file {
				at = &calls[i]
				break
			}
		}
	}
	if at == nil {
		return ""
	}
	if k.Rival > 0 {
		return fmt.Sprintf("%s:delay_enter=%d:when=%d", at.name, rivalDelay/time.Microsecond, at.nth)
	}
	if k.Kill {
		return fmt.Sprintf("%s:signal=KILL:when=%d", at.name, at.nth)
	}
	return fmt.Sprintf("%s:error=%s:when=%d", at.name, k.Errno, at.nth)
}

func famGenSys(c *Ctx) {
	var k genCase
	c.Parse(&k)
	c.Retrying(func(t *Ctx, try int) {
		// The fault, if there is one, has to hit a call on the scratch
		// directory: the threads of a program may share out their calls
		// differently, and then it hits the Go runtime.
		k := k
		if try >= 6 {
			k.Fault, k.Rival = "none", 0
		}
		genRun(t, k)
	})
}

// missed tells if a fault hit a call on something else.
func (g *gensys) missed(calls []sysCall) bool {
	for _, c := range calls {
		if (c.injected || c.delayed) && len(g.scratchCalls([]sysCall{c})) == 0 {
			return true
		}
	}
	return false
}

const rivalDelay = 300 * time.Millisecond

// waiting tells if a program waits in a call on the directory.
func (g *gensys) waiting(log, call string) bool {
	t := string(readFile(log))
	var open []string
	lines := strings.SplitAfter(t, "\n")
	for i, line := range lines {
		if m := reUnfin.FindStringSubmatch(strings.TrimSuffix(line, "\n")); m != nil {
			open = append(open, m[1]+" "+m[2])
		} else if m := reResume.FindStringSubmatch(strings.TrimSuffix(line, "\n")); m != nil {
			for j, o := range open {
				if strings.HasPrefix(o, m[1]+" ") {
					open = append(open[:j], open[j+1:]...)
					break
				}
			}
		} else if i == len(lines)-1 && line != "" {
			open = append(open, line)
		}
	}
	dir := ""
	for _, b := range []byte(g.dir) {
		dir += fmt.Sprintf("\\x%02x", b)
	}
	for _, o := range open {
		if f := strings.Fields(o); len(f) > 1 && strings.HasPrefix(f[1], call+"(") && strings.Contains(o, dir) {
			return true
		}
	}
	return false
}

// rivalry creates the file while the call is delayed.
func (g *gensys) rivalry(log, inject, name string, stop chan bool) (done bool) {
	call := strings.SplitN(inject, ":", 2)[0]
	since := time.Time{}
	for {
		select {
		case <-stop:
			return false
		case <-time.After(2 * time.Millisecond):
		}
		if !g.waiting(log, call) {
			since = time.Time{}
			continue
		}
		if since.IsZero() {
			since = time.Now()
		}
		if time.Since(since) < rivalDelay/6 {
			continue
		}
		f, err := os.OpenFile(filepath.Join(g.dir, name), os.O_CREATE|os.O_EXCL|os.O_WRONLY, 0644)
		if err == nil {
			f.WriteString("somebody else's\n")
			f.Chown(cliUID, cliUID)
			f.Close()
			g.rival = name
		}
		if !g.waiting(log, call) {
			panic(again("too late"))
		}
		return true
	}
}

func genRun(c *Ctx, k genCase) {
	g := &gensys{c: c, dir: c.Dir, keys: map[string]int{}, names: map[string]*inode{}, fds: map[int]*ofd{}, next: 1}
	for _, v := range k.Pass {
		g.pass = append(g.pass, byte(v))
	}
	syscall.Umask(022)
	inject := g.findFault(&k)
	target := filepath.Join(c.Dir, "target")
	old := map[string]entry{}
	for i, n := range []string{"k.sec", "k.pub"} {
		p := filepath.Join(c.Dir, n)
		if i >= len(k.Pre) {
			break
		}
		switch k.Pre[i] {
		case "file":
			writeFile(p, []byte("something important\n"), 0640)
		case "keyfile": // a key pair made earlier
			kk := keyFromSeed(bytes.Repeat([]byte{7}, 32), []byte("oldoldol"))
			if i == 0 {
				writeFile(p, refFile("signify private key", kk.secPayload(nil, 0, make([]byte, 16))), 0600)
			} else {
				writeFile(p, refFile("signify public key", kk.pubPayload()), 0644)
			}
		case "empty":
			writeFile(p, nil, 0644)
		case "dir":
			os.Mkdir(p, 0755)
		case "link":
			writeFile(target, []byte("something important\n"), 0644)
			os.Symlink("target", p)
		case "dangling":
			os.Symlink(n+".nowhere", p)
		case "fifo":
			syscall.Mkfifo(p, 0666)
		}
	}
	pre := []string{}
	look := func(m map[string]entry) []string {
		var ns []string
		fs, _ := os.ReadDir(c.Dir)
		for _, f := range fs {
			p := filepath.Join(c.Dir, f.Name())
			fi, err := os.Lstat(p)
			if err != nil {
				continue
			}
			e := entry{mode: fi.Mode(), ino: fi.Sys().(*syscall.Stat_t).Ino}
			if fi.Mode().IsRegular() {
				e.link = string(readFile(p))
			} else if fi.Mode()&os.ModeSymlink != 0 {
				e.link, _ = os.Readlink(p)
			}
			m[f.Name()] = e
			ns = append(ns, f.Name())
		}
		sort.Strings(ns)
		return ns
	}
	pre = append(pre, look(old)...)
	for i, n := range pre {
		g.names[n] = &inode{id: 101 + i, data: []byte(old[n].link)}
	}
	g.next = 201
	c.Emit("begin", Ev{"umask": k.Umask, "pre": pre, "case": fmt.Sprintf("%s %v %s %s", k.Via, k.Pre, k.Fault, inject)})

	log := filepath.Join(logDir(c), "log")
	os.Remove(log)
	argv, lines := g.argv(&k, filepath.Join(c.Dir, "k"))
	l := limits{k.Umask, -1}
	if k.Limit != nil {
		l.fsize = *k.Limit
	}
	var injects []string
	if inject != "" {
		injects = []string{inject}
	}
	chown(c.Dir)
	look(old) // the owner is not compared
	stop, ended := make(chan bool), make(chan interface{}, 1)
	if k.Rival > 0 && inject != "" {
		go func() {
			defer func() { ended <- recover() }()
			if !g.rivalry(log, inject, []string{"k.sec", "k.pub"}[k.Rival-1], stop) {
				panic(again("the call was not delayed"))
			}
		}()
	} else {
		ended <- nil
	}
	out := runUser(c.Dir, traced(log, injects, nil, withLimits(l, argv)), lines)
	close(stop)
	if r := <-ended; r != nil {
		panic(r)
	}
	if g.rival != "" {
		m := map[string]entry{}
		look(m)
		old[g.rival] = entry{mode: 0644, ino: m[g.rival].ino, link: "somebody else's\n"}
	}
	checkStrace(out)
	res := out.res().Class
	switch {
	case out.code == -2:
		hang(out.res())
	case k.Kill && inject != "" && (out.code == -1 || out.code == 137):
		res = "killed"
	case bytes.Contains(out.stderr, []byte("psdrv: exec")) || bytes.Contains(out.stderr, []byte("psdrv: rlimit")):
		fatal("%s", out.stderr)
	}
	calls := parseStrace(log)
	if g.missed(calls) {
		panic(again("a fault hit something else"))
	}
	if k.Rival > 0 {
		// Calls are counted by thread.
		n := 0
		for _, c := range calls {
			if c.delayed {
				n++
			}
		}
		if n > 1 {
			panic(again("several calls were delayed"))
		}
	}
	stuck := g.replay(calls)

	now := map[string]entry{}
	look(now)
	kept := true
	for n, e := range old {
		kept = kept && now[n] == e
	}
	found := func(n string) Ev {
		e, ok := now[n]
		o, was := old[n]
		if !ok {
			return Ev{"t": "none", "key": 0, "mode": 0, "old": false}
		}
		t, key := g.genKey([]byte(e.link))
		return Ev{"t": t, "key": key, "mode": int(e.mode.Perm()), "old": was && o == e}
	}
	hasPre := false
	for _, p := range k.Pre {
		hasPre = hasPre || p != "none"
	}
	c.Emit("end", Ev{"res": res, "stuck": stuck, "sec": found("k.sec"), "pub": found("k.pub"), "oldkept": kept,
		"clean": inject == "" && k.Limit == nil && !hasPre && g.rival == "", "msg": string(limit(out.stderr, 300))})
}
