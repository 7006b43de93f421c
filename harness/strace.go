package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"syscall"
)

// limits are what a command is run with; the helper process sets them.
type limits struct {
	umask int   // -1: as it is
	fsize int64 // -1: no limit on the size of files
}

var noLimits = limits{-1, -1}

// withLimits is the command line of the helper that sets the limits and then
// executes the command.
func withLimits(l limits, argv []string) []string {
	if l == noLimits {
		return argv
	}
	self, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}
	return append([]string{self, "-child", "exec", "--", strconv.Itoa(l.umask), strconv.FormatInt(l.fsize, 10)}, argv...)
}

func childExec(args []string) {
	u, _ := strconv.Atoi(args[0])
	n, _ := strconv.ParseInt(args[1], 10, 64)
	if u >= 0 {
		syscall.Umask(u)
	}
	if n >= 0 {
		lim := syscall.Rlimit{Cur: uint64(n), Max: uint64(n)}
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
			fatal("rlimit: %v", err)
		}
	}
	err := syscall.Exec(args[2], args[2:], os.Environ())
	fatal("exec %s: %v", args[2], err)
}

// A sysCall is a system call of a traced program.
type sysCall struct {
	name     string
	args     []string
	ret      int64
	errno    string
	injected bool
	delayed  bool
	pid      int
}

// traced makes a command line run under strace, which logs to the file; only
// calls on the paths are logged and failed if there are any.
func traced(log string, inject []string, paths []string, argv []string) []string {
	out := []string{"strace", "-f", "-qq", "-y", "-xx", "-s", "1000000", "-o", log}
	for _, p := range paths {
		out = append(out, "-P", p)
	}
	out = append(out, "-e", "trace=%file,%desc", "-e", "signal=none")
	for _, i := range inject {
		out = append(out, "-e", "inject="+i)
	}
	return append(append(out, "--"), argv...)
}

var (
	reCall   = regexp.MustCompile(`^(\d+) +([a-z0-9_]+)\((.*)\) += (-?\d+|0x[0-9a-f]+|\?)(?:<[^>]*>)?(.*)$`)
	reUnfin  = regexp.MustCompile(`^(\d+) +([a-z0-9_]+\(.*) <unfinished \.\.\.>$`)
	reResume = regexp.MustCompile(`^(\d+) +<\.\.\. [a-z0-9_]+ resumed>(.*)$`)
	reErrno  = regexp.MustCompile(`^ ([A-Z0-9]+) `)
)

// splitArgs splits the arguments of a call at commas outside of strings,
// brackets and annotations.
func splitArgs(s string) []string {
	var out []string
	depth, str, start := 0, false, 0
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == '"':
			str = !str // everything in strings is hexadecimal
		case str:
		case c == '(' || c == '[' || c == '{' || c == '<':
			depth++
		case c == ')' || c == ']' || c == '}' || c == '>':
			depth--
		case c == ',' && depth <= 0:
			out = append(out, strings.TrimSpace(s[start:i]))
			start = i + 1
		}
	}
	if start < len(s) {
		out = append(out, strings.TrimSpace(s[start:]))
	}
	return out
}

// unhex decodes a string argument.
func unhex(s string) []byte {
	i := strings.IndexByte(s, '"')
	j := strings.LastIndexByte(s, '"')
	if i < 0 || j <= i {
		return nil
	}
	var out []byte
	for _, p := range strings.Split(s[i+1:j], `\x`)[1:] {
		v, err := strconv.ParseUint(p, 16, 8)
		if err != nil {
			fatal("strace: string %q", s)
		}
		out = append(out, byte(v))
	}
	return out
}

func parseStrace(log string) []sysCall {
	var out []sysCall
	open := map[string]string{}
	for _, line := range strings.Split(string(readFile(log)), "\n") {
		if m := reUnfin.FindStringSubmatch(line); m != nil {
			open[m[1]] = m[2]
			continue
		}
		if m := reResume.FindStringSubmatch(line); m != nil {
			line = m[1] + " " + open[m[1]] + m[2]
			delete(open, m[1])
		}
		m := reCall.FindStringSubmatch(line)
		if m == nil {
			continue
		}
		c := sysCall{name: m[2], args: splitArgs(m[3])}
		c.pid, _ = strconv.Atoi(m[1])
		if m[4] == "?" {
			c.ret = -1
			c.errno = "?"
		} else {
			c.ret, _ = strconv.ParseInt(m[4], 0, 64)
		}
		if e := reErrno.FindStringSubmatch(m[5]); e != nil {
			c.errno = e[1]
		}
		c.injected = strings.HasSuffix(m[5], "(INJECTED)")
		c.delayed = strings.HasSuffix(m[5], "(DELAYED)")
		out = append(out, c)
	}
	return out
}

// fdPath is the path of a descriptor argument like 3<\x2f...>.
func fdPath(arg string) (fd int, path string) {
	i := strings.IndexByte(arg, '<')
	if i < 0 {
		fd, err := strconv.Atoi(arg)
		if err != nil {
			fd = -1
		}
		return fd, ""
	}
	fd, err := strconv.Atoi(arg[:i])
	if err != nil {
		fd = -1 // AT_FDCWD
	}
	p := strings.TrimSuffix(arg[i+1:], ">")
	return fd, string(unhex(`"` + p + `"`))
}

// atPath joins a directory descriptor and a path.
func atPath(dir, name string) string {
	n := string(unhex(name))
	if filepath.IsAbs(n) {
		return filepath.Clean(n)
	}
	_, d := fdPath(dir)
	return filepath.Join(d, n)
}

// runUser runs a command in dir as the unprivileged user.
func runUser(dir string, argv []string, input []string) *cliOut {
	return runUserEnv(dir, cliEnv(dir), argv, input)
}

func runUserEnv(dir string, env, argv []string, input []string) *cliOut {
	chown(dir)
	cmd := exec.Command(argv[0], argv[1:]...)
	cmd.SysProcAttr = userAttr()
	if len(input) > 0 {
		m, s := typed(input)
		defer m.Close()
		defer s.Close()
		cmd.Stdin = s
	}
	return runCmd(cmd, dir, env, nil)
}

// runUserIn is runUser in a directory that is already that user's.
func runUserIn(dir string, argv []string) *cliOut {
	cmd := exec.Command(argv[0], argv[1:]...)
	cmd.SysProcAttr = userAttr()
	return runCmd(cmd, dir, cliEnv(dir), nil)
}

// logDir is where the unprivileged user may write a log: not in the directory
// that is watched.
func logDir(c *Ctx) string {
	d := filepath.Join(filepath.Dir(c.Dir), "logs")
	os.MkdirAll(d, 0777)
	os.Chmod(d, 0777)
	return d
}

func chown(dir string) {
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil {
			os.Lchown(p, cliUID, cliUID)
		}
		return nil
	})
}

func userAttr() *syscall.SysProcAttr {
	return &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: cliUID, Gid: cliUID, NoSetGroups: true}}
}

func flagWords(s string) map[string]bool {
	out := map[string]bool{}
	for _, w := range strings.Split(s, "|") {
		out[w] = true
	}
	return out
}

func octal(s string) int {
	v, err := strconv.ParseInt(s, 8, 32)
	if err != nil {
		fatal("strace: mode %q", s)
	}
	return int(v)
}

// straceWorks tells if programs can be traced here.
func straceWorks() error {
	var err error
	for try := 0; try < 5; try++ {
		if err = tryStrace(); err == nil {
			break
		}
	}
	return err
}

func tryStrace() error {
	d, err := os.MkdirTemp("", "psv-strace")
	if err != nil {
		return err
	}
	defer os.RemoveAll(d)
	os.Chmod(d, 0777)
	log := filepath.Join(d, "log")
	out := runUser(d, traced(log, nil, nil, []string{"/bin/true"}), nil)
	if out.code != 0 {
		return fmt.Errorf("strace: exit status %d: %s", out.code, out.stderr)
	}
	if !bytes.Contains(readFile(log), []byte("openat")) {
		return fmt.Errorf("strace logs nothing")
	}
	return nil
}
