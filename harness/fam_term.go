package main

import (
	"bytes"
	"crypto/sha512"
	"encoding/base64"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"github.com/kisom/psignify/crypto"
	"github.com/kisom/psignify/signify"
)

func init() { families["terminal"] = famTerminal }

type termCase struct {
	Mode   string   `json:"mode"`
	Lines  []string `json:"lines"`  // right, wrong, empty; fewer than needed: the terminal goes away
	Was    bool     `json:"was"`    // there is an echo at first
	Prot   bool     `json:"prot"`   // the key is protected
	Tty    bool     `json:"tty"`    // the outputs are the terminal, too
	Damage string   `json:"damage"` // of the secret key file
	Pass   []int    `json:"pass"`   // the right passphrase, if not a random one
	NoM    bool     `json:"nom"`    // there is no message, or encrypted file
	Block  string   `json:"block"`  // why it can't be done
}

func getTermios(f *os.File) (t syscall.Termios) {
	ioctl(f, syscall.TCGETS, unsafe.Pointer(&t))
	return
}

func setTermios(f *os.File, t syscall.Termios) {
	if err := ioctl(f, syscall.TCSETS, unsafe.Pointer(&t)); err != nil {
		fatal("pty: %v", err)
	}
}

// traces are the forms in which a secret could appear.
func traces(secret []byte, window int) [][]byte {
	var out [][]byte
	add := func(b []byte) {
		out = append(out, b)
	}
	if window == 0 || window > len(secret) {
		window = len(secret)
	}
	for i := 0; i+window <= len(secret); i++ {
		w := secret[i : i+window]
		add(w)
		add([]byte(hex.EncodeToString(w)))
		add([]byte(strings.ToUpper(hex.EncodeToString(w))))
		var dec []string
		for _, c := range w {
			dec = append(dec, strconv.Itoa(int(c)))
		}
		add([]byte(strings.Join(dec, " ")))
		// Whole groups within it.
		for a := 0; a < 3; a++ {
			if n := (len(w) - a) / 3 * 3; n >= 6 {
				add([]byte(base64.StdEncoding.EncodeToString(w[a : a+n])))
			}
		}
	}
	return out
}

func famTerminal(c *Ctx) {
	var k termCase
	c.Parse(&k)
	dir := c.Dir
	in := func(n string) string { return filepath.Join(dir, n) }
	made := func(err error) {
		if err != nil {
			fatal("terminal: %v", err)
		}
	}
	letters := "abcdefghijkmnopqrstuvwxyzABCDEFGHJKLMNPQRSTUVWXYZ23456789"
	right := make([]byte, 10+c.Rng.Intn(10))
	for i := range right {
		right[i] = letters[c.Rng.Intn(len(letters))]
	}
	if len(k.Pass) > 0 {
		right = nil
		for _, b := range k.Pass {
			right = append(right, byte(b))
		}
	}
	wrong := append([]byte{}, right...)
	wrong[len(wrong)/2] = '-'
	line := map[string][]byte{"right": right, "wrong": wrong, "empty": {}}

	writeFile(in("m"), makeMessage(3000, "", c.Rng), 0644)
	var args []string
	if k.Mode != "G" {
		var pass []byte
		if k.Prot {
			pass = append(pass, right...)
		}
		made(signify.GenerateKey(in("k"), pass, &signify.GenerateOptions{Rounds: 1 + c.Rng.Intn(3)}))
		p := setPrompt(right, nil)
		made(signify.Sign(in("k.sec"), in("m"), in("x")))
		made(crypto.Seal(in("k.pub"), in("m"), in("c")))
		_ = p
	}
	var secrets, keySecrets [][]byte
	for _, l := range k.Lines {
		if len(line[l]) >= 6 {
			secrets = append(secrets, traces(line[l], 0)...)
		}
	}
	if k.Prot && len(right) >= 6 {
		secrets = append(secrets, traces(right, 0)...)
	}
	ofKey := func(path string) {
		seed := seedOf(readFile(path), right)
		if seed == nil {
			return
		}
		sum := sha512.Sum512(seed)
		box := refBoxPriv(seed)
		keySecrets = append(keySecrets, traces(seed, 9)...)
		keySecrets = append(keySecrets, traces(sum[32:], 9)...)
		keySecrets = append(keySecrets, traces(box[:], 9)...)
	}
	if k.Mode != "G" {
		ofKey(in("k.sec"))
	}
	if k.Damage != "" {
		damageKey(in("k.sec"), k.Damage)
	}
	if k.NoM {
		os.Remove(in("m"))
		os.Remove(in("c"))
	}
	switch k.Mode {
	case "G":
		args = []string{"-G", "-p", "n"}
		if !k.Prot {
			args = append(args, "-n")
		}
	case "S":
		args = []string{"-S", "-s", "k.sec", "-m", "m"}
	case "V":
		args = []string{"-V", "-p", "k.pub", "-m", "m", "-x", "x"}
	case "E":
		args = []string{"-E", "-p", "k.pub", "-m", "m"}
	case "D":
		args = []string{"-D", "-s", "k.sec", "-c", "c", "-m", "o"}
	}

	chown(dir)
	switch k.Block {
	case "sec", "pub":
		writeFile(in("n."+k.Block), []byte("x\n"), 0644)
	case "secdir", "pubdir":
		made(os.Mkdir(in("n."+k.Block[:3]), 0755))
	case "mdir":
		made(os.Remove(in("m")))
		made(os.Mkdir(in("m"), 0755))
	case "outdir", "both":
		made(os.MkdirAll(in("m.sig/x"), 0755))
		made(os.MkdirAll(in("o/x"), 0755))
		if k.Block == "both" {
			made(os.Remove(in("m")))
		}
	case "nodir":
		for i, a := range args {
			if a == "n" || a == "o" {
				args[i] = "no/" + a
			}
		}
	case "readonly":
		made(os.Mkdir(in("r"), 0555))
		for i, a := range args {
			if a == "n" || a == "o" {
				args[i] = "r/" + a
			}
		}
		if k.Mode == "S" {
			args = append(args, "-x", "r/x")
		}
	case "cut":
		b := readFile(in("c"))
		writeFile(in("c"), b[:len(b)/2], 0644)
	case "flip":
		b := readFile(in("c"))
		b[len(b)-300] ^= 1
		writeFile(in("c"), b, 0644)
	case "other":
		writeFile(in("c"), readFile(in("x")), 0644)
	}
	m, s := openPty("")
	t := getTermios(s)
	if !k.Was {
		t.Lflag &^= syscall.ECHO
		setTermios(s, t)
	}
	t = getTermios(s)
	c.Emit("terminal", Ev{"echo": t.Lflag&syscall.ECHO != 0, "mode": k.Mode})
	var mu sync.Mutex
	var seen bytes.Buffer
	fd := int(m.Fd())
	syscall.SetNonblock(fd, true)
	stop, stoppedReading := make(chan bool), make(chan bool)
	go func() {
		defer close(stoppedReading)
		b := make([]byte, 4096)
		for last := false; ; {
			n, err := syscall.Read(fd, b)
			if n > 0 {
				mu.Lock()
				seen.Write(b[:n])
				mu.Unlock()
				continue
			}
			if last || err != syscall.EAGAIN && err != syscall.EINTR {
				return
			}
			select {
			case <-stop:
				last = true
			case <-time.After(3 * time.Millisecond):
			}
		}
	}()
	cmd := exec.Command(*flagCLI, args...)
	cmd.Dir, cmd.Env = dir, cliEnv(dir)
	cmd.SysProcAttr = userAttr()
	cmd.SysProcAttr.Setpgid = true
	cmd.Stdin = s
	var so, se bytes.Buffer
	if k.Tty {
		cmd.Stdout, cmd.Stderr = s, s
	} else {
		cmd.Stdout, cmd.Stderr = &so, &se
	}
	if err := cmd.Start(); err != nil {
		fatal("running the command: %v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	ended := false
	var werr error
	over := func(d time.Duration) bool {
		if ended {
			return true
		}
		select {
		case werr = <-done:
			ended = true
		case <-time.After(d):
		}
		return ended
	}
	// stopped calls f while the command is stopped, so that it can't change
	// the terminal meanwhile.
	stopped := func(f func()) {
		syscall.Kill(cmd.Process.Pid, syscall.SIGSTOP)
		for i := 0; i < 2000; i++ {
			st, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", cmd.Process.Pid))
			if err != nil {
				break
			}
			if i := bytes.LastIndexByte(st, ')'); i > 0 && i+2 < len(st) && strings.IndexByte("TtZX", st[i+2]) >= 0 {
				break
			}
			time.Sleep(time.Millisecond)
		}
		f()
		syscall.Kill(cmd.Process.Pid, syscall.SIGCONT)
	}
	needed := map[string]int{"G": 2, "S": 1, "D": 1}[k.Mode]
	if !k.Prot {
		needed = 0
	}
	gone := len(k.Lines) < needed
	for i := 0; i < len(k.Lines) && !ended; i++ {
		// The user types when prompted, which takes a moment.
		deadline := time.Now().Add(10 * time.Second)
		for typed := false; !typed && !over(70*time.Millisecond); {
			stopped(func() {
				echo := getTermios(s).Lflag&syscall.ECHO != 0
				if echo && time.Now().Before(deadline) {
					return
				}
				typed = true
				c.Emit("typed", Ev{"echo": echo, "empty": len(line[k.Lines[i]]) == 0})
				syscall.Write(fd, append(append([]byte{}, line[k.Lines[i]]...), '\n'))
			})
		}
		// It is read.
		for !over(5 * time.Millisecond) {
			var left int32
			ioctl(s, syscall.TIOCINQ, unsafe.Pointer(&left))
			if left == 0 || time.Now().After(deadline.Add(10*time.Second)) {
				break
			}
		}
	}
	leave := func() {
		close(stop)
		<-stoppedReading
		s.Close()
		m.Close()
	}
	if gone {
		over(200 * time.Millisecond)
		leave()
	}
	res := Res{Class: "ok"}
	if !over(*flagTimeout) {
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		res.Class = "hang"
	} else if werr != nil {
		res.Class = "err"
		var ee *exec.ExitError
		if errors.As(werr, &ee) {
			if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() && !gone {
				res.Class = "panic"
			}
		}
	}
	after := t
	if !gone {
		after = getTermios(s)
		time.Sleep(20 * time.Millisecond)
		leave()
	}
	if k.Mode == "G" {
		ofKey(in("n.sec"))
	}
	mu.Lock()
	outs := append([]byte{}, seen.Bytes()...)
	mu.Unlock()
	found := func(b []byte, s ...[][]byte) bool {
		for _, xs := range s {
			for _, x := range xs {
				if bytes.Contains(b, x) {
					return true
				}
			}
		}
		return false
	}
	shown, kept := []string{}, []string{}
	for _, o := range []struct {
		n string
		b []byte
	}{{"terminal", outs}, {"stdout", so.Bytes()}, {"stderr", se.Bytes()}} {
		if found(o.b, secrets, keySecrets) {
			shown = append(shown, o.n)
		}
	}
	look := func(p string, fi os.FileInfo) {
		if f, err := os.Open(p); err == nil {
			b, _ := io.ReadAll(io.LimitReader(f, 1<<20))
			f.Close()
			// A secret key file holds the secret key, perhaps protected, but no passphrase.
			all := keySecrets
			if filepath.Ext(p) == ".sec" && filepath.Dir(p) == dir && !protectedFile(b) {
				all = nil
			}
			if found(b, secrets, all) {
				kept = append(kept, p)
			}
		}
	}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			look(p, fi)
			if found([]byte(filepath.Base(p)), secrets, keySecrets) {
				kept = append(kept, "a name")
			}
		}
		return nil
	})
	for _, d := range []string{"/tmp", "/var/tmp", "/dev/shm"} {
		es, _ := os.ReadDir(d)
		for _, e := range es {
			if fi, err := e.Info(); err == nil && fi.Mode().IsRegular() {
				if st, ok := fi.Sys().(*syscall.Stat_t); ok && st.Uid == cliUID {
					n := len(kept)
					look(filepath.Join(d, e.Name()), fi)
					if len(kept) > n {
						os.Remove(filepath.Join(d, e.Name()))
					}
				}
			}
		}
	}
	const lflags = syscall.ECHO | syscall.ICANON | syscall.ISIG | syscall.ECHONL
	c.Emit("ended", Ev{"res": res.Class, "gone": gone, "echo": after.Lflag&syscall.ECHO != 0,
		"asbefore": after.Lflag&lflags == t.Lflag&lflags && after.Iflag&syscall.ICRNL == t.Iflag&syscall.ICRNL && after.Oflag == t.Oflag,
		"shown": shown, "kept": kept})
}

// secRecord is the record in a secret key file.
func secRecord(file []byte) []byte {
	i := bytes.IndexByte(file, '\n')
	if i < 0 {
		return nil
	}
	rec, err := base64.StdEncoding.DecodeString(string(bytes.TrimRight(file[i+1:], "\n")))
	if err != nil || len(rec) != 104 {
		return nil
	}
	return rec
}

func protectedFile(file []byte) bool {
	rec := secRecord(file)
	return rec != nil && string(rec[4:8]) != "\x00\x00\x00\x00"
}

// seedOf takes the secret part of the key from a secret key file.
func seedOf(file, pass []byte) []byte {
	rec := secRecord(file)
	if rec == nil {
		return nil
	}
	seed := append([]byte{}, rec[40:72]...)
	rounds := int(rec[4])<<24 | int(rec[5])<<16 | int(rec[6])<<8 | int(rec[7])
	if rounds > 0 {
		mask := refKDF(pass, rec[8:24], rounds)
		if mask == nil {
			return nil
		}
		for i := range seed {
			seed[i] ^= mask[i]
		}
	}
	if sum := sha512.Sum512(keyFromSeed(seed, nil).priv[:]); !bytes.Equal(sum[:8], rec[24:32]) {
		return nil
	}
	return seed
}

// damageKey damages a field of a secret key file.
func damageKey(path, what string) {
	rec := secRecord(readFile(path))
	if rec == nil {
		fatal("damage: no key")
	}
	if at, ok := map[string]int{"algo": 0, "kdf": 2, "salt": 8, "checksum": 24, "number": 32, "seed": 40, "public": 80}[what]; ok {
		rec[at] ^= 1
	}
	text := string(refB64(rec))
	switch what {
	case "short":
		text = text[:len(text)-4]
	case "long":
		text = text[:len(text)-4] + "AAAAAAAA"
	case "garbled":
		text = text[:30] + "*" + text[31:]
	}
	writeFile(path, []byte("untrusted comment: signify private key\n"+text+"\n"), 0600)
}
