package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"os/exec"
	"syscall"
)

func jsonUnmarshal(b []byte, v interface{}) error { return json.Unmarshal(b, v) }

// cliOut is the outcome of running the command.
type cliOut struct {
	code   int // exit status; -1: signal, -2: hang
	sig    string
	stdout []byte
	stderr []byte
}

func (o *cliOut) res() Res {
	switch {
	case o.code == 0:
		return Res{Class: "ok"}
	case o.code == -2:
		return Res{Class: "hang", Msg: "the command did not end"}
	case o.code == -1:
		return Res{Class: "panic", Msg: "killed by " + o.sig}
	case o.code == 2 && bytes.Contains(o.stderr, []byte("goroutine ")):
		return Res{Class: "panic", Msg: string(o.stderr)}
	default:
		return Res{Class: "err", Err: errors.New("exit status"), Msg: string(o.stderr)}
	}
}

// cliEnv is the environment of the command: it keeps away from the real home
// directory.
func cliEnv(home string) []string { return cliEnvOf(home, "tester") }

func cliEnvOf(home, user string) []string {
	return []string{"HOME=" + home, "USER=" + user, "LOGNAME=" + user, "PATH=/usr/bin:/bin", "TMPDIR=" + home}
}

const cliUID = 54321 // not in /etc/passwd: the home directory is $HOME

// runCLI runs the command in dir, which it may write, as an unprivileged user
// that has no other place to write to.
func runCLI(dir string, args []string, stdin []byte) *cliOut {
	chown(dir)
	cmd := exec.Command(*flagCLI, args...)
	cmd.SysProcAttr = userAttr()
	return runCmd(cmd, dir, cliEnv(dir), stdin)
}

func runCmd(cmd *exec.Cmd, dir string, env []string, stdin []byte) *cliOut {
	ctx, cancel := context.WithTimeout(context.Background(), *flagTimeout)
	defer cancel()
	var so, se bytes.Buffer
	cmd.Dir, cmd.Env = dir, env
	cmd.Stdout, cmd.Stderr = &so, &se
	if stdin != nil {
		cmd.Stdin = bytes.NewReader(stdin)
	}
	if cmd.SysProcAttr == nil {
		cmd.SysProcAttr = &syscall.SysProcAttr{}
	}
	cmd.SysProcAttr.Setpgid = true
	o := &cliOut{}
	if err := cmd.Start(); err != nil {
		fatal("running the command: %v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		var ee *exec.ExitError
		if errors.As(err, &ee) {
			o.code = ee.ExitCode()
			if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
				o.code, o.sig = -1, ws.Signal().String()
			}
		} else if err != nil {
			fatal("running the command: %v", err)
		}
	case <-ctx.Done():
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		o.code = -2
	}
	o.stdout, o.stderr = so.Bytes(), se.Bytes()
	return o
}
