package main

import (
	"fmt"
	"os"
	"syscall"
	"time"
	"unsafe"
)

func ioctl(f *os.File, req uintptr, arg unsafe.Pointer) error {
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, f.Fd(), req, uintptr(arg)); e != 0 {
		return e
	}
	return nil
}

// openPty opens a terminal in which the input has already been typed.
func openPty(input string) (master, slave *os.File) {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		fatal("%v", err)
	}
	var n uint32
	var unlock int32
	if err := ioctl(m, syscall.TIOCSPTLCK, unsafe.Pointer(&unlock)); err != nil {
		fatal("pty: %v", err)
	}
	if err := ioctl(m, syscall.TIOCGPTN, unsafe.Pointer(&n)); err != nil {
		fatal("pty: %v", err)
	}
	s, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		fatal("pty: %v", err)
	}
	if _, err := m.WriteString(input); err != nil {
		fatal("pty: %v", err)
	}
	return m, s
}

// typed opens a terminal at which the lines have been typed; "\x04" at the
// end: then it goes away.
func typed(lines []string) (m, s *os.File) {
	in, eof := "", false
	for _, l := range lines {
		if l != "\x04" {
			in += l + "\n"
		} else {
			eof = true
		}
	}
	m, s = openPty(in)
	if eof {
		// During the next prompt.
		time.AfterFunc(300*time.Millisecond, func() { m.Close() })
	}
	return m, s
}
