package kit

import (
	"errors"
	"fmt"
	"runtime"
	"syscall"
	"unsafe"
)

// Calls a process can be made to die at.
var calls = map[string][]uint32{
	"open":     {2, 257, 437},    // open, openat, openat2
	"write":    {1, 18, 20, 296}, // write, pwrite64, writev, pwritev
	"close":    {3},
	"sync":     {74, 75, 277}, // fsync, fdatasync, sync_file_range
	"rename":   {82, 264, 316},
	"unlink":   {87, 263},
	"seek":     {8},
	"truncate": {76, 77},
	"link":     {86, 265},
}

// DieAt makes this process die (as if killed) at its next system call of the kind.
func DieAt(kind string) error {
	if runtime.GOARCH != "amd64" {
		return errors.New("not supported")
	}
	type filter struct {
		code   uint16
		jt, jf uint8
		k      uint32
	}
	type program struct {
		n       uint16
		filters *filter
	}
	const (
		load  = 0x20 // A = the number of the call
		equal = 0x15
		ret   = 0x06
		kill  = 0x80000000 // the whole process
		allow = 0x7fff0000
	)
	code := []filter{{load, 0, 0, 0}}
	numbers := calls[kind]
	if len(numbers) == 0 {
		return fmt.Errorf("unknown call %s", kind)
	}
	for i, n := range numbers {
		code = append(code, filter{equal, uint8(len(numbers) - i), 0, n})
	}
	code = append(code, filter{ret, 0, 0, allow}, filter{ret, 0, 0, kill})
	p := program{uint16(len(code)), &code[0]}
	runtime.LockOSThread()
	syscall.Setrlimit(syscall.RLIMIT_CORE, &syscall.Rlimit{})
	if _, _, e := syscall.RawSyscall6(syscall.SYS_PRCTL, 38, 1, 0, 0, 0, 0); e != 0 { // no new privileges
		return e
	}
	// seccomp(SECCOMP_SET_MODE_FILTER, all threads)
	if r, _, e := syscall.RawSyscall(317, 1, 1, uintptr(unsafe.Pointer(&p))); e != 0 || r != 0 {
		return fmt.Errorf("seccomp: %v %d", e, r)
	}
	runtime.KeepAlive(code)
	return nil
}
