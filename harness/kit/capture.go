package kit

import (
	"os"
	"path/filepath"
	"syscall"
)

// Captured runs f with the process's stdout and stderr redirected and returns
// what has been written to them.
func Captured(x *X, f func()) string {
	path := filepath.Join(x.Dir(), "output")
	out, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC|os.O_APPEND, 0644)
	if err != nil {
		Fatal("capture: %v", err)
	}
	defer out.Close()
	var saved [2]int
	for i := range saved {
		if saved[i], err = syscall.Dup(i + 1); err != nil {
			Fatal("capture: %v", err)
		}
		if err = syscall.Dup2(int(out.Fd()), i+1); err != nil {
			Fatal("capture: %v", err)
		}
	}
	func() {
		defer func() {
			for i := range saved {
				syscall.Dup2(saved[i], i+1)
				syscall.Close(saved[i])
			}
		}()
		f()
	}()
	data, err := os.ReadFile(path)
	if err != nil {
		Fatal("capture: %v", err)
	}
	return string(data)
}
