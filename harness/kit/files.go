package kit

import (
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// OpenFiles lists the files below the directory this process has open.
func OpenFiles(dir string) []string {
	var out []string
	fds, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		Fatal("fds: %v", err)
	}
	for _, fd := range fds {
		if target, err := os.Readlink("/proc/self/fd/" + fd.Name()); err == nil && strings.HasPrefix(target, dir) {
			out = append(out, filepath.Base(target))
		}
	}
	sort.Strings(out)
	return out
}
