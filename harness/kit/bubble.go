package kit

import (
	"testing"
	"testing/synctest"
)

// Bubble runs the function in virtual time (testing/synctest). Goroutines
// blocked forever make the case fail.
func (x *X) Bubble(f func()) {
	var failed any
	func() {
		defer func() {
			if r := recover(); r != nil && failed == nil {
				failed = r // the bubble is deadlocked
			}
		}()
		synctest.Test(x.T, func(*testing.T) {
			defer func() { failed = recover() }()
			f()
		})
	}()
	if failed != nil {
		panic(failed)
	}
}
