package helpers

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"iter"
	"os"
	"path/filepath"
	"recengine/internal/helpers"
	"recengine/vpbt/kit"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"testing"

	"pgregory.net/rapid"
)

// ---- sorted lists

// ListCase is an ascending list and what to do with it. Values are indices
// into a pool, which keeps their order whatever their type is.
type ListCase struct {
	Pool  []uint64 `json:"pool"`
	Count []int    `json:"count"` // how many times each pool element is in the list
	Ops   []ListOp `json:"ops"`
	Spare int      `json:"spare"` // spare capacity of the slice
	Type  string   `json:"type"`
	// If given, the pool consists of so many numbers, all of them in the list.
	Vast int    `json:"vast,omitempty"`
	Step uint64 `json:"step,omitempty"`
}

// ListOp is an operation about a pool element or a position.
type ListOp struct {
	K  string `json:"k"`
	V  int    `json:"v"`            // position in the pool
	D  int    `json:"d,omitempty"`  // distance from that
	At int    `json:"at,omitempty"` // position in the list
}

func drawList(t *rapid.T, sizes []int) ListCase {
	c := ListCase{Type: rapid.SampledFrom([]string{"uint64", "uint64", "int", "uint8", "int8", "int64", "float64", "uint16", "float32", "int16", "int32", "uint32"}).Draw(t, "type")}
	pool := kit.U64()
	switch c.Type {
	case "uint8":
		pool = rapid.Uint64Range(0, 255)
	case "int8": // shifted by 64, so that differences don't overflow
		pool = rapid.Uint64Range(0, 127)
	case "uint16":
		pool = rapid.Uint64Range(0, 65535)
	case "int", "int64":
		pool = rapid.OneOf(rapid.Uint64Range(0, 20), rapid.Uint64Range(0, 1<<62))
	case "float64":
		pool = rapid.OneOf(rapid.Uint64Range(0, 20), rapid.Uint64Range(0, 1<<40))
	case "float32": // exact in 24 bits
		pool = rapid.OneOf(rapid.Uint64Range(0, 20), rapid.Uint64Range(0, 1<<23))
	case "int16":
		pool = rapid.Uint64Range(0, 1<<15-1)
	case "int32":
		pool = rapid.OneOf(rapid.Uint64Range(0, 20), rapid.Uint64Range(0, 1<<31-1))
	case "uint32":
		pool = rapid.OneOf(rapid.Uint64Range(0, 20), rapid.Uint64Range(0, 1<<32-1))
	}
	size := rapid.SampledFrom(sizes).Draw(t, "size")
	if c.Type == "uint8" || c.Type == "int8" {
		size = min(size, 60)
	}
	c.Pool = rapid.SliceOfNDistinct(pool, max(1, size/2-4), size, rapid.ID[uint64]).Draw(t, "pool")
	sort.Slice(c.Pool, func(i, j int) bool { return c.Pool[i] < c.Pool[j] })
	distinct := rapid.Bool().Draw(t, "distinct")
	for range c.Pool {
		n := kit.Uniform(2).Draw(t, "in")
		if !distinct {
			n = rapid.SampledFrom([]int{0, 1, 1, 2, 3}).Draw(t, "count")
		}
		c.Count = append(c.Count, n)
	}
	c.Spare = rapid.IntRange(0, 3).Draw(t, "spare")
	c.Ops = kit.Seq(t, "ops", rapid.Custom(func(t *rapid.T) ListOp {
		op := ListOp{K: rapid.SampledFrom([]string{"find", "find", "index", "closest", "closest", "insert", "put", "put", "insertAt", "removeAt", "removeAt", "remove"}).Draw(t, "k")}
		op.V = kit.Uniform(len(c.Pool)).Draw(t, "v")
		op.D = rapid.SampledFrom([]int{0, 0, 0, 1, -1, 2, -3}).Draw(t, "d")
		op.At = kit.Uniform(200).Draw(t, "at")
		return op
	}), 1, 30)
	return c
}

func lists[T helpers.Numeric](x *kit.X, c ListCase, value func(v uint64) T, far func(a, b T) float64) {
	var list []T
	for i, v := range c.Pool {
		for n := 0; n < c.Count[i]; n++ {
			list = append(list, value(v))
		}
	}
	duplicates := false
	for i := 1; i < len(list); i++ {
		duplicates = duplicates || list[i] == list[i-1]
	}
	list = append(make([]T, 0, len(list)+c.Spare), list...)
	model := append([]T{}, list...)
	ascending := true
	for i, op := range c.Ops {
		v := value(c.Pool[op.V])
		if op.D != 0 {
			u := c.Pool[op.V] + uint64(op.D)
			if (op.D > 0) == (u > c.Pool[op.V]) && (u <= c.Pool[len(c.Pool)-1] && u >= c.Pool[0]) {
				v = value(u)
			}
		}
		shown := model
		if len(shown) > 2000 {
			shown = shown[:5]
		}
		when := fmt.Sprintf("step %d: %s %v in %v", i, op.K, v, shown)
		if len(shown) < len(model) {
			when += fmt.Sprintf(" and %d more", len(model)-len(shown))
		}
		has := false
		for _, m := range model {
			has = has || m == v
		}
		var before []T
		check := func(want []T) {
			if len(list) != len(want) {
				x.Failf("%s: got %.300s, expected %.300s", when, fmt.Sprint(list), fmt.Sprint(want))
			}
			for j := range want {
				if list[j] != want[j] {
					x.Failf("%s: got %.300s, expected %.300s, differing from position %d", when, fmt.Sprint(list), fmt.Sprint(want), j)
				}
			}
			model = append([]T{}, want...)
		}
		unchanged := func() {
			for j := range before {
				if list[j] != before[j] {
					x.Failf("%s changed the list to %.300s", when, fmt.Sprint(list))
				}
			}
		}
		if !ascending && (op.K == "find" || op.K == "closest" || op.K == "insert" || op.K == "put") {
			sort.Slice(list, func(a, b int) bool { return list[a] < list[b] })
			sort.Slice(model, func(a, b int) bool { return model[a] < model[b] })
			ascending = true
		}
		before = append(before, list...)
		switch op.K {
		case "find", "index":
			find := helpers.BinaryIndexOf[T]
			if op.K == "index" {
				find = func(l []T, v T) int { return helpers.IndexOf(l, v) }
			}
			got := find(list, v)
			if got < -1 || got >= len(list) || has != (got >= 0) || has && list[got] != v {
				x.Failf("%s: got position %d", when, got)
			}
			unchanged()
		case "closest":
			got := helpers.BinaryIndexOfClosest(list, v)
			if len(list) == 0 {
				if got != -1 {
					x.Failf("%s: got position %d", when, got)
				}
				continue
			}
			if got < 0 || got >= len(list) {
				x.Failf("%s: got position %d", when, got)
			}
			for _, m := range list {
				if far(m, v) < far(list[got], v) {
					x.Failf("%s: got %v, while %v is closer", when, list[got], m)
				}
			}
			unchanged()
		case "insert", "put":
			at := sort.Search(len(model), func(j int) bool { return model[j] > v })
			want := append(append(append([]T{}, model[:at]...), v), model[at:]...)
			if op.K == "put" && has {
				want = model
			}
			if op.K == "put" {
				list = helpers.PutSavingOrder(list, v)
			} else {
				list = helpers.InsertSavingOrder(list, v)
			}
			check(want)
		case "insertAt":
			at := op.At % (len(model) + 1)
			when += fmt.Sprintf(" at %d", at)
			want := append(append(append([]T{}, model[:at]...), v), model[at:]...)
			list = helpers.Insert(list, at, v)
			check(want)
			ascending = false
		case "removeAt":
			if len(model) == 0 {
				continue
			}
			at := op.At % len(model)
			when += fmt.Sprintf(" at %d", at)
			want := append(append([]T{}, model[:at]...), model[at+1:]...)
			list = helpers.RemoveSavingOrder(list, at)
			check(want)
		case "remove":
			if len(model) == 0 {
				continue
			}
			at := op.At % len(model)
			when += fmt.Sprintf(" at %d", at)
			want := append(append([]T{}, model[:at]...), model[at+1:]...)
			list = helpers.Remove(list, at)
			// any order
			got := append([]T{}, list...)
			sort.Slice(got, func(a, b int) bool { return got[a] < got[b] })
			sort.Slice(want, func(a, b int) bool { return want[a] < want[b] })
			if len(got) != len(want) {
				x.Failf("%s: %.300s left, expected %.300s", when, fmt.Sprint(got), fmt.Sprint(want))
			}
			for j := range want {
				if got[j] != want[j] {
					x.Failf("%s: %.300s left, expected %.300s", when, fmt.Sprint(got), fmt.Sprint(want))
				}
			}
			model = append([]T{}, list...)
			ascending = false
		}
	}
	if duplicates {
		x.Label("with duplicates")
	}
	if len(c.Ops) > 3 && len(model) > 0 {
		x.NonTrivial()
	}
}

func distance(a, b uint64) float64 {
	if a < b {
		return float64(b - a)
	}
	return float64(a - b)
}

func TestC14(t *testing.T) {
	run := func(x *kit.X, c ListCase) {
		x.Label(c.Type)
		for i := 0; i < c.Vast; i++ {
			c.Pool, c.Count = append(c.Pool, uint64(i)*c.Step), append(c.Count, 1)
		}
		if c.Vast > 65535 {
			x.Label("more than 65535 elements")
		}
		switch c.Type {
		case "uint64":
			// float64 distances are too coarse for close giants: compare exactly
			lists(x, c, func(v uint64) uint64 { return v }, distance)
			if c.Vast == 0 {
				exactClosest(x, c)
				words(x, c)
			}
		case "int":
			lists(x, c, func(v uint64) int { return int(v) - 10 }, func(a, b int) float64 { return distance(uint64(a+10), uint64(b+10)) })
		case "uint8":
			lists(x, c, func(v uint64) uint8 { return uint8(v) }, func(a, b uint8) float64 { return distance(uint64(a), uint64(b)) })
		case "int8":
			lists(x, c, func(v uint64) int8 { return int8(int(v) - 64) }, func(a, b int8) float64 { return distance(uint64(int(a)+64), uint64(int(b)+64)) })
		case "int64":
			lists(x, c, func(v uint64) int64 { return int64(v) - 1<<61 }, func(a, b int64) float64 { return distance(uint64(a+1<<61), uint64(b+1<<61)) })
		case "uint16":
			lists(x, c, func(v uint64) uint16 { return uint16(v) }, func(a, b uint16) float64 { return distance(uint64(a), uint64(b)) })
		case "int16":
			lists(x, c, func(v uint64) int16 { return int16(int(v) - 1<<14) }, func(a, b int16) float64 { return distance(uint64(int(a)+1<<14), uint64(int(b)+1<<14)) })
		case "int32":
			lists(x, c, func(v uint64) int32 { return int32(int(v) - 1<<30) }, func(a, b int32) float64 { return distance(uint64(int(a)+1<<30), uint64(int(b)+1<<30)) })
		case "uint32":
			lists(x, c, func(v uint64) uint32 { return uint32(v) }, func(a, b uint32) float64 { return distance(uint64(a), uint64(b)) })
		case "float32":
			lists(x, c, func(v uint64) float32 { return float32(v) - 64 }, func(a, b float32) float64 {
				if a < b {
					return float64(b - a)
				}
				return float64(a - b)
			})
		case "float64":
			lists(x, c, func(v uint64) float64 { return float64(v)/8 - 1 }, func(a, b float64) float64 {
				if a < b {
					return b - a
				}
				return a - b
			})
		}
	}
	kit.Main(t, "C14",
		"random ascending lists (with and without duplicates, of several element types, with spare capacity) and random sequences of searching, nearest search, inserting, putting and removing on them, compared with naive implementations after every step. Non-trivial: at least four operations on a list that is not empty in the end.",
		kit.New("lists", 60000, 800000, func(t *rapid.T) ListCase { return drawList(t, []int{3, 8, 16, 30, 60}) }, run),
		kit.Together(800, 16000, func(t *rapid.T) ListCase { return drawList(t, []int{16, 60, 300}) }, run),
		kit.New("long-lists", 800, 20000, func(t *rapid.T) ListCase { return drawList(t, []int{130, 300, 1200}) }, run),
		kit.New("vast-lists", 40, 800, func(t *rapid.T) ListCase {
			c := ListCase{Type: rapid.SampledFrom([]string{"uint64", "int", "float64", "int64", "uint32"}).Draw(t, "type")}
			c.Vast = rapid.OneOf(rapid.IntRange(65530, 65550), rapid.IntRange(30000, 140000)).Draw(t, "size")
			c.Step = rapid.SampledFrom([]uint64{1, 2, 3, 1000}).Draw(t, "step")
			c.Spare = rapid.IntRange(0, 3).Draw(t, "spare")
			c.Ops = kit.Seq(t, "ops", rapid.Custom(func(t *rapid.T) ListOp {
				op := ListOp{K: rapid.SampledFrom([]string{"find", "find", "find", "index", "closest", "closest", "insert", "put", "insertAt", "removeAt", "remove"}).Draw(t, "k")}
				op.V = rapid.OneOf(kit.Uniform(c.Vast), rapid.Map(kit.Uniform(40), func(n int) int { return c.Vast - 1 - n })).Draw(t, "v")
				op.D = rapid.SampledFrom([]int{0, 0, 0, 1, -1}).Draw(t, "d")
				op.At = rapid.OneOf(kit.Uniform(c.Vast), rapid.Map(kit.Uniform(40), func(n int) int { return c.Vast - 1 - n })).Draw(t, "at")
				return op
			}), 1, 12)
			return c
		}, run).Patient(100),
	)
}

// exactClosest checks nearest search with exact distances.
func exactClosest(x *kit.X, c ListCase) {
	var list []uint64
	for i, v := range c.Pool {
		if c.Count[i] > 0 {
			list = append(list, v)
		}
	}
	if len(list) == 0 {
		return
	}
	d := func(a, b uint64) uint64 {
		if a < b {
			return b - a
		}
		return a - b
	}
	for _, v := range c.Pool {
		for _, needle := range []uint64{v, v + 1, v - 1, v + v/3} {
			got := helpers.BinaryIndexOfClosest(list, needle)
			for _, m := range list {
				if got < 0 || got >= len(list) || d(m, needle) < d(list[got], needle) {
					x.Failf("nearest to %d in %v: got position %d", needle, list, got)
				}
			}
		}
	}
}

// words checks searching among strings.
func words(x *kit.X, c ListCase) {
	var list []string
	has := map[string]bool{}
	word := func(v uint64) string { return fmt.Sprintf("%020d", v)[v%3:] }
	for i, v := range c.Pool {
		if c.Count[i] > 0 {
			list = append(list, word(v))
			has[word(v)] = true
		}
	}
	sort.Strings(list)
	for _, v := range c.Pool {
		for _, needle := range []string{word(v), word(v + 1), "", word(v) + "x"} {
			got := helpers.BinaryIndexOf(list, needle)
			if got < -1 || got >= len(list) || has[needle] != (got >= 0) || got >= 0 && list[got] != needle {
				x.Failf("finding %q in %q: got position %d", needle, list, got)
			}
		}
	}
}

// ---- in-memory file

// FileOp is an operation of a file.
type FileOp struct {
	K string `json:"k"` // read, write, seek, truncate, outside, close
	N int    `json:"n"`
	W int    `json:"w,omitempty"` // whence
	B byte   `json:"b,omitempty"`
}

// FileCase is a history of a file.
type FileCase struct {
	Initial []byte   `json:"init"`
	Nil     bool     `json:"nil"`
	Ops     []FileOp `json:"ops"`
	// Other is the history of another file used in turn with this one.
	Other *FileCase `json:"other,omitempty"`
}

var files atomic.Int64

func TestC23(t *testing.T) {
	one := func(x *kit.X, c FileCase, pause func()) {
		path := filepath.Join(x.Dir(), fmt.Sprint(files.Add(1)))
		if err := os.WriteFile(path, c.Initial, 0644); err != nil {
			kit.Fatal("write: %v", err)
		}
		real, err := os.OpenFile(path, os.O_RDWR, 0)
		if err != nil {
			kit.Fatal("open: %v", err)
		}
		x.Cleanup(func() { real.Close() })
		var fb *helpers.FileBuffer
		if c.Nil && len(c.Initial) == 0 {
			fb = helpers.NewFileBuffer(nil)
		} else {
			fb = helpers.NewFileBuffer(append([]byte{}, c.Initial...))
		}
		size := func() int64 {
			st, err := real.Stat()
			if err != nil {
				kit.Fatal("stat: %v", err)
			}
			return st.Size()
		}
		closed := false
		changed, sought := false, false
		for i, op := range c.Ops {
			when := fmt.Sprintf("step %d: %s %d", i, op.K, op.N)
			pause()
			if closed {
				bad := ""
				buf := make([]byte, 3)
				if _, err := fb.Read(buf); err == nil || err == io.EOF {
					bad = "read"
				}
				if n, err := fb.Write([]byte{1}); err == nil || n != 0 {
					bad = "write"
				}
				if _, err := fb.Seek(0, io.SeekStart); err == nil {
					bad = "seek"
				}
				if err := fb.Truncate(0); err == nil {
					bad = "truncate"
				}
				if bad != "" {
					x.Failf("%s on a closed file: %s succeeds", when, bad)
				}
				x.Label("closed")
				break
			}
			pos, err := real.Seek(0, io.SeekCurrent)
			if err != nil {
				kit.Fatal("seek: %v", err)
			}
			switch op.K {
			case "read":
				a, b := make([]byte, op.N), make([]byte, op.N)
				n, err := fb.Read(a)
				m, realErr := real.Read(b)
				if op.N > 0 && (n != m || (err == io.EOF) != (realErr == io.EOF) || (err == nil) != (realErr == nil)) || !bytes.Equal(a[:m], b[:m]) {
					x.Failf("%s at %d of %d: (%d, %v), a real file gives (%d, %v)", when, pos, size(), n, err, m, realErr)
				}
			case "write":
				data := make([]byte, op.N)
				for j := range data {
					data[j] = op.B + byte(j)
				}
				keep := append([]byte{}, data...)
				n, err := fb.Write(data)
				m, realErr := real.Write(keep)
				if n != m || (err == nil) != (realErr == nil) {
					x.Failf("%s at %d of %d: (%d, %v), a real file gives (%d, %v)", when, pos, size(), n, err, m, realErr)
				}
				if !bytes.Equal(data, keep) {
					x.Failf("%s changed what it writes", when)
				}
				for j := range data {
					data[j] = 0xEE // it must have been copied
				}
				changed = changed || sought && op.N > 0
			case "seek", "outside":
				base := []int64{0, pos, size()}[op.W]
				target := int64(op.N) % (size() + 1)
				if op.K == "outside" {
					target = size() + 1 + int64(op.N)
					if op.B%2 == 0 {
						target = -1 - int64(op.N)
					}
				}
				if op.K == "outside" && op.B%16 == 3 {
					// Relatively to an unknown origin
					from := []int{-1, 5, 7}[op.W]
					if got, err := fb.Seek(int64(op.N)%(size()+1), from); err == nil {
						x.Failf("%s: seeking with origin %d gives %d", when, from, got)
					}
					break
				}
				got, err := fb.Seek(target-base, op.W)
				if op.K == "outside" {
					if err == nil {
						x.Failf("%s: seeking to %d of %d succeeds", when, target, size())
					}
				} else {
					if err != nil || got != target {
						x.Failf("%s: seeking to %d of %d gives (%d, %v)", when, target, size(), got, err)
					}
					real.Seek(target, io.SeekStart)
					sought = true
				}
			case "truncate":
				to := int64(op.N)
				if op.B%16 == 5 {
					to = -1 - to
				}
				err, realErr := fb.Truncate(to), real.Truncate(to)
				if (err == nil) != (realErr == nil) {
					x.Failf("%s of %d: %v, a real file gives %v", when, size(), err, realErr)
				}
				if pos > to && to >= 0 { // this position doesn't exist anymore
					if buf := make([]byte, 3); op.B%2 == 1 {
						if n, err := fb.Read(buf); n != 0 || err != io.EOF {
							x.Failf("%s: reading beyond the new end gives (%d, %v), expected the end of the file", when, n, err)
						}
					}
					if got, err := fb.Seek(to, io.SeekStart); err != nil || got != to {
						x.Failf("%s: cannot seek to the new end: (%d, %v)", when, got, err)
					}
					real.Seek(to, io.SeekStart)
				}
				changed = true
			case "close":
				if err := fb.Close(); err != nil {
					x.Failf("%s failed: %v", when, err)
				}
				closed = true
				continue
			}
			want, err := os.ReadFile(path)
			if err != nil {
				kit.Fatal("read: %v", err)
			}
			if !bytes.Equal(fb.Bytes(), want) || fb.Len() != len(want) {
				x.Failf("%s: the contents are % x (%d bytes), expected % x", when, fb.Bytes(), fb.Len(), want)
			}
			realPos, _ := real.Seek(0, io.SeekCurrent)
			if got, err := fb.Seek(0, io.SeekCurrent); err != nil || got != realPos {
				x.Failf("%s: the position is (%d, %v), expected %d", when, got, err, realPos)
			}
		}
		if changed && sought {
			x.NonTrivial()
		}
	}
	run := func(x *kit.X, c FileCase) {
		if c.Other == nil {
			one(x, c, func() {})
			return
		}
		x.Label("two files")
		start := func(c FileCase) func() bool {
			next, _ := iter.Pull(func(yield func(int) bool) { one(x, c, func() { yield(0) }) })
			return func() bool { _, more := next(); return more }
		}
		a, b := start(c), start(*c.Other)
		for moreA, moreB := true, true; moreA || moreB; {
			moreA = moreA && a()
			moreB = moreB && b()
		}
	}
	draw := func(initial, size int) func(t *rapid.T) FileCase {
		return func(t *rapid.T) FileCase {
			c := FileCase{Initial: kit.Bytes(t, "initial", 0, initial), Nil: rapid.Bool().Draw(t, "nil")}
			if c.Nil && kit.Uniform(3).Draw(t, "empty") == 0 {
				c.Initial = nil
			}
			c.Ops = kit.Seq(t, "ops", rapid.Custom(func(t *rapid.T) FileOp {
				op := FileOp{K: rapid.SampledFrom([]string{"read", "read", "write", "write", "write", "seek", "seek", "seek", "truncate", "outside",
					"read", "write", "seek", "truncate", "write", "read", "write", "seek", "truncate", "write", "read", "write", "seek", "read", "write", "seek", "close"}).Draw(t, "k")}
				op.W = rapid.IntRange(0, 2).Draw(t, "whence")
				op.B = rapid.Byte().Draw(t, "byte")
				op.N = rapid.OneOf(rapid.IntRange(0, 10), kit.Uniform(300), rapid.IntRange(0, size)).Draw(t, "n")
				return op
			}), 1, 40)
			return c
		}
	}
	kit.Main(t, "C23",
		"random histories of reads, writes, seeks (also refused ones), truncations and closing of one or two files in turn, executed on the in-memory file and on a regular file at once; results, positions and contents compared after every step. Non-trivial: contents changed after a seek or by a truncation.",
		kit.New("files", 16000, 320000, draw(200, 6000), run),
		kit.New("two-files", 4000, 80000, func(t *rapid.T) FileCase {
			c, o := draw(200, 1000)(t), draw(200, 1000)(t)
			c.Other = &o
			return c
		}, run),
		kit.Together(400, 8000, draw(200, 6000), run),
		kit.New("large", 400, 8000, draw(3000, 200000), run),
		kit.New("vast", 30, 400, draw(3000, 3000000), run),
	)
}

// ---- zero-filling and skipping

// StreamCase is a transfer by a stream splitting it.
type StreamCase struct {
	Skip  bool  `json:"skip"`
	Size  int   `json:"size"`
	Steps []int `json:"steps"` // sizes of transfers, cyclically; 0 = nothing transferred
	Limit int   `json:"limit"` // bytes until the stream fails, if Fails
	Fails bool  `json:"fails"`
	With  bool  `json:"with"` // the error comes along with the last bytes
	Extra int   `json:"extra"`
	EOF   bool  `json:"eof"`
}

var errStream = errors.New("stream failure")

var junk = bytes.Repeat([]byte{0xA5}, 1000)

// stream transfers at most so many bytes at a time.
type stream struct {
	c     *StreamCase
	moved int
	step  int
	bad   string
	calls int
}

func (s *stream) transfer(n int) (int, error) {
	s.calls++
	if s.calls > 100000+s.c.Size {
		panic("the transfer does not end")
	}
	fail := errStream
	if s.c.EOF {
		fail = io.EOF
	}
	if len(s.c.Steps) > 0 {
		n = min(n, s.c.Steps[s.step%len(s.c.Steps)])
		s.step++
	}
	if s.c.Fails {
		if s.moved+n >= s.c.Limit {
			n = s.c.Limit - s.moved
			if n == 0 || s.c.With {
				s.moved += n
				return n, fail
			}
		}
	}
	s.moved += n
	return n, nil
}

func (s *stream) Write(b []byte) (int, error) {
	if bytes.Count(b, []byte{0}) != len(b) {
		s.bad = fmt.Sprintf("%x written", b[:min(len(b), 200)])
	}
	return s.transfer(len(b))
}

func (s *stream) Read(b []byte) (int, error) {
	n, err := s.transfer(len(b))
	copy(b[:n], junk)
	return n, err
}

func oneTransfer(c StreamCase) string {
	s := &stream{c: &c}
	var n int
	var err error
	if c.Skip {
		n, err = helpers.SkipReading(c.Size, s)
	} else {
		n, err = helpers.WriteZeros(c.Size, s)
	}
	want := c.Size
	if c.Fails && c.Limit < c.Size {
		want = c.Limit
		if err != errStream && !(c.EOF && errors.Is(err, io.EOF)) && !(c.EOF && errors.Is(err, io.ErrUnexpectedEOF)) {
			return fmt.Sprintf("the failure of the stream is reported as %v", err)
		}
	} else if err != nil && !(c.Fails && c.Limit == c.Size && !c.Skip) {
		return fmt.Sprintf("failed with everything transferred: %v", err)
	}
	if n != want || s.moved != want {
		return fmt.Sprintf("%d bytes are reported, %d transferred, expected %d", n, s.moved, want)
	}
	if s.bad != "" {
		return s.bad
	}
	return ""
}

func drawStream(t *rapid.T) StreamCase {
	c := StreamCase{Skip: rapid.Bool().Draw(t, "skip")}
	c.Size = rapid.OneOf(rapid.IntRange(0, 10), rapid.IntRange(95, 105), rapid.IntRange(195, 205), kit.Uniform(1000), rapid.IntRange(0, 20000)).Draw(t, "size")
	c.Steps = rapid.SliceOfN(rapid.OneOf(rapid.IntRange(1, 10), rapid.IntRange(90, 110), kit.Uniform(1000)), 0, 5).Draw(t, "steps")
	if len(c.Steps) > 0 && c.Skip { // (a writer transferring nothing has to tell why)
		zero := true
		for _, s := range c.Steps {
			zero = zero && s == 0
		}
		if zero {
			c.Steps = append(c.Steps, 1)
		}
	} else {
		for i := range c.Steps {
			c.Steps[i]++
		}
	}
	if rapid.Bool().Draw(t, "fails") {
		c.Fails = true
		c.Limit = rapid.OneOf(rapid.Just(c.Size), kit.Uniform(c.Size+1), rapid.IntRange(0, c.Size+50)).Draw(t, "limit")
		c.With = rapid.Bool().Draw(t, "with")
		c.EOF = c.Skip && rapid.Bool().Draw(t, "eof")
	}
	return c
}

// frugal tells if transfers of gigabytes are practicable: the memory and the
// calls taken don't grow like those of a transfer all at once or by the byte.
var frugal = sync.OnceValues(func() (bool, bool) {
	probe := func(skip bool) bool {
		const size = 1 << 24
		s := &stream{c: &StreamCase{Skip: skip, Size: size}}
		var before, after runtime.MemStats
		runtime.ReadMemStats(&before)
		if skip {
			helpers.SkipReading(size, s)
		} else {
			helpers.WriteZeros(size, s)
		}
		runtime.ReadMemStats(&after)
		return after.TotalAlloc-before.TotalAlloc < size/2 && s.calls < size/64
	}
	return probe(false), probe(true)
})

func vastTransfer(x *kit.X, c StreamCase) bool {
	write, skip := frugal()
	if c.Skip && skip || !c.Skip && write {
		return true
	}
	x.Label("gigabytes are impracticable")
	return false
}

// drawGreat makes transfers of about the given sizes, up to the last one.
func drawGreat(t *rapid.T, sizes ...int) StreamCase {
	c := drawStream(t)
	most := sizes[len(sizes)-1]
	c.Size = rapid.OneOf(rapid.SampledFrom(sizes), rapid.Custom(func(t *rapid.T) int {
		return min(most, rapid.SampledFrom(sizes).Draw(t, "about")+rapid.IntRange(-110, 110).Draw(t, "more"))
	}), rapid.IntRange(sizes[0], most)).Draw(t, "great")
	for i := range c.Steps {
		c.Steps[i] += 90
	}
	if c.Fails {
		c.Limit = rapid.OneOf(rapid.Just(c.Size), rapid.IntRange(max(0, c.Size-110), c.Size+110), rapid.IntRange(c.Size/2, c.Size), rapid.IntRange(0, c.Size)).Draw(t, "far")
	}
	return c
}

// KindCase is a transfer by a file or a buffer.
type KindCase struct {
	Kind     string `json:"kind"`
	Skip     bool   `json:"skip"`
	Size     int    `json:"size"`
	Have     int    `json:"have"`
	At       int    `json:"at"`
	Buffered bool   `json:"buffered"`
}

func TestC27(t *testing.T) {
	single := func(x *kit.X, c StreamCase) {
		if msg := oneTransfer(c); msg != "" {
			x.Failf("%s", msg)
		}
		if c.Size > 0 && (len(c.Steps) > 0 || c.Fails) {
			x.NonTrivial()
		}
		if c.Fails && c.Limit < c.Size {
			x.Label("stream failure")
		}
	}
	// Streams that are more than streams
	real := func(x *kit.X, c KindCase) {
		contents := make([]byte, c.Have)
		for i := range contents {
			contents[i] = byte(i%251) + 1
		}
		when := fmt.Sprintf("%s of %d bytes, from %d", c.Kind, c.Have, c.At)
		var file io.ReadWriteSeeker
		var bytesOf func() []byte
		switch c.Kind {
		case "mem":
			d := kit.NewDisk(contents)
			d.Record = false
			file, bytesOf = d.Handle(), func() []byte { return d.Data }
		case "buf":
			fb := helpers.NewFileBuffer(append([]byte{}, contents...))
			file, bytesOf = fb, fb.Bytes
		case "os":
			path := filepath.Join(x.Dir(), "stream")
			if err := os.WriteFile(path, contents, 0644); err != nil {
				kit.Fatal("write: %v", err)
			}
			f, err := os.OpenFile(path, os.O_RDWR, 0)
			if err != nil {
				kit.Fatal("open: %v", err)
			}
			x.Cleanup(func() { f.Close() })
			file, bytesOf = f, func() []byte { b, _ := os.ReadFile(path); return b }
		}
		if _, err := file.Seek(int64(c.At), io.SeekStart); err != nil {
			kit.Fatal("seek: %v", err)
		}
		if c.Skip {
			var r io.Reader = file
			if c.Buffered {
				r = bufio.NewReaderSize(file, 64)
			}
			n, err := helpers.SkipReading(c.Size, r)
			want := min(c.Size, c.Have-c.At)
			if n != want || (err == nil) != (want == c.Size) {
				x.Failf("%s: skipping %d bytes gives (%d, %v)", when, c.Size, n, err)
			}
			rest, err := io.ReadAll(r)
			if err != nil || !bytes.Equal(rest, contents[c.At+want:]) {
				x.Failf("%s: after skipping %d bytes %d are left, expected %d (%v)", when, c.Size, len(rest), c.Have-c.At-want, err)
			}
			contents = append([]byte{}, contents...)
		} else {
			var w io.Writer = file
			var bw *bufio.Writer
			if c.Buffered {
				bw = bufio.NewWriterSize(file, 64)
				w = bw
			}
			n, err := helpers.WriteZeros(c.Size, w)
			if err != nil || n != c.Size {
				x.Failf("%s: writing %d zeros gives (%d, %v)", when, c.Size, n, err)
			}
			w.Write([]byte("after"))
			if bw != nil {
				bw.Flush()
			}
			out := append(append([]byte{}, contents[:c.At]...), make([]byte, c.Size)...)
			out = append(out, "after"...)
			if len(out) < len(contents) {
				out = append(out, contents[len(out):]...)
			}
			contents = out
		}
		if got := bytesOf(); !bytes.Equal(got, contents) {
			x.Failf("%s: %d zeros written, the contents are wrong (%d bytes, expected %d)", when, c.Size, len(got), len(contents))
		}
		if c.Size > 0 {
			x.NonTrivial()
		}
		x.Label(c.Kind)
	}
	type Many struct {
		Cases []StreamCase `json:"cases"`
	}
	concurrent := func(x *kit.X, c Many) {
		msgs := make([]string, len(c.Cases))
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := range c.Cases {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for n := 0; n < 3 && msgs[i] == ""; n++ {
					msgs[i] = oneTransfer(c.Cases[i])
				}
			}()
		}
		close(start)
		wg.Wait()
		for i, m := range msgs {
			if m != "" {
				x.Failf("concurrent transfer %d: %s", i, m)
			}
		}
		x.NonTrivial()
	}
	kit.Main(t, "C27",
		"transfers of any size by streams splitting them in any way, transferring nothing at times, and failing at any byte with or after the last bytes, alone and concurrently, up to more than 4 GB, and by files and buffers of any length under the race detector. Non-trivial: the stream splits the transfer or fails; every concurrent case.",
		kit.New("single", 20000, 300000, drawStream, single),
		kit.New("great", 300, 6000, func(t *rapid.T) StreamCase { return drawGreat(t, 1<<16, 1<<18, 1<<20, 1<<24) }, single),
		kit.New("vast", 2, 20, func(t *rapid.T) StreamCase { return drawGreat(t, 1<<30, 1<<31, 1<<32-1, 1<<32+5000) }, func(x *kit.X, c StreamCase) {
			if vastTransfer(x, c) {
				single(x, c)
			}
		}).Patient(300),
		kit.New("files", 2000, 30000, func(t *rapid.T) KindCase {
			c := KindCase{Kind: rapid.SampledFrom([]string{"mem", "mem", "buf", "buf", "os"}).Draw(t, "kind")}
			c.Skip, c.Buffered = rapid.Bool().Draw(t, "skip"), rapid.Bool().Draw(t, "buffered")
			c.Have = rapid.OneOf(kit.Uniform(300), kit.Uniform(10000)).Draw(t, "have")
			c.At = kit.Uniform(c.Have+1).Draw(t, "at")
			c.Size = rapid.OneOf(kit.Uniform(c.Have-c.At+1), kit.Uniform(400), rapid.IntRange(0, 20000), rapid.Just(c.Have-c.At), rapid.IntRange(65000, 200000)).Draw(t, "size")
			return c
		}, real),
		kit.New("concurrent", 600, 6000, func(t *rapid.T) Many {
			return Many{rapid.SliceOfN(rapid.Custom(drawStream), 2, 6).Draw(t, "cases")}
		}, concurrent),
	)
}
