package index

import (
	"errors"
	"fmt"
	"io"
	"iter"
	"os"
	"path/filepath"
	"recengine/internal/domain"
	"recengine/internal/helpers"
	"recengine/internal/infra/index"
	"recengine/vpbt/codec"
	"recengine/vpbt/kit"
	"sync/atomic"
	"testing"

	"pgregory.net/rapid"
)

// Op is a step of a history.
type Op struct {
	K   string `json:"k"` // put, remove, bulk, drop (remove a range), clear, reopen
	ID  uint64 `json:"id,omitempty"`
	Pos uint64 `json:"pos,omitempty"`
	N   int    `json:"n,omitempty"`
}

// History is a generated history of an index, one list of steps per opening.
type History struct {
	Gens [][]Op `json:"gens"`
	File string `json:"file"`
	// Lazy tells to examine the index only right before it is closed and when
	// it is opened.
	Lazy bool `json:"lazy,omitempty"`
	// Other is the history of another index used in turn with this one.
	Other *History `json:"other,omitempty"`
}

func drawOp(ids []uint64, bulk int) *rapid.Generator[Op] {
	kinds := []string{"put", "put", "put", "put", "remove", "remove", "clear"}
	if bulk > 0 {
		kinds = []string{"put", "put", "remove", "remove", "bulk", "bulk", "drop", "drop", "clear"}
	}
	return rapid.Custom(func(t *rapid.T) Op {
		op := Op{K: rapid.SampledFrom(kinds).Draw(t, "k")}
		op.ID = rapid.SampledFrom(ids).Draw(t, "id")
		switch op.K {
		case "put":
			op.Pos = kit.U64().Draw(t, "pos")
		case "bulk":
			op.Pos = kit.U64().Draw(t, "pos")
			op.N = kit.Size(t, "n", bulk)
		case "drop":
			op.N = kit.Size(t, "n", bulk)
		}
		return op
	})
}

func drawHistory(t *rapid.T, gens, ops, bulk int, files []string) History {
	ids := kit.Pool(t, "ids", 1, 8)
	h := History{File: rapid.SampledFrom(files).Draw(t, "file")}
	n := rapid.IntRange(1, gens).Draw(t, "gens")
	for i := 0; i < n; i++ {
		h.Gens = append(h.Gens, kit.Seq(t, "ops", drawOp(ids, bulk), 0, ops))
	}
	return h
}

func drawPlay(t *rapid.T, gens, ops, bulk int, files []string) History {
	h := drawHistory(t, gens, ops, bulk, files)
	h.Lazy = kit.Uniform(3).Draw(t, "lazy") == 0
	if kit.Uniform(4).Draw(t, "two") == 0 {
		o := drawHistory(t, gens, ops, bulk, files)
		if rapid.Bool().Draw(t, "alike") {
			o.Gens = h.Gens
		}
		h.Other = &o
	}
	return h
}

// More than 65536 entries.
func drawHuge(t *rapid.T) History {
	h := drawHistory(t, 3, 3, 70000, []string{"mem", "buf", "os"})
	h.Gens = append(h.Gens, []Op{{K: "bulk", ID: kit.U64().Draw(t, "first"), Pos: kit.U64().Draw(t, "pos"), N: rapid.IntRange(65537, 70000).Draw(t, "n")}})
	h.Gens = append(h.Gens, drawHistory(t, 1, 2, 0, []string{"mem"}).Gens...)
	return h
}

type model map[uint64]uint64

func (m model) clone() model {
	c := model{}
	for k, v := range m {
		c[k] = v
	}
	return c
}

// ids collects every identifier a history is about, and some neighbours.
func (h *History) ids() []uint64 {
	seen := map[uint64]bool{}
	for _, ops := range h.Gens {
		for _, op := range ops {
			for i := -1; i <= op.N; i++ {
				seen[op.ID+uint64(i)] = true
			}
		}
	}
	seen[0], seen[1<<64-1], seen[12345] = true, true, true
	return kit.SortedKeys(seen)
}

func apply(x *kit.X, s domain.IndexStorage, m model, op Op) {
	put := func(id, pos uint64) {
		if err := s.Put(id, pos); err != nil {
			x.Failf("putting %d failed: %v", id, err)
		}
		m[id] = pos
	}
	remove := func(id uint64) {
		if err := s.Remove(id); err != nil {
			x.Failf("removing %d failed: %v", id, err)
		}
		delete(m, id)
	}
	switch op.K {
	case "put":
		put(op.ID, op.Pos)
	case "remove":
		remove(op.ID)
	case "bulk":
		for i := 0; i < op.N; i++ {
			put(op.ID+uint64(i), op.Pos+uint64(i)*3)
		}
	case "drop":
		for i := 0; i < op.N; i++ {
			remove(op.ID + uint64(i))
		}
	case "clear":
		for _, id := range kit.SortedKeys(m) {
			remove(id)
		}
	}
}

// difference describes what the index answers wrongly, "" if nothing.
func difference(s domain.IndexStorage, m model, ids []uint64) string {
	look := func(id uint64) string {
		got, ok := s.Get(id)
		want, has := m[id]
		if ok != has || ok && got != want {
			return fmt.Sprintf("%d is at (%d, %v), expected (%d, %v)", id, got, ok, want, has)
		}
		return ""
	}
	for _, id := range ids {
		if d := look(id); d != "" {
			return d
		}
	}
	for id := range m {
		if d := look(id); d != "" {
			return d
		}
	}
	return ""
}

func sameMap(b []byte, m model) string {
	got, ok := codec.IndexMap(b)
	if !ok {
		return fmt.Sprintf("the file isn't a complete unlocked index: % x", b[:min(len(b), 60)])
	}
	if n := codec.U32(b[8:]); int(n) != len(m) || b[6] != 1 {
		return fmt.Sprintf("the header tells %d entries of version %d, expected %d", n, b[6], len(m))
	}
	for id, pos := range m {
		if p, ok := got[id]; !ok || p != pos {
			return fmt.Sprintf("the file has %d at (%d, %v), expected %d", id, p, ok, pos)
		}
	}
	if len(got) != len(m) {
		return fmt.Sprintf("the file has %d entries, expected %d", len(got), len(m))
	}
	return ""
}

var fileCount atomic.Int64

type file struct {
	kind string
	disk *kit.Disk
	buf  []byte
	last *helpers.FileBuffer
	path string
}

func newFile(x *kit.X, kind string) *file {
	f := &file{kind: kind, disk: kit.NewDisk(nil)}
	f.disk.Record = false
	if kind == "os" {
		f.path = filepath.Join(x.Dir(), fmt.Sprintf("%d.index", fileCount.Add(1)))
	}
	return f
}

// Closes remembering the contents.
type bufCloser struct{ f *file }

func (c bufCloser) Close() error {
	c.f.buf = append([]byte{}, c.f.last.Bytes()...)
	return c.f.last.Close()
}

func (f *file) open(factory domain.IndexStorageFactory) (domain.IndexStorage, error) {
	switch f.kind {
	case "os":
		return factory.OpenFile(f.path)
	case "buf":
		f.last = helpers.NewFileBuffer(append([]byte{}, f.buf...))
		return factory.Open(f.last, bufCloser{f})
	}
	h := f.disk.Handle()
	var c io.Closer
	if f.kind == "mem" {
		c = h
	}
	return factory.Open(h, c)
}

func (f *file) bytes() []byte {
	switch f.kind {
	case "os":
		b, err := os.ReadFile(f.path)
		if err != nil {
			kit.Fatal("read: %v", err)
		}
		return b
	case "buf":
		return f.buf
	}
	return f.disk.Data
}

func TestC07(t *testing.T) {
	one := func(x *kit.X, h History, factory domain.IndexStorageFactory, pause func()) {
		f := newFile(x, h.File)
		ids := h.ids()
		m := model{}
		shrunk, grown := false, false
		for g, ops := range h.Gens {
			s, err := f.open(factory)
			if err != nil {
				x.Failf("opening %d failed: %v", g, err)
			}
			if d := difference(s, m, ids); d != "" {
				x.Failf("opening %d: %s", g, d)
			}
			before := len(m)
			for i, op := range ops {
				pause()
				apply(x, s, m, op)
				if h.Lazy && i < len(ops)-1 {
					continue
				}
				if d := difference(s, m, ids); d != "" {
					x.Failf("opening %d step %d (%s): %s", g, i, op.K, d)
				}
			}
			shrunk = shrunk || len(m) < before
			grown = grown || len(m) > 0
			pause()
			if err := s.Close(); err != nil {
				x.Failf("close %d failed: %v", g, err)
			}
			if d := sameMap(f.bytes(), m); d != "" {
				x.Failf("close %d: %s", g, d)
			}
			if before > 0 && len(m) == 0 {
				x.Label("emptied")
			}
			if len(m) > 260 {
				x.Label("larger than 4 KB")
			}
			if len(m) > 65535 {
				x.Label("more than 65535 entries")
			}
			pause()
		}
		s, err := f.open(factory)
		if err != nil {
			x.Failf("the last opening failed: %v", err)
		}
		if d := difference(s, m, ids); d != "" {
			x.Failf("the last opening: %s", d)
		}
		s.Close()
		if grown && len(h.Gens) > 1 {
			x.NonTrivial()
		}
		if shrunk {
			x.Label("shrunk")
		}
	}
	run := func(x *kit.X, h History) {
		factory := index.NewStorageFactory()
		if h.Other == nil {
			one(x, h, factory, func() {})
			return
		}
		x.Label("two indices")
		start := func(h History) func() bool {
			next, _ := iter.Pull(func(yield func(int) bool) { one(x, h, factory, func() { yield(0) }) })
			return func() bool { _, more := next(); return more }
		}
		a, b := start(h), start(*h.Other)
		for moreA, moreB := true, true; moreA || moreB; {
			moreA = moreA && a()
			moreB = moreB && b()
		}
	}
	kit.Main(t, "C07",
		"random histories of puts, overwrites, removals and reopenings of an index (in memory, in the repository's file buffer, without a closer, in a real file), every answer compared with a map after every step and the closed file decoded independently. Non-trivial: a non-empty index survived a reopening.",
		kit.New("small", 12000, 200000, func(t *rapid.T) History {
			return drawPlay(t, 5, 20, 0, []string{"mem", "mem", "buf", "nocloser"})
		}, run),
		kit.Together(400, 8000, func(t *rapid.T) History { return drawPlay(t, 4, 12, 200, []string{"mem", "buf", "nocloser"}) }, run),
		kit.New("bulk", 500, 8000, func(t *rapid.T) History {
			return drawPlay(t, 4, 8, 600, []string{"mem", "buf", "nocloser"})
		}, run),
		kit.New("os-file", 300, 3000, func(t *rapid.T) History { return drawPlay(t, 4, 12, 20, []string{"os"}) }, run),
		kit.New("huge", 2, 20, drawHuge, run).Patient(300),
	)
}

func isCorrupted(err error) bool {
	var c *domain.CorruptedFileError
	return errors.As(err, &c)
}

// judge opens the image and tells which of the mappings it holds: its position,
// or -1 if the file is reported as corrupted.
func judge(x *kit.X, img []byte, ids []uint64, when string, allowed ...model) int {
	d := kit.NewDisk(img)
	d.Record = false
	h := d.Handle()
	s, err := index.NewStorageFactory().Open(h, h)
	if err != nil {
		if !isCorrupted(err) {
			x.Failf("%s: opening fails, but not because of a corrupted file: %v", when, err)
		}
		if len(img) == 0 {
			x.Failf("%s: an empty file is reported as corrupted", when)
		}
		return -1
	}
	if len(img) == 0 {
		allowed = []model{{}}
	}
	diff := ""
	for i, m := range allowed {
		diff = difference(s, m, ids)
		if diff != "" {
			continue
		}
		if err := s.Close(); err != nil {
			x.Failf("%s: closing failed: %v", when, err)
		}
		if diff = sameMap(d.Data, m); diff == "" {
			return i
		}
		break
	}
	x.Failf("%s: a mapping that never was: %s", when, diff)
	return 0
}

func TestC08(t *testing.T) {
	crashes := func(limit int) func(x *kit.X, h History) {
		return func(x *kit.X, h History) {
			ids := h.ids()
			m := model{}
			var img []byte
			interesting := 0
			for g, ops := range h.Gens {
				d := kit.NewDisk(img)
				closing := 0
				handle := d.Handle()
				s, err := index.NewStorageFactory().Open(handle, handle)
				if err != nil {
					x.Failf("opening %d failed: %v", g, err)
				}
				last := m.clone()
				for _, op := range ops {
					apply(x, s, m, op)
				}
				closing = len(d.Log)
				if err := s.Close(); err != nil {
					x.Failf("close %d failed: %v", g, err)
				}
				// Every crash point of this generation
				for n := 0; n <= len(d.Log); n++ {
					size := 0
					if n < len(d.Log) {
						size = len(d.Log[n].Data)
					}
					step := 1
					if size > limit {
						step = size/limit + 1
					}
					for extra := 0; extra == 0 || extra < size; extra += step {
						cut := d.Image(n, extra)
						when := fmt.Sprintf("crash at mutation %d (of %d, closing from %d) byte %d of generation %d", n, len(d.Log), closing, extra, g)
						allowed := []model{last}
						if n >= closing {
							allowed = append(allowed, m)
						}
						got := judge(x, cut, ids, when, allowed...)
						switch {
						case n == len(d.Log) && (got < 0 || difference2(m, allowed[got]) != ""):
							x.Failf("%s: a properly closed index isn't found (%d)", when, got)
						case n == 0 && extra == 0 && got < 0:
							x.Failf("%s: an untouched index is reported as corrupted", when)
						case got < 0:
							x.Label("corrupted")
							if len(last) > 0 || len(m) > 0 {
								interesting++
							}
						case len(cut) == 0:
							x.Label("empty file")
						case got == 0:
							x.Label("previous mapping")
						default:
							x.Label("new mapping")
						}
					}
				}
				img = append([]byte{}, d.Data...)
			}
			if interesting > 0 {
				x.NonTrivial()
			}
		}
	}
	type FaultCase struct {
		History
		Faults []kit.Fault `json:"faults"` // while opening and closing by turns
		Bare   bool        `json:"bare"`   // the index isn't to close the file
	}
	faults := func(x *kit.X, c FaultCase) {
		ids := c.ids()
		saved := model{}
		d := kit.NewDisk(nil)
		d.Record = false
		hits := 0
		for g, ops := range c.Gens {
			opening, closing := &kit.Fault{At: -1}, &kit.Fault{At: -1}
			if 2*g+1 < len(c.Faults) {
				opening, closing = &c.Faults[2*g], &c.Faults[2*g+1]
			}
			handle := d.Handle()
			handle.Arm(opening)
			var closer io.Closer
			if !c.Bare {
				closer = handle
			}
			s, err := index.NewStorageFactory().Open(handle, closer)
			handle.Arm(nil)
			if err != nil && handle.Closed == c.Bare {
				x.Failf("opening %d failed (%v), the file closed: %v", g, err, handle.Closed)
			}
			if handle.Hits > 0 {
				hits++
				x.Label("failure while opening: " + string(handle.HitOp))
				if err == nil && handle.HitOp != 'r' {
					x.Failf("opening %d ignored a failed file operation (%c)", g, handle.HitOp)
				}
			} else if err != nil {
				x.Failf("opening %d failed: %v", g, err)
			}
			m := saved.clone()
			if err == nil {
				if diff := difference(s, m, ids); diff != "" {
					x.Failf("opening %d (failed operations: %d): %s", g, handle.Hits, diff)
				}
				for _, op := range ops {
					apply(x, s, m, op)
				}
				before := handle.Hits
				handle.Arm(closing)
				err = s.Close()
				handle.Arm(nil)
				if handle.Hits > before {
					hits++
					x.Label("failure while closing: " + string(handle.HitOp))
					if err == nil {
						x.Failf("close %d ignored a failed file operation (%c)", g, handle.HitOp)
					}
				} else if err != nil {
					x.Failf("close %d failed: %v", g, err)
				}
				if handle.Closed == c.Bare {
					x.Failf("after close %d (%v), the file closed: %v", g, err, handle.Closed)
				}
			}
			when := fmt.Sprintf("after generation %d (%v)", g, err)
			switch judge(x, d.Data, ids, when, saved, m) {
			case -1:
				if err == nil {
					x.Failf("%s: a properly closed index is reported as corrupted", when)
				}
				x.Label("corrupted after a failure")
				d = kit.NewDisk(nil)
				d.Record = false
				saved = model{}
			case 0:
				if err == nil && difference2(saved, m) != "" {
					x.Failf("%s: a properly closed index holds the previous mapping", when)
				}
			case 1:
				saved = m
			}
		}
		if hits > 0 && len(c.Gens) > 1 {
			x.NonTrivial()
		}
	}
	gen := func(gens, ops, bulk int) func(t *rapid.T) History {
		return func(t *rapid.T) History { return drawHistory(t, gens, ops, bulk, []string{"mem"}) }
	}
	genFaults := func(gens, ops, bulk int) func(t *rapid.T) FaultCase {
		return func(t *rapid.T) FaultCase {
			c := FaultCase{History: drawHistory(t, gens, ops, bulk, []string{"mem"}), Bare: rapid.IntRange(0, 3).Draw(t, "bare") == 3}
			c.Faults = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) kit.Fault {
				return kit.Fault{
					At:    kit.Uniform(9).Draw(t, "at"),
					Bytes: rapid.OneOf(rapid.IntRange(0, 20), kit.Uniform(5000)).Draw(t, "bytes"),
					Kinds: rapid.SampledFrom([]string{"", "", "w", "s", "r", "c"}).Draw(t, "kinds"),
				}
			}), 2*len(c.Gens), 2*len(c.Gens)).Draw(t, "faults")
			return c
		}
	}
	kit.Main(t, "C08",
		"random lives of an index over several openings. crash: the file as it is after each of its mutations and within each write (every byte of small ones) is opened; the mapping found must be the last closed one or the one being closed. fault: any operation of an opening or a close fails, possibly partially. Non-trivial: a non-empty index was cut in the middle / a fault fired.",
		kit.New("crash", 2500, 40000, gen(3, 10, 0), crashes(400)),
		kit.New("crash-bulk", 30, 600, gen(3, 5, 600), crashes(25)),
		kit.New("fault", 15000, 250000, genFaults(5, 10, 0), faults),
		kit.New("fault-bulk", 600, 8000, genFaults(4, 5, 600), faults),
	)
}

func difference2(a, b model) string {
	if len(a) != len(b) {
		return "length"
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return fmt.Sprint(k)
		}
	}
	return ""
}
