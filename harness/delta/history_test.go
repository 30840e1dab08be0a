package delta

import (
	"fmt"
	"iter"
	"recengine/internal/domain"
	"recengine/internal/infra/delta"
	"recengine/vpbt/kit"
	"testing"

	"pgregory.net/rapid"
)

// Plays the history (or the two histories in turn) against real delta logs and
// their models.
func play(x *kit.X, h History, each func(h *History, s domain.DeltaStorage, m *model, f *file, step int, op Op, when string)) {
	factory := delta.NewStorageFactory()
	one := func(h *History, pause func()) {
		playOne(x, *h, factory, pause, func(s domain.DeltaStorage, m *model, f *file, step int, op Op, when string) {
			each(h, s, m, f, step, op, when)
		})
	}
	if h.Other == nil {
		one(&h, func() {})
		return
	}
	x.Label("two logs")
	run := func(h *History) func() bool {
		next, _ := iter.Pull(func(yield func(int) bool) { one(h, func() { yield(0) }) })
		return func() bool { _, more := next(); return more }
	}
	a, b := run(&h), run(h.Other)
	for moreA, moreB := true, true; moreA || moreB; {
		moreA = moreA && a()
		moreB = moreB && b()
	}
}

func playOne(x *kit.X, h History, factory domain.DeltaStorageFactory, pause func(), each func(s domain.DeltaStorage, m *model, f *file, step int, op Op, when string)) {
	f := newFile(x, h.File)
	m := newModel(nil)
	s, err := factory.Open(f.handle())
	if err != nil {
		x.Failf("cannot open an empty file: %v", err)
	}
	each(s, m, f, -1, Op{K: "open"}, "after the first opening")
	for i, op := range h.Ops {
		pause()
		when := fmt.Sprintf("after step %d (%s)", i, op.K)
		switch op.K {
		case "add", "bulk":
			for _, r := range h.adds(op) {
				s.Add(opByte(r), r.User, r.Item)
				m.add(r)
			}
		case "flush":
			if err := s.Flush(); err != nil {
				x.Failf("%s: flush failed: %v", when, err)
			}
			m.flush()
		case "reopen":
			if err := s.Close(); err != nil {
				x.Failf("%s: close failed: %v", when, err)
			}
			m.flush()
			each(nil, m, f, i, Op{K: "close"}, when+" having been closed")
			if s, err = factory.Open(f.handle()); err != nil {
				x.Failf("%s: cannot reopen: %v", when, err)
			}
		}
		each(s, m, f, i, op, when)
	}
	pause()
	if err := s.Close(); err != nil {
		x.Failf("the final close failed: %v", err)
	}
	m.flush()
	each(nil, m, f, len(h.Ops), Op{K: "close"}, "after the final close")
	pause()
	if s, err = factory.OpenMaybeRecover(f.handle()); err != nil {
		x.Failf("the final opening with recovery failed: %v", err)
	}
	each(s, m, f, len(h.Ops), Op{K: "reopen"}, "after the final opening")
	s.Close()
}

func classify(x *kit.X, h History, m *model) {
	flushes, reopens, recorded := 0, 0, 0
	for _, op := range h.Ops {
		switch op.K {
		case "flush":
			flushes++
		case "reopen":
			reopens++
		default:
			recorded++
		}
	}
	x.Label("file " + h.File)
	if flushes > 0 {
		x.Label("with flush")
	}
	if reopens > 0 {
		x.Label("with reopen")
	}
	if m.total() > 65535 {
		x.Label("more than 65535 records")
	}
	if m.total() > 227 {
		x.Label("larger than the write buffer")
	}
}

// Tells whether a flushed (or loaded) operation is overridden or extended later.
func nontrivial(h History) bool {
	recorded, flushed := false, false
	for _, op := range h.Ops {
		switch op.K {
		case "add", "bulk":
			if flushed {
				return true
			}
			recorded = true
		default:
			flushed = flushed || recorded
		}
	}
	return false
}

func TestC01(t *testing.T) {
	gen := func(files []string, ops, bulk int) func(t *rapid.T) History {
		return func(t *rapid.T) History { return drawPlay(t, ops, bulk, files) }
	}
	run := func(x *kit.X, h History) {
		var last *model
		play(x, h, func(h *History, s domain.DeltaStorage, m *model, f *file, step int, op Op, when string) {
			last = m
			if s == nil {
				return
			}
			if op.K == "look" {
				s.GetUserCount()
				s.GetTotalItemCount()
				s.GetFileSize()
			}
			if !h.Lazy || op.K == "look" || step == len(h.Ops) {
				checkLookups(x, s, m, h.universe(m), when)
			}
		})
		classify(x, h, last)
		if nontrivial(h) {
			x.NonTrivial()
		}
	}
	kit.Main(t, "C01",
		"random histories of add/remove/bulk/flush/close+reopen over pools of colliding and extreme identifiers; after every step every recorded pair and unrecorded neighbours are looked up and compared with a map. Non-trivial: operations are recorded after others have been flushed or reloaded.",
		kit.New("memory", 12000, 200000, gen([]string{"mem", "mem", "buf"}, 40, 0), run),
		kit.Together(300, 6000, gen([]string{"mem", "mem", "buf"}, 40, 200), run),
		kit.New("bulk", 800, 12000, gen([]string{"mem", "buf"}, 25, 400), run),
		kit.New("os-file", 400, 4000, gen([]string{"os"}, 30, 300), run),
		kit.New("heavy", 400, 8000, func(t *rapid.T) History { return drawHeavy(t, []string{"mem", "buf"}) }, run),
		kit.New("huge", 2, 20, func(t *rapid.T) History { return drawHuge(t, []string{"mem", "buf"}) }, run),
		kit.New("owner", 2, 20, func(t *rapid.T) History { return drawOwner(t, []string{"mem", "buf"}) }, run),
	)
}

func TestC02(t *testing.T) {
	gen := func(files []string, ops, bulk int) func(t *rapid.T) History {
		return func(t *rapid.T) History { return drawPlay(t, ops, bulk, files) }
	}
	run := func(x *kit.X, h History) {
		var last *model
		out := kit.Captured(x, func() {
			play(x, h, func(h *History, s domain.DeltaStorage, m *model, f *file, step int, op Op, when string) {
				last = m
				if s != nil && op.K == "look" {
					for _, p := range h.universe(m) {
						s.Get(p.user, p.item)
					}
				}
				if s != nil && (!h.Lazy || op.K == "look" || step == len(h.Ops)) {
					checkCounters(x, s, m, when)
				}
				switch op.K {
				case "flush":
					checkFile(x, f.bytes(), m, 1, when)
				case "close":
					checkFile(x, f.bytes(), m, 0, when)
				}
			})
		})
		if out != "" {
			x.Failf("the delta log printed %.200q", out)
		}
		classify(x, h, last)
		if nontrivial(h) {
			x.NonTrivial()
		}
	}
	kit.Main(t, "C02",
		"random histories as for C01; after every step the counters and the reported size are compared with a model, after every flush and close the file is decoded by an independent reader and compared segment by segment, and stdout and stderr must stay empty. Non-trivial: operations are recorded after others have been flushed or reloaded.",
		kit.New("memory", 10000, 150000, gen([]string{"mem", "mem", "buf"}, 40, 0), run),
		kit.New("bulk", 800, 12000, gen([]string{"mem", "buf"}, 25, 400), run),
		kit.New("os-file", 400, 4000, gen([]string{"os"}, 30, 300), run),
		kit.New("heavy", 400, 8000, func(t *rapid.T) History { return drawHeavy(t, []string{"mem", "buf"}) }, run),
		kit.New("huge", 2, 20, func(t *rapid.T) History { return drawHuge(t, []string{"mem", "buf"}) }, run),
		kit.New("owner", 2, 20, func(t *rapid.T) History { return drawOwner(t, []string{"mem", "buf"}) }, run),
	)
}
