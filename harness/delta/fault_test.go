package delta

import (
	"fmt"
	"recengine/internal/domain"
	"recengine/internal/infra/delta"
	"recengine/vpbt/codec"
	"recengine/vpbt/kit"
	"testing"

	"pgregory.net/rapid"
)

// FaultOp is a step of a history, a flush or a reopening possibly failing first.
type FaultOp struct {
	Op
	Faults []kit.Fault `json:"faults,omitempty"` // one per attempt
}

// FaultCase is a history with failing file operations.
type FaultCase struct {
	History
	FOps []FaultOp `json:"fops"`
}

func drawFaults(t *rapid.T, max int) []kit.Fault {
	return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) kit.Fault {
		return kit.Fault{
			At:    rapid.IntRange(0, 8).Draw(t, "at"),
			Bytes: rapid.OneOf(rapid.IntRange(0, 40), kit.Uniform(5000), kit.Uniform(400)).Draw(t, "bytes"),
			Kinds: rapid.SampledFrom([]string{"rwst", "rwst", "w", "ws", "s", "r", "rs", "t"}).Draw(t, "kinds"),
		}
	}), 0, max).Draw(t, "faults")
}

func TestC05(t *testing.T) {
	flushing := func(x *kit.X, c FaultCase) {
		h := &c.History
		factory := delta.NewStorageFactory()
		d := kit.NewDisk(nil)
		d.Record = false
		m := newModel(nil)
		hits := 0
		// Opens despite the faults
		open := func(faults []kit.Fault, when string) (domain.DeltaStorage, *kit.MemFile) {
			before := codec.DeltaIntact(d.Data)
			for _, fault := range faults {
				f := d.Handle()
				f.Arm(&fault)
				s, err := factory.OpenMaybeRecover(f)
				if f.Hits == 0 && err != nil {
					x.Failf("%s: opening failed: %v", when, err)
				}
				if f.Hits > 0 {
					hits++
					x.Label("failure while opening: " + string(f.HitOp))
					// (a failure to read ahead more than needed does no harm)
					if err == nil && f.HitOp != 'r' {
						x.Failf("%s: opening ignored a failed file operation (%c)", when, f.HitOp)
					}
					// nothing may be gone
					after := codec.DeltaIntact(d.Data)
					if fmt.Sprint(after) != fmt.Sprint(before) {
						x.Failf("%s: a failed opening changed the records", when)
					}
				}
				if err == nil {
					f.Arm(nil)
					return s, f
				}
			}
			f := d.Handle()
			s, err := factory.OpenMaybeRecover(f)
			if err != nil {
				x.Failf("%s: opening failed once the faults were gone: %v", when, err)
			}
			return s, f
		}
		check := func(s domain.DeltaStorage, when string) {
			checkLookups(x, s, m, h.universe(m), when)
			checkCounters(x, s, m, when)
		}
		s, f := open(nil, "first opening")
		for i, op := range c.FOps {
			when := fmt.Sprintf("step %d (%s)", i, op.K)
			switch op.K {
			case "add", "bulk":
				for _, r := range h.adds(op.Op) {
					s.Add(opByte(r), r.User, r.Item)
					m.add(r)
				}
			case "flush", "reopen":
				act, what := s.Flush, "flush"
				if op.K == "reopen" {
					act, what = s.Close, "close"
				}
				done := false
				for _, fault := range op.Faults {
					hitsBefore := f.Hits
					f.Arm(&fault)
					err := act()
					f.Arm(nil)
					if f.Hits == hitsBefore {
						if err != nil {
							x.Failf("%s: %s failed: %v", when, what, err)
						}
						done = true
						break
					}
					hits++
					x.Label("failure of " + what + ": " + string(f.HitOp))
					if err == nil {
						x.Failf("%s: %s ignored a failed file operation (%c)", when, what, f.HitOp)
					}
					if f.Closed {
						x.Failf("%s: the file got closed by a failed %s", when, what)
					}
					// The entries might have got flushed if the failure came later
					checkLookups(x, s, m, h.universe(m), when+" after a failed "+what)
					checkCounters(x, s, m, when+" after a failed "+what)
				}
				if !done {
					if err := act(); err != nil {
						x.Failf("%s: %s failed once the faults were gone: %v", when, what, err)
					}
				}
				m.flush()
				locked := byte(1)
				if op.K == "reopen" {
					locked = 0
				}
				checkFile(x, d.Data, m, locked, when)
				if op.K == "reopen" {
					s, f = open(op.Faults, when)
				}
			}
			check(s, when)
		}
		if err := s.Close(); err != nil {
			x.Failf("final close failed: %v", err)
		}
		m.flush()
		checkFile(x, d.Data, m, 0, "finally")
		if hits > 0 && m.total() > 0 {
			x.NonTrivial()
		}
	}
	type RecoveryCase struct {
		Damaged
		Faults []kit.Fault `json:"faults"`
	}
	recovering := func(x *kit.X, c RecoveryCase) {
		in := c.bytes()
		if len(in) >= codec.DeltaHead {
			in[9] = 1
		}
		want := codec.DeltaIntact(in)
		factory := delta.NewStorageFactory()
		d := kit.NewDisk(in)
		d.Record = false
		hits := 0
		for i, fault := range c.Faults {
			f := d.Handle()
			f.Arm(&fault)
			before := append([]byte{}, d.Data...)
			var err error
			if i%2 == 0 {
				err = factory.Recover(f)
			} else {
				_, err = factory.OpenMaybeRecover(f)
			}
			if f.Hits == 0 {
				continue
			}
			hits++
			x.Label("failure of " + string(f.HitOp))
			if err == nil && f.HitOp != 'r' {
				x.Failf("attempt %d ignored a failed file operation (%c)", i, f.HitOp)
			}
			// (an opening may have failed after a completed recovery)
			if err != nil && f.HitOp == 'r' && i%2 == 0 && string(before) != string(d.Data) {
				x.Failf("attempt %d: a failed read made the recovery change the file", i)
			}
		}
		s, err := factory.OpenMaybeRecover(d.Handle())
		if err != nil {
			x.Failf("opening with recovery failed once the faults were gone: %v", err)
		}
		m := newModel(want)
		for p, op := range m.last {
			if got, ok := s.Get(p.user, p.item); !ok || byte(got) != op {
				x.Failf("user %d item %d answers (%q, %v) after interrupted recoveries, expected %q", p.user, p.item, got, ok, op)
			}
		}
		// Records may be found twice after an interrupted recovery, but not less
		if s.GetTotalItemCount() < m.total() {
			x.Failf("%d records left after interrupted recoveries, expected at least %d", s.GetTotalItemCount(), m.total())
		}
		s.Close()
		if hits > 0 && len(want) > 0 {
			x.NonTrivial()
		}
	}
	gen := func(ops, bulk int) func(t *rapid.T) FaultCase {
		return func(t *rapid.T) FaultCase {
			c := FaultCase{History: drawHistory(t, ops, bulk, []string{"mem"})}
			for _, op := range c.Ops {
				fop := FaultOp{Op: op}
				if op.K == "flush" || op.K == "reopen" {
					fop.Faults = drawFaults(t, 3)
				}
				c.FOps = append(c.FOps, fop)
			}
			c.Ops = nil
			return c
		}
	}
	kit.Main(t, "C05",
		"random histories whose flushes, closes and openings meet injected failures of any file operation (any position, partial transfers) and are retried; answers and counters are compared with the model after each failure, the file after each success. Damaged files are recovered despite failures likewise. Non-trivial: a fault fired while there was data.",
		kit.New("flush-and-close", 15000, 200000, gen(25, 0), flushing),
		kit.New("bulk", 1200, 20000, gen(12, 500), flushing),
		kit.New("recovery", 15000, 200000, func(t *rapid.T) RecoveryCase {
			c := RecoveryCase{Damaged: drawDamaged(t, []string{"mem"})}
			c.Faults = drawFaults(t, 4)
			return c
		}, recovering),
	)
}
