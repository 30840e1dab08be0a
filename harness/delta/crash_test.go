package delta

import (
	"fmt"
	"recengine/internal/domain"
	"recengine/internal/infra/delta"
	"recengine/vpbt/codec"
	"recengine/vpbt/kit"
	"testing"

	"pgregory.net/rapid"
)

// Crash chooses a crash point of a generation: a mutation and a byte within it,
// both scaled to what the generation really does.
type Crash struct {
	Mut  int `json:"m"` // 0..999, share of the mutations made
	Byte int `json:"b"` // 0..999, share of the bytes of the mutation being made
	Rec  int `json:"r"` // crash point within the recovery, 0 = none
	RecB int `json:"rb"`
}

// CrashCase is a history interrupted at every point (Gens==1) or at the chosen
// points of each generation.
type CrashCase struct {
	History
	Split   []int   `json:"split,omitempty"` // number of operations of each generation but the last
	Crashes []Crash `json:"crashes,omitempty"`
}

// What is known about a log while its history is played.
type tracker struct {
	all    []codec.Rec    // everything ever recorded, in order
	index  map[pair]int   // the operation in force, a position in all
	floor  map[pair]int   // the operation known to be in the file (not older than it)
	ever   map[pair][]int // operations that may be in the file
	before []point        // what was known at the start of every mutation
}

// point is what is known at a moment.
type point struct {
	recorded int
	floor    map[pair]int
}

func newTracker() *tracker {
	return &tracker{index: map[pair]int{}, floor: map[pair]int{}, ever: map[pair][]int{}}
}

func (tr *tracker) add(r codec.Rec) {
	p := pair{r.User, r.Item}
	tr.index[p] = len(tr.all)
	tr.ever[p] = append(tr.ever[p], len(tr.all))
	tr.all = append(tr.all, r)
}

func (tr *tracker) now() point { return point{len(tr.all), tr.floor} }

// The log has been flushed successfully.
func (tr *tracker) flushed() {
	floor := make(map[pair]int, len(tr.index))
	for p, i := range tr.index {
		floor[p] = i
	}
	tr.floor = floor
}

func (tr *tracker) disk(img []byte) *kit.Disk {
	d := kit.NewDisk(img)
	tr.before = nil
	d.OnMutate = func() { tr.before = append(tr.before, tr.now()) }
	return d
}

// What must hold for the file after n mutations and a part of the next one.
// A file that has just been modified stays so until the next modification, so
// it holds nothing recorded since, and everything flushed by then.
func (tr *tracker) known(start point, n, extra int) point {
	if extra > 0 {
		return tr.before[n]
	}
	pt := tr.now()
	if n < len(tr.before) {
		pt = tr.before[n]
	}
	if n > 0 {
		pt.recorded = tr.before[n-1].recorded
	} else {
		pt.recorded = start.recorded
	}
	return pt
}

func playGeneration(x *kit.X, h *History, ops []Op, s domain.DeltaStorage, d *kit.Disk, tr *tracker, closeAtEnd bool) {
	factory := delta.NewStorageFactory()
	must := func(err error, what string) {
		if err != nil {
			x.Failf("%s failed: %v", what, err)
		}
	}
	for _, op := range ops {
		switch op.K {
		case "flush":
			must(s.Flush(), "flush")
			tr.flushed()
		case "reopen":
			must(s.Close(), "close")
			tr.flushed()
			var err error
			s, err = factory.Open(d.Handle())
			must(err, "reopening")
		default:
			for _, r := range h.adds(op) {
				s.Add(opByte(r), r.User, r.Item)
				tr.add(r)
			}
		}
	}
	if closeAtEnd {
		must(s.Close(), "close")
		tr.flushed()
	}
}

// recoverImage opens the image with recovery, checks what it answers, extends
// it, and checks it once closed and reopened. Returns the disk right after the
// opening, for crashes within the recovery.
func recoverImage(x *kit.X, h *History, img []byte, tr *tracker, pt point, ps []pair, when string, usable bool) *kit.Disk {
	factory := delta.NewStorageFactory()
	d := kit.NewDisk(img)
	s, err := factory.OpenMaybeRecover(d.Handle())
	if err != nil {
		x.Failf("%s: opening with recovery failed: %v", when, err)
	}
	openLog := len(d.Log)
	answers := map[pair]byte{}
	for _, p := range ps {
		op, ok := s.Get(p.user, p.item)
		checkAnswer(x, tr, pt, p, byte(op), ok, when)
		if ok {
			answers[p] = byte(op)
		}
	}
	out := &kit.Disk{}
	*out = *d
	out.Log = d.Log[:openLog:openLog]
	if !usable {
		return out
	}
	extra := codec.Rec{Op: '-', User: h.Users[0], Item: h.Items[0] + 1000}
	s.Add('-', extra.User, extra.Item)
	answers[pair{extra.User, extra.Item}] = '-'
	if err := s.Close(); err != nil {
		x.Failf("%s: closing the recovered log failed: %v", when, err)
	}
	b := d.Data
	if len(b) < codec.DeltaHead || string(b[:8]) != codec.DeltaPrefix || b[9] != 0 {
		x.Failf("%s: the recovered log is not properly closed: % x", when, b[:min(len(b), 14)])
	}
	n := int(codec.U32(b[10:]))
	if len(b) != codec.DeltaHead+n*codec.DeltaSize {
		x.Failf("%s: the recovered log has %d bytes for %d records", when, len(b), n)
	}
	for i := 0; i < n; i++ {
		r, ok := codec.DeltaRecord(b[codec.DeltaHead+i*codec.DeltaSize:])
		if !ok {
			x.Failf("%s: record %d of the recovered log is not intact", when, i)
		}
		if r == extra {
			continue
		}
		known := false
		for _, at := range tr.ever[pair{r.User, r.Item}] {
			known = known || at < pt.recorded && tr.all[at].Op == r.Op
		}
		if !known {
			x.Failf("%s: the recovered log holds %v that was never recorded", when, r)
		}
	}
	s, err = factory.Open(d.Handle())
	if err != nil {
		x.Failf("%s: reopening the recovered log failed: %v", when, err)
	}
	for _, p := range append(ps, pair{extra.User, extra.Item}) {
		op, ok := s.Get(p.user, p.item)
		want, wantOk := answers[p]
		if ok != wantOk || ok && byte(op) != want {
			x.Failf("%s: user %d item %d answers (%q, %v) after a clean reopening, was (%q, %v)", when, p.user, p.item, op, ok, want, wantOk)
		}
	}
	return out
}

func checkAnswer(x *kit.X, tr *tracker, pt point, p pair, op byte, ok bool, when string) {
	floor, has := pt.floor[p]
	if !ok {
		if has {
			x.Failf("%s: user %d item %d is lost, though %q had been flushed", when, p.user, p.item, tr.all[floor].Op)
		}
		return
	}
	if !has {
		floor = -1
	}
	for _, at := range tr.ever[p] {
		if at >= floor && at < pt.recorded && tr.all[at].Op == op {
			return
		}
	}
	x.Failf("%s: user %d item %d answers %q, which was never recorded or is older than what had been flushed", when, p.user, p.item, op)
}

// cuts returns the interesting numbers of bytes of a mutation to cut it at.
func cuts(m kit.Mutation, dense bool) []int {
	n := len(m.Data)
	if m.Trunc || n <= 1 {
		return nil
	}
	var out []int
	if n <= 80 || dense && n <= 400 {
		for i := 1; i < n; i++ {
			out = append(out, i)
		}
		return out
	}
	for i := 18; i < n; i += max(18, n/18/6*18) {
		out = append(out, i-1, i, i+1)
	}
	return append(out, 1, n-1)
}

func TestC03(t *testing.T) {
	everyPoint := func(x *kit.X, c CrashCase) {
		tr := newTracker()
		start := tr.now()
		d := tr.disk(nil)
		h := &c.History
		s, err := delta.NewStorageFactory().Open(d.Handle())
		if err != nil {
			x.Failf("cannot open an empty file: %v", err)
		}
		playGeneration(x, h, c.Ops, s, d, tr, true)
		ps := h.universe(&model{last: lastOf(tr)})
		images, inner := 0, 0
		for n := 0; n <= len(d.Log); n++ {
			cutList := []int{0}
			if n < len(d.Log) {
				cutList = append(cutList, cuts(d.Log[n], false)...)
			}
			for _, extra := range cutList {
				pt := tr.known(start, n, extra)
				when := fmt.Sprintf("crash after %d of %d file modifications and %d bytes", n, len(d.Log), extra)
				rd := recoverImage(x, h, d.Image(n, extra), tr, pt, ps, when, true)
				images++
				if (images+len(c.Ops))%7 != 0 {
					continue
				}
				for k := 0; k <= len(rd.Log); k++ {
					inners := []int{0}
					if k < len(rd.Log) {
						inners = append(inners, cuts(rd.Log[k], false)...)
					}
					for j, e := range inners {
						if j > 0 && (j+k+images)%5 != 0 {
							continue
						}
						recoverImage(x, h, rd.Image(k, e), tr, pt, ps,
							fmt.Sprintf("%s, then crash of the recovery after %d of %d modifications and %d bytes", when, k, len(rd.Log), e), false)
						inner++
					}
				}
			}
		}
		x.Count("crash images", images)
		x.Count("crash images of recovery", inner)
		if len(tr.floor) > 0 {
			x.NonTrivial()
		}
	}
	generations := func(x *kit.X, c CrashCase) {
		h := &c.History
		tr := newTracker()
		img := []byte{}
		rest := c.Ops
		recovered := 0
		pt := tr.now()
		factory := delta.NewStorageFactory()
		for g := 0; g <= len(c.Split); g++ {
			ops := rest
			if g < len(c.Split) {
				n := min(c.Split[g], len(rest))
				ops, rest = rest[:n], rest[n:]
			}
			when := fmt.Sprintf("generation %d", g)
			ps := h.universe(&model{last: lastOf(tr)})
			cr := Crash{}
			if g < len(c.Crashes) {
				cr = c.Crashes[g]
			}
			if cr.Rec > 0 {
				rd := recoverImage(x, h, img, tr, pt, ps, when, false)
				if k := len(rd.Log) * cr.Rec / 1000; k < len(rd.Log) {
					img = rd.Image(k, len(rd.Log[k].Data)*cr.RecB/1000)
					x.Label("recovery crashed")
				}
			}
			tr.floor = pt.floor
			d := tr.disk(img)
			if len(img) > codec.DeltaHead && img[9] != 0 {
				recovered++
			}
			s, err := factory.OpenMaybeRecover(d.Handle())
			if err != nil {
				x.Failf("%s: opening with recovery failed: %v", when, err)
			}
			// From now on what it answers is what there is
			floor, index := map[pair]int{}, map[pair]int{}
			for _, p := range ps {
				op, ok := s.Get(p.user, p.item)
				checkAnswer(x, tr, pt, p, byte(op), ok, when)
				if !ok {
					delete(tr.ever, p)
					continue
				}
				for _, at := range tr.ever[p] {
					if at < pt.recorded && tr.all[at].Op == byte(op) {
						floor[p], index[p] = at, at
					}
				}
				upTo := tr.ever[p][:0:0]
				for _, at := range tr.ever[p] {
					if at <= floor[p] {
						upTo = append(upTo, at)
					}
				}
				tr.ever[p] = upTo
			}
			tr.floor, tr.index = floor, index
			start := pt
			playGeneration(x, h, ops, s, d, tr, g%3 == 2)
			n := len(d.Log)
			extra := 0
			if g < len(c.Split) {
				n = len(d.Log) * cr.Mut / 1000
				if n < len(d.Log) && !d.Log[n].Trunc {
					extra = len(d.Log[n].Data) * cr.Byte / 1000
				}
			}
			pt = tr.known(start, n, extra)
			img = d.Image(n, extra)
		}
		recoverImage(x, h, img, tr, pt, h.universe(&model{last: lastOf(tr)}), "finally", true)
		if recovered > 0 {
			x.NonTrivial()
			x.Label("recovered generations")
		}
	}
	genEvery := func(ops, bulk int) func(t *rapid.T) CrashCase {
		return func(t *rapid.T) CrashCase {
			return CrashCase{History: drawHistory(t, ops, bulk, []string{"mem"})}
		}
	}
	kit.Main(t, "C03",
		"random histories on a file recording its modifications; every prefix of the modifications, and the next one cut at every byte (at record boundaries and around for long ones), is opened with recovery, compared with what had been recorded and flushed by then, extended, closed and reopened; for every 7th crash image the recovery itself is crashed likewise. Generator 'generations' continues the history after each crash. Non-trivial: something had been flushed before a crash.",
		kit.New("every-point", 700, 15000, genEvery(14, 0), everyPoint),
		kit.New("every-point-large", 16, 300, genEvery(8, 300), everyPoint),
		kit.New("generations", 10000, 200000, func(t *rapid.T) CrashCase {
			c := CrashCase{History: drawHistory(t, 40, rapid.SampledFrom([]int{0, 0, 300}).Draw(t, "bulk"), []string{"mem"})}
			for i := range c.Ops {
				if c.Ops[i].K == "reopen" && i%2 == 0 {
					c.Ops[i].K = "flush"
				}
			}
			c.Split = rapid.SliceOfN(kit.Uniform(13), 1, 5).Draw(t, "split")
			share := kit.Uniform(1000)
			for range c.Split {
				cr := Crash{Mut: rapid.OneOf(share, rapid.Map(kit.Uniform(300), func(n int) int { return 999 - n })).Draw(t, "m"), Byte: share.Draw(t, "b")}
				if rapid.Bool().Draw(t, "recovery") {
					cr.Rec, cr.RecB = share.Draw(t, "r"), share.Draw(t, "rb")
				}
				c.Crashes = append(c.Crashes, cr)
			}
			return c
		}, generations),
	)
}

func lastOf(tr *tracker) map[pair]byte {
	last := map[pair]byte{}
	for _, r := range tr.all {
		last[pair{r.User, r.Item}] = r.Op
	}
	return last
}
