package delta

import (
	"fmt"
	"os"
	"path/filepath"
	"recengine/internal/domain"
	"recengine/internal/helpers"
	"recengine/internal/infra/delta"
	"recengine/vpbt/codec"
	"recengine/vpbt/kit"
	"sort"
	"sync/atomic"

	"pgregory.net/rapid"
)

// Op is a step of a history. User and Item are positions in the pools.
type Op struct {
	K    string `json:"k"` // add, bulk, flush, reopen, look
	User int    `json:"u,omitempty"`
	Item int    `json:"i,omitempty"`
	Rem  bool   `json:"r,omitempty"`
	N    int    `json:"n,omitempty"` // bulk: number of pairs
	Mul  int    `json:"m,omitempty"` // bulk: users per item step
}

// History is a generated history over pools of identifiers.
type History struct {
	Users []uint64 `json:"users"`
	Items []uint64 `json:"items"`
	Ops   []Op     `json:"ops"`
	File  string   `json:"file"` // mem, buf (the repository's in-memory file), os
	// Lazy tells to examine the log at "look" steps only.
	Lazy bool `json:"lazy,omitempty"`
	// Stride tells to look up every so many pairs only.
	Stride int `json:"stride,omitempty"`
	// Other is the history of another log used in turn with this one.
	Other *History `json:"other,omitempty"`
}

func drawOps(t *rapid.T, min, max, users, items, maxBulk int, kinds []string) []Op {
	return kit.Seq(t, "ops", rapid.Custom(func(t *rapid.T) Op {
		op := Op{K: rapid.SampledFrom(kinds).Draw(t, "k")}
		switch op.K {
		case "add":
			op.User = rapid.IntRange(0, users-1).Draw(t, "user")
			op.Item = rapid.IntRange(0, items-1).Draw(t, "item")
			op.Rem = rapid.Bool().Draw(t, "rem")
		case "bulk":
			op.User = rapid.IntRange(0, users-1).Draw(t, "user")
			op.Item = rapid.IntRange(0, items-1).Draw(t, "item")
			op.N = kit.Size(t, "n", maxBulk)
			op.Mul = rapid.IntRange(0, 3).Draw(t, "mul")
			op.Rem = rapid.Bool().Draw(t, "rem")
		}
		return op
	}), min, max)
}

var histKinds = []string{"add", "add", "add", "add", "add", "add", "flush", "flush", "reopen", "bulk"}
var smallKinds = []string{"add", "add", "add", "add", "add", "flush", "flush", "reopen"}

// A history of one log, or of two logs used in turn, sometimes examined rarely.
func drawPlay(t *rapid.T, maxOps, maxBulk int, files []string) History {
	h := drawHistory(t, maxOps, maxBulk, files)
	if kit.Uniform(3).Draw(t, "lazy") == 0 {
		h.Lazy = true
		h.Ops = withLooks(t, h.Ops)
	}
	if kit.Uniform(4).Draw(t, "two") == 0 {
		o := drawHistory(t, maxOps, maxBulk, files)
		if rapid.Bool().Draw(t, "same-ids") {
			o.Users, o.Items = h.Users, h.Items
			for i := range o.Ops {
				o.Ops[i].User %= len(o.Users)
				o.Ops[i].Item %= len(o.Items)
			}
		}
		h.Other = &o
	}
	return h
}

func withLooks(t *rapid.T, ops []Op) []Op {
	var out []Op
	for _, op := range ops {
		out = append(out, op)
		if kit.Uniform(4).Draw(t, "look") == 0 {
			out = append(out, Op{K: "look"})
		}
	}
	return out
}

// A few operations on more than 65536 pairs.
func drawHuge(t *rapid.T, files []string) History {
	h := History{
		Users: kit.Pool(t, "users", 1, 3),
		Items: kit.Pool(t, "items", 1, 3),
		File:  rapid.SampledFrom(files).Draw(t, "file"),
	}
	h.Ops = drawOps(t, 1, 4, len(h.Users), len(h.Items), 90000, []string{"bulk", "bulk", "flush", "reopen", "add"})
	for i := range h.Ops {
		if h.Ops[i].K == "bulk" && h.Ops[i].Mul == 0 {
			h.Ops[i].Mul = 1
		}
	}
	h.Ops = append(h.Ops, Op{K: "bulk", N: rapid.IntRange(65537, 70000).Draw(t, "n"), Mul: 1}, Op{K: "reopen"}, Op{K: "add"})
	return h
}

// More than 65536 operations of the same user.
func drawOwner(t *rapid.T, files []string) History {
	h := History{
		Users:  []uint64{kit.U64().Draw(t, "user"), kit.U64().Draw(t, "other")},
		File:   rapid.SampledFrom(files).Draw(t, "file"),
		Lazy:   true,
		Stride: rapid.IntRange(101, 307).Draw(t, "stride"),
	}
	size := rapid.IntRange(3500, 5500).Draw(t, "size")
	for total := 0; total < 66000; total += size {
		h.Ops = append(h.Ops, Op{K: "bulk", Item: len(h.Items), N: size}, Op{K: rapid.SampledFrom([]string{"flush", "flush", "flush", "reopen"}).Draw(t, "end")})
		h.Items = append(h.Items, uint64(len(h.Items))<<33)
	}
	h.Ops = append(h.Ops, Op{K: "bulk", User: 1, N: 20}, Op{K: "bulk", Item: 3, N: size / 2, Rem: true}, Op{K: "look"}, Op{K: "reopen"}, Op{K: "bulk", Item: 1, N: 100, Rem: true})
	return h
}

// Thousands of operations of the same user, or of flushes or reopenings.
func drawHeavy(t *rapid.T, files []string) History {
	h := History{
		Users: kit.Pool(t, "users", 1, 2),
		Items: kit.Pool(t, "items", 1, 3),
		File:  rapid.SampledFrom(files).Draw(t, "file"),
		Lazy:  true,
	}
	largest := 6000
	for n := rapid.IntRange(2, 8).Draw(t, "n"); n > 0; n-- {
		user := rapid.IntRange(0, len(h.Users)-1).Draw(t, "user")
		item := rapid.IntRange(0, len(h.Items)-1).Draw(t, "item")
		switch rapid.SampledFrom([]string{"bulk", "bulk", "flush", "reopen", "cycles", "add", "look"}).Draw(t, "k") {
		case "bulk":
			size := kit.Size(t, "size", largest)
			largest = 1 + largest/4
			h.Ops = append(h.Ops, Op{K: "bulk", User: user, Item: item, N: size, Rem: rapid.Bool().Draw(t, "rem")})
		case "cycles":
			end := rapid.SampledFrom([]string{"flush", "flush", "reopen"}).Draw(t, "end")
			for i := kit.Size(t, "cycles", 300); i > 0; i-- {
				h.Ops = append(h.Ops, Op{K: "bulk", User: user, Item: item, N: i%5 + 1}, Op{K: end})
			}
		case "flush":
			h.Ops = append(h.Ops, Op{K: "flush"})
		case "reopen":
			h.Ops = append(h.Ops, Op{K: "reopen"})
		case "add":
			h.Ops = append(h.Ops, Op{K: "add", User: user, Item: item, Rem: true})
		case "look":
			h.Ops = append(h.Ops, Op{K: "look"})
		}
	}
	h.Ops = append(h.Ops, Op{K: "look"})
	return h
}

func drawHistory(t *rapid.T, maxOps, maxBulk int, files []string) History {
	h := History{
		Users: kit.Pool(t, "users", 1, 4),
		Items: kit.Pool(t, "items", 1, 5),
		File:  rapid.SampledFrom(files).Draw(t, "file"),
	}
	kinds := smallKinds
	if maxBulk > 0 {
		kinds = histKinds
	}
	h.Ops = drawOps(t, 1, maxOps, len(h.Users), len(h.Items), maxBulk, kinds)
	return h
}

// adds returns the individual recordings of an operation.
func (h *History) adds(op Op) []codec.Rec {
	kind := byte('+')
	if op.Rem {
		kind = '-'
	}
	switch op.K {
	case "add":
		return []codec.Rec{{Op: kind, User: h.Users[op.User], Item: h.Items[op.Item]}}
	case "bulk":
		recs := make([]codec.Rec, op.N)
		for i := range recs {
			recs[i] = codec.Rec{Op: kind, User: h.Users[op.User] + uint64(i*op.Mul), Item: h.Items[op.Item] + uint64(i)}
			if i%3 == 1 {
				recs[i].Op = '+' + '-' - kind
			}
		}
		return recs
	}
	return nil
}

type pair struct{ user, item uint64 }

// model of a delta log
type model struct {
	log      []codec.Rec // flushed records (those of one flush in any order)
	segments []int       // number of records of each flush
	pending  []codec.Rec
	at       map[pair]int // index in pending
	last     map[pair]byte
	users    map[uint64]bool
}

func newModel(log []codec.Rec) *model {
	m := &model{at: map[pair]int{}, last: map[pair]byte{}, users: map[uint64]bool{}}
	for _, r := range log {
		m.note(r)
	}
	if len(log) > 0 {
		m.log = append(m.log, log...)
		m.segments = append(m.segments, len(log))
	}
	return m
}

func (m *model) note(r codec.Rec) {
	m.last[pair{r.User, r.Item}] = r.Op
	m.users[r.User] = true
}

func (m *model) add(r codec.Rec) {
	m.note(r)
	p := pair{r.User, r.Item}
	if i, ok := m.at[p]; ok {
		m.pending[i].Op = r.Op
		return
	}
	m.at[p] = len(m.pending)
	m.pending = append(m.pending, r)
}

func (m *model) flush() {
	if len(m.pending) > 0 {
		m.segments = append(m.segments, len(m.pending))
	}
	m.log = append(m.log, m.pending...)
	m.pending = nil
	m.at = map[pair]int{}
}

func (m *model) total() int { return len(m.log) + len(m.pending) }

// file under test, in any of its forms
type file struct {
	kind string
	disk *kit.Disk
	buf  *helpers.FileBuffer
	path string
	open []*os.File
}

var fileCount atomic.Int64

func newFile(x *kit.X, kind string) *file {
	f := &file{kind: kind}
	switch kind {
	case "mem":
		f.disk = kit.NewDisk(nil)
		f.disk.Record = false
	case "buf":
		f.buf = helpers.NewFileBuffer(nil)
	case "os":
		f.path = filepath.Join(x.Dir(), fmt.Sprintf("%d.delta", fileCount.Add(1)))
		x.Cleanup(func() {
			for _, o := range f.open {
				o.Close()
			}
		})
	}
	return f
}

func (f *file) handle() domain.RandomAccessFile {
	switch f.kind {
	case "mem":
		return f.disk.Handle()
	case "buf":
		f.buf = helpers.NewFileBuffer(append([]byte{}, f.buf.Bytes()...))
		return f.buf
	}
	o, err := os.OpenFile(f.path, os.O_RDWR|os.O_CREATE, 0644)
	if err != nil {
		kit.Fatal("open: %v", err)
	}
	f.open = append(f.open, o)
	return o
}

func (f *file) bytes() []byte {
	switch f.kind {
	case "mem":
		return f.disk.Data
	case "buf":
		return f.buf.Bytes()
	}
	b, err := os.ReadFile(f.path)
	if err != nil {
		kit.Fatal("read: %v", err)
	}
	return b
}

func (f *file) put(b []byte) {
	switch f.kind {
	case "mem":
		f.disk = kit.NewDisk(b)
		f.disk.Record = false
	case "buf":
		f.buf = helpers.NewFileBuffer(append([]byte{}, b...))
	default:
		if err := os.WriteFile(f.path, b, 0644); err != nil {
			kit.Fatal("write: %v", err)
		}
	}
}

// universe lists every pair worth looking up: the recorded ones and neighbours.
func (h *History) universe(m *model) []pair {
	seen := map[pair]bool{}
	var ps []pair
	put := func(p pair) {
		if !seen[p] {
			seen[p] = true
			ps = append(ps, p)
		}
	}
	for _, u := range h.Users {
		for _, i := range h.Items {
			put(pair{u, i})
			put(pair{i, u})
		}
		put(pair{u, h.Items[0] + 77})
	}
	put(pair{h.Users[0] + 1<<40, h.Items[0]})
	put(pair{0, 0})
	for p := range m.last {
		put(p)
	}
	sort.Slice(ps, func(i, j int) bool {
		return ps[i].user < ps[j].user || ps[i].user == ps[j].user && ps[i].item < ps[j].item
	})
	if h.Stride > 0 {
		for i := range ps {
			if i*h.Stride >= len(ps) {
				return ps[:i]
			}
			ps[i] = ps[i*h.Stride]
		}
	}
	return ps
}

func checkLookups(x *kit.X, s domain.DeltaStorage, m *model, ps []pair, when string) {
	for _, p := range ps {
		got, ok := s.Get(p.user, p.item)
		want, wantOk := m.last[p]
		if ok != wantOk || ok && byte(got) != want {
			x.Failf("%s: lookup of user %d item %d answers (%q, %v), expected (%q, %v)", when, p.user, p.item, got, ok, want, wantOk)
		}
	}
}

func checkCounters(x *kit.X, s domain.DeltaStorage, m *model, when string) {
	if got := s.GetUserCount(); got != len(m.users) {
		x.Failf("%s: user count is %d, expected %d", when, got, len(m.users))
	}
	if got := s.GetTotalItemCount(); got != m.total() {
		x.Failf("%s: item total is %d, expected %d", when, got, m.total())
	}
	want := uint64(codec.DeltaHead + codec.DeltaSize*m.total())
	if got := s.GetFileSize(); got != want {
		x.Failf("%s: reported file size is %d, expected %d", when, got, want)
	}
}

func sorted(recs []codec.Rec) []codec.Rec {
	recs = append([]codec.Rec{}, recs...)
	sort.Slice(recs, func(i, j int) bool {
		a, b := recs[i], recs[j]
		if a.User != b.User {
			return a.User < b.User
		}
		if a.Item != b.Item {
			return a.Item < b.Item
		}
		return a.Op < b.Op
	})
	return recs
}

// checkFile compares the file with the flushed records of the model.
func checkFile(x *kit.X, b []byte, m *model, locked byte, when string) {
	want := codec.DeltaHead + codec.DeltaSize*len(m.log)
	if len(b) != want {
		x.Failf("%s: the file has %d bytes, expected %d", when, len(b), want)
	}
	if string(b[:8]) != codec.DeltaPrefix || b[8] != 1 {
		x.Failf("%s: bad file start %q", when, b[:9])
	}
	if b[9] != locked {
		x.Failf("%s: the lock mark is %d, expected %d", when, b[9], locked)
	}
	if n := codec.U32(b[10:]); int(n) != len(m.log) {
		x.Failf("%s: the header tells %d records, expected %d", when, n, len(m.log))
	}
	off := 0
	body := b[codec.DeltaHead:]
	for seg, n := range m.segments {
		var got []codec.Rec
		for i := off; i < off+n; i++ {
			r, ok := codec.DeltaRecord(body[i*codec.DeltaSize:])
			if !ok {
				x.Failf("%s: record %d is not intact: % x", when, i, body[i*codec.DeltaSize:(i+1)*codec.DeltaSize])
			}
			got = append(got, r)
		}
		g, w := sorted(got), sorted(m.log[off:off+n])
		for i := range w {
			if g[i] != w[i] {
				x.Failf("%s: flush %d stored %v, expected %v", when, seg, brief(g), brief(w))
			}
		}
		// From now on the order within the segment is known
		copy(m.log[off:off+n], got)
		off += n
	}
}

func brief(recs []codec.Rec) string {
	if len(recs) > 12 {
		return fmt.Sprintf("%v... (%d records)", recs[:12], len(recs))
	}
	return fmt.Sprint(recs)
}

func opByte(r codec.Rec) domain.DeltaOp { return domain.DeltaOp(r.Op) }

var _ = delta.NewStorageFactory
