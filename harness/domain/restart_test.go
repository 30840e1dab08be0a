package domain

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"recengine/internal/domain"
	"recengine/internal/infra/delta"
	"recengine/internal/infra/index"
	"recengine/internal/infra/recdb"
	"recengine/vpbt/kit"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
)

// Step is an operation on the storages of a running namespace.
type Step struct {
	K    string `json:"k"` // add, remove, flush, put, drop, bulk
	User uint64 `json:"u"`
	Item uint64 `json:"i"`
	N    int    `json:"n,omitempty"`
}

// Life is a namespace's run from its start to its end.
type Life struct {
	Steps   []Step `json:"steps"`
	Cancel  bool   `json:"cancel"`  // the stop is a cancellation of the start's context
	Kill    bool   `json:"kill"`    // killed rather than stopped
	At      int    `json:"at"`      // when it's killed: 0..999, share of the file modifications made
	Cut     int    `json:"cut"`     // bytes of the next modification made by then: 0..999, share
	Foreign []byte `json:"foreign"` // put in place of the index, a start is tried then
}

// RestartCase is a namespace restarted several times.
type RestartCase struct {
	Lives  []Life `json:"lives"`
	Probes []int  `json:"probes"` // other moments to look at
}

// change is a modification of one of the files.
type change struct {
	index bool
	off   int64
	data  []byte
	trunc bool
	size  int64
	whole bool // the file is replaced by data
	known known
}

// known is what is known at a moment.
type known struct {
	recorded int               // operations recorded by then
	floor    map[[2]uint64]int // those in the file (or older)
	starting bool
	closing  bool
}

// recorder watches the files of a namespace.
type recorder struct {
	changes []change
	base    [2][]byte // delta, index at the start
	now     func() known
}

type recFile struct {
	domain.RandomAccessFile
	r     *recorder
	index bool
}

func (f *recFile) Write(b []byte) (int, error) {
	at, err := f.Seek(0, io.SeekCurrent)
	if err != nil {
		return 0, err
	}
	f.r.changes = append(f.r.changes, change{index: f.index, off: at, data: append([]byte{}, b...), known: f.r.now()})
	return f.RandomAccessFile.Write(b)
}

func (f *recFile) Truncate(n int64) error {
	f.r.changes = append(f.r.changes, change{index: f.index, trunc: true, size: n, known: f.r.now()})
	return f.RandomAccessFile.Truncate(n)
}

// images returns both files after n changes and a part of the next one.
func (r *recorder) images(n, cut int) (files [2][]byte) {
	disks := [2]*kit.Disk{kit.NewDisk(r.base[0]), kit.NewDisk(r.base[1])}
	apply := func(c change, limit int) {
		i := 0
		if c.index {
			i = 1
		}
		switch {
		case c.whole:
			disks[i] = kit.NewDisk(c.data)
		case c.trunc:
			disks[i].Handle().Truncate(c.size)
		default:
			h := disks[i].Handle()
			h.Off = c.off
			h.Write(c.data[:min(limit, len(c.data))])
		}
	}
	for _, c := range r.changes[:n] {
		apply(c, len(c.data))
	}
	if cut > 0 && n < len(r.changes) && !r.changes[n].trunc && !r.changes[n].whole {
		apply(r.changes[n], cut)
	}
	return [2][]byte{disks[0].Data, disks[1].Data}
}

// The real factories, with the files watched.
type watchedDelta struct {
	domain.DeltaStorageFactory
	r *recorder
}

func (f watchedDelta) OpenMaybeRecover(file domain.RandomAccessFile) (domain.DeltaStorage, error) {
	return f.DeltaStorageFactory.OpenMaybeRecover(&recFile{file, f.r, false})
}

func (f watchedDelta) Open(file domain.RandomAccessFile) (domain.DeltaStorage, error) {
	return f.DeltaStorageFactory.Open(&recFile{file, f.r, false})
}

type watchedIndex struct {
	domain.IndexStorageFactory
	r    *recorder
	path string
}

func (f watchedIndex) OpenFile(path string) (domain.IndexStorage, error) {
	file, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0644)
	if err != nil {
		return nil, err
	}
	return f.Open(file, file)
}

func (f watchedIndex) Open(file io.ReadWriteSeeker, closer io.Closer) (domain.IndexStorage, error) {
	data, err := os.ReadFile(f.path)
	if err != nil {
		kit.Fatal("index: %v", err)
	}
	if seen := f.r.images(len(f.r.changes), 0); !bytes.Equal(seen[1], data) {
		f.r.changes = append(f.r.changes, change{index: true, whole: true, data: data, known: f.r.now()})
	}
	raf, ok := file.(domain.RandomAccessFile)
	if !ok {
		kit.Fatal("the index file is a %T", file)
	}
	return f.IndexStorageFactory.Open(&recFile{raf, f.r, true}, closer)
}

// likeTap is a like storage doing nothing that hands out what it's given.
type likeTap struct {
	delta  domain.DeltaStorage
	index  domain.IndexStorage
	opened int
	found  []byte // its file
	left   []byte
}

type tapStorage struct{ f io.Closer }

func (s tapStorage) Close() error { return s.f.Close() }
func (s tapStorage) ProcessActions(a []domain.Action) error {
	return recdb.NewLikeStorage().ProcessActions(a)
}

func (l *likeTap) Recover(domain.RandomAccessFile) error { return nil }
func (l *likeTap) Open(file domain.RandomAccessFile, d domain.DeltaStorage, i domain.IndexStorage) (domain.LikeStorage, error) {
	l.delta, l.index = d, i
	l.opened++
	// It has data of its own
	var err error
	if _, err = file.Seek(0, io.SeekStart); err != nil {
		return nil, err
	}
	if l.found, err = io.ReadAll(file); err != nil {
		return nil, err
	}
	more := fmt.Sprintf("life %d;", bytes.Count(l.found, []byte{';'}))
	l.left = append(append([]byte{}, l.found...), more...)
	if _, err = file.Write([]byte(more)); err != nil {
		return nil, err
	}
	return tapStorage{file}, nil
}
func (l *likeTap) OpenMaybeRecover(file domain.RandomAccessFile, d domain.DeltaStorage, i domain.IndexStorage) (domain.LikeStorage, error) {
	return l.Open(file, d, i)
}

// running is a started namespace on real files.
type running struct {
	ns likeNamespace
	// Asks for the stop by means of the context
	cancel func()
	tap    *likeTap
	rec    *recorder
}

func startOn(dir string, now func() known) (*running, error) {
	r := &running{tap: &likeTap{}, rec: &recorder{now: now}}
	for i, ext := range []string{"delta", "index"} {
		data, err := os.ReadFile(dir + "phoenix." + ext)
		if err != nil && !os.IsNotExist(err) {
			kit.Fatal("%v", err)
		}
		r.rec.base[i] = data
	}
	r.ns = domain.NewLikeNamespace(&domain.LikeNamespaceDto{Name: parse("phoenix"), BasePath: dir, DislikeFactor: 1,
		DeltaStorageFactory: watchedDelta{delta.NewStorageFactory(), r.rec}, LikeStorageFactory: r.tap,
		IndexStorageFactory: watchedIndex{index.NewStorageFactory(), r.rec, dir + "phoenix.index"}})
	ctx, cancel := context.WithCancel(context.Background())
	r.cancel = cancel
	err := r.ns.Start(ctx)
	return r, err
}

// stop stops the namespace and waits for the end of its worker.
func (r *running) stop(x *kit.X, when string, cancel bool) {
	if cancel {
		r.cancel()
	} else {
		defer r.cancel()
		r.ns.Stop()
	}
	for i := 0; r.ns.Like(0, 0) == nil; i++ {
		if i > 1000 {
			x.Failf("%s: the namespace doesn't stop", when)
		}
	}
	time.Sleep(time.Second)
	synctest.Wait()
}

type positions map[uint64]uint64

func (m positions) clone() positions {
	c := positions{}
	for k, v := range m {
		c[k] = v
	}
	return c
}

// past is what is known about the data of the namespace before a start.
type past struct {
	ops     []Step              // every operation that may be in the delta log
	ever    map[[2]uint64][]int // by pair
	at      known
	indexes []positions // what the index may hold
}

// compare checks the storages of a namespace that has just been started.
// Returns the positions found.
func (p *past) compare(x *kit.X, tap *likeTap, pairs [][2]uint64, ids []uint64, when string) positions {
	if tap.opened != 1 {
		x.Failf("%s: the like storage is opened %d times", when, tap.opened)
	}
	for _, pair := range pairs {
		op, ok := tap.delta.Get(pair[0], pair[1])
		floor, has := p.at.floor[pair]
		if !has {
			floor = -1
		}
		if !ok {
			if has {
				x.Failf("%s: the operation %s of user %d item %d, flushed before, is lost", when, p.ops[floor].K, pair[0], pair[1])
			}
			continue
		}
		good := false
		for _, i := range p.ever[pair] {
			good = good || i >= floor && i < p.at.recorded && opOf(p.ops[i]) == op
		}
		if !good {
			x.Failf("%s: user %d item %d answers %q, never recorded or older than what had been flushed", when, pair[0], pair[1], op)
		}
	}
	var found positions
	diff := ""
	for _, want := range p.indexes {
		d := ""
		for _, id := range ids {
			pos, ok := tap.index.Get(id)
			wantPos, wantOk := want[id]
			if ok != wantOk || pos != wantPos && ok {
				d = fmt.Sprintf("identifier %d is at (%d, %v), expected (%d, %v)", id, pos, ok, wantPos, wantOk)
				break
			}
		}
		if d == "" {
			found = want
			break
		}
		diff += d + "; "
	}
	if found == nil {
		x.Failf("%s: wrong index: %s", when, diff)
	}
	return found
}

func opOf(s Step) domain.DeltaOp {
	if s.K == "remove" {
		return domain.DeltaOpRemove
	}
	return domain.DeltaOpAdd
}

func TestC22(t *testing.T) {
	run := func(x *kit.X, c RestartCase) {
		root, err := filepath.EvalSymlinks(x.Dir())
		if err != nil {
			kit.Fatal("scratch: %v", err)
		}
		dir, other := root+"/data/", root+"/probe/"
		for _, d := range []string{dir, other} {
			if err := os.Mkdir(d, 0755); err != nil {
				kit.Fatal("scratch: %v", err)
			}
		}
		write := func(dir string, files [2][]byte) {
			for i, ext := range []string{"delta", "index"} {
				if err := os.WriteFile(dir+"phoenix."+ext, files[i], 0644); err != nil {
					kit.Fatal("scratch: %v", err)
				}
			}
		}
		pairSet, idSet := map[[2]uint64]bool{{1, 1}: true}, map[uint64]bool{77: true}
		for _, l := range c.Lives {
			for _, s := range l.Steps {
				switch s.K {
				case "add", "remove":
					for i := 0; i <= s.N; i++ {
						pairSet[[2]uint64{s.User, s.Item + uint64(i)}] = true
					}
					pairSet[[2]uint64{s.Item, s.User}] = true
				case "put", "drop", "bulk":
					for i := 0; i <= s.N; i++ {
						idSet[s.User+uint64(i)] = true
					}
				}
			}
		}
		var pairs [][2]uint64
		for p := range pairSet {
			pairs = append(pairs, p)
		}
		ids := kit.SortedKeys(idSet)
		x.Bubble(func() {
			left := map[string][]byte{}
			startOn := func(dir string, now func() known) (*running, error) {
				r, err := startOn(dir, now)
				if r.tap.opened > 0 {
					if !bytes.Equal(r.tap.found, left[dir]) {
						x.Failf("the like storage is given a file holding %q, it left %q in it", r.tap.found, left[dir])
					}
					left[dir] = r.tap.left
				}
				return r, err
			}
			before := &past{ever: map[[2]uint64][]int{}, indexes: []positions{{}}}
			for n, l := range c.Lives {
				when := fmt.Sprintf("life %d", n)
				if l.Foreign != nil {
					saved, _ := os.ReadFile(dir + "phoenix.index")
					// Something that certainly doesn't start as an index does
					foreign := append([]byte{^byte('R')}, l.Foreign...)
					for len(foreign) < 12 {
						foreign = append(foreign, 'x')
					}
					if err := os.WriteFile(dir+"phoenix.index", foreign, 0644); err != nil {
						kit.Fatal("scratch: %v", err)
					}
					_, err := startOn(dir, func() known { return known{} })
					if err == nil {
						x.Failf("%s: the start succeeds having a file that is not an index", when)
					}
					left, err := os.ReadFile(dir + "phoenix.index")
					if err != nil || !bytes.Equal(left, foreign) {
						x.Failf("%s: a file that is not an index is modified by the failed start (%v)", when, err)
					}
					if open := kit.OpenFiles(dir); len(open) > 0 {
						x.Failf("%s: files are left open by the failed start: %v", when, open)
					}
					if saved == nil {
						os.Remove(dir + "phoenix.index")
					} else if err := os.WriteFile(dir+"phoenix.index", saved, 0644); err != nil {
						kit.Fatal("scratch: %v", err)
					}
					x.Label("foreign index")
				}
				state := before.at
				state.starting = true
				r, err := startOn(dir, func() known { return state })
				if err != nil {
					x.Failf("%s: the start failed: %v", when, err)
				}
				found := before.compare(x, r.tap, pairs, ids, when)
				// What has been found is what there is from now on
				p := &past{ever: map[[2]uint64][]int{}}
				p.ops, p.at = append([]Step{}, before.ops...), known{floor: map[[2]uint64]int{}}
				latest := map[[2]uint64]int{}
				record := func(s Step, pair [2]uint64) {
					p.ops = append(p.ops, s)
					p.ever[pair] = append(p.ever[pair], len(p.ops)-1)
					latest[pair] = len(p.ops) - 1
				}
				for _, pair := range pairs {
					if op, ok := r.tap.delta.Get(pair[0], pair[1]); ok {
						k := "add"
						if op == domain.DeltaOpRemove {
							k = "remove"
						}
						record(Step{K: k, User: pair[0], Item: pair[1]}, pair)
					}
				}
				flushed := func() map[[2]uint64]int {
					m := map[[2]uint64]int{}
					for k, v := range latest {
						m[k] = v
					}
					return m
				}
				baseline := len(p.ops)
				state = known{recorded: baseline, floor: flushed()}
				positionsNow := found.clone()
				startedAt := len(r.rec.changes)
				for _, s := range l.Steps {
					switch s.K {
					case "add", "remove":
						for i := 0; i <= s.N; i++ {
							pair := [2]uint64{s.User, s.Item + uint64(i)}
							r.tap.delta.Add(opOf(s), pair[0], pair[1])
							record(s, pair)
						}
						state.recorded = len(p.ops)
					case "flush":
						if err := r.tap.delta.Flush(); err != nil {
							x.Failf("%s: flush failed: %v", when, err)
						}
						state.floor = flushed()
					case "put", "bulk":
						for i := 0; i <= s.N; i++ {
							id := s.User + uint64(i)
							if err := r.tap.index.Put(id, s.Item+uint64(i)); err != nil {
								x.Failf("%s: put failed: %v", when, err)
							}
							positionsNow[id] = s.Item + uint64(i)
						}
					case "drop":
						for i := 0; i <= s.N; i++ {
							if err := r.tap.index.Remove(s.User + uint64(i)); err != nil {
								x.Failf("%s: remove failed: %v", when, err)
							}
							delete(positionsNow, s.User+uint64(i))
						}
					}
				}
				state.closing = true
				r.stop(x, when, l.Cancel)
				state.floor = flushed()
				// What the files left at a moment may hold
				firstIndex, lastIndex := -1, -1
				for i, ch := range r.rec.changes {
					if ch.index {
						if firstIndex < 0 {
							firstIndex = i
						}
						lastIndex = i
					}
				}
				if firstIndex < 0 || firstIndex >= startedAt {
					x.Failf("%s: the index isn't marked as being used", when)
				}
				at := func(m, cut int) *past {
					q := &past{ops: p.ops, ever: p.ever, at: state}
					if m < len(r.rec.changes) {
						q.at = r.rec.changes[m].known
						if cut == 0 && m > 0 {
							if last := r.rec.changes[m-1].known; last.starting {
								q.at.recorded = baseline
							} else {
								q.at.recorded = last.recorded
							}
						}
					}
					if q.at.starting {
						q.ops, q.ever = before.ops, before.ever
						q.at = before.at
					}
					switch {
					case m < firstIndex:
						q.indexes = before.indexes
					case m == firstIndex:
						q.indexes = append([]positions{{}}, before.indexes...)
						if cut == 0 {
							q.indexes = before.indexes
						}
					case m > lastIndex:
						q.indexes = []positions{positionsNow}
					case m > startedAt && r.rec.changes[m].known.closing:
						q.indexes = []positions{{}, positionsNow}
						if m == lastIndex && cut == 0 {
							q.indexes = []positions{{}}
						}
					default:
						q.indexes = []positions{{}}
					}
					return q
				}
				// Half of the moments are those after the start
				moment := func(share int) int {
					n := len(r.rec.changes)
					if share < 500 {
						return share * (n + 1) / 500
					}
					return startedAt + (share-500)*(n-startedAt+1)/500
				}
				cutOf := func(m, share int) int {
					if m >= len(r.rec.changes) || len(r.rec.changes[m].data) < 2 {
						return 0
					}
					return share * len(r.rec.changes[m].data) / 1000
				}
				for i, share := range c.Probes {
					m := moment(share)
					cut := cutOf(m, c.Probes[(i+1)%len(c.Probes)]*(i%2))
					write(other, r.rec.images(m, cut))
					then := fmt.Sprintf("%s killed after %d of %d file modifications and %d bytes", when, m, len(r.rec.changes), cut)
					probe, err := startOn(other, func() known { return known{} })
					if err != nil {
						x.Failf("%s: the start failed: %v", then, err)
					}
					at(m, cut).compare(x, probe.tap, pairs, ids, then)
					probe.stop(x, then, i%2 == 1)
					x.Label("crash points")
				}
				if l.Kill {
					m := moment(l.At)
					cut := cutOf(m, l.Cut)
					write(dir, r.rec.images(m, cut))
					before = at(m, cut)
					x.Label("lives killed")
					if m > startedAt && m < len(r.rec.changes) {
						x.Label("killed while running")
						x.NonTrivial()
					}
				} else {
					before = at(len(r.rec.changes), 0)
					seen := r.rec.images(len(r.rec.changes), 0)
					for i, ext := range []string{"delta", "index"} {
						if data, _ := os.ReadFile(dir + "phoenix." + ext); !bytes.Equal(data, seen[i]) {
							kit.Fatal("the files differ from the modifications seen")
						}
					}
				}
			}
			// The last one, and a proper stop: everything is found again
			r, err := startOn(dir, func() known { return known{} })
			if err != nil {
				x.Failf("the last start failed: %v", err)
			}
			before.compare(x, r.tap, pairs, ids, "the last life")
			answers := map[[2]uint64]domain.DeltaOp{}
			for _, pair := range pairs {
				if op, ok := r.tap.delta.Get(pair[0], pair[1]); ok {
					answers[pair] = op
				}
			}
			places := positions{}
			for _, id := range ids {
				if pos, ok := r.tap.index.Get(id); ok {
					places[id] = pos
				}
			}
			r.stop(x, "the last life", len(c.Lives)%2 == 0)
			if r, err = startOn(dir, func() known { return known{} }); err != nil {
				x.Failf("the start after a proper stop failed: %v", err)
			}
			for _, pair := range pairs {
				op, ok := r.tap.delta.Get(pair[0], pair[1])
				want, wantOk := answers[pair]
				if ok != wantOk || op != want && ok {
					x.Failf("user %d item %d answers (%q, %v) after a proper stop, was (%q, %v)", pair[0], pair[1], op, ok, want, wantOk)
				}
			}
			for _, id := range ids {
				pos, ok := r.tap.index.Get(id)
				want, wantOk := places[id]
				if ok != wantOk || pos != want && ok {
					x.Failf("identifier %d is at (%d, %v) after a proper stop, was at (%d, %v)", id, pos, ok, want, wantOk)
				}
			}
			r.stop(x, "the end", false)
			if open := kit.OpenFiles(root); len(open) > 0 {
				x.Failf("files are left open: %v", open)
			}
		})
	}
	draw := func(lives, steps, bulk int) func(t *rapid.T) RestartCase {
		return func(t *rapid.T) RestartCase {
			var c RestartCase
			users, items := kit.Pool(t, "users", 1, 4), kit.Pool(t, "items", 1, 5)
			n := rapid.IntRange(1, lives).Draw(t, "lives")
			for i := 0; i < n; i++ {
				var l Life
				l.Steps = kit.Seq(t, "steps", rapid.Custom(func(t *rapid.T) Step {
					s := Step{K: rapid.SampledFrom([]string{"add", "add", "add", "remove", "remove", "flush", "put", "put", "drop", "bulk"}).Draw(t, "k")}
					s.User = rapid.SampledFrom(users).Draw(t, "u")
					s.Item = rapid.SampledFrom(items).Draw(t, "i")
					if bulk > 0 && (s.K == "bulk" || kit.Uniform(6).Draw(t, "many") == 0) {
						s.N = kit.Size(t, "n", bulk)
					}
					return s
				}), 0, steps)
				l.Cancel = rapid.Bool().Draw(t, "cancel")
				l.Kill = kit.Uniform(3).Draw(t, "kill") > 0
				l.At = kit.Uniform(1000).Draw(t, "at")
				l.Cut = rapid.SampledFrom([]int{0, 0, 1, 100, 500, 900, 999}).Draw(t, "cut")
				if kit.Uniform(8).Draw(t, "foreign") == 0 {
					l.Foreign = kit.Bytes(t, "bytes", 0, 40)
				}
				c.Lives = append(c.Lives, l)
			}
			c.Probes = rapid.SliceOfN(kit.Uniform(1000), 0, 6).Draw(t, "probes")
			return c
		}
	}
	kit.Main(t, "C22",
		"a namespace with the real delta log and index on real files living several times, each life stopped properly (by a call or by cancelling the context) or killed at any file modification (the one in progress cut at any byte), or found with a foreign file in place of its index; after each start the storages handed to the like storage are compared with the model of what must and may have survived. Non-trivial: killed between the start and the end of the stop.",
		kit.New("lives", 4000, 60000, draw(5, 12, 0), run),
		kit.New("bulk", 600, 10000, draw(3, 8, 400), run),
	)
}
