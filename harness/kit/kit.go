// Package kit runs generated cases against the code under test: rapid draws and
// shrinks JSON-serialisable cases, executors judge them with explicit oracles.
package kit

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// X is what an executor of a case talks to.
type X struct {
	T          *testing.T // for testing/synctest only
	labels     map[string]int
	nontrivial bool
	dir        string
	cleanups   []func()
	Tier       string
}

type failure struct{ msg string }

// Failf reports a violation and leaves the case.
func (x *X) Failf(format string, args ...any) {
	panic(failure{fmt.Sprintf(format, args...)})
}

// Known reports a violation unless KNOWN_FINDINGS lists it for the property
// under the key, in which case it's only counted.
func (x *X) Known(key, format string, args ...any) {
	for _, k := range strings.Split(os.Getenv("VERIF_KNOWN"), ",") {
		if k == key {
			x.Label("known finding: " + key)
			return
		}
	}
	x.Failf(format, args...)
}

// Label counts the case (once or more) in a class.
func (x *X) Label(name string) { x.labels[name]++ }

// Count adds to a class counter.
func (x *X) Count(name string, n int) { x.labels[name] += n }

// NonTrivial marks the case as non-trivial by the rule of the check.
func (x *X) NonTrivial() { x.nontrivial = true }

// Cleanup registers a function to call after the case, last registered first.
func (x *X) Cleanup(f func()) { x.cleanups = append(x.cleanups, f) }

// Undo returns a function that undoes a fault once, at the end of the case at the latest.
func (x *X) Undo(f func()) func() {
	done := false
	once := func() {
		if !done {
			done = true
			f()
		}
	}
	x.Cleanup(once)
	return once
}

// Dir returns a scratch directory living as long as the case.
func (x *X) Dir() string {
	if x.dir == "" {
		dir, err := os.MkdirTemp(scratch(), "case")
		if err != nil {
			Fatal("scratch dir: %v", err)
		}
		x.dir = dir
	}
	return x.dir
}

func scratch() string {
	if d := os.Getenv("VERIF_SCRATCH"); d != "" {
		return d
	}
	return os.TempDir()
}

// Fatal reports an error of the check itself (not a violation).
func Fatal(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "CHECK ERROR: "+format+"\n", args...)
	// A violation found before (and saved then) is not lost with it
	os.Exit(70)
}

// Check is one generator with its executor.
type Check struct {
	name            string
	quick, thorough int
	hot             float64
	hangTicks       int64
	gen             func(t *rapid.T) any
	decode          func(data []byte) (any, error)
	run             func(x *X, c any)
}

// New makes a check drawing the given number of cases per shard.
func New[C any](name string, quick, thorough int, gen func(t *rapid.T) C, run func(x *X, c C)) *Check {
	return &Check{
		name: name, quick: quick, thorough: thorough, hangTicks: 60,
		gen: func(t *rapid.T) any { return gen(t) },
		decode: func(data []byte) (any, error) {
			var c C
			err := json.Unmarshal(data, &c)
			return c, err
		},
		run: func(x *X, c any) { run(x, c.(C)) },
	}
}

// Together makes a check whose cases are several ones of the executor, run at
// the same time, each a few times: what is separate must not interfere.
func Together[C any](quick, thorough int, gen func(t *rapid.T) C, run func(x *X, c C)) *Check {
	draw := func(t *rapid.T) []C { return rapid.SliceOfN(rapid.Custom(gen), 2, 4).Draw(t, "cases") }
	return New("together", quick, thorough, draw, func(x *X, cases []C) {
		var mu sync.Mutex
		var wg sync.WaitGroup
		msg := ""
		begin := make(chan struct{})
		nontrivial := 0
		for _, c := range cases {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-begin
				for i := 0; i < 3; i++ {
					one := &X{labels: map[string]int{}, Tier: x.Tier}
					m := one.alone(func() { run(one, c) })
					mu.Lock()
					if msg == "" {
						msg = m
					}
					if one.nontrivial && i == 0 {
						nontrivial++
					}
					mu.Unlock()
				}
			}()
		}
		close(begin)
		wg.Wait()
		if msg != "" {
			x.Failf("used at the same time: %s", msg)
		}
		if nontrivial > 1 {
			x.NonTrivial()
		}
	})
}

// Runs a function with what is to be done after it, returns the violation.
func (x *X) alone(f func()) (msg string) {
	defer func() {
		for i := len(x.cleanups) - 1; i >= 0; i-- {
			func() {
				defer func() {
					if r := recover(); r != nil && msg == "" {
						msg = describe(r)
					}
				}()
				x.cleanups[i]()
			}()
		}
		if x.dir != "" {
			os.RemoveAll(x.dir)
		}
	}()
	defer func() {
		if r := recover(); r != nil {
			msg = describe(r)
		}
	}()
	f()
	return ""
}

// Patient gives the cases of a check more time (seconds) before one is said
// not to end.
func (c *Check) Patient(ticks int64) *Check {
	c.hangTicks = ticks
	return c
}

// Failure is the counterexample of a run.
type Failure struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Message  string          `json:"message"`
	Case     json.RawMessage `json:"case"`
	Hang     bool            `json:"hang,omitempty"`
}

type subResult struct {
	Sub         string            `json:"sub"`
	Evaluations int               `json:"evaluations"`
	NonTrivial  int               `json:"nontrivial"`
	Classes     map[string]int    `json:"classes"`
	Samples     []json.RawMessage `json:"samples"`
}

type result struct {
	Property string       `json:"property"`
	Rule     string       `json:"rule"`
	Done     bool         `json:"done"`
	Subs     []*subResult `json:"subs"`
	Failure  *Failure     `json:"failure"`
}

type session struct {
	res     result
	out     string
	journal []byte
	hashes  map[uint64]bool
	beat    atomic.Int64 // number of the case being run, 0 if none
	curSub  atomic.Pointer[Check]
	curCase atomic.Pointer[[]byte]
	spare   []*os.File
	limits  map[int]syscall.Rlimit
}

var theSession *session

const journalSize = 8 << 20

func env(name, def string) string {
	if v := os.Getenv(name); v != "" {
		return v
	}
	return def
}

// Main runs the checks of a property: all of them, or the replayed case only.
func Main(t *testing.T, property, rule string, checks ...*Check) {
	s := &session{out: env("VERIF_OUT", ""), hashes: map[uint64]bool{}, limits: map[int]syscall.Rlimit{}}
	s.res.Property, s.res.Rule = property, rule
	theSession = s
	s.openJournal()
	s.reserve()
	go s.watch()
	if path := os.Getenv("VERIF_REPLAY"); path != "" {
		s.replay(t, path, checks)
	} else {
		s.search(t, checks)
	}
	s.res.Done = true
	s.write()
	if s.res.Failure != nil {
		t.Errorf("VIOLATION of %s (%s): %s", property, s.res.Failure.Sub, s.res.Failure.Message)
	}
}

func (s *session) openJournal() {
	if s.out == "" {
		return
	}
	f, err := os.OpenFile(filepath.Join(s.out, "journal"), os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
	if err != nil {
		Fatal("journal: %v", err)
	}
	defer f.Close()
	if err := f.Truncate(journalSize); err != nil {
		Fatal("journal: %v", err)
	}
	s.journal, err = syscall.Mmap(int(f.Fd()), 0, journalSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		Fatal("journal: %v", err)
	}
}

// Writes the case about to be run where it outlives the process.
func (s *session) log(sub string, data []byte) {
	if s.journal == nil || len(data)+len(sub)+64 > journalSize {
		return
	}
	binary.BigEndian.PutUint64(s.journal, 0)
	n := copy(s.journal[16:], sub)
	m := copy(s.journal[16+n:], data)
	binary.BigEndian.PutUint64(s.journal[8:], uint64(m))
	binary.BigEndian.PutUint64(s.journal, uint64(n))
}

// Keeps some file descriptors for the result: the code under test may leak them.
func (s *session) reserve() {
	for _, r := range []int{syscall.RLIMIT_NOFILE, syscall.RLIMIT_FSIZE} { // a fault may be in effect
		var limit syscall.Rlimit
		if syscall.Getrlimit(r, &limit) == nil {
			s.limits[r] = limit
		}
	}
	for i := 0; i < 16; i++ {
		if f, err := os.Open(os.DevNull); err == nil {
			s.spare = append(s.spare, f)
		}
	}
}

// Lets the garbage collector close leaked files before there are none left.
func (s *session) collect() {
	fd, err := syscall.Open(os.DevNull, syscall.O_RDONLY|syscall.O_CLOEXEC, 0)
	if err == nil {
		syscall.Close(fd)
	}
	if err != nil || fd > 2000 {
		runtime.GC()
		time.Sleep(time.Millisecond)
	}
}

func (s *session) write() {
	if s.out == "" {
		return
	}
	for r, limit := range s.limits {
		syscall.Setrlimit(r, &limit)
	}
	for _, f := range s.spare {
		f.Close()
	}
	s.spare = nil
	defer s.reserve()
	data, err := json.MarshalIndent(&s.res, "", " ")
	if err != nil {
		Fatal("result: %v", err)
	}
	hashes := make([]byte, 0, len(s.hashes)*8)
	for h := range s.hashes {
		hashes = binary.LittleEndian.AppendUint64(hashes, h)
	}
	if err := os.WriteFile(filepath.Join(s.out, "hashes"), hashes, 0644); err != nil {
		Fatal("result: %v", err)
	}
	tmp := filepath.Join(s.out, "result.tmp")
	if err := os.WriteFile(tmp, data, 0644); err != nil {
		Fatal("result: %v", err)
	}
	if err := os.Rename(tmp, filepath.Join(s.out, "result.json")); err != nil {
		Fatal("result: %v", err)
	}
}

// Reports a case that does not end. Counts ticks of this process rather than
// wall-clock time, so that a suspended or starved process isn't blamed.
func (s *session) watch() {
	var last, ticks int64
	for {
		time.Sleep(time.Second)
		cur := s.beat.Load()
		if cur == 0 || cur != last {
			last, ticks = cur, 0
			continue
		}
		ticks++
		check := s.curSub.Load()
		if ticks < check.hangTicks {
			continue
		}
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		fmt.Fprintf(os.Stderr, "the case does not end:\n%s\n", buf)
		if s.res.Failure == nil {
			s.res.Failure = &Failure{s.res.Property, check.name,
				fmt.Sprintf("the case does not end (%d s)", ticks), *s.curCase.Load(), true}
		}
		s.write()
		os.Exit(71)
	}
}

// Runs a case, returns the violation message or "".
func (s *session) exec(t *testing.T, c *Check, data []byte, val any, number int64) (x *X, msg string) {
	s.log(c.name, data)
	s.curSub.Store(c)
	s.curCase.Store(&data)
	s.beat.Store(number)
	defer s.beat.Store(0)
	x = &X{T: t, labels: map[string]int{}, Tier: env("VERIF_TIER", "quick")}
	defer s.collect()
	return x, x.alone(func() { c.run(x, val) })
}

func describe(r any) string {
	if f, ok := r.(failure); ok {
		return f.msg
	}
	stack := strings.Split(string(debug.Stack()), "\n")
	var frames []string
	for _, line := range stack {
		if strings.Contains(line, "/repo/") || strings.Contains(line, "/harness/") {
			frames = append(frames, strings.TrimSpace(line))
		}
	}
	if len(frames) > 12 {
		frames = frames[:12]
	}
	return fmt.Sprintf("panic: %v\n%s", r, strings.Join(frames, "\n"))
}

func hash(sub string, data []byte) uint64 {
	h := fnv.New64a()
	h.Write([]byte(sub))
	h.Write(data)
	return h.Sum64()
}

func (s *session) search(t *testing.T, checks []*Check) {
	seed, err := strconv.ParseUint(env("VERIF_SEED", "1"), 10, 64)
	if err != nil {
		seed = hash(env("VERIF_SEED", "1"), nil)
	}
	shard, _ := strconv.ParseUint(env("VERIF_SHARD", "0"), 10, 64)
	only := os.Getenv("VERIF_ONLY")
	scale, _ := strconv.ParseFloat(env("VERIF_SCALE", "1"), 64)
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", env("VERIF_SHRINK", "25s"))
	var number int64
	for _, c := range checks {
		if only != "" && only != c.name {
			continue
		}
		cases := c.quick
		if env("VERIF_TIER", "quick") == "thorough" {
			cases = c.thorough
		}
		cases = int(float64(cases) * scale)
		if cases < 1 {
			cases = 1
		}
		flag.Set("rapid.checks", strconv.Itoa(cases))
		mix := hash(c.name+"/"+s.res.Property, nil) ^ (seed * 0x9E3779B97F4A7C15) ^ (shard * 0xD1B54A32D192ED03)
		mix &= 1<<62 - 1
		if mix == 0 {
			mix = 1
		}
		flag.Set("rapid.seed", strconv.FormatUint(mix, 10))
		r := &subResult{Sub: c.name, Classes: map[string]int{}}
		s.res.Subs = append(s.res.Subs, r)
		var fail *Failure
		tb := &quietTB{TB: t}
		tb.run(func() {
			rapid.Check(tb, func(rt *rapid.T) {
				val := c.gen(rt)
				data, err := json.Marshal(val)
				if err != nil {
					Fatal("cannot encode a case of %s: %v", c.name, err)
				}
				number++
				x, msg := s.exec(t, c, data, val, number)
				if msg != "" {
					if fail == nil || len(data) <= len(fail.Case) {
						first := fail == nil
						fail = &Failure{s.res.Property, c.name, msg, data, false}
						s.res.Failure = fail
						if first {
							s.write() // in case shrinking it ends the process
						}
					}
					rt.Fatalf("violation")
				}
				if fail != nil {
					return // shrinking
				}
				r.Evaluations++
				for k, n := range x.labels {
					r.Classes[k] += n
				}
				if x.nontrivial {
					h := hash(c.name, data)
					if !s.hashes[h] {
						s.hashes[h] = true
						r.NonTrivial++
						if len(r.Samples) < 2 || (len(r.Samples) < 4 && r.NonTrivial%97 == 0) {
							r.Samples = append(r.Samples, sample(data))
						}
					}
				}
			})
		})
		if fail != nil {
			s.res.Failure = fail
			return
		}
		if tb.failed {
			Fatal("rapid gave up on %s: %s", c.name, strings.Join(tb.logs, "\n"))
		}
	}
}

func sample(data []byte) json.RawMessage {
	if len(data) <= 1500 {
		return append(json.RawMessage{}, data...)
	}
	cut, _ := json.Marshal(string(data[:1400]) + "... (" + strconv.Itoa(len(data)) + " bytes of JSON)")
	return cut
}

// Replays a saved case. Cases depending on schedules are tried repeatedly.
func (s *session) replay(t *testing.T, path string, checks []*Check) {
	data, err := os.ReadFile(path)
	if err != nil {
		Fatal("replay: %v", err)
	}
	var f Failure
	if err := json.Unmarshal(data, &f); err != nil {
		Fatal("replay: %v", err)
	}
	times, _ := strconv.Atoi(env("VERIF_TIMES", "25"))
	for _, c := range checks {
		if c.name != f.Sub {
			continue
		}
		r := &subResult{Sub: c.name, Classes: map[string]int{}}
		s.res.Subs = append(s.res.Subs, r)
		for i := 0; i < times; i++ {
			val, err := c.decode(f.Case)
			if err != nil {
				Fatal("replay: %v", err)
			}
			_, msg := s.exec(t, c, f.Case, val, int64(i+1))
			r.Evaluations++
			if msg != "" {
				s.res.Failure = &Failure{s.res.Property, c.name, msg, f.Case, false}
				return
			}
		}
		return
	}
	Fatal("replay: no check %q", f.Sub)
}

// quietTB keeps rapid's failures from ending the test: they are ours to report.
type quietTB struct {
	rapid.TB
	failed bool
	logs   []string
}

type stopRapid struct{}

func (q *quietTB) run(f func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stopRapid); !ok {
				panic(r)
			}
		}
	}()
	f()
}

func (q *quietTB) note(s string) {
	if len(q.logs) < 50 {
		q.logs = append(q.logs, s)
	}
}
func (q *quietTB) Helper()                           {}
func (q *quietTB) Name() string                      { return "verif" }
func (q *quietTB) Logf(format string, args ...any)   { q.note(fmt.Sprintf(format, args...)) }
func (q *quietTB) Log(args ...any)                   { q.note(fmt.Sprint(args...)) }
func (q *quietTB) Errorf(format string, args ...any) { q.failed = true; q.Logf(format, args...) }
func (q *quietTB) Error(args ...any)                 { q.failed = true; q.Log(args...) }
func (q *quietTB) Fatalf(format string, args ...any) { q.Errorf(format, args...); q.FailNow() }
func (q *quietTB) Fatal(args ...any)                 { q.Error(args...); q.FailNow() }
func (q *quietTB) FailNow()                          { q.failed = true; panic(stopRapid{}) }
func (q *quietTB) Fail()                             { q.failed = true }
func (q *quietTB) Failed() bool                      { return q.failed }

// SortedKeys returns the keys of a map in ascending order.
func SortedKeys[K ~uint64 | ~string | ~int, V any](m map[K]V) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
	return keys
}

// U64 generates identifiers: colliding small ones, boundaries, anything.
func U64() *rapid.Generator[uint64] {
	return rapid.OneOf(
		rapid.Uint64Range(0, 6),
		rapid.SampledFrom([]uint64{0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0xffff, 0x10000, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32,
			1<<53 - 1, 1 << 53, 1<<53 + 1, 1<<63 - 1, 1 << 63, 1<<63 + 1, 1<<64 - 2, 1<<64 - 1}),
		rapid.Uint64(),
	)
}

// Pool draws n distinct identifiers, sorted.
func Pool(t *rapid.T, label string, min, max int) []uint64 {
	ids := rapid.SliceOfNDistinct(U64(), min, max, rapid.ID[uint64]).Draw(t, label)
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	return ids
}

// Seq draws a sequence of up to max elements, long ones being as likely as
// short ones (rapid's own slices are about 5 elements long on average).
func Seq[V any](t *rapid.T, label string, g *rapid.Generator[V], min, max int) []V {
	low := rapid.SampledFrom([]int{min, min, (min + max) / 4, (min + max) / 2}).Draw(t, label+"-low")
	if low < min {
		low = min
	}
	return rapid.SliceOfN(g, low, max).Draw(t, label)
}

// Size draws a size up to max, large ones being likely.
func Size(t *rapid.T, label string, max int) int {
	return rapid.OneOf(
		rapid.IntRange(1, min(max, 20)),
		rapid.IntRange(max/2, max),
		rapid.IntRange(1, max),
	).Draw(t, label)
}

// Uniform draws 0..n-1 evenly (rapid's integers prefer small values).
func Uniform(n int) *rapid.Generator[int] {
	values := make([]int, n)
	for i := range values {
		values[i] = i
	}
	return rapid.SampledFrom(values)
}

// Bytes draws up to max bytes, half of the time long ones.
func Bytes(t *rapid.T, label string, min, max int) []byte {
	return Seq(t, label, rapid.OneOf(rapid.Byte(), rapid.SampledFrom([]byte{0, 0, 1, '+', '-', 0xff})), min, max)
}
