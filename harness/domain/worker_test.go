package domain

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"recengine/internal/domain"
	"recengine/internal/infra/recdb"
	"recengine/vpbt/kit"
	"regexp"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
)

// ---- stand-ins for the storages, recording what happens to them

type event struct {
	what string
	at   time.Time
}

// world is what the stand-ins share.
type world struct {
	mu     sync.Mutex
	events []event
	start  time.Time
	fail   map[string]bool // factories that fail
	stuck  map[string]bool // storages that fail to be closed
	// what the like storage does
	process func(actions []domain.Action) error
}

func newWorld() *world { return &world{start: time.Now(), fail: map[string]bool{}} }

func (w *world) note(what string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.events = append(w.events, event{what, time.Now()})
}

func (w *world) list() []string {
	w.mu.Lock()
	defer w.mu.Unlock()
	var l []string
	for _, e := range w.events {
		l = append(l, e.what)
	}
	return l
}

func (w *world) count(what string) int {
	n := 0
	for _, e := range w.list() {
		if e == what {
			n++
		}
	}
	return n
}

func (w *world) close(which string, f io.Closer) error {
	w.note("close " + which)
	err := f.Close()
	if w.stuck[which] {
		return errFactory
	}
	return err
}

type fakeDelta struct {
	domain.DeltaStorage
	w *world
	f io.Closer
}

func (d *fakeDelta) Flush() error           { return nil }
func (d *fakeDelta) GetUserCount() int      { return 0 }
func (d *fakeDelta) GetTotalItemCount() int { return 0 }
func (d *fakeDelta) GetFileSize() uint64    { return 0 }
func (d *fakeDelta) Close() error {
	return d.w.close("delta", d.f)
}

type fakeIndex struct {
	domain.IndexStorage
	w *world
	f io.Closer
}

func (i *fakeIndex) Close() error {
	return i.w.close("index", i.f)
}

type fakeLike struct {
	w *world
	f io.Closer
}

func (l *fakeLike) Close() error {
	return l.w.close("like", l.f)
}

func (l *fakeLike) ProcessActions(actions []domain.Action) error {
	l.w.note("process")
	if l.w.process == nil {
		return recdb.NewLikeStorage().ProcessActions(actions)
	}
	return l.w.process(actions)
}

// failure is the n-th error of a stand-in, of various kinds.
func failure(n int, format string, args ...any) error {
	kinds := []error{nil, os.ErrClosed, io.EOF, context.Canceled, context.DeadlineExceeded, os.ErrNotExist, io.ErrClosedPipe, syscall.ENOSPC, syscall.EINTR, io.ErrUnexpectedEOF}
	text := fmt.Sprintf(format, args...)
	if kind := kinds[n%len(kinds)]; kind != nil {
		return fmt.Errorf("%s: %w", text, kind)
	}
	return errors.New(text)
}

var errFactory = errors.New("factory failure")

type fakeDeltaFactory struct{ w *world }

func (f fakeDeltaFactory) Recover(domain.RandomAccessFile) error { return nil }
func (f fakeDeltaFactory) Open(file domain.RandomAccessFile) (domain.DeltaStorage, error) {
	return f.OpenMaybeRecover(file)
}
func (f fakeDeltaFactory) OpenMaybeRecover(file domain.RandomAccessFile) (domain.DeltaStorage, error) {
	if f.w.fail["delta"] {
		return nil, errFactory // as the real one, it doesn't close the file
	}
	f.w.note("open delta")
	return &fakeDelta{w: f.w, f: file}, nil
}

type fakeIndexFactory struct{ w *world }

func (f fakeIndexFactory) OpenFile(path string) (domain.IndexStorage, error) {
	file, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0644)
	if err != nil {
		return nil, err
	}
	return f.Open(file, file)
}
func (f fakeIndexFactory) Open(file io.ReadWriteSeeker, closer io.Closer) (domain.IndexStorage, error) {
	if f.w.fail["index"] {
		closer.Close()
		return nil, errFactory
	}
	f.w.note("open index")
	return &fakeIndex{w: f.w, f: closer}, nil
}

type fakeLikeFactory struct{ w *world }

func (f fakeLikeFactory) Recover(domain.RandomAccessFile) error { return nil }
func (f fakeLikeFactory) Open(file domain.RandomAccessFile, d domain.DeltaStorage, i domain.IndexStorage) (domain.LikeStorage, error) {
	return f.OpenMaybeRecover(file, d, i)
}
func (f fakeLikeFactory) OpenMaybeRecover(file domain.RandomAccessFile, d domain.DeltaStorage, i domain.IndexStorage) (domain.LikeStorage, error) {
	if f.w.fail["like"] {
		return nil, errFactory
	}
	if d == nil || i == nil {
		return nil, errors.New("missing storages")
	}
	f.w.note("open like")
	return &fakeLike{w: f.w, f: file}, nil
}

type likeNamespace interface {
	domain.Namespace
	DeleteProfile(user uint64) error
	GetProfile(user uint64) (*domain.Profile, error)
	Like(user, item uint64) error
	Dislike(user, item uint64) error
	DeleteItem(user, item uint64) error
	GetSimilarProfiles(user uint64) (*[]domain.SimilarProfile, error)
	RecommendItems(user uint64) (*[]domain.RecItem, error)
}

func (w *world) namespace(name, base string) likeNamespace {
	return domain.NewLikeNamespace(&domain.LikeNamespaceDto{
		Name: parse(name), BasePath: base, DislikeFactor: 1,
		DeltaStorageFactory: fakeDeltaFactory{w}, LikeStorageFactory: fakeLikeFactory{w}, IndexStorageFactory: fakeIndexFactory{w},
	})
}

var requestKinds = []string{"like", "dislike", "deleteItem", "deleteProfile", "getProfile", "similar", "recommend"}

var kindOf = map[domain.ActionType]string{
	domain.ActionLike: "like", domain.ActionDislike: "dislike", domain.ActionDeleteItem: "deleteItem", domain.ActionDeleteProfile: "deleteProfile",
	domain.ActionGetProfile: "getProfile", domain.ActionGetSimilarProfiles: "similar", domain.ActionRecommendItems: "recommend",
}

// issue sends a request, returning the reply as text and the error.
func issue(ns likeNamespace, kind string, user, item uint64) (string, error) {
	switch kind {
	case "like":
		return "", ns.Like(user, item)
	case "dislike":
		return "", ns.Dislike(user, item)
	case "deleteItem":
		return "", ns.DeleteItem(user, item)
	case "deleteProfile":
		return "", ns.DeleteProfile(user)
	case "getProfile":
		p, err := ns.GetProfile(user)
		if p == nil {
			return "none", err
		}
		return fmt.Sprintf("%d %v", p.UserID, p.Likes), err
	case "similar":
		p, err := ns.GetSimilarProfiles(user)
		if p == nil {
			return "none", err
		}
		return fmt.Sprint(*p), err
	}
	p, err := ns.RecommendItems(user)
	if p == nil {
		return "none", err
	}
	return fmt.Sprint(*p), err
}

// describeAction names the request an action stands for.
func describeAction(a domain.Action) string {
	kind := kindOf[a.ActionType]
	switch p := a.Payload.(type) {
	case domain.LikePayload:
		return fmt.Sprintf("%s %d %d", kind, p.UserID, p.ItemID)
	case domain.DeleteProfilePayload:
		return fmt.Sprintf("%s %d", kind, p.UserID)
	case domain.GetProfilePayload:
		return fmt.Sprintf("%s %d", kind, p.UserID)
	case domain.GetSimilarProfilesPayload:
		return fmt.Sprintf("%s %d", kind, p.UserID)
	case domain.RecommendItemsPayload:
		return fmt.Sprintf("%s %d", kind, p.UserID)
	}
	return fmt.Sprintf("%s %T", kind, a.Payload)
}

func describeRequest(kind string, user, item uint64) string {
	if kind == "like" || kind == "dislike" || kind == "deleteItem" {
		return fmt.Sprintf("%s %d %d", kind, user, item)
	}
	return fmt.Sprintf("%s %d", kind, user)
}

// Request is one request of a client.
type Request struct {
	K     string `json:"k"`
	User  uint64 `json:"u"`
	Item  uint64 `json:"i"`
	NS    int    `json:"ns"`    // which of the two namespaces it goes to
	Wait  int    `json:"wait"`  // ms (virtual) before it's issued
	Reply string `json:"reply"` // value, error, none (only in failing batches)
}

// WorkCase is several clients of one running namespace.
type WorkCase struct {
	Clients [][]Request `json:"clients"`
	Slow    []int       `json:"slow"` // ms processing of a batch takes, cyclically
	Failing []bool      `json:"fail"` // batches the storage fails, cyclically
	Late    int         `json:"late"` // ms after the first requests until the start
	Stub    bool        `json:"stub"`
	Changes []int       `json:"changes"` // ms when the settings are changed
}

// shop is one of the namespaces with what its storage has seen.
type shop struct {
	w       *world
	ns      likeNamespace
	batches []*batch
}

type batch struct {
	at   time.Duration
	seen []*sent
	err  error
}

type sent struct {
	Request
	id          int
	at, done    time.Duration
	reply       string
	err         error
	served      int
	want        string
	wantErr     error
	batch       int
	description string
}

func TestC20(t *testing.T) {
	run := func(x *kit.X, c WorkCase) {
		dir := x.Dir() + "/"
		x.Bubble(func() {
			shops := [2]*shop{}
			for i := range shops {
				w := newWorld()
				shops[i] = &shop{w: w, ns: w.namespace(fmt.Sprintf("work%d", i), dir)}
			}
			w := shops[0].w
			byDescription := map[string]*sent{}
			var all []*sent
			bad := ""
			complain := func(format string, args ...any) {
				w.mu.Lock()
				defer w.mu.Unlock()
				if bad == "" {
					bad = fmt.Sprintf(format, args...)
				}
			}
			n := 0
			var longest time.Duration
			for ci := range c.Clients {
				var sum time.Duration
				for ri := range c.Clients[ci] {
					sum += time.Duration(c.Clients[ci][ri].Wait) * time.Millisecond
					longest = max(longest, sum)
					r := &c.Clients[ci][ri]
					// Arguments identify the request
					r.User += uint64(n) << 32
					s := &sent{Request: *r, id: n, batch: -1, done: -1}
					s.description = describeRequest(r.K, r.User, r.Item)
					n++
					byDescription[s.description] = s
					all = append(all, s)
				}
			}
			for i, sh := range shops {
				if c.Stub {
					break
				}
				sh.w.process = func(actions []domain.Action) error {
					b := &batch{at: time.Since(w.start)}
					sh.batches = append(sh.batches, b)
					k := len(sh.batches) - 1
					failing := len(c.Failing) > 0 && c.Failing[k%len(c.Failing)]
					if len(c.Slow) > 0 {
						time.Sleep(time.Duration(c.Slow[k%len(c.Slow)]) * time.Millisecond)
					}
					if failing {
						b.err = failure(i+2*k, "batch %d of %d failed", k, i)
					}
					for _, a := range actions {
						s := byDescription[describeAction(a)]
						if s == nil {
							complain("the storage got %s, which nobody requested", describeAction(a))
							continue
						}
						if s.NS != i {
							complain("%s reached the storage of the other namespace", s.description)
						}
						b.seen = append(b.seen, s)
						s.served++
						s.batch = k
						if s.served > 1 {
							complain("%s reached the storage %d times", s.description, s.served)
							continue
						}
						if s.Reply == "none" && failing {
							s.wantErr = b.err
							continue
						}
						if s.Reply == "error" {
							s.wantErr = failure(s.id, "error of request %d", s.id)
							a.Error <- s.wantErr
							continue
						}
						user := uint64(s.id) + 7
						switch p := a.Payload.(type) {
						case domain.GetProfilePayload:
							if s.id%3 == 0 {
								s.want = "none"
								p.Profile <- nil
							} else {
								s.want = fmt.Sprintf("%d %v", user, []uint64{user})
								p.Profile <- &domain.Profile{UserID: user, Likes: []uint64{user}}
							}
						case domain.GetSimilarProfilesPayload:
							v := []domain.SimilarProfile{{Profile: nil, Similarity: float32(user)}}
							s.want = fmt.Sprint(v)
							p.Profiles <- &v
						case domain.RecommendItemsPayload:
							v := []domain.RecItem{{ItemID: user, Relevance: 1}}
							s.want = fmt.Sprint(v)
							p.Items <- &v
						default:
							a.Error <- nil
						}
					}
					return b.err
				}
			}
			ctx, cancel := context.WithCancel(context.Background())
			defer func() {
				cancel()
				for _, sh := range shops {
					sh.ns.Stop()
				}
				synctest.Wait()
			}()
			at := 0
			for ci := range c.Clients {
				mine := all[at : at+len(c.Clients[ci])]
				at += len(c.Clients[ci])
				go func() {
					for _, s := range mine {
						time.Sleep(time.Duration(s.Wait) * time.Millisecond)
						s.at = time.Since(w.start)
						s.reply, s.err = issue(shops[s.NS].ns, s.K, s.User, s.Item)
						s.done = time.Since(w.start)
					}
				}()
			}
			if c.Late > 0 {
				time.Sleep(time.Duration(c.Late) * time.Millisecond)
			}
			synctest.Wait()
			for _, sh := range shops {
				if err := sh.ns.Start(ctx); err != nil {
					x.Failf("the start failed: %v", err)
				}
			}
			started := time.Since(w.start)
			for i, ms := range c.Changes {
				go func() {
					time.Sleep(time.Duration(ms) * time.Millisecond)
					ns := shops[i%2].ns
					ns.SetDislikeFactor(float32(i))
					ns.SetMaxSimilarProfiles(uint(i))
					<-ns.Rename(parse(fmt.Sprintf("renamed%d", i)))
				}()
			}
			// Long enough for all
			wait := longest + time.Hour
			for _, ms := range c.Slow {
				wait += time.Duration(ms*len(all)) * time.Millisecond
			}
			time.Sleep(wait)
			synctest.Wait()
			if bad != "" {
				x.Failf("%s", bad)
			}
			failed := false
			for _, s := range all {
				if s.done < 0 {
					x.Failf("%s (%s) got no reply", s.description, s.Reply)
				}
				if c.Stub {
					if s.err != nil {
						x.Failf("%s failed: %v", s.description, s.err)
					}
					switch s.K {
					case "getProfile":
						s.want = "none"
					case "similar", "recommend":
						s.want = "[]"
					}
				} else if s.served != 1 {
					x.Failf("%s reached the storage %d times", s.description, s.served)
				}
				if s.wantErr == nil && s.err != nil {
					x.Failf("%s returned the error %v, expected %q", s.description, s.err, s.want)
				}
				if s.wantErr != nil {
					failed = true
					if s.err == nil || !errors.Is(s.err, s.wantErr) && !strings.Contains(s.err.Error(), s.wantErr.Error()) {
						x.Failf("%s returned (%s, %v), expected the error: %v", s.description, s.reply, s.err, s.wantErr)
					}
				} else if s.reply != s.want {
					x.Failf("%s returned %q, expected %q", s.description, s.reply, s.want)
				}
			}
			if c.Stub {
				if len(all) > 1 {
					x.NonTrivial()
				}
				return
			}
			// Order of arrival
			for _, sh := range shops {
				latest := time.Duration(-1)
				for _, b := range sh.batches {
					for _, s := range b.seen {
						if s.at < latest {
							x.Failf("%s of %v reached the storage after a request of %v", s.description, s.at, latest)
						}
						latest = max(latest, s.at)
					}
				}
			}
			// Batching: the worker takes the first request when idle, and
			// processes it along with all that has queued up since.
			var delay time.Duration = -1
			together, batches := 0, 0
			for i, sh := range shops {
				idle := started
				batches += len(sh.batches)
				for k, b := range sh.batches {
					if len(b.seen) == 0 {
						x.Failf("batch %d is empty", k)
					}
					first := b.seen[0].at
					for _, s := range b.seen {
						first = min(first, s.at)
					}
					taken := max(first, idle)
					d := b.at - taken
					if delay < 0 {
						delay = d
						if d <= 0 || d > time.Second {
							x.Failf("batch %d is processed after %v, that's not a short delay", k, d)
						}
					}
					if d != delay {
						x.Failf("batch %d is processed after %v, the first one after %v", k, d, delay)
					}
					waiting, inside := 0, 0
					for _, s := range all {
						if s.NS == i && s.at < b.at && s.batch >= k {
							waiting++
							if s.batch == k {
								inside++
							}
						}
					}
					if inside < waiting && inside < 100 {
						x.Failf("batch %d of %v has %d of the %d requests waiting", k, b.at, inside, waiting)
					}
					if len(b.seen) > 1 {
						together++
					}
					idle = b.at
					if len(c.Slow) > 0 {
						idle += time.Duration(c.Slow[k%len(c.Slow)]) * time.Millisecond
					}
					if len(b.seen) > 100 {
						x.Label("full queue")
					}
				}
			}
			for _, s := range all {
				// The reply comes with the end of the batch at the latest
				end := shops[s.NS].batches[s.batch].at
				if len(c.Slow) > 0 {
					end += time.Duration(c.Slow[s.batch%len(c.Slow)]) * time.Millisecond
				}
				if s.done > end {
					x.Failf("%s got its reply at %v, its batch ended at %v", s.description, s.done, end)
				}
			}
			x.Count("batches", batches)
			if failed {
				x.Label("with failures")
			}
			if together > 0 && batches > 1 {
				x.NonTrivial()
			}
		})
	}
	draw := func(clients, requests int, wait []int) func(t *rapid.T) WorkCase {
		return func(t *rapid.T) WorkCase {
			c := WorkCase{Stub: kit.Uniform(12).Draw(t, "stub") == 0}
			user := kit.U64()
			n := rapid.IntRange(1, clients).Draw(t, "clients")
			both := rapid.IntRange(0, 2).Draw(t, "both") == 2
			for i := 0; i < n; i++ {
				c.Clients = append(c.Clients, kit.Seq(t, "requests", rapid.Custom(func(t *rapid.T) Request {
					ns := 0
					if both {
						ns = kit.Uniform(2).Draw(t, "ns")
					}
					return Request{
						NS:   ns,
						K:    rapid.SampledFrom(requestKinds).Draw(t, "k"),
						User: user.Draw(t, "user") >> 32, Item: user.Draw(t, "item"),
						Wait:  rapid.SampledFrom(wait).Draw(t, "wait"),
						Reply: rapid.SampledFrom([]string{"value", "value", "error", "none"}).Draw(t, "reply"),
					}
				}), 1, requests))
			}
			c.Slow = rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 1, 10, 49, 50, 51, 200, 70000, 7200000}), 0, 3).Draw(t, "slow")
			c.Failing = rapid.SliceOfN(rapid.Bool(), 0, 4).Draw(t, "failing")
			c.Changes = rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 49, 50, 60, 300}), 0, 2).Draw(t, "changes")
			c.Late = rapid.SampledFrom([]int{0, 0, 1, 60, 300}).Draw(t, "late")
			return c
		}
	}
	kit.Main(t, "C20",
		"concurrent clients of one or two namespaces in virtual time (testing/synctest) issuing any requests at any moments, with a storage replying values, errors, or nothing in failing batches, slowly or at once (or the repository's stub storage); every reply, the order, number of deliveries and the batches are checked. Non-trivial: several batches, one having several requests.",
		kit.New("clients", 4000, 60000, draw(6, 8, []int{0, 0, 1, 7, 25, 49, 50, 51, 99, 100, 101, 500}), run),
		kit.New("long", 200, 3000, draw(3, 150, []int{0, 1, 30, 50, 60, 200, 5000, 3600000}), run),
		kit.New("crowd", 250, 4000, draw(170, 2, []int{0, 0, 0, 1, 3, 20}), run),
		// More clients than the queue and a batch take, behind slow batches
		kit.New("flood", 40, 800, func(t *rapid.T) WorkCase {
			c := draw(1, 1, []int{0, 0, 20, 60, 60})(t)
			one := c.Clients[0]
			c.Clients = nil
			n := 200 + kit.Uniform(150).Draw(t, "flood")
			for i := 0; i < n; i++ {
				r := one[0]
				r.K = rapid.SampledFrom(requestKinds).Draw(t, "kind")
				r.Wait = rapid.SampledFrom([]int{0, 0, 20, 60, 60}).Draw(t, "wait")
				r.Reply = rapid.SampledFrom([]string{"value", "value", "error", "none"}).Draw(t, "reply")
				c.Clients = append(c.Clients, []Request{r})
			}
			c.Slow = rapid.SliceOfN(rapid.SampledFrom([]int{0, 200, 70000, 7200000}), 1, 3).Draw(t, "slow")
			return c
		}, run),
		kit.New("repeated", 600, 10000, func(t *rapid.T) RepeatCase {
			kinds := rapid.SliceOfN(rapid.SampledFrom(requestKinds), 1, 3).Draw(t, "kinds")
			return RepeatCase{
				Requests: kit.Seq(t, "requests", rapid.Custom(func(t *rapid.T) Request {
					return Request{K: rapid.SampledFrom(kinds).Draw(t, "k"), User: uint64(kit.Uniform(2).Draw(t, "user")), Item: uint64(kit.Uniform(2).Draw(t, "item")),
						Wait: rapid.SampledFrom([]int{0, 0, 0, 1, 40, 51, 60, 120}).Draw(t, "wait")}
				}), 2, 60),
				Failing: rapid.SliceOfN(rapid.Bool(), 0, 3).Draw(t, "failing"),
			}
		}, repeated),
	)
}

// RepeatCase is requests of which many are the same.
type RepeatCase struct {
	Requests []Request `json:"requests"`
	Failing  []bool    `json:"fail"` // batches the storage fails, cyclically
}

var givenError = regexp.MustCompile(`error \d+\b|batch \d+ failed`)

// repeated sends requests that cannot be told from each other.
func repeated(x *kit.X, c RepeatCase) {
	x.Bubble(func() {
		w := newWorld()
		ns := w.namespace("work", x.Dir()+"/")
		given, asked := map[string]map[string]int{}, map[string]int{}
		got := map[string]map[string]int{}
		add := func(m map[string]map[string]int, k, v string) {
			w.mu.Lock()
			defer w.mu.Unlock()
			if m[k] == nil {
				m[k] = map[string]int{}
			}
			m[k][v]++
		}
		delivered, batches, repeats := 0, 0, 0
		w.process = func(actions []domain.Action) error {
			batches++
			seen := map[string]bool{}
			var err error
			if len(c.Failing) > 0 && c.Failing[batches%len(c.Failing)] {
				err = failure(batches, "batch %d failed", batches)
			}
			for _, a := range actions {
				delivered++
				d := describeAction(a)
				if seen[d] {
					repeats++
				}
				seen[d] = true
				n := uint64(delivered)
				if err != nil && delivered%2 == 0 {
					add(given, d, givenError.FindString(err.Error()))
					continue
				}
				if delivered%3 == 0 {
					e := failure(delivered, "error %d", delivered)
					add(given, d, givenError.FindString(e.Error()))
					a.Error <- e
					continue
				}
				switch p := a.Payload.(type) {
				case domain.GetProfilePayload:
					add(given, d, fmt.Sprintf("%d %v", n, []uint64{n}))
					p.Profile <- &domain.Profile{UserID: n, Likes: []uint64{n}}
				case domain.GetSimilarProfilesPayload:
					v := []domain.SimilarProfile{{Similarity: float32(n)}}
					add(given, d, fmt.Sprint(v))
					p.Profiles <- &v
				case domain.RecommendItemsPayload:
					v := []domain.RecItem{{ItemID: n}}
					add(given, d, fmt.Sprint(v))
					p.Items <- &v
				default:
					add(given, d, "")
					a.Error <- nil
				}
			}
			return err
		}
		ctx, cancel := context.WithCancel(context.Background())
		defer func() {
			cancel()
			ns.Stop()
			synctest.Wait()
		}()
		if err := ns.Start(ctx); err != nil {
			x.Failf("the start failed: %v", err)
		}
		for _, r := range c.Requests {
			d := describeRequest(r.K, r.User, r.Item)
			asked[d]++
			go func() {
				time.Sleep(time.Duration(r.Wait) * time.Millisecond)
				reply, err := issue(ns, r.K, r.User, r.Item)
				if err != nil {
					// It may be wrapped
					reply = givenError.FindString(err.Error())
				}
				add(got, d, reply)
			}()
		}
		time.Sleep(time.Hour)
		synctest.Wait()
		for d, n := range asked {
			times, replies := 0, 0
			for _, k := range given[d] {
				times += k
			}
			for _, k := range got[d] {
				replies += k
			}
			if times != n || replies != n {
				x.Failf("%s has been requested %d times, reached the storage %d times, got %d replies", d, n, times, replies)
			}
			if fmt.Sprint(given[d]) != fmt.Sprint(got[d]) {
				x.Failf("%s got the replies %v, the storage gave %v", d, got[d], given[d])
			}
		}
		if len(given) > len(asked) {
			x.Failf("the storage got %v, requested: %v", given, asked)
		}
		if repeats > 0 && batches > 1 {
			x.NonTrivial()
		}
	})
}

// LifeOp is an event in the life of a namespace.
type LifeOp struct {
	K    string `json:"k"`    // start, stop, cancel, request
	At   int    `json:"at"`   // ms (virtual)
	Req  string `json:"req"`  // kind of the request
	Fail string `json:"fail"` // which factory fails at this start
}

// LifeCase is a life of a namespace.
type LifeCase struct {
	Ops     []LifeOp `json:"ops"`
	Slow    int      `json:"slow"`    // ms processing takes
	Missing bool     `json:"missing"` // the data directory is missing
	NoLike  bool     `json:"nolike"`  // there is no like storage factory
	Blocked string   `json:"blocked"` // this file cannot be opened
	Stuck   string   `json:"stuck"`   // this storage fails to be closed
	Expires int      `json:"expires"` // ms until the context expires, if above 0
	End     string   `json:"end"`     // stop, cancel-stop
}

func TestC21(t *testing.T) {
	run := func(x *kit.X, c LifeCase) {
		dir, err := filepath.EvalSymlinks(x.Dir())
		if err != nil {
			kit.Fatal("scratch: %v", err)
		}
		base := dir + "/"
		if c.Missing {
			base += "missing/"
		}
		x.Bubble(func() {
			w := newWorld()
			w.stuck = map[string]bool{c.Stuck: true}
			if c.Blocked != "" && !c.Missing {
				if err := os.Mkdir(base+"life."+c.Blocked, 0755); err != nil {
					kit.Fatal("mkdir: %v", err)
				}
			}
			w.process = func(actions []domain.Action) error {
				for _, which := range []string{"like", "delta", "index"} {
					if w.count("close "+which) >= w.count("open "+which) {
						w.note("process after close")
					}
				}
				time.Sleep(time.Duration(c.Slow) * time.Millisecond)
				return recdb.NewLikeStorage().ProcessActions(actions)
			}
			dto := &domain.LikeNamespaceDto{Name: parse("life"), BasePath: base,
				DeltaStorageFactory: fakeDeltaFactory{w}, LikeStorageFactory: fakeLikeFactory{w}, IndexStorageFactory: fakeIndexFactory{w}}
			if c.NoLike {
				dto.LikeStorageFactory = nil
			}
			var ns likeNamespace = domain.NewLikeNamespace(dto)
			ctx, cancel := context.WithCancel(context.Background())
			if c.Expires > 0 {
				ctx, cancel = context.WithTimeout(context.Background(), time.Duration(c.Expires)*time.Millisecond)
			}
			ended := false // told to end
			started, stopped := false, false
			type call struct {
				kind string
				at   time.Duration
				done bool
				took time.Duration
				err  error
				late bool // issued when the storages had been closed after running
			}
			var calls []*call
			finished := false
			finish := func() {
				if !finished {
					finished = true
					cancel()
					ns.Stop()
					synctest.Wait()
				}
			}
			defer finish()
			served, failures, successes := 0, 0, 0
			for i, op := range c.Ops {
				if d := time.Duration(op.At)*time.Millisecond - time.Since(w.start); d > 0 {
					time.Sleep(d)
					synctest.Wait()
				}
				when := fmt.Sprintf("event %d (%s)", i, op.K)
				began := time.Now()
				switch op.K {
				case "start":
					w.mu.Lock()
					w.fail = map[string]bool{op.Fail: true}
					w.mu.Unlock()
					before := len(w.list())
					err := ns.Start(ctx)
					if started || stopped || c.NoLike || c.Missing || c.Blocked != "" || op.Fail != "" {
						why := fmt.Sprintf("started %v, stopped %v, no like storage %v, no directory %v, failing %q", started, stopped, c.NoLike, c.Missing, c.Blocked+op.Fail)
						if err == nil {
							x.Failf("%s succeeds (%s)", when, why)
						}
						failures++
						x.Label("start fails")
						// Whatever it has opened is closed
						open := map[string]int{}
						for _, e := range w.list()[before:] {
							what, which, _ := strings.Cut(e, " ")
							if what == "open" {
								open[which]++
							} else if what == "close" {
								open[which]--
							}
						}
						if !started {
							for which, n := range open {
								if n != 0 {
									x.Failf("%s fails (%s) leaving the %s storage open (%d)", when, why, which, n)
								}
							}
							if files := kit.OpenFiles(dir); len(files) > 0 {
								x.Failf("%s fails (%s) leaving files open: %v", when, why, files)
							}
						} else if len(open) > 0 && open["delta"]+open["index"]+open["like"] > 0 {
							x.Failf("%s opens storages of a started namespace: %v", when, open)
						}
					} else {
						if err != nil && failures == 0 {
							x.Failf("%s failed: %v", when, err)
						}
						if err == nil {
							started = true
							successes++
							if ended {
								synctest.Wait()
							}
						} // (a start after a failed one may fail as well)
					}
				case "stop":
					ns.Stop()
					stopped, ended = true, true
				case "cancel":
					cancel()
					ended = true
				case "request":
					cl := &call{kind: op.Req, at: time.Since(w.start)}
					cl.late = w.count("close like") > 0 || stopped && !started
					calls = append(calls, cl)
					go func() {
						_, cl.err = issue(ns, op.Req, 1, 2)
						cl.took = time.Since(w.start) - cl.at
						cl.done = true
					}()
				}
				if took := time.Since(began); took > time.Second {
					x.Failf("%s took %v", when, took)
				}
				synctest.Wait()
			}
			if c.End == "cancel-stop" {
				cancel()
				time.Sleep(3 * time.Hour)
				synctest.Wait()
				if started {
					for _, which := range []string{"like", "delta", "index"} {
						if w.count("open "+which) != w.count("close "+which) {
							x.Failf("the %s storage isn't closed after the cancellation: %v", which, w.list())
						}
					}
				}
			}
			finish()
			time.Sleep(3 * time.Hour)
			synctest.Wait()
			// Later ones
			for i := 0; i < 3; i++ {
				ns.Stop()
				cl := &call{kind: requestKinds[i*2], at: time.Since(w.start), late: true}
				calls = append(calls, cl)
				go func() {
					_, cl.err = issue(ns, cl.kind, 3, 4)
					cl.done = true
				}()
			}
			synctest.Wait()
			events := w.list()
			if w.count("process after close") > 0 {
				x.Failf("requests reach a closed storage: %v", events)
			}
			if successes > 1 {
				x.Failf("%d starts succeed", successes)
			}
			closed := map[string]int{}
			for i, e := range events {
				if strings.HasPrefix(e, "close ") {
					closed[e] = i
				}
			}
			for _, which := range []string{"delta", "index", "like"} {
				opened, shut := w.count("open "+which), w.count("close "+which)
				if opened != shut {
					x.Failf("the %s storage is opened %d times and closed %d times: %v", which, opened, shut, events)
				}
			}
			if started && (closed["close like"] > closed["close delta"] || closed["close like"] > closed["close index"]) {
				x.Failf("the like storage is closed after those it depends on: %v", events)
			}
			if files := kit.OpenFiles(dir); len(files) > 0 {
				x.Failf("files are left open: %v", files)
			}
			for i, cl := range calls {
				if !cl.done {
					x.Failf("request %d (%s) of %v is blocked forever", i, cl.kind, cl.at)
				}
				if cl.late && cl.err == nil {
					x.Failf("request %d (%s) of %v succeeds after the namespace has stopped", i, cl.kind, cl.at)
				}
				if cl.err == nil {
					served++
				}
			}
			if started {
				x.Label("started")
			}
			if served > 0 {
				x.Label("requests served")
			}
			if len(calls) > 3 && started || failures > 0 {
				x.NonTrivial()
			}
		})
	}
	// Calls racing with each other
	race := func(x *kit.X, c LifeCase) {
		dir, _ := filepath.EvalSymlinks(x.Dir())
		x.Bubble(func() {
			w := newWorld()
			ns := w.namespace("life", dir+"/")
			ctx, cancel := context.WithCancel(context.Background())
			results := make([]error, len(c.Ops))
			late := make([]error, 2)
			for i, op := range c.Ops {
				go func() {
					time.Sleep(time.Duration(op.At%60) * time.Millisecond)
					switch op.K {
					case "start":
						results[i] = ns.Start(ctx)
					case "stop":
						ns.Stop()
					case "cancel":
						cancel()
					default:
						_, results[i] = issue(ns, op.Req, 1, 2)
					}
				}()
			}
			time.Sleep(time.Hour)
			go ns.Stop()
			go cancel()
			time.Sleep(time.Hour)
			synctest.Wait()
			for i := range late {
				_, late[i] = issue(ns, requestKinds[i*5], 3, 4)
				if late[i] == nil {
					x.Failf("a request succeeds after the namespace has stopped")
				}
			}
			starts := 0
			for i, op := range c.Ops {
				if op.K == "start" && results[i] == nil {
					starts++
				}
			}
			if starts > 1 {
				x.Failf("%d starts succeed", starts)
			}
			events := w.list()
			at := map[string]int{}
			for i, e := range events {
				at[e] = i
			}
			for _, which := range []string{"delta", "index", "like"} {
				if w.count("open "+which) != starts || w.count("close "+which) != starts {
					x.Failf("%d starts succeed, the %s storage is opened %d times, closed %d times: %v", starts, which,
						w.count("open "+which), w.count("close "+which), events)
				}
			}
			if starts == 1 {
				x.NonTrivial()
				if at["close like"] > at["close delta"] || at["close like"] > at["close index"] {
					x.Failf("the like storage is closed after those it depends on: %v", events)
				}
			}
			if files := kit.OpenFiles(dir); len(files) > 0 {
				x.Failf("files are left open: %v", files)
			}
		})
	}
	draw := func(kinds []string) func(t *rapid.T) LifeCase {
		return func(t *rapid.T) LifeCase {
			c := LifeCase{Slow: rapid.SampledFrom([]int{0, 0, 10, 120}).Draw(t, "slow"), End: rapid.SampledFrom([]string{"stop", "cancel-stop"}).Draw(t, "end")}
			c.Missing = kit.Uniform(15).Draw(t, "missing") == 0
			c.NoLike = kit.Uniform(15).Draw(t, "nolike") == 0
			if kit.Uniform(12).Draw(t, "blocked") == 0 {
				c.Blocked = rapid.SampledFrom([]string{"delta", "index", "recdb"}).Draw(t, "file")
			}
			c.Stuck = rapid.SampledFrom([]string{"", "", "", "like", "delta", "index"}).Draw(t, "stuck")
			c.Expires = rapid.SampledFrom([]int{0, 0, 0, 1, 50, 70, 200}).Draw(t, "expires")
			at := 0
			c.Ops = kit.Seq(t, "ops", rapid.Custom(func(t *rapid.T) LifeOp {
				at += rapid.SampledFrom([]int{0, 0, 1, 20, 49, 50, 51, 60, 100}).Draw(t, "step")
				op := LifeOp{K: rapid.SampledFrom(kinds).Draw(t, "k"), At: at}
				if op.K == "request" {
					op.Req = rapid.SampledFrom(requestKinds).Draw(t, "req")
				}
				if op.K == "start" {
					op.Fail = rapid.SampledFrom([]string{"", "", "", "", "", "delta", "index", "like"}).Draw(t, "fail")
				}
				return op
			}), 1, 25)
			return c
		}
	}
	kit.Main(t, "C21",
		"random interleavings of starts, stops, cancellations and requests of a namespace in virtual time, with storage factories failing at will, a missing directory or no like storage, one by one (sequence) or racing with each other (race); openings and closings of each storage and file are counted and ordered, every call must return. Non-trivial: several requests to a started namespace, or a failed start.",
		kit.New("sequence", 8000, 120000, draw([]string{"start", "start", "request", "request", "request", "request", "request", "request", "request", "stop", "cancel"}), run),
		// More requests than the queue takes, behind a slow batch
		kit.New("crowded", 60, 1200, func(t *rapid.T) LifeCase {
			c := LifeCase{Slow: rapid.SampledFrom([]int{0, 120, 5000}).Draw(t, "slow"), End: rapid.SampledFrom([]string{"stop", "cancel-stop"}).Draw(t, "end")}
			start := rapid.SampledFrom([]int{0, 30, 100}).Draw(t, "start")
			end := LifeOp{K: rapid.SampledFrom([]string{"stop", "cancel"}).Draw(t, "k"), At: rapid.SampledFrom([]int{0, 40, 60, 100, 130, 200, 300}).Draw(t, "at")}
			for i := 90 + kit.Uniform(250).Draw(t, "requests"); i > 0; i-- {
				c.Ops = append(c.Ops, LifeOp{K: "request", Req: rapid.SampledFrom(requestKinds).Draw(t, "req"), At: rapid.SampledFrom([]int{0, 0, 60, 90, 90, 180, 400}).Draw(t, "when")})
			}
			c.Ops = append(c.Ops, end)
			if kit.Uniform(4).Draw(t, "started") > 0 {
				c.Ops = append(c.Ops, LifeOp{K: "start", At: start})
			}
			sort.SliceStable(c.Ops, func(i, j int) bool { return c.Ops[i].At < c.Ops[j].At })
			return c
		}, run),
		kit.New("race", 3000, 60000, draw([]string{"start", "start", "start", "request", "request", "request", "stop", "cancel"}), race),
	)
}
