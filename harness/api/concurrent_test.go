package api

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net/http/httptest"
	"os"
	"recengine/internal/domain"
	"recengine/internal/domain/valueobjects"
	"recengine/vpbt/kit"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/anishathalye/porcupine"
	"pgregory.net/rapid"
)

// Req is a request of one of the concurrent clients.
type Req struct {
	K     string `json:"k"` // create, update, get, list, delete, save (the last two of the registry only)
	Name  int    `json:"n"`
	To    int    `json:"to,omitempty"`
	Limit uint64 `json:"limit,omitempty"`
	Wait  int    `json:"wait,omitempty"` // yields before
}

// RaceCase is what the clients do, in rounds: the clients begin a round together.
type RaceCase struct {
	Names  int     `json:"names"`
	Before []Req   `json:"before"`
	Rounds [][]Req `json:"rounds"` // one request per client
	Crowd  int     `json:"crowd"`  // other namespaces
	Free   bool    `json:"free"`   // clients don't wait for each other between rounds
}

// outcome of a request; state for the final one
type outcome struct {
	ok    bool
	state string
}

func canonical(m map[string]uint64) string {
	var l []string
	for k, v := range m {
		l = append(l, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func parseState(s string) map[string]uint64 {
	m := map[string]uint64{}
	for _, part := range strings.Fields(s) {
		name, limit, _ := strings.Cut(part, "=")
		fmt.Sscan(limit, new(uint64))
		var v uint64
		fmt.Sscan(limit, &v)
		m[name] = v
	}
	return m
}

// sequential is the specification: what requests do one at a time.
var sequential = porcupine.Model{
	Init: func() any { return "" },
	Step: func(state, input, output any) (bool, any) {
		m := parseState(state.(string))
		r, out := input.(Req), output.(outcome)
		name, to := raceName(r.Name), raceName(r.To)
		_, exists := m[name]
		_, taken := m[to]
		switch r.K {
		case "create":
			if out.ok == exists {
				return false, state
			}
			if out.ok {
				m[name] = r.Limit
			}
		case "update":
			can := exists && (to == name || !taken)
			if out.ok != can {
				return false, state
			}
			if can {
				delete(m, name)
				m[to] = r.Limit
			}
		case "delete":
			if out.ok != exists {
				return false, state
			}
			delete(m, name)
		case "get":
			return out.ok == exists, state
		case "list", "save":
			return out.ok, state
		case "final":
			return out.state == state.(string), state
		}
		return true, canonical(m)
	},
	Equal:             func(a, b any) bool { return a == b },
	DescribeOperation: func(in, out any) string { return fmt.Sprint(in, out) },
}

func raceName(i int) string {
	name := "n" + string(rune('a'+i%26))
	if i >= 26 {
		name += fmt.Sprint(i / 26)
	}
	return name
}

// body is a request body whose end is announced, so that concurrent requests
// get past the reading of their bodies at the same time.
type body struct {
	io.Reader
	gate func()
}

func (b *body) Read(p []byte) (int, error) {
	n, err := b.Reader.Read(p)
	if err == io.EOF && b.gate != nil {
		b.gate()
		b.gate = nil
	}
	return n, err
}

// rendezvous lets n parties (or those arriving soon) go on together.
func rendezvous(n int) func() {
	var count atomic.Int32
	return func() {
		count.Add(1)
		for i := 0; int(count.Load()) < n && i < 2000; i++ {
			runtime.Gosched()
		}
	}
}

func runRace(x *kit.X, c RaceCase, perform func(r Req, gate func()) bool, svc func() map[string]Settings, dir string) {
	var mu sync.Mutex
	var ops []porcupine.Operation
	var clock atomic.Int64
	do := func(client int, r Req, gate func()) {
		call := clock.Add(1)
		ok := perform(r, gate)
		back := clock.Add(1)
		mu.Lock()
		ops = append(ops, porcupine.Operation{ClientId: client, Input: r, Call: call, Output: outcome{ok: ok}, Return: back})
		mu.Unlock()
	}
	for _, r := range c.Before {
		do(0, r, nil)
	}
	clients := 0
	for _, round := range c.Rounds {
		clients = max(clients, len(round))
	}
	var wg sync.WaitGroup
	if c.Free {
		for i := 0; i < clients; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, round := range c.Rounds {
					if i < len(round) {
						for n := 0; n < round[i].Wait; n++ {
							runtime.Gosched()
						}
						do(i+1, round[i], nil)
					}
				}
			}()
		}
		wg.Wait()
	} else {
		for _, round := range c.Rounds {
			start := make(chan struct{})
			gate := rendezvous(len(round))
			for i, r := range round {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					for n := 0; n < r.Wait; n++ {
						runtime.Gosched()
					}
					do(i+1, r, gate)
				}()
			}
			close(start)
			wg.Wait()
		}
	}
	final := svc()
	for _, name := range crowd(c.Crowd) {
		if got, ok := final[name]; !ok || got != (Settings{4, 0}) {
			x.Failf("%s has become %v, nobody touched it", name, got)
		}
	}
	short := map[string]uint64{}
	for k, v := range final {
		if uint64(v.Factor*4) != v.Limit%4 {
			x.Failf("the settings of %s are mixed up: %s", k, itoa(v))
		}
		if !strings.HasPrefix(k, "crowd") {
			short[k] = v.Limit
		}
	}
	at := clock.Add(1)
	ops = append(ops, porcupine.Operation{ClientId: 0, Input: Req{K: "final"}, Call: at, Output: outcome{state: canonical(short)}, Return: clock.Add(1)})
	if saved := reloaded(x, dir); !same(saved, final) {
		x.Failf("the saved namespaces are %s, those registered are %s", text(saved), text(final))
	}
	switch porcupine.CheckOperationsTimeout(sequential, ops, 20*time.Second) {
	case porcupine.Illegal:
		sort.Slice(ops, func(i, j int) bool { return ops[i].Call < ops[j].Call })
		var l []string
		for _, op := range ops {
			l = append(l, fmt.Sprintf("client %d [%d-%d] %+v -> %+v", op.ClientId, op.Call, op.Return, op.Input, op.Output))
		}
		x.Failf("no order of the requests explains their results:\n%s", strings.Join(l, "\n"))
	case porcupine.Unknown:
		x.Label("undecided histories")
	}
	overlaps, succeeded := 0, 0
	for i, a := range ops {
		for _, b := range ops[:i] {
			if a.Call < b.Return && b.Call < a.Return {
				overlaps++
			}
		}
		if a.Output.(outcome).ok {
			succeeded++
		}
	}
	x.Count("overlapping pairs of requests", overlaps)
	if overlaps > 0 && succeeded > 1 {
		x.NonTrivial()
	}
}

// runThrong has many clients with names of their own, so that each of them
// must find everything as if it were alone.
func runThrong(x *kit.X, c RaceCase, perform func(r Req, gate func()) bool, svc func() map[string]Settings, dir string) {
	clients := 0
	for _, round := range c.Rounds {
		clients = max(clients, len(round))
	}
	states, complaints := make([]string, clients), make([]string, clients)
	for _, round := range c.Rounds {
		var wg sync.WaitGroup
		gate := rendezvous(len(round))
		for i, r := range round {
			r.Name, r.To = 2*i+r.Name%2, 2*i+r.To%2
			wg.Add(1)
			go func() {
				defer wg.Done()
				ok := perform(r, gate)
				fits, next := sequential.Step(states[i], r, outcome{ok: ok})
				if !fits && complaints[i] == "" {
					complaints[i] = fmt.Sprintf("client %d, alone with its names, having [%s]: %+v succeeds: %v", i, states[i], r, ok)
				}
				states[i], _ = next.(string)
			}()
		}
		wg.Wait()
	}
	final := svc()
	for _, bad := range complaints {
		if bad != "" {
			x.Failf("%s", bad)
		}
	}
	got := map[string]uint64{}
	for k, v := range final {
		if uint64(v.Factor*4) != v.Limit%4 {
			x.Failf("the settings of %s are mixed up: %s", k, itoa(v))
		}
		got[k] = v.Limit
	}
	want := parseState(strings.Join(states, " "))
	if canonical(got) != canonical(want) {
		x.Failf("the namespaces are [%s], expected [%s]", canonical(got), canonical(want))
	}
	if saved := reloaded(x, dir); !same(saved, final) {
		x.Failf("the saved namespaces are %s, those registered are %s", text(saved), text(final))
	}
	if len(want) > 0 && clients > 9 {
		x.NonTrivial()
	}
}

// Every namespace has its dislike factor determined by its limit, so that a
// mixture of the settings of two requests shows.
func factorOf(limit uint64) float32 { return float32(limit%4) / 4 }

func crowded(x *kit.X, svc *domain.NamespaceService, n int) *domain.NamespaceService {
	for _, name := range crowd(n) {
		parsed, _ := valueobjects.ParseNamespaceName(name)
		if _, err := svc.CreateNamespace(&domain.NamespaceCreateRequest{Name: parsed, Type: valueobjects.MakeLikeNamespaceType(),
			MaxSimilarProfiles: 4}); err != nil {
			x.Failf("creating %s: %v", name, err)
		}
	}
	return svc
}

func TestC19(t *testing.T) {
	type runner func(x *kit.X, c RaceCase, perform func(r Req, gate func()) bool, svc func() map[string]Settings, dir string)
	api := func(run runner, x *kit.X, c RaceCase) {
		dir := dataDir(x)
		svc := crowded(x, service(dir), c.Crowd)
		handler := router(svc)
		panicked := make(chan any, 100)
		perform := func(r Req, gate func()) (ok bool) {
			defer func() {
				if p := recover(); p != nil {
					panicked <- p
				}
			}()
			payload := fmt.Sprintf(`{"name":%q,"type":"like","maxSimilarProfiles":%d,"dislikeFactor":%v}`, raceName(r.Name), r.Limit, factorOf(r.Limit))
			method, path := "POST", collection
			switch r.K {
			case "update":
				method, path = "PUT", collection+"/"+raceName(r.Name)
				payload = fmt.Sprintf(`{"name":%q,"maxSimilarProfiles":%d,"dislikeFactor":%v}`, raceName(r.To), r.Limit, factorOf(r.Limit))
			case "get":
				method, path = "GET", collection+"/"+raceName(r.Name)
			case "list":
				method, path = "GET", collection
			}
			if method == "GET" {
				if gate != nil {
					gate()
				}
				gate = nil
				payload = ""
			}
			req := httptest.NewRequest(method, path, &body{bytes.NewReader([]byte(payload)), gate})
			resp := httptest.NewRecorder()
			handler.ServeHTTP(resp, req)
			if resp.Code >= 500 {
				panicked <- fmt.Sprintf("%+v: status %d %s", r, resp.Code, resp.Body)
			}
			if r.K == "list" && resp.Code < 300 {
				var list []struct {
					Name  string `json:"name"`
					Limit uint64 `json:"maxSimilarProfiles"`
				}
				if err := json.Unmarshal(resp.Body.Bytes(), &list); err != nil {
					panicked <- fmt.Sprintf("the list is %q: %v", resp.Body, err)
				}
				found := map[string]int{}
				for _, ns := range list {
					if ns.Limit == 4 {
						found[ns.Name]++
					}
				}
				for _, name := range crowd(c.Crowd) {
					if found[name] != 1 {
						panicked <- fmt.Sprintf("the list has %s, which no request is about, %d times: %s", name, found[name], resp.Body)
						break
					}
				}
			}
			return resp.Code < 300
		}
		run(x, c, perform, func() map[string]Settings {
			select {
			case p := <-panicked:
				x.Failf("%v", p)
			default:
			}
			if n := len(svc.GetNamespaces()); n != len(registered(svc)) {
				x.Failf("a name is taken twice: %d namespaces have %d names", n, len(registered(svc)))
			}
			return registered(svc)
		}, dir)
	}
	registry := func(run runner, x *kit.X, c RaceCase) {
		dir := dataDir(x)
		svc := crowded(x, service(dir), c.Crowd)
		lost := make(chan string, 1)
		kind := valueobjects.MakeLikeNamespaceType()
		parse := func(i int) valueobjects.NamespaceName {
			name, _ := valueobjects.ParseNamespaceName(raceName(i))
			return name
		}
		perform := func(r Req, gate func()) bool {
			if gate != nil {
				gate()
			}
			var err error
			switch r.K {
			case "create":
				_, err = svc.CreateNamespace(&domain.NamespaceCreateRequest{Name: parse(r.Name), Type: kind, MaxSimilarProfiles: uint(r.Limit), DislikeFactor: factorOf(r.Limit)})
			case "update":
				_, err = svc.UpdateNamespace(parse(r.Name), &domain.NamespaceUpdateRequest{Name: parse(r.To), MaxSimilarProfiles: uint(r.Limit), DislikeFactor: factorOf(r.Limit)})
			case "delete":
				err = svc.DeleteNamespace(parse(r.Name))
			case "get":
				return svc.GetNamespaceByName(parse(r.Name)) != nil
			case "list":
				list := registered(svc)
				for _, name := range crowd(c.Crowd) {
					if s, has := list[name]; !has || s.Limit != 4 {
						select {
						case lost <- fmt.Sprintf("the list lacks %s, which no request is about: %s", name, text(list)):
						default:
						}
					}
				}
			case "save":
				err = svc.SaveNamespaces()
			}
			return err == nil
		}
		run(x, c, perform, func() map[string]Settings {
			select {
			case msg := <-lost:
				x.Failf("%s", msg)
			default:
			}
			return registered(svc)
		}, dir)
	}
	draw := func(kinds []string) func(t *rapid.T) RaceCase {
		return func(t *rapid.T) RaceCase {
			c := RaceCase{Names: rapid.SampledFrom([]int{1, 2, 2, 3, 4}).Draw(t, "names"), Free: kit.Uniform(3).Draw(t, "free") == 0}
			c.Crowd = kit.Uniform(3).Draw(t, "bystanders")
			if kit.Uniform(6).Draw(t, "crowded") == 0 {
				c.Crowd = kit.Size(t, "crowd", 70)
			}
			limit := uint64(0)
			req := func(kinds []string, waits int) *rapid.Generator[Req] {
				return rapid.Custom(func(t *rapid.T) Req {
					r := Req{K: rapid.SampledFrom(kinds).Draw(t, "k"), Name: kit.Uniform(c.Names).Draw(t, "n")}
					if r.K == "update" {
						r.To = kit.Uniform(c.Names).Draw(t, "to")
					}
					if r.K == "update" || r.K == "create" {
						limit++
						r.Limit = limit*4 + uint64(kit.Uniform(4).Draw(t, "factor"))
					}
					r.Wait = kit.Uniform(waits).Draw(t, "wait")
					return r
				})
			}
			c.Before = rapid.SliceOfN(req([]string{"create"}, 1), 0, c.Names).Draw(t, "before")
			clients := rapid.SampledFrom([]int{2, 3, 4, 5, 6, 6, 9}).Draw(t, "clients")
			rounds := rapid.IntRange(1, 5).Draw(t, "rounds")
			for i := 0; i < rounds; i++ {
				c.Rounds = append(c.Rounds, rapid.SliceOfN(req(kinds, 4), 2, clients).Draw(t, "round"))
			}
			return c
		}
	}
	throng := func(kinds []string) func(t *rapid.T) RaceCase {
		return func(t *rapid.T) RaceCase {
			c := RaceCase{}
			limit := uint64(0)
			n := rapid.IntRange(8, 60).Draw(t, "clients")
			for i := rapid.IntRange(1, 4).Draw(t, "rounds"); i > 0; i-- {
				c.Rounds = append(c.Rounds, rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Req {
					limit++
					return Req{K: rapid.SampledFrom(kinds).Draw(t, "k"), Name: kit.Uniform(2).Draw(t, "n"), To: kit.Uniform(2).Draw(t, "to"),
						Limit: limit*4 + uint64(kit.Uniform(4).Draw(t, "factor"))}
				}), n, n).Draw(t, "round"))
			}
			return c
		}
	}
	if os.Getenv("GOMAXPROCS") == "" {
		runtime.GOMAXPROCS(4)
	}
	kit.Main(t, "C19",
		"rounds of create, update, get and list requests to the HTTP handlers, or those, deletions and saves to the registry, issued by 2 to 9 goroutines meeting right after their bodies are read, with names shared by all; results and the final list are checked for linearizability (porcupine) against the sequential registry, the saved file against the final list, under the race detector; also throngs of up to 60 clients with names of their own, each of which must find everything as if it were alone. Non-trivial: some requests overlap in time and some succeed.",
		kit.New("api", 1200, 30000, draw([]string{"create", "create", "create", "update", "update", "update", "get", "list"}), func(x *kit.X, c RaceCase) { api(runRace, x, c) }),
		kit.New("registry", 1200, 30000, draw([]string{"create", "create", "create", "update", "update", "update", "delete", "delete", "get", "list", "save", "save"}), func(x *kit.X, c RaceCase) { registry(runRace, x, c) }),
		kit.New("throng", 120, 3000, throng([]string{"create", "create", "create", "update", "get"}), func(x *kit.X, c RaceCase) { api(runThrong, x, c) }),
		kit.New("throng_registry", 120, 3000, throng([]string{"create", "create", "create", "update", "delete", "get"}), func(x *kit.X, c RaceCase) { registry(runThrong, x, c) }),
	)
}
