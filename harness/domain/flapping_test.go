package domain

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"recengine/internal/api/shard/endpoints"
	"recengine/vpbt/kit"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/gin-gonic/gin"
	"pgregory.net/rapid"
)

// FlapCase is several clients working on namespaces of their own while the data
// directory comes and goes.
type FlapCase struct {
	Clients [][]RegOp `json:"clients"` // names: client*4 .. client*4+3
	Crowd   int       `json:"crowd"`
	Delays  []int     `json:"delays"` // microseconds: here, away, here, ...
	OnSave  bool      `json:"onSave"` // it goes away as soon as something is saved
	API     bool      `json:"api"`    // through the HTTP API
}

// names of the clients are acceptable for the API.
func (c *FlapCase) names() []string {
	var names []string
	for i := range c.Clients {
		for j := 0; j < 4; j++ {
			names = append(names, string(rune('a'+i))+[]string{"", "a", "1", "xyz"}[j])
		}
	}
	return names
}

func drawFlapping(t *rapid.T) FlapCase {
	c := FlapCase{OnSave: rapid.Bool().Draw(t, "on-save"), API: rapid.Bool().Draw(t, "api")}
	if rapid.Bool().Draw(t, "crowded") {
		c.Crowd = kit.Size(t, "crowd", 60)
	}
	kinds := []string{"create", "create", "update", "update", "update", "delete"}
	if c.API {
		kinds = kinds[:5]
	}
	for i := rapid.SampledFrom([]int{1, 1, 2, 4}).Draw(t, "clients"); i > 0; i-- {
		at := len(c.Clients) * 4
		c.Clients = append(c.Clients, kit.Seq(t, "ops", rapid.Custom(func(t *rapid.T) RegOp {
			op := RegOp{K: rapid.SampledFrom(kinds).Draw(t, "k"), Name: at + kit.Uniform(4).Draw(t, "name")}
			op.To = op.Name
			if rapid.Bool().Draw(t, "rename") {
				op.To = at + kit.Uniform(4).Draw(t, "to")
			}
			if op.K != "delete" {
				op.Set = drawSettings(t)
			}
			return op
		}), 1, 30))
	}
	c.Delays = rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 5, 20, 50, 100, 300}), 2, 8).Draw(t, "delays")
	return c
}

// wait spins, because a sleep is too long.
func wait(us int, done *atomic.Bool) {
	for until := time.Now().Add(time.Duration(us) * time.Microsecond); time.Now().Before(until) && !done.Load(); {
		runtime.Gosched()
	}
}

func inode(path string) uint64 {
	var st syscall.Stat_t
	if syscall.Stat(path, &st) != nil {
		return 0
	}
	return st.Ino
}

func rename(from, to string) {
	for i := 0; ; i++ {
		err := os.Rename(from, to)
		if err == nil {
			return
		}
		if i > 1000 {
			kit.Fatal("rename: %v", err)
		}
		os.RemoveAll(to) // somebody has created it again
	}
}

func flapping(x *kit.X, c FlapCase) {
	names := c.names()
	r := newRegistryIn(x, &RegCase{}, "data")
	for i := 0; i < c.Crowd; i++ {
		names = append(names, fmt.Sprintf("crowd%d", i))
	}
	for i := len(names) - c.Crowd; i < len(names); i++ {
		op := RegOp{K: "create", Name: i, Set: Settings{uint(i), 0.5}}
		_, r.model = allowed(r.model, names, op)
		if _, err := request(r.svc, names, op); err != nil {
			x.Failf("creating %s failed: %v", names[i], err)
		}
	}
	if err := r.svc.SaveNamespaces(); err != nil {
		x.Failf("saving failed: %v", err)
	}
	do := func(op RegOp) error {
		_, err := request(r.svc, names, op)
		return err
	}
	if c.API {
		gin.SetMode(gin.ReleaseMode)
		router := gin.New()
		endpoints.NewNamespaceEndpoint(r.svc).RegisterRoutes(router)
		do = func(op RegOp) error {
			method, path, to := http.MethodPost, "/api/v1/namespaces", op.Name
			if op.K == "update" {
				method, path, to = http.MethodPut, path+"/"+names[op.Name], op.To
			}
			limit := ""
			if op.Set.Limit != 0 {
				limit = fmt.Sprintf(`,"maxSimilarProfiles":%d`, op.Set.Limit)
			}
			body := fmt.Sprintf(`{"name":%q,"type":"like","dislikeFactor":%v%s}`, names[to], op.Set.Factor, limit)
			rec := httptest.NewRecorder()
			router.ServeHTTP(rec, httptest.NewRequest(method, path, strings.NewReader(body)))
			if rec.Code/100 == 2 {
				return nil
			}
			return fmt.Errorf("status %d: %s", rec.Code, rec.Body)
		}
	}
	// The directory comes and goes
	var done atomic.Bool
	var flapper sync.WaitGroup
	path := filepath.Join(r.dir, "namespaces.json")
	flaps := 0
	flapper.Add(1)
	go func() {
		defer flapper.Done()
		last := inode(path)
		for i := 0; !done.Load(); i += 2 {
			if c.OnSave {
				for inode(path) == last && !done.Load() {
				}
			}
			wait(c.Delays[i%len(c.Delays)], &done)
			rename(r.dir, r.dir+"-away")
			flaps++
			wait(20+c.Delays[(i+1)%len(c.Delays)], &done)
			rename(r.dir+"-away", r.dir)
			last = inode(path)
		}
	}()
	// The names of a client are its own, so it knows what must be there
	models := make([]map[string]Settings, len(c.Clients))
	problems := make([]string, len(c.Clients))
	var failed, succeeded atomic.Int32
	var clients sync.WaitGroup
	for i, ops := range c.Clients {
		clients.Add(1)
		go func() {
			defer clients.Done()
			model := map[string]Settings{}
			for j, op := range ops {
				ok, after := allowed(model, names, op)
				err := do(op)
				if !ok && err == nil {
					problems[i] = fmt.Sprintf("client %d, request %d: %s %s succeeds", i, j, op.K, names[op.Name])
					break
				}
				if err == nil {
					model = after
					succeeded.Add(1)
				} else if ok {
					failed.Add(1)
				}
				for _, name := range names[i*4 : i*4+4] {
					ns := r.svc.GetNamespaceByName(parse(name))
					set, has := model[name]
					got := "nothing"
					if ns != nil {
						got = describe(ns)
					}
					if has && got != expected(name, set) || !has && ns != nil {
						problems[i] = fmt.Sprintf("client %d, request %d: %s %s to %s returned %v, and then %s is %s; before that there were %v of the client",
							i, j, op.K, names[op.Name], names[op.To], err, name, got, model)
						break
					}
				}
				if problems[i] != "" {
					break
				}
			}
			models[i] = model
		}()
	}
	clients.Wait()
	done.Store(true)
	flapper.Wait()
	for _, p := range problems {
		if p != "" {
			x.Failf("%s (the directory went away %d times)", p, flaps)
		}
	}
	for _, model := range models {
		for name, set := range model {
			r.model[name] = set
		}
	}
	if diff := difference(r.svc, r.model, names); diff != "" {
		x.Failf("%s", diff)
	}
	if state, err := r.saved(); err != nil || state != snapshot(r.model) {
		x.Failf("the saved registration holds [%s] (%v), expected [%s]", state, err, snapshot(r.model))
	}
	// The fault is gone
	for i := 0; i < 4*len(c.Clients); i++ {
		op := RegOp{K: "update", Name: i, To: i, Set: Settings{uint(i + 1), 1}}
		ok, after := allowed(r.model, names, op)
		if err := do(op); ok != (err == nil) {
			x.Failf("updating %s in the end: %v", names[i], err)
		}
		r.model = after
	}
	if state, err := r.saved(); err != nil || state != snapshot(r.model) {
		x.Failf("in the end the saved registration holds [%s] (%v), expected [%s]", state, err, snapshot(r.model))
	}
	if failed.Load() > 0 && succeeded.Load() > 0 {
		x.NonTrivial()
		x.Label("some requests failed, some did not")
	}
}
