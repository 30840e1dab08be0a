package domain

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"recengine/internal/domain"
	"recengine/internal/domain/valueobjects"
	"recengine/internal/infra/delta"
	"recengine/internal/infra/index"
	"recengine/vpbt/kit"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
)

const defaultLimit = 1000

// Settings of a namespace.
type Settings struct {
	Limit  uint    `json:"limit"`
	Factor float32 `json:"f"`
}

// RegOp is a request to the registry. Names are positions in the pool.
type RegOp struct {
	K    string   `json:"k"` // create, update, delete, lookup, restart
	Name int      `json:"n"`
	To   int      `json:"to,omitempty"`
	Set  Settings `json:"set"`
	Reg  int      `json:"r,omitempty"` // C15, C16: which of the two registries
	// C17: how saving fails
	Fault string `json:"fault,omitempty"` // missing, full, nofiles
	Full  int    `json:"full,omitempty"`
}

// RegCase is a history of the registry.
type RegCase struct {
	Names []string `json:"names"`
	Crowd int      `json:"crowd"`          // other namespaces, created beforehand
	Long  int      `json:"long,omitempty"` // the length added to their names
	Ops   []RegOp  `json:"ops"`
	Slash bool     `json:"slash"` // REC_PATH ends with a slash
	Junk  bool     `json:"junk"`  // there are other files in the directory
}

func drawName(t *rapid.T, label string) string {
	first := "abcXYZ"
	rest := "abz_-019AZ"
	s := string(first[kit.Uniform(len(first)).Draw(t, label)])
	for n := rapid.SampledFrom([]int{0, 0, 1, 2, 5, 40}).Draw(t, label+"-len"); n > 0; n-- {
		s += string(rest[kit.Uniform(len(rest)).Draw(t, label)])
	}
	return s
}

func drawSettings(t *rapid.T) Settings {
	return Settings{
		Limit: uint(rapid.OneOf(rapid.SampledFrom([]uint64{0, 0, 1, 999, 1000, 1001, 1<<32 - 1, 1 << 32, 1<<53 + 1, 1<<64 - 1}),
			rapid.Uint64Range(0, 5000), rapid.Uint64()).Draw(t, "limit")),
		Factor: rapid.OneOf(rapid.SampledFrom([]float32{0, 1, 0.5, 0.1, 1e-10}), rapid.Float32Range(0, 1)).Draw(t, "factor"),
	}
}

func drawRegistry(t *rapid.T, maxOps int, kinds []string) RegCase {
	c := RegCase{Slash: rapid.Bool().Draw(t, "slash"), Junk: rapid.Bool().Draw(t, "junk")}
	n := rapid.IntRange(2, 6).Draw(t, "names")
	seen := map[string]bool{}
	for len(c.Names) < n {
		name := drawName(t, "name")
		for seen[name] {
			name += "x"
		}
		seen[name] = true
		c.Names = append(c.Names, name)
	}
	if rapid.IntRange(0, 7).Draw(t, "crowded") == 7 {
		c.Crowd = kit.Size(t, "crowd", 150)
	}
	pick := func(label string) int {
		if c.Crowd > 0 && rapid.IntRange(0, 2).Draw(t, label+"-crowd") == 0 {
			return n + kit.Uniform(c.Crowd).Draw(t, label)
		}
		return kit.Uniform(n).Draw(t, label)
	}
	two := rapid.IntRange(0, 3).Draw(t, "two") == 3
	c.Ops = kit.Seq(t, "ops", rapid.Custom(func(t *rapid.T) RegOp {
		op := RegOp{K: rapid.SampledFrom(kinds).Draw(t, "k"), Name: pick("name")}
		if two {
			op.Reg = kit.Uniform(2).Draw(t, "registry")
		}
		switch op.K {
		case "update":
			op.To = op.Name
			if rapid.Bool().Draw(t, "rename") {
				op.To = pick("to")
			}
			fallthrough
		case "create":
			op.Set = drawSettings(t)
		}
		return op
	}), 1, maxOps)
	return c
}

var regKinds = []string{"create", "create", "create", "create", "update", "update", "update", "delete", "delete", "lookup"}

type registry struct {
	x     *kit.X
	c     *RegCase
	dir   string
	svc   *domain.NamespaceService
	model map[string]Settings
	// C16: something has been saved
	changed bool
}

// pool lists the names, the crowd's ones coming last.
func (c *RegCase) pool() []string {
	names := append([]string{}, c.Names...)
	for i := 0; i < c.Crowd; i++ {
		names = append(names, fmt.Sprintf("crowd-%d", i)+strings.Repeat("x", c.Long))
	}
	return names
}

func newRegistry(x *kit.X, c *RegCase) *registry {
	r := newRegistryIn(x, c, "data")
	r.crowd()
	return r
}

// twoRegistries gives access to two independent registries.
func twoRegistries(x *kit.X, c *RegCase) func(i int) *registry {
	var regs [2]*registry
	return func(i int) *registry {
		if i %= 2; regs[i] == nil {
			regs[i] = newRegistryIn(x, c, fmt.Sprintf("data%d", i))
			if i == 0 {
				regs[i].crowd()
			}
		}
		return regs[i]
	}
}

// crowd creates the namespaces that are there from the beginning.
func (r *registry) crowd() {
	names := r.c.pool()
	for i := len(r.c.Names); i < len(names); i++ {
		op := RegOp{K: "create", Name: i, Set: Settings{uint(i), float32(i) / float32(len(names))}}
		ok, after := allowed(r.model, names, op)
		if !ok {
			kit.Fatal("the name %s is taken", names[i])
		}
		if _, err := request(r.svc, names, op); err != nil {
			r.x.Failf("creating namespace %s: %v", names[i], err)
		}
		r.model = after
		r.changed = true
	}
}

func newRegistryIn(x *kit.X, c *RegCase, dir string) *registry {
	r := &registry{x: x, c: c, dir: filepath.Join(x.Dir(), dir), model: map[string]Settings{}}
	if err := os.Mkdir(r.dir, 0755); err != nil {
		kit.Fatal("mkdir: %v", err)
	}
	if c.Junk {
		for _, name := range []string{"namespaces.json.tmp", "namespaces.json~", "other.delta"} {
			if err := os.WriteFile(filepath.Join(r.dir, name), []byte("[{junk"), 0644); err != nil {
				kit.Fatal("write: %v", err)
			}
		}
	}
	r.svc = r.fresh()
	return r
}

// fresh makes a service instance on the data directory.
func (r *registry) fresh() *domain.NamespaceService {
	path := r.dir
	if r.c.Slash {
		path += "/"
	}
	os.Setenv("REC_PATH", path)
	defer os.Unsetenv("REC_PATH")
	return domain.NewNamespaceService(context.Background(), delta.NewStorageFactory(), index.NewStorageFactory())
}

func parse(name string) valueobjects.NamespaceName {
	n, err := valueobjects.ParseNamespaceName(name)
	if err != nil {
		kit.Fatal("name %q: %v", name, err)
	}
	return n
}

func effective(s Settings) Settings {
	if s.Limit == 0 {
		s.Limit = defaultLimit
	}
	return s
}

func describe(ns domain.Namespace) string {
	return fmt.Sprintf("%s %s limit %d factor %v", ns.GetName().Value(), ns.GetType().Value(), ns.GetMaxSimilarProfiles(), ns.GetDislikeFactor())
}

func expected(name string, s Settings) string {
	return fmt.Sprintf("%s like limit %d factor %v", name, s.Limit, s.Factor)
}

// difference compares a service with a model.
func difference(svc *domain.NamespaceService, model map[string]Settings, names []string) string {
	var got, want []string
	for _, ns := range svc.GetNamespaces() {
		got = append(got, describe(ns))
	}
	for name, s := range model {
		want = append(want, expected(name, s))
	}
	sort.Strings(got)
	sort.Strings(want)
	if g, w := strings.Join(got, "; "), strings.Join(want, "; "); g != w {
		return fmt.Sprintf("the namespaces are [%s], expected [%s]", g, w)
	}
	for _, name := range names {
		ns := svc.GetNamespaceByName(parse(name))
		s, has := model[name]
		if has != (ns != nil) {
			return fmt.Sprintf("looking up %s finds %v", name, ns != nil)
		}
		if has && describe(ns) != expected(name, s) {
			return fmt.Sprintf("looking up %s finds %s, expected %s", name, describe(ns), expected(name, s))
		}
	}
	return ""
}

// allowed tells whether the request must succeed, and the model after it.
func allowed(model map[string]Settings, names []string, op RegOp) (bool, map[string]Settings) {
	after := map[string]Settings{}
	for k, v := range model {
		after[k] = v
	}
	name := names[op.Name]
	_, exists := model[name]
	switch op.K {
	case "create":
		if exists {
			return false, model
		}
		after[name] = effective(op.Set)
	case "update":
		to := names[op.To]
		_, taken := model[to]
		if !exists || to != name && taken {
			return false, model
		}
		delete(after, name)
		after[to] = effective(op.Set)
	case "delete":
		if !exists {
			return false, model
		}
		delete(after, name)
	}
	return true, after
}

func request(svc *domain.NamespaceService, names []string, op RegOp) (domain.Namespace, error) {
	name := parse(names[op.Name])
	switch op.K {
	case "create":
		return svc.CreateNamespace(&domain.NamespaceCreateRequest{Name: name, Type: valueobjects.MakeLikeNamespaceType(),
			MaxSimilarProfiles: op.Set.Limit, DislikeFactor: op.Set.Factor})
	case "update":
		return svc.UpdateNamespace(name, &domain.NamespaceUpdateRequest{Name: parse(names[op.To]),
			MaxSimilarProfiles: op.Set.Limit, DislikeFactor: op.Set.Factor})
	case "delete":
		return nil, svc.DeleteNamespace(name)
	}
	return nil, nil
}

// pending reports whether a request to a namespace waits (it does until the
// namespace is started or stopped). Must be called in a bubble.
func pending(ns domain.Namespace) bool {
	liker, ok := ns.(interface{ Like(user, item uint64) error })
	if !ok {
		kit.Fatal("the namespace takes no likes")
	}
	done := false
	go func() {
		liker.Like(1, 2)
		done = true
	}()
	synctest.Wait()
	return !done
}

func TestC15(t *testing.T) {
	run := func(x *kit.X, c RegCase) {
		x.Bubble(func() {
			names := c.pool()
			regs := twoRegistries(x, &c)
			successes, refusals := 0, 0
			var all []domain.Namespace
			defer func() {
				for _, ns := range all {
					ns.Stop()
				}
			}()
			for i, op := range c.Ops {
				r := regs(op.Reg)
				when := fmt.Sprintf("step %d: %s %s", i, op.K, names[op.Name])
				if op.K == "update" {
					when += " to " + names[op.To]
				}
				ok, after := allowed(r.model, names, op)
				victim := r.svc.GetNamespaceByName(parse(names[op.Name]))
				ns, err := request(r.svc, names, op)
				if ok != (err == nil) {
					x.Failf("%s: %v; the namespaces were %v", when, err, r.model)
				}
				if err == nil && (op.K == "create" || op.K == "update") {
					all = append(all, ns)
					name := names[op.Name]
					if op.K == "update" {
						name = names[op.To]
					}
					if ns == nil || describe(ns) != expected(name, after[name]) {
						x.Failf("%s: the result is %v, expected %s", when, ns, expected(name, after[name]))
					}
					if got := r.svc.GetNamespaceByName(parse(name)); got != ns {
						x.Failf("%s: the result isn't the registered namespace", when)
					}
				}
				if err == nil && op.K == "delete" && pending(victim) {
					x.Failf("%s: the deleted namespace isn't stopped", when)
				}
				r.model = after
				if diff := difference(r.svc, r.model, names); diff != "" {
					x.Failf("%s (%v): %s", when, err, diff)
				}
				if op.K != "lookup" {
					if ok {
						successes++
					} else {
						refusals++
						x.Label("refused " + op.K)
					}
				}
				// The list given out isn't the registry's own
				if list := r.svc.GetNamespaces(); len(list) > 0 {
					list[0] = nil
					list = append(list[:len(list)-1], nil)
				}
			}
			if successes > 1 && refusals > 0 {
				x.NonTrivial()
			}
		})
	}
	kit.Main(t, "C15",
		"random histories of creating, updating, renaming and deleting namespaces of a small pool of names with any settings; results and the whole registry compared with a map after every step, deleted namespaces probed with a pending request. Non-trivial: several successful requests and at least a refused one.",
		kit.New("registry", 5000, 100000, func(t *rapid.T) RegCase { return drawRegistry(t, 30, regKinds) }, run),
	)
}

func snapshot(model map[string]Settings) string {
	var list []string
	for name, s := range model {
		list = append(list, expected(name, s))
	}
	sort.Strings(list)
	return strings.Join(list, "; ")
}

// decode reads a saved registration through a fresh instance.
func (r *registry) saved() (string, error) {
	svc := r.fresh()
	if err := svc.LoadNamespaces(); err != nil {
		return "", err
	}
	var list []string
	for _, ns := range svc.GetNamespaces() {
		list = append(list, describe(ns))
	}
	sort.Strings(list)
	return strings.Join(list, "; "), nil
}

func TestC16(t *testing.T) {
	restarts := func(x *kit.X, c RegCase) {
		names := c.pool()
		// Before anything is saved
		if err := newRegistryIn(x, &c, "empty").svc.LoadNamespaces(); err == nil {
			x.Failf("loading a missing registration succeeds")
		}
		regs := twoRegistries(x, &c)
		changes, restarted := 0, 0
		for i, op := range c.Ops {
			r := regs(op.Reg)
			when := fmt.Sprintf("step %d: %s", i, op.K)
			if op.K == "restart" {
				if !r.changed {
					continue
				}
				r.svc = r.fresh()
				if err := r.svc.LoadNamespaces(); err != nil {
					x.Failf("%s: loading failed: %v", when, err)
				}
				restarted++
			} else {
				ok, after := allowed(r.model, names, op)
				_, err := request(r.svc, names, op)
				if ok != (err == nil) {
					x.Failf("%s: %v; the namespaces were %v", when, err, r.model)
				}
				r.model = after
				if ok && op.K != "lookup" {
					changes++
					r.changed = true
				}
			}
			if diff := difference(r.svc, r.model, names); diff != "" {
				x.Failf("%s: %s", when, diff)
			}
			if r.changed {
				svc := r.fresh()
				if err := svc.LoadNamespaces(); err != nil {
					x.Failf("%s: a fresh instance cannot load the registration: %v", when, err)
				}
				if diff := difference(svc, r.model, names); diff != "" {
					x.Failf("%s: in a fresh instance %s", when, diff)
				}
				// Loading again changes nothing
				if i == len(c.Ops)-1 {
					if err := svc.LoadNamespaces(); err != nil {
						x.Failf("%s: a fresh instance cannot load the registration again: %v", when, err)
					}
					if diff := difference(svc, r.model, names); diff != "" {
						x.Failf("%s: loaded again, %s", when, diff)
					}
				}
			}
		}
		if changes > 1 && restarted > 0 {
			x.NonTrivial()
		}
	}
	// Readers watch the saved registration while requests are processed
	watched := func(x *kit.X, c RegCase) {
		names := c.pool()
		r := newRegistry(x, &c)
		path := filepath.Join(r.dir, "namespaces.json")
		if err := r.svc.SaveNamespaces(); err != nil {
			x.Failf("saving an empty registry failed: %v", err)
		}
		var seen []string // distinct contents in order of observation
		var phase, stop atomic.Int64
		type sight struct {
			from, to int64
			content  string
		}
		var sights []sight
		done := make(chan struct{})
		go func() {
			defer close(done)
			for stop.Load() == 0 {
				from := phase.Load()
				data, err := os.ReadFile(path)
				to := phase.Load()
				content := string(data)
				if err != nil {
					content = "unreadable: " + err.Error()
				}
				if n := len(sights); n == 0 || sights[n-1].content != content || sights[n-1].from != from || sights[n-1].to != to {
					sights = append(sights, sight{from, to, content})
				}
			}
		}()
		states := []string{snapshot(r.model)}
		failed := ""
		for i, op := range c.Ops {
			ok, after := allowed(r.model, names, op)
			_, err := request(r.svc, names, op)
			if ok != (err == nil) {
				failed = fmt.Sprintf("step %d: %s: %v", i, op.K, err)
				break
			}
			r.model = after
			states = append(states, snapshot(after))
			phase.Add(1)
		}
		stop.Store(1)
		<-done
		if failed != "" {
			x.Failf("%s", failed)
		}
		decoded := map[string]string{}
		for _, s := range sights {
			state, ok := decoded[s.content]
			if !ok {
				if err := os.WriteFile(path, []byte(s.content), 0644); err != nil {
					kit.Fatal("write: %v", err)
				}
				got, err := r.saved()
				if err != nil {
					x.Failf("while processing request %d..%d the saved registration was %q: %v", s.from, s.to, s.content, err)
				}
				state = got
				decoded[s.content] = got
				seen = append(seen, got)
			}
			// Read while requests from..to were being processed
			found := false
			for i := s.from; i <= s.to+1 && i < int64(len(states)); i++ {
				found = found || states[i] == state
			}
			if !found {
				x.Failf("while processing request %d..%d the saved registration was [%s], expected any of %q", s.from, s.to, state,
					states[s.from:min(int(s.to)+2, len(states))])
			}
		}
		x.Count("contents seen", len(seen))
		if len(seen) > 2 {
			x.NonTrivial()
		}
	}
	type DamageCase struct {
		RegCase
		Cut  int    `json:"cut"`
		Kind string `json:"kind"`
		Raw  []byte `json:"raw"`
	}
	damaged := func(x *kit.X, c DamageCase) {
		names := c.pool()
		r := newRegistry(x, &c.RegCase)
		for _, op := range c.Ops {
			_, r.model = allowed(r.model, names, op)
			request(r.svc, names, op)
		}
		path := filepath.Join(r.dir, "namespaces.json")
		r.svc.SaveNamespaces()
		good, err := os.ReadFile(path)
		if err != nil {
			x.Failf("no registration is saved: %v", err)
		}
		bad := good
		switch c.Kind {
		case "missing":
			os.Remove(path)
		case "cut":
			bad = good[:c.Cut%len(good)]
		case "tail", "raw":
			bad = c.Raw
			if c.Kind == "tail" {
				tails := [][]byte{c.Raw, []byte("]"), make([]byte, 1+len(c.Raw)), good, []byte("null"), good[len(good)/2:]}
				bad = append(append([]byte{}, good...), tails[c.Cut%len(tails)]...)
			}
			if json.Valid(bad) {
				return
			}
		case "name", "type":
			records := []map[string]any{}
			for name := range r.model {
				records = append(records, map[string]any{"name": name, "type": "like", "maxSimilarProfiles": 5, "dislikeFactor": 0.5})
			}
			rec := map[string]any{"name": "good", "type": "like", "maxSimilarProfiles": 5, "dislikeFactor": 0.5}
			rec[c.Kind] = []any{"", "../x", "9a", "a b", 5, "LIKE!", "a\n"}[c.Cut%7]
			bad, _ = json.Marshal(append(records, rec))
		case "shape":
			bad = []byte([]string{"{}", "5", `"x"`, `{"namespaces":[]}`, "[5]", `["a"]`, "[[]]", `[{"name":["a"],"type":"like"}]`,
				`[{"name":"a","type":"like","maxSimilarProfiles":-1}]`, `[{"name":"a","type":"like","maxSimilarProfiles":"5"}]`}[c.Cut%10])
		}
		if c.Kind != "missing" {
			if err := os.WriteFile(path, bad, 0644); err != nil {
				kit.Fatal("write: %v", err)
			}
		}
		for _, svc := range []*domain.NamespaceService{r.svc, r.fresh()} {
			model := r.model
			if svc != r.svc {
				model = map[string]Settings{}
			}
			if err := svc.LoadNamespaces(); err == nil {
				x.Failf("loading a damaged registration %q succeeds", bad)
			}
			if diff := difference(svc, model, names); diff != "" {
				x.Failf("failing to load a damaged registration %q: %s", bad, diff)
			}
		}
		x.Label(c.Kind)
		if len(r.model) > 0 {
			x.NonTrivial()
		}
	}
	type KillCase struct {
		RegCase
		Delay  int    `json:"delay"`          // microseconds until the kill
		At     string `json:"at,omitempty"`   // or the system call to die at
		Before int    `json:"before"`         // after so many requests
		Room   int    `json:"room,omitempty"` // the disk being full then but for so many bytes, if above 0
	}
	killed := func(x *kit.X, c KillCase) {
		names := c.pool()
		r := newRegistry(x, &c.RegCase)
		script, err := json.Marshal(c.RegCase)
		if err != nil {
			kit.Fatal("encode: %v", err)
		}
		exe, err := os.Executable()
		if err != nil {
			kit.Fatal("executable: %v", err)
		}
		cmd := exec.Command(exe, "-test.run", "^$")
		cmd.Env = append(os.Environ(), "VERIF_CHILD_DIR="+r.dir, "VERIF_CHILD_DIE="+c.At,
			fmt.Sprintf("VERIF_CHILD_BEFORE=%d", c.Before), fmt.Sprintf("VERIF_CHILD_ROOM=%d", c.Room))
		cmd.Stdin = strings.NewReader(string(script))
		out, err := cmd.StdoutPipe()
		if err != nil {
			kit.Fatal("pipe: %v", err)
		}
		if err := cmd.Start(); err != nil {
			kit.Fatal("child: %v", err)
		}
		scan := bufio.NewScanner(out)
		scan.Scan()
		if scan.Text() != "ready" {
			cmd.Process.Kill()
			cmd.Wait()
			kit.Fatal("the child says %q", scan.Text())
		}
		delay := time.Duration(c.Delay) * time.Microsecond
		if c.At != "" {
			delay = time.Minute
		}
		timer := time.AfterFunc(delay, func() { cmd.Process.Kill() })
		acked := 0
		bad := ""
		for scan.Scan() {
			if scan.Text() == "." {
				acked++
			} else if bad == "" {
				bad = scan.Text()
			}
		}
		timer.Stop()
		cmd.Wait()
		if bad != "" {
			x.Failf("request %d: %s", acked, bad)
		}
		// Everything acknowledged is there, plus at most one request more
		states := []map[string]Settings{r.model}
		for _, op := range c.Ops {
			_, after := allowed(states[len(states)-1], names, op)
			states = append(states, after)
		}
		svc := r.fresh()
		err = svc.LoadNamespaces()
		empty := err != nil
		if empty && os.IsNotExist(statErr(filepath.Join(r.dir, "namespaces.json"))) && snapshot(states[acked]) == "" {
			err = nil // nothing has been saved yet
		}
		if err != nil {
			x.Failf("killed after %d requests: the registration cannot be loaded: %v", acked, err)
		}
		diff := difference(svc, states[acked], names)
		if diff != "" && acked+1 < len(states) && difference(svc, states[acked+1], names) == "" {
			diff = ""
			acked++
		}
		if diff != "" {
			x.Failf("killed after %d requests: %s", acked, diff)
		}
		// It goes on from there
		model := states[acked]
		for i, op := range c.Ops {
			ok, after := allowed(model, names, op)
			_, err := request(svc, names, op)
			if ok != (err == nil) {
				x.Failf("request %d after the restart: %v", i, err)
			}
			model = after
		}
		if diff := difference(svc, model, names); diff != "" {
			x.Failf("after the restart: %s", diff)
		}
		if snapshot(model) != snapshot(states[acked]) {
			again := r.fresh()
			if err := again.LoadNamespaces(); err != nil {
				x.Failf("after another restart: %v", err)
			}
			if diff := difference(again, model, names); diff != "" {
				x.Failf("after another restart: %s", diff)
			}
		}
		if acked > 0 && acked < len(c.Ops) {
			x.NonTrivial()
			x.Label("killed in the middle")
		}
		if c.At != "" && cmd.ProcessState.ExitCode() < 0 {
			x.Label("died at " + c.At)
			if c.Room > 0 {
				x.Label("died at " + c.At + ", the disk being full")
			}
		}
	}
	type LayoutCase struct {
		RegCase
		Style int `json:"style"` // of the registration: spaces, order of the fields
	}
	// A registration written by someone else, and read by someone else
	layout := func(x *kit.X, c LayoutCase) {
		names := c.pool()
		r := newRegistryIn(x, &c.RegCase, "data")
		for _, op := range c.Ops[:len(c.Ops)/2] {
			_, r.model = allowed(r.model, names, op)
		}
		var records []string
		sorted := kit.SortedKeys(r.model)
		for _, name := range sorted {
			set := r.model[name]
			factor := strconv.FormatFloat(float64(set.Factor), "gfe"[c.Style%3], -1, 32+c.Style%2*32)
			fields := []string{fmt.Sprintf(`"name": %q`, name), `"type": "like"`, fmt.Sprintf(`"maxSimilarProfiles": %d`, set.Limit), `"dislikeFactor":` + factor}
			for i := range fields {
				j := i + c.Style%(len(fields)-i)
				fields[i], fields[j] = fields[j], fields[i]
			}
			records = append(records, "{"+strings.Join(fields, []string{",", ", ", ",\n\t"}[c.Style%3])+"}")
		}
		path := filepath.Join(r.dir, "namespaces.json")
		text := "[" + strings.Join(records, []string{",", "\n,\n"}[c.Style%2]) + "]" + []string{"", "\n"}[c.Style/2%2]
		if err := os.WriteFile(path, []byte(text), 0644); err != nil {
			kit.Fatal("write: %v", err)
		}
		if err := r.svc.LoadNamespaces(); err != nil {
			x.Failf("the registration %q cannot be loaded: %v", text, err)
		}
		if diff := difference(r.svc, r.model, names); diff != "" {
			x.Failf("the registration %q is loaded: %s", text, diff)
		}
		changes := 0
		for i, op := range c.Ops[len(c.Ops)/2:] {
			ok, after := allowed(r.model, names, op)
			if _, err := request(r.svc, names, op); ok != (err == nil) {
				x.Failf("step %d: %s: %v", i, op.K, err)
			}
			r.model = after
			if !ok || op.K == "lookup" {
				continue
			}
			changes++
			data, err := os.ReadFile(path)
			if err != nil {
				x.Failf("no registration is saved: %v", err)
			}
			var found []map[string]json.RawMessage
			if err := json.Unmarshal(data, &found); err != nil {
				x.Failf("the registration saved is %q: %v", data, err)
			}
			left := map[string]Settings{}
			for _, rec := range found {
				var name, kind string
				var set Settings
				for field, to := range map[string]any{"name": &name, "type": &kind, "maxSimilarProfiles": &set.Limit, "dislikeFactor": &set.Factor} {
					if err := json.Unmarshal(rec[field], to); err != nil {
						x.Failf("the registration saved, %q, has a record whose %s is %q", data, field, rec[field])
					}
				}
				if _, twice := left[name]; twice || kind != "like" {
					x.Failf("the registration saved, %q, is wrong about %q", data, name)
				}
				left[name] = set
			}
			if snapshot(left) != snapshot(r.model) {
				x.Failf("the registration saved is %q, expected [%s]", data, snapshot(r.model))
			}
		}
		if len(records) > 0 && changes > 0 {
			x.NonTrivial()
		}
	}
	restartKinds := append([]string{"restart", "restart"}, regKinds...)
	kit.Main(t, "C16",
		"restarts: random histories, a fresh instance compared with a map after every step; heavy: likewise with registrations of up to megabytes; watched: a concurrent reader collects every content of the saved registration seen while requests run; damaged: missing, cut, extended, mistyped and random registrations are loaded; killed: a child process executing a history is killed at a random moment; dying: it dies at the next system call of a kind, possibly with a full disk; layout: registrations in the documented layout written independently are loaded, those saved are decoded independently. Non-trivial: changes survive a restart / more than two contents are seen / the registry isn't empty / killed in the middle.",
		kit.New("restarts", 1800, 30000, func(t *rapid.T) RegCase { return drawRegistry(t, 25, restartKinds) }, restarts),
		kit.New("heavy", 12, 200, func(t *rapid.T) RegCase {
			c := drawRegistry(t, 4, restartKinds)
			c.Ops = append(c.Ops, RegOp{K: "restart"})
			c.Crowd = 1 + kit.Uniform(8).Draw(t, "heavy")
			for i := range c.Ops {
				c.Ops[i].Name %= len(c.Names) + c.Crowd
				c.Ops[i].To %= len(c.Names) + c.Crowd
			}
			c.Long = 1500 << (3 * rapid.IntRange(0, 2).Draw(t, "long")) * (kit.Uniform(4).Draw(t, "times") + 1)
			return c
		}, restarts),
		kit.New("watched", 700, 12000, func(t *rapid.T) RegCase { return drawRegistry(t, 60, regKinds) }, watched),
		kit.New("damaged", 2000, 30000, func(t *rapid.T) DamageCase {
			c := DamageCase{RegCase: drawRegistry(t, 10, regKinds)}
			c.Kind = rapid.SampledFrom([]string{"missing", "cut", "cut", "cut", "tail", "tail", "raw", "raw", "name", "type", "shape", "shape"}).Draw(t, "kind")
			c.Cut = kit.Uniform(2000).Draw(t, "cut")
			c.Raw = kit.Bytes(t, "raw", 0, 30)
			return c
		}, damaged),
		kit.New("layout", 600, 12000, func(t *rapid.T) LayoutCase {
			return LayoutCase{drawRegistry(t, 20, regKinds), kit.Uniform(24).Draw(t, "style")}
		}, layout),
		kit.New("killed", 100, 3000, func(t *rapid.T) KillCase {
			c := KillCase{RegCase: drawRegistry(t, 80, []string{"create", "create", "update", "update", "delete"})}
			for i := range c.Ops { // enough to be killed in the middle
				c.Ops = append(c.Ops, c.Ops[i])
			}
			c.Delay = kit.Uniform(20000).Draw(t, "delay")
			return c
		}, killed),
		kit.New("dying", 250, 6000, func(t *rapid.T) KillCase {
			c := KillCase{RegCase: drawRegistry(t, 20, []string{"create", "create", "update", "update", "delete"})}
			c.At = rapid.SampledFrom([]string{"write", "rename", "rename", "unlink", "open", "close", "sync", "truncate", "link"}).Draw(t, "at")
			c.Before = kit.Uniform(max(1, len(c.Ops))).Draw(t, "before")
			if c.At == "unlink" || rapid.IntRange(0, 4).Draw(t, "full") == 4 {
				c.Room = 1 + kit.Uniform(1500).Draw(t, "room")
			}
			return c
		}, killed),
	)
}

func statErr(path string) error {
	_, err := os.Stat(path)
	return err
}

// child executes a history in a process of its own, which is going to be killed.
func child(dir string) {
	var c RegCase
	if err := json.NewDecoder(os.Stdin).Decode(&c); err != nil {
		kit.Fatal("child: %v", err)
	}
	r := &registry{c: &c, dir: dir, model: map[string]Settings{}}
	r.svc = r.fresh()
	names := c.pool()
	if c.Crowd > 0 {
		if err := r.svc.LoadNamespaces(); err != nil {
			fmt.Println(err)
			return
		}
		for _, ns := range r.svc.GetNamespaces() {
			r.model[ns.GetName().Value()] = Settings{}
		}
	}
	fmt.Println("ready")
	die := os.Getenv("VERIF_CHILD_DIE")
	before, _ := strconv.Atoi(os.Getenv("VERIF_CHILD_BEFORE"))
	room, _ := strconv.Atoi(os.Getenv("VERIF_CHILD_ROOM"))
	for i, op := range c.Ops {
		if die != "" && i == before {
			if room > 0 {
				limit := syscall.Rlimit{Cur: uint64(room), Max: uint64(room)}
				if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &limit); err != nil {
					kit.Fatal("setrlimit: %v", err)
				}
			}
			if kit.DieAt(die) != nil {
				return // not possible here
			}
		}
		ok, after := allowed(r.model, names, op)
		_, err := request(r.svc, names, op)
		if ok != (err == nil) {
			if room > 0 && i >= before {
				return // the disk is full
			}
			fmt.Printf("%s: unexpected %v\n", op.K, err)
			return
		}
		r.model = after
		os.Stdout.WriteString(".\n")
	}
}

func TestC17(t *testing.T) {
	signal.Ignore(syscall.SIGXFSZ)
	run := func(x *kit.X, c RegCase) {
		x.Bubble(func() {
			names := c.pool()
			r := newRegistry(x, &c)
			path := filepath.Join(r.dir, "namespaces.json")
			if err := r.svc.SaveNamespaces(); err != nil {
				x.Failf("saving an empty registry failed: %v", err)
			}
			failures := 0
			var all []domain.Namespace
			defer func() {
				for _, ns := range all {
					ns.Stop()
				}
			}()
			for i, op := range c.Ops {
				when := fmt.Sprintf("step %d: %s %s", i, op.K, names[op.Name])
				ok, after := allowed(r.model, names, op)
				victim := r.svc.GetNamespaceByName(parse(names[op.Name]))
				if op.Fault != "" {
					when += " while " + op.Fault
					before, err := os.ReadFile(path)
					if err != nil {
						kit.Fatal("read: %v", err)
					}
					present := files(r.dir)
					undo := x.Undo(fault(r.dir, op))
					_, err = request(r.svc, names, op)
					undo()
					if err != nil {
						for name := range files(r.dir) {
							if !present[name] {
								x.Failf("%s: the failed request has left the file %s", when, name)
							}
						}
					}
					intact, readErr := os.ReadFile(path)
					if readErr != nil {
						x.Failf("%s: the saved registration is gone: %v", when, readErr)
					}
					if err == nil && ok {
						// It did fit, or nothing had to be saved
						if state, err := r.saved(); err == nil && state == snapshot(after) {
							r.model = after
							x.Label(op.K + " not failed: " + op.Fault)
							goto check
						}
					}
					if err == nil {
						x.Failf("%s (full at %d): the request succeeds", when, op.Full)
					}
					if state, err := r.saved(); err != nil || state != snapshot(r.model) {
						x.Failf("%s: the saved registration holds [%s] (%v), expected [%s]; the file is %q, was %q", when, state, err, snapshot(r.model), intact, before)
					}
					if diff := difference(r.svc, r.model, names); diff != "" {
						x.Failf("%s failed, but changed the registry: %s", when, diff)
					}
					if ok {
						failures++
						x.Label(op.K + " failed: " + op.Fault)
						if op.K == "delete" && !pending(victim) {
							x.Failf("%s: the namespace isn't running anymore", when)
						}
					}
				}
				{
					ns, err := request(r.svc, names, op)
					if ok != (err == nil) {
						x.Failf("%s: %v once the fault is gone; the namespaces were %v", when, err, r.model)
					}
					if ns != nil && err == nil {
						all = append(all, ns)
					}
					r.model = after
				}
			check:
				if diff := difference(r.svc, r.model, names); diff != "" {
					x.Failf("%s: %s", when, diff)
				}
				for _, ns := range r.svc.GetNamespaces() {
					all = append(all, ns)
				}
				if state, err := r.saved(); err != nil || state != snapshot(r.model) {
					x.Failf("%s: the saved registration holds [%s] (%v), expected [%s]", when, state, err, snapshot(r.model))
				}
			}
			if failures > 0 && len(c.Ops) > 2 {
				x.NonTrivial()
			}
		})
	}
	kit.Main(t, "C17",
		"random histories whose requests meet a missing data directory, a file size limit at any byte of the registration, or a lack of file descriptors; the registry, the saved registration and the namespaces are compared with a model after each failure, and the same request is repeated without the fault. flapping: clients of the registry or of the HTTP API, each with names of its own, while the data directory comes and goes at random moments or right after something has been saved; what a client is told is what it must find. Non-trivial: a request that would have succeeded failed.",
		kit.New("faults", 3500, 60000, func(t *rapid.T) RegCase {
			c := drawRegistry(t, 20, []string{"create", "create", "create", "update", "update", "delete"})
			for i := range c.Ops {
				c.Ops[i].Fault = rapid.SampledFrom([]string{"", "", "missing", "nofiles", "full", "full", "full", "full"}).Draw(t, "fault")
				if c.Ops[i].Fault == "full" {
					c.Ops[i].Full = kit.Uniform(1+90*(c.Crowd+min(i+1, len(c.Names)))).Draw(t, "full")
				}
			}
			return c
		}, run),
		kit.New("flapping", 500, 30000, drawFlapping, flapping),
	)
}

// files lists a directory.
func files(dir string) map[string]bool {
	entries, err := os.ReadDir(dir)
	if err != nil {
		kit.Fatal("readdir: %v", err)
	}
	l := map[string]bool{}
	for _, e := range entries {
		l[e.Name()] = true
	}
	return l
}

// fault makes saving fail until undone.
func fault(dir string, op RegOp) (undo func()) {
	switch op.Fault {
	case "missing":
		if err := os.Rename(dir, dir+"-away"); err != nil {
			kit.Fatal("rename: %v", err)
		}
		return func() {
			os.RemoveAll(dir) // in case it was created again
			if err := os.Rename(dir+"-away", dir); err != nil {
				kit.Fatal("rename: %v", err)
			}
		}
	case "nofiles":
		var old syscall.Rlimit
		if err := syscall.Getrlimit(syscall.RLIMIT_NOFILE, &old); err != nil {
			kit.Fatal("getrlimit: %v", err)
		}
		limit := old
		limit.Cur = 0
		if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &limit); err != nil {
			kit.Fatal("setrlimit: %v", err)
		}
		return func() {
			if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &old); err != nil {
				kit.Fatal("setrlimit: %v", err)
			}
		}
	case "full":
		var old syscall.Rlimit
		if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
			kit.Fatal("getrlimit: %v", err)
		}
		limit := old
		limit.Cur = uint64(op.Full)
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &limit); err != nil {
			kit.Fatal("setrlimit: %v", err)
		}
		return func() {
			if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
				kit.Fatal("setrlimit: %v", err)
			}
		}
	}
	return func() {}
}
