package domain

import (
	"context"
	"os"
	"path/filepath"
	"recengine/internal/domain"
	"recengine/internal/domain/valueobjects"
	"recengine/internal/infra/delta"
	"recengine/internal/infra/index"
	"recengine/vpbt/kit"
	"reflect"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
)

// TextCase is any text (bytes, not necessarily valid UTF-8).
type TextCase struct {
	Text []byte `json:"text"`
}

func validName(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		letter := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
		if !letter && (i == 0 || !(c >= '0' && c <= '9') && c != '_' && c != '-') {
			return false
		}
	}
	return s != ""
}

// FilesCase is several namespaces started on one data directory.
type FilesCase struct {
	Names []string `json:"names"`
	Path  string   `json:"path"`          // spelling of the data directory
	Dir   string   `json:"dir,omitempty"` // its name, data by default
	// Namespaces of the service are started, not those made for the test.
	Service bool `json:"service,omitempty"`
}

// serviced finds a namespace of the service and gives it a factory of like
// storages, which the service has none of so far. It returns nil if that is
// impossible.
func serviced(svc *domain.NamespaceService, name string, factory domain.LikeStorageFactory) likeNamespace {
	for _, ns := range svc.GetNamespaces() {
		v := reflect.ValueOf(ns)
		if ns.GetName().Value() != name || v.Kind() != reflect.Pointer || v.Elem().Kind() != reflect.Struct {
			continue
		}
		found, ok := ns.(likeNamespace)
		if !ok {
			continue
		}
		for i := 0; i < v.Elem().NumField(); i++ {
			if field := v.Elem().Field(i); field.Type() == reflect.TypeOf(&factory).Elem() && field.IsNil() {
				reflect.NewAt(field.Type(), field.Addr().UnsafePointer()).Elem().Set(reflect.ValueOf(factory))
				return found
			}
		}
	}
	return nil
}

// tree lists the files below a directory with their contents.
func tree(root string) map[string]string {
	out := map[string]string{}
	err := filepath.Walk(root, func(path string, info os.FileInfo, err error) error {
		if err == nil && info.Mode().IsRegular() {
			var data []byte
			if data, err = os.ReadFile(path); err == nil {
				out[strings.TrimPrefix(path, root)] = string(data)
			}
		}
		return err
	})
	if err != nil {
		kit.Fatal("tree: %v", err)
	}
	return out
}

// Move renames a namespace (a position in the list) to a name.
type Move struct {
	Who int    `json:"who"`
	To  string `json:"to"`
}

// RenameCase is several namespaces of a service being renamed.
type RenameCase struct {
	Names []string `json:"names"`
	Moves []Move   `json:"moves"` // before they are started
	Late  *Move    `json:"late,omitempty"`
	Reuse bool     `json:"reuse,omitempty"` // the name left late is given to another
}

// Renamed namespaces on a data directory.
func renaming(x *kit.X, c RenameCase) {
	root, err := filepath.EvalSymlinks(x.Dir())
	if err != nil {
		kit.Fatal("scratch: %v", err)
	}
	home := root + "/data/"
	os.Mkdir(home, 0755)
	os.Setenv("REC_PATH", home)
	defer os.Unsetenv("REC_PATH")
	kind, _ := valueobjects.ParseNamespaceType("like")
	svc := domain.NewNamespaceService(context.Background(), delta.NewStorageFactory(), index.NewStorageFactory())
	create := func(name string) {
		if _, err := svc.CreateNamespace(&domain.NamespaceCreateRequest{Name: parse(name), Type: kind, DislikeFactor: 1}); err != nil {
			x.Failf("creating %q failed: %v", name, err)
		}
	}
	names := append([]string{}, c.Names...)
	for _, name := range names {
		create(name)
	}
	// move renames and tells whether that was possible
	move := func(m Move) bool {
		who, free := m.Who%len(names), true
		for i, other := range names {
			free = free && (i == who || other != m.To)
		}
		_, err := svc.UpdateNamespace(parse(names[who]), &domain.NamespaceUpdateRequest{Name: parse(m.To), DislikeFactor: 1})
		if (err == nil) != free {
			x.Failf("renaming %q to %q of %v: %v", names[who], m.To, names, err)
		}
		if free {
			names[who] = m.To
		}
		return free
	}
	moved := 0
	for _, m := range c.Moves {
		if move(m) {
			moved++
		}
	}
	x.Bubble(func() {
		var started []likeNamespace
		defer func() {
			for _, ns := range started {
				ns.Stop()
			}
			time.Sleep(time.Hour)
			synctest.Wait()
		}()
		start := func(name string) *likeTap {
			tap := &likeTap{}
			ns := serviced(svc, name, tap)
			if ns == nil {
				return nil
			}
			if err := ns.Start(context.Background()); err != nil {
				x.Failf("the start of %q failed: %v", name, err)
			}
			started = append(started, ns)
			return tap
		}
		// touched checks that only the files of the names have changed.
		seen := tree(root)
		touched := func(when string, who ...string) {
			now := tree(root)
			for file := range seen {
				if _, still := now[file]; !still {
					now[file] = "removed"
				}
			}
			for file, data := range now {
				if old, existed := seen[file]; existed && old == data {
					continue
				}
				good := strings.HasPrefix(file, "/data/namespaces.json")
				for _, name := range who {
					good = good || strings.HasPrefix(file, "/data/"+name+".")
				}
				if !good {
					x.Failf("%s: %s changes, expected only the files of %v", when, file, who)
				}
			}
			seen = tree(root)
		}
		for i, name := range names {
			tap := start(name)
			if tap == nil {
				x.Label("no access to namespaces of the service")
				return
			}
			tap.delta.Add(domain.DeltaOpAdd, uint64(i), uint64(i))
			if err := tap.delta.Flush(); err != nil {
				x.Failf("flush failed: %v", err)
			}
			tap.index.Put(uint64(i), uint64(i)+100)
			touched("starting "+name, name)
		}
		late, former := -1, ""
		if c.Late != nil {
			late = c.Late.Who % len(names)
			former = names[late]
			if !move(*c.Late) || names[late] == former {
				late = -1
			} else {
				x.Label("renamed while running")
				touched("renaming "+former, former, names[late])
			}
		}
		for _, ns := range started {
			ns.Stop()
		}
		time.Sleep(time.Hour)
		synctest.Wait()
		started = nil
		touched("stopping", append(names, former)...)
		svc = domain.NewNamespaceService(context.Background(), delta.NewStorageFactory(), index.NewStorageFactory())
		if err := svc.LoadNamespaces(); err != nil {
			x.Failf("loading failed: %v", err)
		}
		for i, name := range names {
			tap := start(name)
			if tap == nil {
				x.Failf("%q isn't there after a restart", name)
			}
			_, ok := tap.delta.Get(uint64(i), uint64(i))
			pos, found := tap.index.Get(uint64(i))
			if i == late && !ok && !found {
				x.Known("rename-leaves-files", "%q, having been %q, finds nothing of its data: its files haven't been renamed", name, former)
			} else if !ok || !found || pos != uint64(i)+100 {
				x.Failf("after a restart %q finds (%v, %v) of its data", name, ok, found)
			}
			for j := range names {
				_, ok := tap.delta.Get(uint64(j), uint64(j))
				_, found := tap.index.Get(uint64(j))
				if j != i && (ok || found) {
					x.Failf("after a restart %q finds data of %q", name, names[j])
				}
			}
			touched("restarting "+name, name)
		}
		if late >= 0 && c.Reuse {
			create(former)
			tap := start(former)
			if tap == nil {
				x.Failf("%q isn't there", former)
			}
			for j := range names {
				_, ok := tap.delta.Get(uint64(j), uint64(j))
				_, found := tap.index.Get(uint64(j))
				if (ok || found) && j == late {
					x.Known("rename-leaves-files", "the new namespace %q finds data of %q, which has been renamed", former, names[j])
				} else if ok || found {
					x.Failf("the new namespace %q finds data of %q", former, names[j])
				}
			}
			touched("starting the new "+former, former)
		}
		if moved > 0 {
			x.Label("renamed before the start")
			x.NonTrivial()
		}
	})
}

func TestC25(t *testing.T) {
	pieces := []string{"a", "b", "z", "A", "Z", "0", "9", "_", "-", "ns", "Like", "", "\n", "\r", "\t", " ", ".", "..", "/", "\\", "\x00", "\x7f",
		"@", "[", "`", "{", "^", ":", "é", "ж", "名", "\u212a", "\u017f", "\uff21", "\u0661", "\u2028", "\ufeff", "e\u0301", "\xff", "\xc3", "%2e", "$", "+", "~", "like", "likes", "Like"}
	texts := func(t *rapid.T) TextCase {
		return TextCase{Text: []byte(rapid.OneOf(
			rapid.StringMatching(`[a-zA-Z][a-zA-Z0-9_-]{0,30}`),
			rapid.Custom(func(t *rapid.T) string {
				s := rapid.StringMatching(`[a-zA-Z][a-zA-Z0-9_-]{0,12}`).Draw(t, "valid")
				at := rapid.IntRange(0, len(s)).Draw(t, "at")
				return s[:at] + rapid.SampledFrom(pieces).Draw(t, "piece") + s[at:]
			}),
			rapid.Custom(func(t *rapid.T) string {
				return strings.Join(rapid.SliceOfN(rapid.SampledFrom(pieces), 0, 8).Draw(t, "pieces"), "")
			}),
			rapid.Custom(func(t *rapid.T) string { return string(kit.Bytes(t, "bytes", 0, 30)) }),
			rapid.String(),
			rapid.Custom(func(t *rapid.T) string {
				return strings.Repeat(rapid.SampledFrom([]string{"a", "Z9", "x-_"}).Draw(t, "unit"), kit.Size(t, "n", 5000)) +
					rapid.SampledFrom([]string{"", "", "\n", "/", "é"}).Draw(t, "tail")
			}),
		).Draw(t, "text"))}
	}
	parsing := func(x *kit.X, c TextCase) {
		s := string(c.Text)
		name, err := valueobjects.ParseNamespaceName(s)
		if (err == nil) != validName(s) {
			x.Failf("the name %q: valid %v, parsing returns the error %v", s, validName(s), err)
		}
		if err == nil && name.Value() != s {
			x.Failf("the name %q is parsed as %q", s, name.Value())
		}
		kind, err := valueobjects.ParseNamespaceType(s)
		if (err == nil) != (s == "like") {
			x.Failf("the type %q: parsing returns the error %v", s, err)
		}
		if err == nil && kind.Value() != s {
			x.Failf("the type %q is parsed as %q", s, kind.Value())
		}
		if validName(s) {
			x.Label("valid names")
			x.NonTrivial()
		} else if len(s) > 0 && validName(s[:1]) {
			x.Label("invalid names starting as valid ones")
			x.NonTrivial()
		}
		if s == "like" {
			x.Label("valid types")
		}
	}
	files := func(x *kit.X, c FilesCase) {
		root, err := filepath.EvalSymlinks(x.Dir())
		if err != nil {
			kit.Fatal("scratch: %v", err)
		}
		dir := c.Dir
		if dir == "" {
			dir = "data"
		}
		for _, d := range []string{"/cwd/" + dir, "/" + dir, "/cwd/data2", "/cwd/" + dir + "/data", "/cwd/HOME"} {
			if err := os.MkdirAll(root+d, 0755); err != nil {
				kit.Fatal("scratch: %v", err)
			}
		}
		if err := os.Symlink("cwd", root+"/soft"); err != nil {
			kit.Fatal("scratch: %v", err)
		}
		back, err := os.Getwd()
		if err != nil {
			kit.Fatal("scratch: %v", err)
		}
		if err := os.Chdir(root + "/cwd"); err != nil {
			kit.Fatal("scratch: %v", err)
		}
		defer os.Chdir(back)
		path := strings.NewReplacer("ROOT", root, "DIR", dir).Replace(c.Path)
		home := "/cwd/" + dir + "/"
		if c.Path == "" || c.Path == "." || c.Path == "./" {
			home = "/cwd/"
		}
		os.Setenv("REC_PATH", path)
		defer os.Unsetenv("REC_PATH")
		svc := domain.NewNamespaceService(context.Background(), delta.NewStorageFactory(), index.NewStorageFactory())
		kind, _ := valueobjects.ParseNamespaceType("like")
		for _, name := range c.Names {
			req := &domain.NamespaceCreateRequest{Name: parse(name), Type: kind, DislikeFactor: 1}
			if _, err := svc.CreateNamespace(req); err != nil {
				x.Failf("creating %q with the data directory %q failed: %v", name, c.Path, err)
			}
		}
		seen := tree(root)
		if len(seen) == 0 {
			x.Failf("the registration isn't saved anywhere below the data directory %q", c.Path)
		}
		for file := range seen {
			if !strings.HasPrefix(file, home) || strings.Contains(strings.TrimPrefix(file, home), "/") {
				x.Failf("the data directory being %q, the service creates %s", c.Path, file)
			}
		}
		base := path
		if base != "" && !strings.HasSuffix(base, "/") {
			base += "/"
		}
		x.Bubble(func() {
			owner := map[string]string{}
			var all []*likeTap
			var started []likeNamespace
			load := func() {
				svc = domain.NewNamespaceService(context.Background(), delta.NewStorageFactory(), index.NewStorageFactory())
				if err := svc.LoadNamespaces(); err != nil {
					x.Failf("loading the namespaces with the data directory %q failed: %v", c.Path, err)
				}
			}
			load()
			forge := func(name string, tap *likeTap) likeNamespace {
				if c.Service {
					if ns := serviced(svc, name, tap); ns != nil {
						x.Label("namespaces of the service")
						return ns
					}
				}
				return domain.NewLikeNamespace(&domain.LikeNamespaceDto{Name: parse(name), BasePath: base, DislikeFactor: 1,
					DeltaStorageFactory: delta.NewStorageFactory(), LikeStorageFactory: tap, IndexStorageFactory: index.NewStorageFactory()})
			}
			for i, name := range c.Names {
				tap := &likeTap{}
				ns := forge(name, tap)
				if err := ns.Start(context.Background()); err != nil {
					x.Failf("the start of %q with the data directory %q failed: %v", name, c.Path, err)
				}
				all, started = append(all, tap), append(started, ns)
				tap.delta.Add(domain.DeltaOpAdd, uint64(i), uint64(i))
				if err := tap.delta.Flush(); err != nil {
					x.Failf("flush failed: %v", err)
				}
				tap.index.Put(uint64(i), uint64(i)+100)
				now := tree(root)
				own := 0
				for file, data := range now {
					old, existed := seen[file]
					if existed && old == data {
						continue
					}
					if !strings.HasPrefix(file, home+name+".") || strings.Contains(strings.TrimPrefix(file, home), "/") {
						x.Failf("the data directory being %q, %q touches %s", c.Path, name, file)
					}
					if other, taken := owner[file]; taken {
						x.Failf("%q and %q share %s", name, other, file)
					}
					owner[file] = name
					own++
				}
				for file := range seen {
					if _, still := now[file]; !still {
						x.Failf("%q removes %s", name, file)
					}
				}
				if own == 0 {
					x.Failf("%q has no files of its own", name)
				}
				seen = now
			}
			stop := func() {
				for _, ns := range started {
					ns.Stop()
				}
				time.Sleep(time.Hour)
				synctest.Wait()
			}
			stop()
			started = nil
			load()
			for file := range tree(root) {
				if _, known := seen[file]; !known {
					x.Failf("%s appears after the stop", file)
				}
			}
			for i, name := range c.Names {
				tap := &likeTap{}
				ns := forge(name, tap)
				if err := ns.Start(context.Background()); err != nil {
					x.Failf("the second start of %q failed: %v", name, err)
				}
				started = append(started, ns)
				for j := range c.Names {
					_, ok := tap.delta.Get(uint64(j), uint64(j))
					pos, found := tap.index.Get(uint64(j))
					if ok != (i == j) || found != (i == j) || found && pos != uint64(i)+100 {
						x.Failf("namespace %q finds the data of %q: %v %v", name, c.Names[j], ok, found)
					}
				}
			}
			stop()
		})
		if len(c.Names) > 1 {
			x.NonTrivial()
		}
		x.Label("namespaces in " + map[bool]string{true: "the working directory", false: "a data directory"}[home == "/cwd/"])
	}
	kit.Main(t, "C25",
		"texts: valid names, valid names with any character inserted, mixtures of separators, control and non-Latin characters, arbitrary bytes, long texts, judged by a character by character reference; and groups of namespaces with adversarially similar names started on a data directory named and spelled in many ways, the whole scratch tree being compared around every start. Also namespaces of a service renamed in any order before and after they are started. Non-trivial: the text starts as a valid name; several namespaces are started; or one is renamed before its start.",
		kit.New("texts", 60000, 1500000, texts, parsing),
		kit.New("files", 1000, 15000, func(t *rapid.T) FilesCase {
			name := rapid.OneOf(
				rapid.SampledFrom([]string{"a", "A", "namespaces", "ns", "ns-", "ns_", "NS", "n", "nsdelta", "delta", "index", "recdb", "data", "data2", "json", "n-s", "ns1", "ns10"}),
				rapid.StringMatching(`[a-zA-Z][a-zA-Z0-9_-]{0,6}`),
				rapid.StringMatching(`[a-zA-Z][a-zA-Z0-9_-]{90,100}`))
			return FilesCase{
				Names: rapid.SliceOfNDistinct(name, 1, 6, rapid.ID[string]).Draw(t, "names"),
				Path: rapid.SampledFrom([]string{"ROOT/cwd/DIR", "ROOT/cwd/DIR/", "ROOT/cwd/DIR//", "DIR", "DIR/", "./DIR", "../cwd/DIR", "", ".", "./",
					"ROOT/DIR/../cwd/DIR", "DIR/data/..", "ROOT/soft/DIR", "ROOT/soft/DIR/"}).Draw(t, "path"),
				Dir: rapid.OneOf(rapid.Just(""), rapid.SampledFrom([]string{"data ", "data\t", " data", "$HOME", "${HOME}", "$REC_PATH", "~", "d%61ta", "данные", "data.json", "d\\a",
					"data\n", "Data", "-data", "*", "d'a\"ta", "data.tmp", "a:b", "%s", strings.Repeat("long", 50)})).Draw(t, "dir"),
				Service: rapid.Bool().Draw(t, "service"),
			}
		}, files),
		kit.New("renamed", 600, 9000, func(t *rapid.T) RenameCase {
			pool := []string{"a", "A", "ns", "ns-", "ns1", "delta", "data", "namespaces", "b_c"}
			c := RenameCase{Names: rapid.SliceOfNDistinct(rapid.SampledFrom(pool), 1, 5, rapid.ID[string]).Draw(t, "names")}
			one := rapid.Custom(func(t *rapid.T) Move {
				return Move{kit.Uniform(5).Draw(t, "who"), rapid.SampledFrom(pool).Draw(t, "to")}
			})
			c.Moves = kit.Seq(t, "moves", one, 0, 6)
			if rapid.Bool().Draw(t, "late") {
				m := one.Draw(t, "late")
				c.Late, c.Reuse = &m, rapid.Bool().Draw(t, "reuse")
			}
			return c
		}, renaming),
	)
}
