package api

import (
	"context"
	"io"
	"log"
	"net/http"
	"os"
	"path/filepath"
	"recengine/internal/api/shard"
	"recengine/internal/api/shard/endpoints"
	"recengine/internal/domain"
	"recengine/internal/infra/delta"
	"recengine/internal/infra/index"
	"recengine/vpbt/kit"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/gin-gonic/gin"
)

func TestMain(m *testing.M) {
	log.SetOutput(io.Discard)
	gin.SetMode(gin.ReleaseMode)
	gin.DefaultWriter, gin.DefaultErrorWriter = io.Discard, io.Discard
	os.Exit(m.Run())
}

// Settings are those of a namespace.
type Settings struct {
	Limit  uint64
	Factor float32
}

const defaultLimit = 1000

func dataDir(x *kit.X) string {
	dir := filepath.Join(x.Dir(), "data")
	if err := os.Mkdir(dir, 0755); err != nil {
		kit.Fatal("mkdir: %v", err)
	}
	return dir
}

// service makes a registry on the data directory.
func service(dir string) *domain.NamespaceService {
	os.Setenv("REC_PATH", dir)
	defer os.Unsetenv("REC_PATH")
	return domain.NewNamespaceService(context.Background(), delta.NewStorageFactory(), index.NewStorageFactory())
}

// router is what serves the requests: that of the application, if it can be
// got at (it has a field for it or for the HTTP server), or one made alike.
func router(svc *domain.NamespaceService) http.Handler {
	app := reflect.ValueOf(shard.NewApplication(&shard.ApplicationDto{Config: &shard.Config{Host: "localhost", Port: 8080}, NsService: svc}))
	if app.Kind() == reflect.Pointer && app.Elem().Kind() == reflect.Struct {
		for i := 0; i < app.Elem().NumField(); i++ {
			field := app.Elem().Field(i)
			switch v := reflect.NewAt(field.Type(), field.Addr().UnsafePointer()).Elem().Interface().(type) {
			case *http.Server:
				if v != nil && v.Handler != nil {
					return v.Handler
				}
			case http.Handler:
				if engine, ok := v.(*gin.Engine); ok && engine != nil {
					return engine
				}
			}
		}
	}
	engine := gin.New()
	endpoints.NewNamespaceEndpoint(svc).RegisterRoutes(engine)
	return engine
}

func registered(svc *domain.NamespaceService) map[string]Settings {
	out := map[string]Settings{}
	for _, ns := range svc.GetNamespaces() {
		out[ns.GetName().Value()] = Settings{uint64(ns.GetMaxSimilarProfiles()), ns.GetDislikeFactor()}
	}
	return out
}

// reloaded is what a fresh instance finds in the data directory.
func reloaded(x *kit.X, dir string) map[string]Settings {
	svc := service(dir)
	if err := svc.LoadNamespaces(); err != nil {
		if _, statErr := os.Stat(filepath.Join(dir, "namespaces.json")); os.IsNotExist(statErr) {
			return map[string]Settings{}
		}
		x.Failf("the saved registration doesn't load: %v", err)
	}
	return registered(svc)
}

func same(a, b map[string]Settings) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return false
		}
	}
	return true
}

func text(m map[string]Settings) string {
	var l []string
	for k, v := range m {
		l = append(l, k+" "+itoa(v))
	}
	sort.Strings(l)
	return "[" + strings.Join(l, "; ") + "]"
}
