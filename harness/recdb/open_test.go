package recdb

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"io"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"recengine/internal/infra/recdb"
	"recengine/vpbt/codec"
	"recengine/vpbt/kit"
	"strconv"
	"sync"
	"syscall"
	"testing"

	"pgregory.net/rapid"
)

// OpenCase is a series of openings of databases by their paths.
type OpenCase struct {
	Type   []byte         `json:"type"` // entry type, the usual one if empty
	Dir    string         `json:"dir"`  // relative to the scratch directory
	Names  []string       `json:"names"`
	Before []OpenContents `json:"before"` // of the files, by name
	Steps  []OpenStep     `json:"steps"`
}

// OpenContents are those of a file, which doesn't exist if there are none.
type OpenContents struct {
	Bytes []byte  `json:"bytes"`
	Head  bool    `json:"head"` // preceded by a valid header
	Lists []Lists `json:"lists"`
}

func (c OpenContents) bytes() []byte {
	if !c.Head {
		return c.Bytes
	}
	b := codec.DBHeader(1, codec.DBTypeLike, 0, uint32(len(c.Lists)))
	for _, l := range c.Lists {
		e := l.entry()
		b = append(b, e.Bytes()...)
	}
	return append(b, c.Bytes...)
}

// OpenStep is an opening.
type OpenStep struct {
	K    string `json:"k"` // open, full (disk), crash (after some bytes are written), nofiles, nodir
	Name int    `json:"name"`
	N    int    `json:"n"`            // bytes that can be written
	At   string `json:"at,omitempty"` // system call to die at
	Keep bool   `json:"keep"`
}

// typed is a protocol of entries of another type.
type typed struct {
	recdb.ConcreteProtocol
	entryType [8]byte
}

func (p typed) GetEntryType() [8]byte { return p.entryType }

// opener is the part of the protocol that opens files.
type opener interface {
	OpenOrCreateFile(filePath string) (*os.File, error)
}

func openProto(entryType []byte) recdb.Protocol {
	if len(entryType) != 8 {
		return newProto()
	}
	return recdb.NewProtocol(typed{recdb.NewLikeProtocol(), [8]byte(entryType)})
}

func TestMain(m *testing.M) {
	if path := os.Getenv("VERIF_CHILD_OPEN"); path != "" {
		// The process dies of writing too much
		n, _ := strconv.Atoi(os.Getenv("VERIF_CHILD_LIMIT"))
		entryType, _ := hex.DecodeString(os.Getenv("VERIF_CHILD_TYPE"))
		limited(n)
		if kit.DieAt(os.Getenv("VERIF_CHILD_DIE")) != nil {
			os.Exit(5) // not possible here
		}
		_, err := openProto(entryType).(opener).OpenOrCreateFile(path)
		if err != nil {
			os.Exit(3)
		}
		os.Exit(0)
	}
	os.Exit(m.Run())
}

// limited makes files unable to grow beyond n bytes.
func limited(n int) (undo func()) {
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		kit.Fatal("getrlimit: %v", err)
	}
	limit := old
	limit.Cur = uint64(n)
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &limit); err != nil {
		kit.Fatal("setrlimit: %v", err)
	}
	return func() {
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
			kit.Fatal("setrlimit: %v", err)
		}
	}
}

func noFiles() (undo func()) {
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_NOFILE, &old); err != nil {
		kit.Fatal("getrlimit: %v", err)
	}
	limit := old
	limit.Cur = 0
	if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &limit); err != nil {
		kit.Fatal("setrlimit: %v", err)
	}
	return func() {
		if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &old); err != nil {
			kit.Fatal("setrlimit: %v", err)
		}
	}
}

// AtOnceCase is openings of different databases at the same time.
type AtOnceCase struct {
	Names  []string `json:"names"`
	Shared bool     `json:"shared"` // the protocol is the same
	Exist  int      `json:"exist"`  // this one of four exists
	Rounds int      `json:"rounds"`
}

func openAtOnce(x *kit.X, c AtOnceCase) {
	proto := newProto()
	if _, can := proto.(opener); !can {
		return
	}
	empty := codec.DBHeader(1, codec.DBTypeLike, 0, 0)
	for round := 0; round < c.Rounds; round++ {
		dir := filepath.Join(x.Dir(), fmt.Sprint(round))
		for _, sub := range []string{"x", "y"} {
			if err := os.MkdirAll(filepath.Join(dir, sub), 0755); err != nil {
				kit.Fatal("mkdir: %v", err)
			}
		}
		want := make([][]byte, len(c.Names))
		bad := make([]string, len(c.Names))
		start := make(chan struct{})
		var wg sync.WaitGroup
		for i, name := range c.Names {
			path := filepath.Join(dir, name)
			want[i] = empty
			if (i+round)%4 == c.Exist {
				want[i] = codec.DBHeader(1, codec.DBTypeLike, 0, uint32(i))
				if err := os.WriteFile(path, want[i], 0644); err != nil {
					kit.Fatal("write: %v", err)
				}
			}
			p := proto
			if !c.Shared {
				p = newProto()
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				f, err := p.(opener).OpenOrCreateFile(path)
				if err != nil {
					bad[i] = err.Error()
					return
				}
				defer f.Close()
				if got, err := io.ReadAll(f); err != nil || !bytes.Equal(got, want[i]) {
					bad[i] = fmt.Sprintf("the returned file holds % x (%v), expected % x", got, err, want[i])
				}
			}()
		}
		close(start)
		wg.Wait()
		for i, name := range c.Names {
			if bad[i] != "" {
				x.Failf("opening %s along with others: %s", name, bad[i])
			}
			if got, err := os.ReadFile(filepath.Join(dir, name)); err != nil || !bytes.Equal(got, want[i]) {
				x.Failf("%s has been opened along with others, it holds % x (%v), expected % x", name, got, err, want[i])
			}
		}
	}
	x.NonTrivial()
}

func TestC29(t *testing.T) {
	signal.Ignore(syscall.SIGXFSZ)
	run := func(x *kit.X, c OpenCase) {
		dir := filepath.Join(x.Dir(), c.Dir)
		if err := os.MkdirAll(dir, 0755); err != nil {
			kit.Fatal("mkdir: %v", err)
		}
		proto := openProto(c.Type)
		if _, can := proto.(opener); !can {
			return // there is no way to open a database by its path
		}
		entryType := codec.DBTypeLike
		if len(c.Type) == 8 {
			entryType = string(c.Type)
		}
		empty := codec.DBHeader(1, entryType, 0, 0)
		// Contents of the files, nil if a file doesn't exist
		model := map[string][]byte{}
		for i, name := range c.Names {
			if i < len(c.Before) {
				if b := c.Before[i].bytes(); len(b) > 0 {
					model[name] = b
					if err := os.WriteFile(filepath.Join(dir, name), b, 0644); err != nil {
						kit.Fatal("write: %v", err)
					}
				}
			}
		}
		crashed := false
		failures, reopened := map[string]bool{}, 0
		var kept []*os.File
		defer func() {
			for _, f := range kept {
				f.Close()
			}
		}()
		real, err := filepath.EvalSymlinks(x.Dir())
		if err != nil {
			kit.Fatal("scratch: %v", err)
		}
		for i, s := range c.Steps {
			name := c.Names[s.Name%len(c.Names)]
			path := filepath.Join(dir, name)
			old, exists := model[name]
			fail := func(format string, args ...any) {
				x.Failf("step %d: opening %s (%s %d), %d bytes: "+format, append([]any{i, name, s.K, s.N, len(old)}, args...)...)
			}
			undo := func() {}
			must := "succeed"
			switch s.K {
			case "full":
				undo = limited(s.N)
				if !exists && s.N < len(empty) {
					must = "fail"
				}
			case "nofiles":
				undo = noFiles()
				must = "fail"
			case "nodir":
				if err := os.Rename(dir, dir+"-away"); err != nil {
					kit.Fatal("rename: %v", err)
				}
				undo = func() {
					os.RemoveAll(dir) // in case it was created again
					if err := os.Rename(dir+"-away", dir); err != nil {
						kit.Fatal("rename: %v", err)
					}
				}
				must = "fail"
			case "crash":
				exe, err := os.Executable()
				if err != nil {
					kit.Fatal("executable: %v", err)
				}
				cmd := exec.Command(exe, "-test.run", "^$")
				cmd.Env = append(os.Environ(), "VERIF_CHILD_OPEN="+path, "VERIF_CHILD_LIMIT="+strconv.Itoa(s.N), "VERIF_CHILD_DIE="+s.At, "VERIF_CHILD_TYPE="+hex.EncodeToString(c.Type))
				err = cmd.Run()
				if cmd.ProcessState == nil {
					kit.Fatal("child: %v", err)
				}
				if cmd.ProcessState.ExitCode() < 0 {
					x.Label("died at " + s.At)
				}
				if cmd.ProcessState.ExitCode() == 5 {
					x.Label("cannot die")
				}
				if cmd.ProcessState.Success() {
					if !exists {
						model[name] = empty
					}
				} else if exists && cmd.ProcessState.ExitCode() == 3 {
					fail("the process fails, though the file exists")
				}
				b, err := os.ReadFile(path)
				if exists && (err != nil || !bytes.Equal(b, old)) {
					fail("the contents have changed")
				}
				if !exists && err == nil {
					// It died having created the file
					if !bytes.Equal(b, empty) {
						fail("dying, it has left % x", b)
					}
					model[name] = empty
				}
				crashed = true
				x.Label("crashes")
				continue
			}
			undo = x.Undo(undo)
			f, err := proto.(opener).OpenOrCreateFile(path)
			undo()
			if (err == nil) != (must == "succeed") {
				fail("%v, though it must %s", err, must)
			}
			now, readErr := os.ReadFile(path)
			if exists && (readErr != nil || !bytes.Equal(now, old)) {
				fail("the contents have changed (%v)", readErr)
			}
			if err != nil {
				if f != nil {
					fail("a file is returned along with the error %v", err)
				}
				if open := kit.OpenFiles(real); len(open) != len(kept) {
					fail("the failure leaves files open: %v (%d are kept)", open, len(kept))
				}
				failures[name] = true
				x.Label("failures: " + s.K)
				continue
			}
			if !exists {
				old = empty
				x.Label("created")
				if failures[name] || crashed {
					x.Label("created after a failure or a crash")
					reopened++
				}
			} else {
				reopened++
			}
			model[name] = old
			if !bytes.Equal(now, old) {
				fail("the file holds % x, expected % x", now, old)
			}
			if pos := where(f); pos != 0 {
				fail("the position is %d", pos)
			}
			got, err := io.ReadAll(f)
			if err != nil || !bytes.Equal(got, old) {
				fail("the returned file holds % x (%v), expected % x", got, err, old)
			}
			if !exists {
				shift(f, 0)
				if it, err := recdb.NewIterator(f, proto); err != nil || it.HasNext() {
					fail("it isn't a valid empty database: %v", err)
				}
			}
			if s.Keep {
				kept = append(kept, f)
			} else if err := f.Close(); err != nil {
				fail("closing: %v", err)
			}
			if open := kit.OpenFiles(real); len(open) != len(kept) {
				fail("more files are open than the returned ones: %v (%d are kept)", open, len(kept))
			}
			if !crashed {
				files, err := os.ReadDir(dir)
				if err != nil {
					kit.Fatal("readdir: %v", err)
				}
				for _, e := range files {
					if _, has := model[e.Name()]; !has {
						fail("the file %s is left", e.Name())
					}
				}
			}
		}
		if reopened > 0 {
			x.NonTrivial()
		}
	}
	draw := func(kinds []string, steps int) func(t *rapid.T) OpenCase {
		return func(t *rapid.T) OpenCase {
			var c OpenCase
			if rapid.IntRange(0, 2).Draw(t, "other-type") == 2 {
				c.Type = rapid.SliceOfN(rapid.Byte(), 8, 8).Draw(t, "type")
			}
			c.Dir = rapid.SampledFrom([]string{"data", "data/more", "d a t a", "data.recdb"}).Draw(t, "dir")
			c.Names = rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"a.recdb", "b.recdb", "a", "A.recdb", "name with spaces", "п.recdb", ".recdb", "a.recdb.old", "tmp", "x%d.recdb"}),
				1, 3, rapid.ID[string]).Draw(t, "names")
			c.Before = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) OpenContents {
				b := OpenContents{Head: rapid.Bool().Draw(t, "head")}
				if rapid.Bool().Draw(t, "any") {
					b.Bytes = kit.Bytes(t, "bytes", 0, 60)
				}
				if b.Head {
					b.Lists = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Lists { return drawLists(t, 0) }), 0, 3).Draw(t, "lists")
				}
				return b
			}), 0, 2).Draw(t, "before")
			c.Steps = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) OpenStep {
				s := OpenStep{K: rapid.SampledFrom(kinds).Draw(t, "k"), Name: rapid.IntRange(0, 2).Draw(t, "name"), Keep: rapid.IntRange(0, 4).Draw(t, "keep") == 4}
				s.N = rapid.OneOf(kit.Uniform(28), rapid.Just(0)).Draw(t, "n")
				if s.K == "crash" {
					s.At = rapid.SampledFrom([]string{"write", "rename", "unlink", "close", "seek", "sync", "link"}).Draw(t, "at")
					if rapid.Bool().Draw(t, "room") {
						s.N = 1000
					}
				}
				return s
			}), 2, steps).Draw(t, "steps")
			return c
		}
	}
	kit.Main(t, "C29",
		"databases of any entry type opened by their paths, one after another or at the same time, missing or having any contents, with failures (full disk at any byte, missing directory, no file descriptors) and in processes dying at any kind of system call after any number of bytes written; the file found at the path and the one returned compared with a model after every step. Non-trivial: an existing file was opened again, or a creation repeated after a failure or a crash.",
		kit.New("opens", 8000, 120000, draw([]string{"open", "open", "full", "full", "nodir", "nofiles"}, 8), run),
		kit.New("at-once", 1200, 20000, func(t *rapid.T) AtOnceCase {
			return AtOnceCase{
				Names:  rapid.SliceOfNDistinct(rapid.StringMatching(`(|[xy]/)[a-d]{1,2}(|\.recdb)`), 2, 12, rapid.ID[string]).Draw(t, "names"),
				Shared: rapid.Bool().Draw(t, "shared"),
				Exist:  kit.Uniform(4).Draw(t, "exist"),
				Rounds: rapid.IntRange(1, 8).Draw(t, "rounds"),
			}
		}, openAtOnce),
		kit.New("crashes", 400, 12000, draw([]string{"open", "full", "crash", "crash"}, 5), run),
	)
}
