package recdb

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"recengine/internal/domain"
	"recengine/internal/helpers"
	"recengine/internal/infra/recdb"
	"recengine/vpbt/codec"
	"recengine/vpbt/kit"
	"sync/atomic"
	"testing/iotest"

	"pgregory.net/rapid"
)

func newProto() recdb.Protocol { return recdb.NewProtocol(recdb.NewLikeProtocol()) }

// Lists describes the item lists of a profile in a compact way.
type Lists struct {
	User     uint64   `json:"u"`
	Likes    []uint64 `json:"l"`
	Dislikes []uint64 `json:"d"`
	MoreL    int      `json:"ml,omitempty"` // further generated likes
	MoreD    int      `json:"md,omitempty"`
	Deleted  byte     `json:"del,omitempty"`
	Spare    int      `json:"spare"` // capacity minus size
	Nil      bool     `json:"nil,omitempty"`
}

func (l Lists) entry() codec.Entry {
	e := codec.Entry{Deleted: l.Deleted, User: l.User}
	more := func(list []uint64, n int, salt uint64) []uint64 {
		out := append([]uint64{}, list...)
		for i := 0; i < n; i++ {
			out = append(out, (uint64(i)+salt)*0x9E3779B97F4A7C15>>7)
		}
		return out
	}
	e.Likes, e.Dislikes = more(l.Likes, l.MoreL, 1), more(l.Dislikes, l.MoreD, 1<<20)
	e.Capacity = uint32(e.Size() + l.Spare)
	return e
}

func (l Lists) profile() *domain.Profile {
	e := l.entry()
	p := &domain.Profile{UserID: e.User, Likes: e.Likes, Dislikes: e.Dislikes}
	if l.Nil {
		if len(p.Likes) == 0 {
			p.Likes = nil
		}
		if len(p.Dislikes) == 0 {
			p.Dislikes = nil
		}
	}
	return p
}

func drawLists(t *rapid.T, more int) Lists {
	l := Lists{User: kit.U64().Draw(t, "user"), Nil: rapid.Bool().Draw(t, "nil")}
	l.Likes = rapid.SliceOfN(kit.U64(), 0, 5).Draw(t, "likes")
	l.Dislikes = rapid.SliceOfN(kit.U64(), 0, 5).Draw(t, "dislikes")
	if rapid.IntRange(0, 3).Draw(t, "large") == 3 {
		l.MoreL, l.MoreD = rapid.IntRange(0, more).Draw(t, "more-likes"), rapid.IntRange(0, more).Draw(t, "more-dislikes")
	}
	l.Deleted = rapid.SampledFrom([]byte{0, 0, 0, 1, 2, 255}).Draw(t, "deleted")
	l.Spare = rapid.OneOf(rapid.Just(0), rapid.IntRange(1, 9), kit.Uniform(230), rapid.IntRange(90, 110), rapid.IntRange(0, 5000)).Draw(t, "spare")
	return l
}

// matches compares an entry read by the code under test with the expected one.
func matches(x *kit.X, got *recdb.Entry, want codec.Entry, when string) {
	p, ok := got.Data.(*domain.Profile)
	if !ok || p == nil {
		x.Failf("%s: the entry carries %T", when, got.Data)
	}
	e := codec.Entry{Capacity: got.Capacity, Deleted: got.Deleted, User: p.UserID, Likes: p.Likes, Dislikes: p.Dislikes}
	if !codec.Equal(e, want) {
		x.Failf("%s: read %+v, expected %+v", when, brief(e), brief(want))
	}
}

func equals(got *recdb.Entry, want codec.Entry) bool {
	p, ok := got.Data.(*domain.Profile)
	return ok && p != nil && codec.Equal(codec.Entry{Capacity: got.Capacity, Deleted: got.Deleted, User: p.UserID, Likes: p.Likes, Dislikes: p.Dislikes}, want)
}

func brief(e codec.Entry) codec.Entry {
	if len(e.Likes) > 8 {
		e.Likes = e.Likes[:8]
	}
	if len(e.Dislikes) > 8 {
		e.Dislikes = e.Dislikes[:8]
	}
	return e
}

var styles = []string{"whole", "byte", "half", "dataerr"}

// split makes the reader transfer its bytes in another way.
func split(r io.Reader, style string) io.Reader {
	switch style {
	case "byte":
		return iotest.OneByteReader(r)
	case "half":
		return iotest.HalfReader(r)
	case "dataerr":
		return iotest.DataErrReader(r)
	}
	return r
}

// file of any kind holding the contents.
type file struct {
	io.ReadWriteSeeker
	bytes func() []byte
}

var fileCount atomic.Int64

func newFile(x *kit.X, kind string, contents []byte) *file {
	switch kind {
	case "buf":
		fb := helpers.NewFileBuffer(append([]byte{}, contents...))
		return &file{fb, fb.Bytes}
	case "os":
		path := filepath.Join(x.Dir(), fmt.Sprintf("%d.recdb", fileCount.Add(1)))
		if err := os.WriteFile(path, contents, 0644); err != nil {
			kit.Fatal("write: %v", err)
		}
		f, err := os.OpenFile(path, os.O_RDWR, 0)
		if err != nil {
			kit.Fatal("open: %v", err)
		}
		x.Cleanup(func() { f.Close() })
		return &file{f, func() []byte {
			b, err := os.ReadFile(path)
			if err != nil {
				kit.Fatal("read: %v", err)
			}
			return b
		}}
	}
	d := kit.NewDisk(contents)
	d.Record = false
	return &file{d.Handle(), func() []byte { return d.Data }}
}

func where(f io.Seeker) int64 {
	pos, err := f.Seek(0, io.SeekCurrent)
	if err != nil {
		kit.Fatal("seek: %v", err)
	}
	return pos
}

func shift(f io.Seeker, pos int64) {
	if _, err := f.Seek(pos, io.SeekStart); err != nil {
		kit.Fatal("seek: %v", err)
	}
}
