package recdb

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"recengine/internal/infra/recdb"
	"recengine/vpbt/codec"
	"recengine/vpbt/kit"
	"sync"

	"pgregory.net/rapid"
)

// sparse is a file of any size keeping the pages written only.
type sparse struct {
	pages   map[int64][]byte
	size    int64
	at      int64
	touched int
	calls   int
}

const page = 4096

func (f *sparse) Seek(offset int64, whence int) (int64, error) {
	at := offset + []int64{0, f.at, f.size}[whence]
	if at < 0 {
		return 0, errors.New("a negative position")
	}
	f.at = at
	return at, nil
}

func (f *sparse) Read(b []byte) (int, error) {
	f.calls++
	if len(b) == 0 {
		return 0, nil
	}
	if f.at >= f.size {
		return 0, io.EOF
	}
	n := int(min(int64(len(b)), f.size-f.at, page-f.at%page))
	if p := f.pages[f.at/page]; p != nil {
		copy(b[:n], p[f.at%page:])
	} else {
		clear(b[:n])
	}
	f.at += int64(n)
	return n, nil
}

func (f *sparse) Write(b []byte) (int, error) {
	f.calls++
	done := 0
	for done < len(b) {
		p := f.pages[f.at/page]
		n := min(len(b)-done, int(page-f.at%page))
		if part := b[done : done+n]; p == nil && bytes.Count(part, []byte{0}) < n {
			p = make([]byte, page)
			f.pages[f.at/page] = p
		}
		if p != nil {
			copy(p[f.at%page:], b[done:done+n])
		}
		f.at += int64(n)
		f.size = max(f.size, f.at)
		done += n
	}
	f.touched += done
	return done, nil
}

// window returns what is at the offset.
func (f *sparse) window(offset int64, n int) []byte {
	g := sparse{pages: f.pages, size: f.size, at: offset}
	b := make([]byte, n)
	if _, err := io.ReadFull(&g, b); err != nil {
		kit.Fatal("the window %d+%d of %d: %v", offset, n, f.size, err)
	}
	return b
}

// VastCase is a database having entries of gigabytes.
type VastCase struct {
	Entries []Lists `json:"entries"`
	Free    []int64 `json:"free"`  // the capacity of each entry, if above 0
	Sets    []Lists `json:"sets"`  // rewritings of the small entries
	Short   int64   `json:"short"` // bytes missing at the end
}

func drawVast(t *rapid.T) VastCase {
	var c VastCase
	edges := rapid.SampledFrom([]int64{1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 1, 1<<32 - 1, 1<<32 - 1})
	vast := rapid.OneOf(edges, edges, rapid.Int64Range(1<<30, 1<<32-1))
	n := rapid.IntRange(1, 4).Draw(t, "entries")
	big := kit.Uniform(max(1, n-1)).Draw(t, "big")
	for i := 0; i < n; i++ {
		c.Entries = append(c.Entries, drawLists(t, 60))
		c.Free = append(c.Free, 0)
		c.Sets = append(c.Sets, Lists{User: kit.U64().Draw(t, "set"), Deleted: byte(i)})
	}
	c.Free[big] = vast.Draw(t, "capacity")
	if kit.Uniform(3).Draw(t, "short") == 0 {
		c.Short = rapid.OneOf(rapid.Just(int64(1)), rapid.Int64Range(1, 5000)).Draw(t, "missing")
	}
	return c
}

// trim returns the encoding of the entry without the free space.
func trim(e codec.Entry) []byte {
	bare := e
	bare.Capacity = 0
	b := bare.Bytes()
	copy(b, []byte{byte(e.Capacity >> 24), byte(e.Capacity >> 16), byte(e.Capacity >> 8), byte(e.Capacity)})
	return b
}

func (c VastCase) entries() (list []codec.Entry) {
	for i, l := range c.Entries {
		e := l.entry()
		if c.Free[i] > 0 {
			e.Capacity = uint32(c.Free[i])
		}
		list = append(list, e)
	}
	return
}

// frugal tells if entries of gigabytes are practicable: the memory and the
// calls taken don't grow like those of a transfer all at once or by the byte.
var frugal = sync.OnceValue(func() bool {
	const size = 1 << 24
	f := &sparse{pages: map[int64][]byte{}}
	l := Lists{User: 1}
	before := allocated()
	_, err := newProto().WriteEntry(&recdb.Entry{Capacity: size, Data: l.profile()}, f)
	f.at = 0
	var got recdb.Entry
	if err == nil {
		_, err = newProto().ReadEntry(&got, f)
	}
	return err != nil || allocated()-before < size/2 && f.calls < size/32
})

// vastOr runs the case unless it is impracticable.
func vastOr(run func(x *kit.X, c VastCase)) func(x *kit.X, c VastCase) {
	return func(x *kit.X, c VastCase) {
		if frugal() {
			run(x, c)
		} else {
			x.Label("gigabytes are impracticable")
		}
	}
}

// vastTrip writes the entries and reads them back.
func vastTrip(x *kit.X, c VastCase) {
	proto := newProto()
	f := &sparse{pages: map[int64][]byte{}}
	for i, e := range c.entries() {
		start := f.at
		n, err := proto.WriteEntry(&recdb.Entry{Capacity: e.Capacity, Deleted: e.Deleted, Data: c.Entries[i].profile()}, f)
		if err != nil || uint32(n) != e.Capacity || n < 0 || f.at-start != int64(e.Capacity) || f.size != f.at {
			x.Failf("entry %d of the capacity %d: (%d, %v), %d bytes written", i, e.Capacity, n, err, f.at-start)
		}
		want := trim(e)
		if got := f.window(start, len(want)); !bytes.Equal(got, want) {
			x.Failf("entry %d of the capacity %d: wrong bytes written", i, e.Capacity)
		}
		for at, p := range f.pages { // the rest is free
			from := max(0, start+int64(len(want))-at*page)
			if from < page && bytes.Count(p[from:], []byte{0}) != len(p[from:]) {
				x.Failf("entry %d of the capacity %d: the free space isn't filled with zeros", i, e.Capacity)
			}
		}
	}
	f.at = 0
	vastRead(x, c, f)
	x.NonTrivial()
}

// vastRead reads entries following each other, the last of which may be cut.
func vastRead(x *kit.X, c VastCase, f *sparse) {
	proto := newProto()
	for i, e := range c.entries() {
		start := f.at
		var got recdb.Entry
		n, err := proto.ReadEntry(&got, f)
		if start+int64(e.Capacity) > f.size {
			if err == nil {
				x.Failf("entry %d of the capacity %d is read, though only %d bytes are there", i, e.Capacity, f.size-start)
			}
			return
		}
		if err != nil || int64(n) != int64(e.Capacity) || f.at-start != int64(e.Capacity) {
			x.Failf("entry %d of the capacity %d: read (%d, %v), %d bytes consumed", i, e.Capacity, n, err, f.at-start)
		}
		matches(x, &got, e, fmt.Sprintf("entry %d", i))
	}
}

// lay puts the entries into a file without the code under test.
func (c VastCase) lay(f *sparse) (offsets []int64) {
	for _, e := range c.entries() {
		offsets = append(offsets, f.at)
		end := f.at + int64(e.Capacity)
		f.Write(trim(e))
		f.at = end
		f.size = end
	}
	return
}

// vastBytes reads entries, the last of which may be cut.
func vastBytes(x *kit.X, c VastCase) {
	f := &sparse{pages: map[int64][]byte{}}
	c.lay(f)
	f.size -= min(c.Short, 20)
	f.at = 0
	vastRead(x, c, f)
	x.NonTrivial()
}

// vastScan scans a database and rewrites its small entries.
func vastScan(x *kit.X, c VastCase) {
	f := &sparse{pages: map[int64][]byte{}}
	f.Write(codec.DBHeader(1, codec.DBTypeLike, 0, uint32(len(c.Entries))))
	offsets := c.lay(f)
	entries := c.entries()
	size := f.size
	it, err := recdb.NewIterator(f, newProto())
	if err != nil {
		x.Failf("cannot iterate: %v", err)
	}
	f.touched = 0
	for i, e := range entries {
		got, err := it.Next()
		if err != nil {
			x.Failf("entry %d of the capacity %d at %d cannot be read: %v", i, e.Capacity, offsets[i], err)
		}
		matches(x, got, e, fmt.Sprintf("entry %d at %d", i, offsets[i]))
		if c.Free[i] > 0 {
			continue
		}
		set := c.Sets[i]
		want := set.entry()
		want.Capacity = e.Capacity
		if err := it.SetPrevious(&recdb.Entry{Capacity: e.Capacity, Deleted: set.Deleted, Data: set.profile()}); err != nil {
			x.Failf("entry %d at %d cannot be rewritten: %v", i, offsets[i], err)
		}
		entries[i] = want
		for j, e := range entries {
			b := trim(e)
			if c.Free[j] == 0 {
				b = e.Bytes()
			}
			if !bytes.Equal(f.window(offsets[j], len(b)), b) {
				x.Failf("entry %d at %d has been rewritten, wrong contents of entry %d at %d", i, offsets[i], j, offsets[j])
			}
		}
		if f.size != size || f.touched > int(want.Capacity) {
			x.Failf("rewriting entry %d at %d: %d bytes written, the file has %d bytes, expected %d", i, offsets[i], f.touched, f.size, size)
		}
		f.touched = 0
		if offsets[i] > 1<<31 {
			x.Label("rewritten beyond 2 GB")
			x.NonTrivial()
		}
	}
	if it.HasNext() {
		x.Failf("the scan goes on after the last entry")
	}
}
