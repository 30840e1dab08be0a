package recdb

import (
	"bytes"
	"fmt"
	"io"
	"recengine/internal/domain"
	"recengine/internal/infra/recdb"
	"recengine/vpbt/codec"
	"recengine/vpbt/kit"
	"runtime"
	"testing"

	"pgregory.net/rapid"
)

// TripCase is a sequence of entries following each other.
type TripCase struct {
	Entries []Lists `json:"entries"`
	Style   string  `json:"style"` // how the reader splits its transfers
	Refused []int   `json:"refused,omitempty"`
}

// failingWriter fails once its room is used up.
type failingWriter struct{ room int }

func (w *failingWriter) Write(b []byte) (int, error) {
	if len(b) > w.room {
		n := w.room
		w.room = 0
		return n, kit.ErrInjected
	}
	w.room -= len(b)
	return len(b), nil
}

func TestC09(t *testing.T) {
	run := func(x *kit.X, c TripCase) {
		proto := newProto()
		var out, want bytes.Buffer
		for i, l := range c.Entries {
			when := fmt.Sprintf("entry %d", i)
			e := l.entry()
			entry := &recdb.Entry{Capacity: e.Capacity, Deleted: e.Deleted, Data: l.profile()}
			size, err := proto.PredictEntrySize(entry)
			if err != nil || size != e.Size() {
				x.Failf("%s: predicted size (%d, %v), the minimal capacity is %d", when, size, err, e.Size())
			}
			capacity, err := proto.PredictEntryCapacity(entry)
			if err != nil || capacity < e.Size() || capacity < 5+8*30 {
				x.Failf("%s: recommended capacity (%d, %v) for the size %d", when, capacity, err, e.Size())
			}
			n, err := proto.WriteEntry(entry, &out)
			if err != nil {
				x.Failf("%s of size %d cannot be written with the capacity %d: %v", when, e.Size(), e.Capacity, err)
			}
			if n != int(e.Capacity) {
				x.Failf("%s: %d bytes are reported as written, expected %d", when, n, e.Capacity)
			}
			want.Write(e.Bytes())
			if !bytes.Equal(out.Bytes(), want.Bytes()) {
				x.Failf("%s: wrong bytes written: %d of them, expected %d", when, out.Len(), want.Len())
			}
			if e.Size() > 4096 {
				x.Label("larger than 4 KB")
			}
			if e.Size() > 1<<19 {
				x.Label("more than 65535 items")
			}
			if l.Spare > 100 {
				x.Label("more than 100 spare bytes")
			}
			// To a writer failing somewhere
			room := (i*7919 + l.Spare*31 + len(c.Entries)*13) % int(e.Capacity)
			failing := &failingWriter{room: room}
			if _, err := proto.WriteEntry(entry, failing); err == nil {
				x.Failf("%s: a failure after %d bytes of %d isn't reported", when, room, e.Capacity)
			}
			// With the recommended capacity too
			var recommended bytes.Buffer
			entry.Capacity = uint32(capacity)
			if n, err := proto.WriteEntry(entry, &recommended); err != nil || n != capacity || recommended.Len() != capacity {
				x.Failf("%s: written with the recommended capacity %d: (%d, %v), %d bytes", when, capacity, n, err, recommended.Len())
			}
		}
		// What must be refused
		for _, r := range c.Refused {
			l := c.Entries[r%len(c.Entries)]
			e := l.entry()
			entry := &recdb.Entry{Capacity: uint32(e.Size()), Deleted: e.Deleted, Data: l.profile()}
			what := ""
			switch r / 8 % 8 {
			case 0:
				what, entry.Data = "nothing", nil
			case 1:
				what, entry.Data = "a string", "profile"
			case 2:
				what, entry.Data = "a profile by value", *l.profile()
			case 3:
				what, entry.Data = "items", []uint64{1, 2, 3}
			default:
				entry.Capacity = uint32(r % e.Size())
				what = fmt.Sprintf("a profile of size %d with the capacity %d", e.Size(), entry.Capacity)
			}
			var refused bytes.Buffer
			if n, err := proto.WriteEntry(entry, &refused); err == nil || refused.Len() > 0 {
				x.Failf("an entry carrying %s isn't refused: (%d, %v), %d bytes written", what, n, err, refused.Len())
			}
			if r/8%8 < 4 {
				concrete := recdb.NewLikeProtocol()
				if n, err := concrete.WriteEntryData(entry, &refused); err == nil || refused.Len() > 0 {
					x.Failf("the data of an entry carrying %s isn't refused: (%d, %v), %d bytes written", what, n, err, refused.Len())
				}
				if n, err := concrete.PredictDataSize(entry.Data); err == nil {
					x.Failf("the size of %s is predicted to be %d", what, n)
				}
			}
			x.Label("refused")
		}
		// Reading them back
		rest := bytes.NewReader(out.Bytes())
		reader := split(rest, c.Style)
		var entry recdb.Entry
		for i, l := range c.Entries {
			when := fmt.Sprintf("reading of entry %d (%s)", i, c.Style)
			e := l.entry()
			before := rest.Len()
			n, err := proto.ReadEntry(&entry, reader)
			if err != nil {
				x.Failf("%s failed: %v", when, err)
			}
			if n != int(e.Capacity) {
				x.Failf("%s: %d bytes are reported as read, expected %d", when, n, e.Capacity)
			}
			if consumed := before - rest.Len(); consumed != n && c.Style != "dataerr" {
				x.Failf("%s: consumed %d bytes, expected %d", when, consumed, n)
			}
			matches(x, &entry, e, when)
		}
		if _, err := proto.ReadEntry(&entry, reader); err == nil {
			x.Failf("an entry was read after the last one")
		}
		if len(c.Entries) > 1 {
			x.NonTrivial()
		}
	}
	gen := func(entries, more int) func(t *rapid.T) TripCase {
		return func(t *rapid.T) TripCase {
			c := TripCase{Style: rapid.SampledFrom(styles).Draw(t, "style")}
			c.Entries = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Lists { return drawLists(t, more) }), 1, entries).Draw(t, "entries")
			c.Refused = rapid.SliceOfN(kit.Uniform(1000), 0, 3).Draw(t, "refused")
			return c
		}
	}
	kit.Main(t, "C09",
		"sequences of profiles (any lists, nil ones too) written with any sufficient capacity one after another, compared with an independent encoding, read back through readers splitting their transfers in several ways; insufficient capacities and foreign data must be refused; \"vast\" writes and reads entries of up to 4 GB on a synthetic sparse file. Non-trivial: several entries follow each other.",
		kit.New("entries", 48000, 1000000, gen(6, 40), run),
		kit.New("large", 2000, 20000, gen(3, 2500), run),
		kit.Together(600, 12000, gen(6, 300), run),
		kit.New("huge", 8, 160, func(t *rapid.T) TripCase {
			c := gen(2, 10)(t)
			c.Style = rapid.SampledFrom([]string{"whole", "half", "dataerr"}).Draw(t, "huge-style")
			if rapid.Bool().Draw(t, "likes") {
				c.Entries[0].MoreL += 65537
			} else {
				c.Entries[0].MoreD += 65537
			}
			return c
		}, run).Patient(300),
		kit.New("vast", 2, 40, drawVast, vastOr(vastTrip)).Patient(300),
	)
}

// Hostile is an entry whose fields may lie.
type Hostile struct {
	Raw      []byte   `json:"raw,omitempty"`
	Random   bool     `json:"random,omitempty"`
	Capacity uint32   `json:"cap"`
	User     uint64   `json:"u"`
	NumLikes uint32   `json:"nl"`
	Likes    []uint64 `json:"l"`
	NumDis   uint32   `json:"nd"`
	Dislikes []uint64 `json:"d"`
	Tail     int      `json:"tail"` // bytes after the lists
	Cut      int      `json:"cut"`
	Flip     []int    `json:"flip,omitempty"`
	Style    string   `json:"style"`
}

func (c Hostile) bytes() []byte {
	if c.Random {
		return c.Raw
	}
	e := codec.Entry{Capacity: c.Capacity, User: c.User, Likes: c.Likes, Dislikes: c.Dislikes}
	size := e.Size()
	e.Capacity = 0
	b := e.Bytes()
	put := func(off int, n uint32) {
		b[off], b[off+1], b[off+2], b[off+3] = byte(n>>24), byte(n>>16), byte(n>>8), byte(n)
	}
	put(0, c.Capacity)
	put(13, c.NumLikes)
	put(17+8*len(c.Likes), c.NumDis)
	b = append(b[:size], bytes.Repeat([]byte{0x5a}, c.Tail)...)
	for _, f := range c.Flip {
		f %= len(b) * 8
		b[f/8] ^= 1 << (f % 8)
	}
	return b[:max(0, len(b)-c.Cut)]
}

func drawHostile(t *rapid.T) Hostile {
	c := Hostile{Style: rapid.SampledFrom(styles).Draw(t, "style")}
	if kit.Uniform(12).Draw(t, "random") == 0 {
		c.Random = true
		c.Raw = kit.Bytes(t, "raw", 0, 80)
		if rapid.Bool().Draw(t, "plausible") && len(c.Raw) > 4 {
			c.Raw[0], c.Raw[1], c.Raw[2] = 0, 0, 0
		}
		return c
	}
	c.User = kit.U64().Draw(t, "user")
	c.Likes = rapid.SliceOfN(kit.U64(), 0, 6).Draw(t, "likes")
	c.Dislikes = rapid.SliceOfN(kit.U64(), 0, 6).Draw(t, "dislikes")
	if kit.Uniform(6).Draw(t, "long") == 0 {
		for n := rapid.IntRange(0, 800).Draw(t, "n"); n > 0; n-- {
			c.Likes = append(c.Likes, uint64(n)*7)
		}
	}
	lie := func(label string, truth int) uint32 {
		switch kit.Uniform(20).Draw(t, label+"-lie") {
		case 0, 1:
			return uint32(truth + rapid.IntRange(-2, 3).Draw(t, label))
		case 2:
			return rapid.Uint32Range(0, 1<<26).Draw(t, label)
		case 3:
			return 1 << rapid.IntRange(0, 26).Draw(t, label)
		case 4:
			if kit.Uniform(4).Draw(t, label+"-huge") == 0 {
				// multiplied by 8 these wrap around 32 bits
				return rapid.SampledFrom([]uint32{1 << 29, 1<<29 + 1, 1<<29 + uint32(truth), 1<<30 + uint32(truth),
					1<<31 - 1, 1 << 31, 1<<32 - 1}).Draw(t, label)
			}
		}
		return uint32(truth)
	}
	c.NumLikes, c.NumDis = lie("likes", len(c.Likes)), lie("dislikes", len(c.Dislikes))
	c.Tail = rapid.OneOf(rapid.Just(0), kit.Uniform(300), rapid.IntRange(0, 3000)).Draw(t, "tail")
	c.Capacity = uint32(codec.Entry{Likes: c.Likes, Dislikes: c.Dislikes}.Size() + c.Tail)
	switch kit.Uniform(10).Draw(t, "capacity") {
	case 0:
		c.Capacity = uint32(kit.Uniform(40).Draw(t, "cap"))
	case 1, 2:
		c.Capacity = uint32(kit.Uniform(int(c.Capacity)+1).Draw(t, "cap"))
	case 3:
		c.Capacity += uint32(kit.Uniform(100).Draw(t, "cap"))
	case 4:
		c.Capacity = rapid.SampledFrom([]uint32{1 << 20, 1 << 26, 1 << 29, 1<<31 - 1, 1 << 31, 1<<32 - 1}).Draw(t, "cap")
	}
	if kit.Uniform(4).Draw(t, "cutting") == 0 {
		c.Cut = rapid.OneOf(rapid.IntRange(1, 10), rapid.IntRange(1, int(c.Tail)+120)).Draw(t, "cut")
	}
	if kit.Uniform(4).Draw(t, "flipping") == 0 {
		c.Flip = rapid.SliceOfN(rapid.IntRange(0, 40*8), 1, 3).Draw(t, "flip")
	}
	return c
}

func allocated() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

func TestC10(t *testing.T) {
	run := func(x *kit.X, c Hostile) {
		b := c.bytes()
		proto := newProto()
		want, ok := codec.DBEntry(b)
		rest := bytes.NewReader(b)
		reader := split(rest, c.Style)
		var entry recdb.Entry
		before := allocated()
		n, err := proto.ReadEntry(&entry, reader)
		spent := allocated() - before
		if spent > uint64(64*len(b)+1<<18) {
			x.Failf("%d bytes were allocated for an entry of which %d bytes are present", spent, len(b))
		}
		if ok != (err == nil) {
			if ok {
				x.Failf("a complete entry whose lists fit its capacity is rejected: %v", err)
			}
			x.Failf("a malformed entry is accepted: capacity %d, %d bytes present, claims %d likes", entry.Capacity, len(b), c.NumLikes)
		}
		if ok {
			x.Label("well-formed")
			matches(x, &entry, want, "a well-formed entry")
			if n != int(want.Capacity) {
				x.Failf("%d bytes are reported as read, expected %d", n, want.Capacity)
			}
			if consumed := len(b) - rest.Len(); consumed != n && c.Style != "dataerr" {
				x.Failf("consumed %d bytes, expected %d", consumed, n)
			}
			return
		}
		x.Label("malformed")
		if len(b) >= 17 {
			x.NonTrivial()
		}
	}
	// Prefixes and headers
	type StartCase struct {
		Raw   []byte `json:"raw"`
		Style string `json:"style"`
	}
	starts := func(x *kit.X, c StartCase) {
		proto := newProto()
		reader := split(bytes.NewReader(c.Raw), c.Style)
		_, err := proto.ReadPrefix(reader)
		foreign := len(c.Raw) < 5 || string(c.Raw[:5]) != "RECDB"
		if (err != nil) != foreign {
			x.Failf("prefix of %q: %v", c.Raw, err)
		}
		if !foreign {
			var h recdb.Header
			if _, err := proto.ReadHeader(&h, reader); (err != nil) != (len(c.Raw) < codec.DBHead) {
				x.Failf("header of %d bytes: %v", len(c.Raw)-5, err)
			}
			x.NonTrivial()
		}
		_, err = recdb.NewIterator(newFile(x, "mem", c.Raw), proto)
		good := len(c.Raw) >= codec.DBHead && !foreign && c.Raw[14] == 0
		if (err == nil) != good {
			x.Failf("a database made of %q: %v", c.Raw, err)
		}
		// A scan over garbage ends with an error or with the count of the header
		if err == nil {
			it, _ := recdb.NewIterator(newFile(x, "mem", c.Raw), proto)
			for i := 0; it.HasNext(); i++ {
				if _, err := it.Next(); err != nil {
					x.Label("scan failed")
					break
				}
				if i > len(c.Raw) {
					x.Failf("the scan does not end")
				}
			}
		}
	}
	kit.Main(t, "C10",
		"entries whose capacity, list lengths and bytes lie in any combination (32-bit wrap-arounds included), cut and bit-flipped ones, and random bytes, read through readers splitting their transfers; accepted exactly if an independent decoder accepts them, with the allocated memory bounded by the bytes present; \"vast\" reads entries of up to 4 GB from a synthetic sparse file. Prefixes and headers likewise. Non-trivial: a malformed entry with a complete entry header / a right prefix.",
		kit.New("entries", 75000, 1500000, drawHostile, run),
		kit.New("vast", 2, 40, drawVast, vastOr(vastBytes)).Patient(300),
		kit.New("starts", 9000, 90000, func(t *rapid.T) StartCase {
			c := StartCase{Style: rapid.SampledFrom(styles).Draw(t, "style")}
			c.Raw = kit.Bytes(t, "raw", 0, 60)
			if rapid.Bool().Draw(t, "header") {
				h := codec.DBHeader(1, codec.DBTypeLike, byte(kit.Uniform(2).Draw(t, "locked")), rapid.Uint32Range(0, 4).Draw(t, "n"))
				if rapid.IntRange(0, 2).Draw(t, "near") == 2 {
					h = append([]byte(rapid.SampledFrom(codec.NearPrefixes(codec.DBPrefix)).Draw(t, "prefix")), h[5:]...)
				}
				c.Raw = append(h[:kit.Uniform(len(h)+1).Draw(t, "cut")], c.Raw...)
			} else if rapid.Bool().Draw(t, "prefixed") {
				c.Raw = append([]byte("RECDB"), c.Raw...)
			}
			return c
		}, starts),
	)
}

var _ io.Reader
var _ domain.Profile
