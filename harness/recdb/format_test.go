package recdb

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"recengine/internal/domain"
	"recengine/internal/infra/delta"
	"recengine/internal/infra/index"
	"recengine/internal/infra/recdb"
	"recengine/vpbt/codec"
	"recengine/vpbt/kit"
	"testing"

	"pgregory.net/rapid"
)

// HeadCase is a header with any field values and records.
type HeadCase struct {
	Version byte        `json:"v"`
	Type    []byte      `json:"type"`
	Locked  byte        `json:"lock"`
	Count   uint32      `json:"n"`
	Recs    []codec.Rec `json:"recs"`
	Sum     byte        `json:"sum"`
	Style   string      `json:"style"`
	Foreign []byte      `json:"foreign"`
}

func drawHead(t *rapid.T) HeadCase {
	c := HeadCase{Version: rapid.Byte().Draw(t, "version"), Locked: rapid.Byte().Draw(t, "locked"), Sum: rapid.Byte().Draw(t, "sum")}
	c.Type = rapid.SliceOfN(rapid.Byte(), 8, 8).Draw(t, "type")
	c.Count = rapid.OneOf(rapid.Uint32(), rapid.SampledFrom([]uint32{0, 1, 255, 256, 1 << 16, 1 << 24, 1<<32 - 1})).Draw(t, "count")
	c.Recs = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) codec.Rec {
		return codec.Rec{Op: rapid.OneOf(rapid.SampledFrom([]byte{'+', '-'}), rapid.Byte()).Draw(t, "op"),
			User: kit.U64().Draw(t, "user"), Item: kit.U64().Draw(t, "item")}
	}), 1, 5).Draw(t, "recs")
	c.Style = rapid.SampledFrom(styles).Draw(t, "style")
	c.Foreign = kit.Bytes(t, "foreign", 0, 12)
	return c
}

// reading is a step of reading a stream.
type reading struct {
	what string
	f    func(r io.Reader) error
}

// readAll reads the bytes step by step, and then every cut of them.
func readAll(x *kit.X, b []byte, style string, steps []reading) {
	r := split(bytes.NewReader(b), style)
	for _, s := range steps {
		if err := s.f(r); err != nil {
			x.Failf("%s (%s) failed: %v", s.what, style, err)
		}
	}
	if n, _ := r.Read(make([]byte, 1)); n != 0 {
		x.Failf("reading %s left something", steps[len(steps)-1].what)
	}
	for cut := 0; cut < len(b); cut++ {
		r := split(bytes.NewReader(b[:cut]), style)
		failed := false
		for _, s := range steps {
			if err := s.f(r); err != nil {
				failed = true
				break
			}
		}
		if !failed {
			x.Failf("a stream cut at byte %d of %d is read without an error (%s)", cut, len(b), style)
		}
	}
}

func expect(x *kit.X, got, want []byte, err error, what string) {
	if err != nil {
		x.Failf("writing %s failed: %v", what, err)
	}
	if !bytes.Equal(got, want) {
		x.Failf("%s is written as % x, expected % x", what, got, want)
	}
}

func deltaFormat(x *kit.X, c HeadCase) {
	p := delta.NewProtocol()
	var out bytes.Buffer
	err := p.WritePrefix(&out)
	expect(x, out.Bytes(), []byte(codec.DeltaPrefix), err, "delta prefix")
	h := delta.Header{Version: c.Version, Locked: c.Locked, NumEntries: c.Count}
	err = p.WriteHeader(&h, &out)
	want := codec.DeltaHeader(c.Version, c.Locked, c.Count)
	expect(x, out.Bytes(), want, err, "delta header")
	for _, r := range c.Recs {
		e := delta.Entry{Op: domain.DeltaOp(r.Op), UserID: r.User, ItemID: r.Item, Checksum: c.Sum}
		if got := p.CalcEntryChecksum(&e); got != r.Sum() {
			x.Failf("checksum of %+v is %d, expected %d", r, got, r.Sum())
		}
		if p.ValidateEntryChecksum(&e) != (c.Sum == r.Sum()) {
			x.Failf("checksum %d of %+v is judged wrong, expected %d", c.Sum, r, r.Sum())
		}
		err = p.WriteEntry(&e, &out)
		want = append(want, r.Bytes()...)
		expect(x, out.Bytes(), want, err, "delta record")
	}
	steps := []reading{
		{"delta prefix", p.ReadPrefix},
		{"delta header", func(r io.Reader) error {
			got := delta.Header{Version: 1, Locked: 2, NumEntries: 3}
			err := p.ReadHeader(&got, r)
			if err == nil && got != h {
				x.Failf("delta header %+v is read as %+v", h, got)
			}
			return err
		}},
	}
	for _, rec := range c.Recs {
		steps = append(steps, reading{"delta record", func(r io.Reader) error {
			var got delta.Entry
			err := p.ReadEntry(&got, r)
			if err == nil && (byte(got.Op) != rec.Op || got.UserID != rec.User || got.ItemID != rec.Item || got.Checksum != rec.Sum()) {
				x.Failf("delta record %+v is read as %+v", rec, got)
			}
			return err
		}})
	}
	readAll(x, want, c.Style, steps)
	foreign(x, c, codec.DeltaPrefix, p.ReadPrefix)
}

func indexFormat(x *kit.X, c HeadCase) {
	p := index.NewProtocol()
	var out bytes.Buffer
	_, err := p.WritePrefix(&out)
	expect(x, out.Bytes(), []byte(codec.IndexPrefix), err, "index prefix")
	h := index.Header{Version: c.Version, Locked: c.Locked, NumEntries: c.Count}
	_, err = p.WriteHeader(&h, &out)
	want := codec.IndexHeader(c.Version, c.Locked, c.Count)
	expect(x, out.Bytes(), want, err, "index header")
	for _, r := range c.Recs {
		_, err = p.WriteEntry(&index.Entry{ID: r.User, Index: r.Item}, &out)
		want = append(want, codec.Pair{ID: r.User, Pos: r.Item}.Bytes()...)
		expect(x, out.Bytes(), want, err, "index record")
	}
	prefix := func(r io.Reader) error { _, err := p.ReadPrefix(r); return err }
	steps := []reading{
		{"index prefix", prefix},
		{"index header", func(r io.Reader) error {
			got := index.Header{Version: 1, Locked: 2, NumEntries: 3}
			_, err := p.ReadHeader(&got, r)
			if err == nil && got != h {
				x.Failf("index header %+v is read as %+v", h, got)
			}
			return err
		}},
	}
	for _, rec := range c.Recs {
		steps = append(steps, reading{"index record", func(r io.Reader) error {
			var got index.Entry
			_, err := p.ReadEntry(&got, r)
			if err == nil && (got.ID != rec.User || got.Index != rec.Item) {
				x.Failf("index record %+v is read as %+v", rec, got)
			}
			return err
		}})
	}
	readAll(x, want, c.Style, steps)
	foreign(x, c, codec.IndexPrefix, prefix)
}

func recdbFormat(x *kit.X, c HeadCase) {
	p := newProto()
	var out bytes.Buffer
	_, err := p.WritePrefix(&out)
	expect(x, out.Bytes(), []byte(codec.DBPrefix), err, "database prefix")
	h := recdb.Header{Version: c.Version, EntryType: [8]byte(c.Type), Locked: c.Locked, NumEntries: c.Count}
	_, err = p.WriteHeader(&h, &out)
	want := codec.DBHeader(c.Version, string(c.Type), c.Locked, c.Count)
	expect(x, out.Bytes(), want, err, "database header")
	var entries []codec.Entry
	for _, r := range c.Recs[:min(2, len(c.Recs))] {
		e := codec.Entry{Deleted: r.Op, User: r.User, Likes: []uint64{r.Item, r.User}, Dislikes: []uint64{r.Item + 1}}
		e.Capacity = uint32(e.Size() + int(c.Sum)%40)
		entries = append(entries, e)
		_, err = p.WriteEntry(&recdb.Entry{Capacity: e.Capacity, Deleted: e.Deleted,
			Data: &domain.Profile{UserID: e.User, Likes: e.Likes, Dislikes: e.Dislikes}}, &out)
		want = append(want, e.Bytes()...)
		expect(x, out.Bytes(), want, err, "database entry")
	}
	prefix := func(r io.Reader) error { _, err := p.ReadPrefix(r); return err }
	steps := []reading{
		{"database prefix", prefix},
		{"database header", func(r io.Reader) error {
			got := recdb.Header{Version: 1, NumEntries: 3}
			_, err := p.ReadHeader(&got, r)
			if err == nil && got != h {
				x.Failf("database header %+v is read as %+v", h, got)
			}
			return err
		}},
	}
	for _, e := range entries {
		steps = append(steps, reading{"database entry", func(r io.Reader) error {
			var got recdb.Entry
			_, err := p.ReadEntry(&got, r)
			if err == nil {
				matches(x, &got, e, "database entry")
			}
			return err
		}})
	}
	readAll(x, want, c.Style, steps)
	foreign(x, c, codec.DBPrefix, prefix)
	// A new database
	out.Reset()
	err = p.Create(&out)
	expect(x, out.Bytes(), codec.DBHeader(1, codec.DBTypeLike, 0, 0), err, "empty database")
	it, err := recdb.NewIterator(newFile(x, "mem", out.Bytes()), p)
	if err != nil || it.HasNext() {
		x.Failf("a new database isn't a valid empty one: %v", err)
	}
}

// FailCase is a transfer of a header and records over a failing stream.
type FailCase struct {
	HeadCase
	At      int  `json:"at"`      // the number of the transfer to fail
	Bytes   int  `json:"bytes"`   // what it transfers before failing
	Lasting bool `json:"lasting"` // whether all the later ones fail as well
}

// flaky fails one of its transfers, and perhaps all after it.
type flaky struct {
	*bytes.Buffer
	c      FailCase
	n      int
	failed bool
}

func (f *flaky) fails(size int) (int, bool) {
	n := f.n
	f.n++
	if n == f.c.At || n > f.c.At && f.c.Lasting {
		f.failed = true
		return min(f.c.Bytes, size), true
	}
	return 0, false
}

func (f *flaky) Write(b []byte) (int, error) {
	if n, fail := f.fails(len(b)); fail {
		n, _ = f.Buffer.Write(b[:n])
		return n, kit.ErrInjected
	}
	return f.Buffer.Write(b)
}

func (f *flaky) Read(b []byte) (int, error) {
	if n, fail := f.fails(len(b)); fail {
		n, _ = f.Buffer.Read(b[:n])
		return n, kit.ErrInjected
	}
	return f.Buffer.Read(b)
}

// failing checks that a failing transfer is never taken for a success.
func failing(x *kit.X, c FailCase) {
	dp, ip, rp := delta.NewProtocol(), index.NewProtocol(), newProto()
	rec := c.Recs[0]
	e := codec.Entry{Capacity: 128, Deleted: rec.Op, User: rec.User, Likes: []uint64{rec.Item}, Dislikes: []uint64{rec.Item + 1}}
	dh := delta.Header{Version: c.Version, Locked: c.Locked, NumEntries: c.Count}
	ih := index.Header{Version: c.Version, Locked: c.Locked, NumEntries: c.Count}
	rh := recdb.Header{Version: c.Version, EntryType: [8]byte(c.Type), Locked: c.Locked, NumEntries: c.Count}
	de := delta.Entry{Op: domain.DeltaOp(rec.Op), UserID: rec.User, ItemID: rec.Item, Checksum: rec.Sum()}
	ie := index.Entry{ID: rec.User, Index: rec.Item}
	re := recdb.Entry{Capacity: e.Capacity, Deleted: e.Deleted, Data: &domain.Profile{UserID: e.User, Likes: e.Likes, Dislikes: e.Dislikes}}
	cutHeader := func(h []byte, prefix string) []byte { return h[len(prefix):] }
	for _, s := range []struct {
		what  string
		bytes []byte
		write func(w io.Writer) error
		read  func(r io.Reader) (bool, error) // whether the contents are as expected
	}{
		{"delta prefix", []byte(codec.DeltaPrefix), dp.WritePrefix, func(r io.Reader) (bool, error) { return true, dp.ReadPrefix(r) }},
		{"delta header", cutHeader(codec.DeltaHeader(c.Version, c.Locked, c.Count), codec.DeltaPrefix),
			func(w io.Writer) error { return dp.WriteHeader(&dh, w) },
			func(r io.Reader) (bool, error) { var h delta.Header; err := dp.ReadHeader(&h, r); return h == dh, err }},
		{"delta record", rec.Bytes(),
			func(w io.Writer) error { return dp.WriteEntry(&de, w) },
			func(r io.Reader) (bool, error) { var e delta.Entry; err := dp.ReadEntry(&e, r); return e == de, err }},
		{"index prefix", []byte(codec.IndexPrefix),
			func(w io.Writer) error { _, err := ip.WritePrefix(w); return err },
			func(r io.Reader) (bool, error) { _, err := ip.ReadPrefix(r); return true, err }},
		{"index header", cutHeader(codec.IndexHeader(c.Version, c.Locked, c.Count), codec.IndexPrefix),
			func(w io.Writer) error { _, err := ip.WriteHeader(&ih, w); return err },
			func(r io.Reader) (bool, error) {
				var h index.Header
				_, err := ip.ReadHeader(&h, r)
				return h == ih, err
			}},
		{"index record", codec.Pair{ID: rec.User, Pos: rec.Item}.Bytes(),
			func(w io.Writer) error { _, err := ip.WriteEntry(&ie, w); return err },
			func(r io.Reader) (bool, error) { var e index.Entry; _, err := ip.ReadEntry(&e, r); return e == ie, err }},
		{"database prefix", []byte(codec.DBPrefix),
			func(w io.Writer) error { _, err := rp.WritePrefix(w); return err },
			func(r io.Reader) (bool, error) { _, err := rp.ReadPrefix(r); return true, err }},
		{"database header", cutHeader(codec.DBHeader(c.Version, string(c.Type), c.Locked, c.Count), codec.DBPrefix),
			func(w io.Writer) error { _, err := rp.WriteHeader(&rh, w); return err },
			func(r io.Reader) (bool, error) {
				var h recdb.Header
				_, err := rp.ReadHeader(&h, r)
				return h == rh, err
			}},
		{"database entry", e.Bytes(),
			func(w io.Writer) error { _, err := rp.WriteEntry(&re, w); return err },
			func(r io.Reader) (bool, error) {
				var got recdb.Entry
				_, err := rp.ReadEntry(&got, r)
				if err == nil {
					matches(x, &got, e, "database entry read over a failing stream")
				}
				return true, err
			}},
		{"new database", codec.DBHeader(1, codec.DBTypeLike, 0, 0), rp.Create, nil},
	} {
		out := &flaky{Buffer: &bytes.Buffer{}, c: c}
		err := s.write(out)
		if err == nil && !bytes.Equal(out.Bytes(), s.bytes) {
			x.Failf("%s: a success over a failing stream, which has got % x, not % x", s.what, out.Bytes(), s.bytes)
		}
		if err != nil && !out.failed {
			x.Failf("writing %s failed: %v", s.what, err)
		}
		hit := out.failed
		if s.read != nil {
			in := &flaky{Buffer: bytes.NewBuffer(append([]byte{}, s.bytes...)), c: c}
			same, err := s.read(split(in, c.Style))
			if err == nil && !same {
				x.Failf("%s: a success over a failing stream, but another value is read", s.what)
			}
			if err == nil && in.Len() > 0 {
				x.Failf("%s: a success over a failing stream, but %d of %d bytes are left", s.what, in.Len(), len(s.bytes))
			}
			if err != nil && !in.failed {
				x.Failf("reading %s failed: %v", s.what, err)
			}
			hit = hit || in.failed
		}
		if hit {
			x.Label("failing: " + s.what)
			x.NonTrivial()
		}
	}
}

// foreign checks that other prefixes are rejected.
func foreign(x *kit.X, c HeadCase, prefix string, read func(io.Reader) error) {
	try := func(b []byte) {
		same := len(b) >= len(prefix) && string(b[:len(prefix)]) == prefix
		if err := read(split(bytes.NewReader(b), c.Style)); (err == nil) != same {
			x.Failf("prefix % x: %v", b, err)
		}
	}
	try(c.Foreign)
	for i := 0; i < len(prefix)*8; i++ {
		b := []byte(prefix + "tail")
		b[i/8] ^= 1 << (i % 8)
		try(b)
	}
	for _, near := range codec.NearPrefixes(prefix) {
		try([]byte(near + "xxxx"))
	}
}

func TestC24(t *testing.T) {
	run := func(x *kit.X, c HeadCase) {
		deltaFormat(x, c)
		indexFormat(x, c)
		recdbFormat(x, c)
		x.NonTrivial()
	}
	kit.Main(t, "C24",
		"headers with any field values and records with any contents of the three formats, written and compared with an independent encoder, read back through readers splitting their transfers, cut at every byte, with every bit of the prefix flipped; the same over streams failing once or for good. Non-trivial: every case of the former (header and records of the three formats), a failure that happened.",
		kit.New("formats", 15000, 240000, drawHead, run),
		kit.Together(600, 12000, drawHead, run),
		kit.New("failing", 15000, 240000, func(t *rapid.T) FailCase {
			return FailCase{drawHead(t), rapid.OneOf(rapid.IntRange(0, 6), rapid.IntRange(0, 40)).Draw(t, "at"), rapid.OneOf(rapid.Just(0), rapid.IntRange(0, 9)).Draw(t, "bytes"), rapid.Bool().Draw(t, "lasting")}
		}, failing),
	)
}

// LockCase is about the lock mark of a file.
type LockCase struct {
	Kind   string     `json:"kind"` // delta, index, recdb
	Head   HeadCase   `json:"head"`
	Ops    []LockOp   `json:"ops"`
	File   string     `json:"file"`
	Tail   []byte     `json:"tail"`
	Create bool       `json:"create"`
	Life   []LockLife `json:"life"`
}

// LockOp sets or queries the lock mark with the file standing somewhere.
type LockOp struct {
	K  string `json:"k"` // lock, unlock, query
	At int    `json:"at"`
	// Fault is the number of the file operation to fail, if not 0
	Fault int `json:"fault,omitempty"`
}

// LockLife is a step of the life of an opened file.
type LockLife struct {
	K string    `json:"k"` // change, flush, reopen
	R codec.Rec `json:"r"`
}

type locker interface {
	WriteLocked(locked bool, file io.WriteSeeker) error
	IsLocked(file io.ReadSeeker) (bool, error)
}

func TestC06(t *testing.T) {
	headers := func(c LockCase) ([]byte, int, locker) {
		switch c.Kind {
		case "delta":
			return codec.DeltaHeader(c.Head.Version, c.Head.Locked, c.Head.Count), 9, delta.NewProtocol()
		case "index":
			return codec.IndexHeader(c.Head.Version, c.Head.Locked, c.Head.Count), 7, index.NewProtocol()
		}
		return codec.DBHeader(c.Head.Version, string(c.Head.Type), c.Head.Locked, c.Head.Count), 14, newProto()
	}
	marks := func(x *kit.X, c LockCase) {
		want, at, p := headers(c)
		want = append(want, c.Tail...)
		f := newFile(x, c.File, want)
		for i, op := range c.Ops {
			pos := int64(op.At % (len(want) + 1))
			shift(f, pos)
			when := fmt.Sprintf("step %d: %s at position %d", i, op.K, pos)
			mem, _ := f.ReadWriteSeeker.(*kit.MemFile)
			if mem != nil && op.Fault > 0 {
				// An operation of the file fails
				hits := mem.Hits
				mem.Arm(&kit.Fault{At: op.Fault - 1})
				var err error
				locked := false
				if op.K == "query" {
					locked, err = p.IsLocked(f)
				} else {
					err = p.WriteLocked(op.K == "lock", f)
				}
				mem.Arm(nil)
				if mem.Hits > hits {
					x.Label("failing " + string(mem.HitOp))
				} else if err != nil {
					x.Failf("%s failed: %v", when, err)
				}
				now := f.bytes()
				if len(now) != len(want) || !bytes.Equal(now[:at], want[:at]) || !bytes.Equal(now[at+1:], want[at+1:]) {
					x.Failf("%s, with a failing file operation, changed other bytes", when)
				}
				if err == nil && (op.K == "query" && locked != (now[at] != 0) || op.K != "query" && (op.K == "lock") != (now[at] != 0)) {
					x.Failf("%s, with a failing file operation: success, but the mark is %d", when, now[at])
				}
				if got := where(f); err == nil && got != pos {
					x.Failf("%s, with a failing file operation, moved to %d", when, got)
				}
				want[at] = now[at]
				continue
			}
			switch op.K {
			case "lock", "unlock":
				if err := p.WriteLocked(op.K == "lock", f); err != nil {
					x.Failf("%s failed: %v", when, err)
				}
				want[at] = 0
				if op.K == "lock" {
					want[at] = f.bytes()[at]
					if want[at] == 0 {
						x.Failf("%s: the file isn't locked", when)
					}
				}
			default:
				locked, err := p.IsLocked(f)
				if err != nil || locked != (want[at] != 0) {
					x.Failf("%s: (%v, %v), the mark is %d", when, locked, err, want[at])
				}
			}
			if got := where(f); got != pos {
				x.Failf("%s moved to %d", when, got)
			}
			if !bytes.Equal(f.bytes(), want) {
				x.Failf("%s changed other bytes", when)
			}
		}
		x.NonTrivial()
	}
	refused := func(x *kit.X, c LockCase) {
		if c.Head.Locked == 0 {
			c.Head.Locked = 1
		}
		c.Head.Version = 1
		c.Head.Type = []byte(codec.DBTypeLike)
		want, _, _ := headers(c)
		want = append(want, c.Tail...)
		d := kit.NewDisk(want)
		h := d.Handle()
		var err error
		switch c.Kind {
		case "delta":
			_, err = delta.NewStorageFactory().Open(h)
		case "index":
			_, err = index.NewStorageFactory().Open(h, h)
		default:
			_, err = recdb.NewIterator(h, newProto())
		}
		if err == nil {
			x.Failf("a locked %s file is opened", c.Kind)
		}
		var corrupted *domain.CorruptedFileError
		if c.Kind != "delta" && !errors.As(err, &corrupted) {
			x.Failf("a locked %s file is refused with another error: %v", c.Kind, err)
		}
		if !bytes.Equal(d.Data, want) {
			x.Failf("refusing a locked %s file changed it", c.Kind)
		}
		x.NonTrivial()
	}
	life := func(x *kit.X, c LockCase) {
		lockAt := 9
		if c.Kind == "index" {
			lockAt = 7
		}
		d := kit.NewDisk(nil)
		var deltaStore domain.DeltaStorage
		var indexStore domain.IndexStorage
		open := func() int {
			h := d.Handle()
			var err error
			if c.Kind == "delta" {
				deltaStore, err = delta.NewStorageFactory().Open(h)
			} else {
				indexStore, err = index.NewStorageFactory().Open(h, h)
			}
			if err != nil {
				x.Failf("opening failed: %v", err)
			}
			if d.Data[lockAt] == 0 {
				x.Failf("an opened %s file isn't locked", c.Kind)
			}
			return len(d.Log)
		}
		// Whatever is written while it's open must keep the mark
		locked := func(from, to int, when string) {
			for n := from; n <= to; n++ {
				if img := d.Image(n, 0); len(img) <= lockAt || img[lockAt] == 0 {
					x.Failf("%s: an open %s file lost its lock mark at mutation %d of %d..%d", when, c.Kind, n, from, to)
				}
			}
		}
		closeIt := func(opened int, when string) {
			before := len(d.Log)
			locked(opened, before, when)
			var err error
			if c.Kind == "delta" {
				err = deltaStore.Close()
			} else {
				err = indexStore.Close()
			}
			if err != nil {
				x.Failf("%s: close failed: %v", when, err)
			}
			if d.Data[lockAt] != 0 {
				x.Failf("%s: a closed %s file is locked", when, c.Kind)
			}
			// From the moment it's unlocked it must be complete
			for n := before; n < len(d.Log); n++ {
				img := d.Image(n, 0)
				if img[lockAt] == 0 && !bytes.Equal(img, d.Data) {
					x.Failf("%s: the %s file is unlocked before it is complete (mutation %d of %d)", when, c.Kind, n-before, len(d.Log)-before)
				}
			}
		}
		opened := open()
		changes := 0
		for i, op := range c.Life {
			when := fmt.Sprintf("step %d (%s)", i, op.K)
			switch op.K {
			case "change":
				if c.Kind == "delta" {
					deltaStore.Add(domain.DeltaOpAdd, op.R.User, op.R.Item)
				} else if op.R.Op%3 == 0 {
					indexStore.Remove(op.R.User)
				} else {
					indexStore.Put(op.R.User, op.R.Item)
				}
				changes++
			case "flush":
				if c.Kind == "delta" {
					if err := deltaStore.Flush(); err != nil {
						x.Failf("%s failed: %v", when, err)
					}
				}
			case "reopen":
				closeIt(opened, when)
				opened = open()
			}
		}
		closeIt(opened, "at the end")
		if changes > 0 {
			x.NonTrivial()
		}
	}
	draw := func(t *rapid.T) LockCase {
		c := LockCase{Kind: rapid.SampledFrom([]string{"delta", "index", "recdb"}).Draw(t, "kind"), Head: drawHead(t)}
		c.File = rapid.SampledFrom([]string{"mem", "mem", "mem", "buf", "os"}).Draw(t, "file")
		c.Tail = kit.Bytes(t, "tail", 0, 60)
		c.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) LockOp {
			return LockOp{rapid.SampledFrom([]string{"lock", "unlock", "query"}).Draw(t, "k"), rapid.IntRange(0, 100).Draw(t, "at"),
				rapid.SampledFrom([]int{0, 0, 0, 0, 0, 1, 2, 3, 4}).Draw(t, "fault")}
		}), 1, 8).Draw(t, "ops")
		return c
	}
	kit.Main(t, "C06",
		"marks: the mark of files of the three kinds with any header and contents is set and queried from any position; refused: locked files with any contents are opened; life: random histories of delta logs and indices with every mutation of the file inspected. Non-trivial: every case of the former two, a life with changes.",
		kit.New("marks", 15000, 150000, draw, marks),
		kit.New("refused", 15000, 150000, draw, refused),
		kit.New("life", 9000, 120000, func(t *rapid.T) LockCase {
			c := LockCase{Kind: rapid.SampledFrom([]string{"delta", "index"}).Draw(t, "kind")}
			ids := kit.Pool(t, "ids", 1, 4)
			c.Life = kit.Seq(t, "life", rapid.Custom(func(t *rapid.T) LockLife {
				l := LockLife{K: rapid.SampledFrom([]string{"change", "change", "change", "flush", "reopen"}).Draw(t, "k")}
				l.R = codec.Rec{Op: rapid.Byte().Draw(t, "op"), User: rapid.SampledFrom(ids).Draw(t, "user"), Item: rapid.SampledFrom(ids).Draw(t, "item")}
				return l
			}), 1, 30)
			return c
		}, life),
	)
}
