package delta

import (
	"bytes"
	"fmt"
	"recengine/internal/infra/delta"
	"recengine/vpbt/codec"
	"recengine/vpbt/kit"
	"testing"

	"pgregory.net/rapid"
)

// Piece is a piece of a damaged log.
type Piece struct {
	K    string `json:"k"` // rec, sum (wrong checksum), op (other operation, right checksum), zero, junk
	Op   byte   `json:"op,omitempty"`
	User uint64 `json:"u,omitempty"`
	Item uint64 `json:"i,omitempty"`
	Junk []byte `json:"j,omitempty"`
	Bit  int    `json:"bit,omitempty"`
}

// Damaged is a damaged log (or no log at all).
type Damaged struct {
	Raw     []byte  `json:"raw,omitempty"` // the whole contents if Random
	Random  bool    `json:"random,omitempty"`
	Prefix  string  `json:"prefix,omitempty"` // instead of the right one
	Version byte    `json:"v"`
	Locked  byte    `json:"lock"`
	Count   uint32  `json:"n"`
	Pieces  []Piece `json:"pieces,omitempty"`
	Repeat  int     `json:"repeat,omitempty"` // the pieces are repeated so many times
	Cut     int     `json:"cut"`              // bytes cut off the end
	Flip    []int   `json:"flip,omitempty"`   // bits flipped anywhere
	File    string  `json:"file"`
}

func (c Damaged) bytes() []byte {
	if c.Random {
		return c.Raw
	}
	b := codec.DeltaHeader(c.Version, c.Locked, c.Count)
	for _, p := range c.Pieces {
		r := codec.Rec{Op: p.Op, User: p.User, Item: p.Item}
		rec := r.Bytes()
		switch p.K {
		case "sum":
			rec[p.Bit/8%18] ^= 1 << (p.Bit % 8)
		case "zero":
			rec = make([]byte, 18)
		case "junk":
			rec = p.Junk
		}
		b = append(b, rec...)
	}
	body := b[codec.DeltaHead:]
	for i := 1; i < c.Repeat; i++ {
		b = append(b, body...)
	}
	if c.Prefix != "" {
		b = append([]byte(c.Prefix), b[len(codec.DeltaPrefix):]...)
	}
	for _, f := range c.Flip {
		f %= len(b) * 8
		b[f/8] ^= 1 << (f % 8)
	}
	return b[:max(0, len(b)-c.Cut)]
}

func drawDamaged(t *rapid.T, files []string) Damaged {
	c := Damaged{File: rapid.SampledFrom(files).Draw(t, "file")}
	if rapid.IntRange(0, 9).Draw(t, "mode") == 9 {
		c.Random = true
		c.Raw = kit.Bytes(t, "raw", 0, 100)
		if rapid.Bool().Draw(t, "prefixed") {
			c.Raw = append([]byte(codec.DeltaPrefix), c.Raw...)
		}
		return c
	}
	c.Version = rapid.SampledFrom([]byte{1, 1, 1, 0, 2, 255}).Draw(t, "version")
	c.Locked = rapid.SampledFrom([]byte{1, 1, 1, 0, 2, 255}).Draw(t, "locked")
	pool := kit.Pool(t, "pool", 1, 4)
	id := rapid.OneOf(rapid.SampledFrom(pool), rapid.Uint64())
	c.Pieces = kit.Seq(t, "pieces", rapid.Custom(func(t *rapid.T) Piece {
		p := Piece{K: rapid.SampledFrom([]string{"rec", "rec", "rec", "rec", "rec", "sum", "op", "zero", "junk"}).Draw(t, "k")}
		p.Op = rapid.SampledFrom([]byte{'+', '-'}).Draw(t, "op")
		if p.K == "op" {
			p.Op = rapid.Byte().Draw(t, "anyop")
		}
		switch p.K {
		case "sum":
			p.Bit = kit.Uniform(144).Draw(t, "bit")
			fallthrough
		case "rec", "op":
			p.User, p.Item = id.Draw(t, "user"), id.Draw(t, "item")
		case "junk":
			n := 18
			if kit.Uniform(4).Draw(t, "misaligned") == 0 {
				n = rapid.IntRange(1, 17).Draw(t, "junk-len")
			}
			p.Junk = rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, "junk")
		}
		return p
	}), 0, 40)
	if kit.Uniform(12).Draw(t, "near") == 0 {
		c.Prefix = rapid.SampledFrom(codec.NearPrefixes(codec.DeltaPrefix)).Draw(t, "prefix")
	}
	// mass of records to cross the buffers of copying
	if kit.Uniform(150).Draw(t, "mass") == 0 {
		one := c.Pieces
		for len(c.Pieces) < 2500 && len(one) > 0 {
			c.Pieces = append(c.Pieces, one...)
		}
	}
	c.Count = rapid.OneOf(rapid.Just(uint32(len(c.Pieces))), rapid.Uint32Range(0, 50), rapid.SampledFrom([]uint32{0, 1 << 31, 1<<32 - 1}), rapid.Uint32()).Draw(t, "count")
	if kit.Uniform(3).Draw(t, "cutting") == 0 {
		c.Cut = rapid.OneOf(rapid.IntRange(1, 17), rapid.IntRange(1, 14+18*len(c.Pieces))).Draw(t, "cut")
	}
	if kit.Uniform(3).Draw(t, "flipping") == 0 {
		c.Flip = rapid.SliceOfN(rapid.IntRange(0, (14+18*len(c.Pieces))*8-1), 1, 4).Draw(t, "flip")
	}
	return c
}

func sameBytes(x *kit.X, got, want []byte, when string) {
	if !bytes.Equal(got, want) {
		i := 0
		for i < len(got) && i < len(want) && got[i] == want[i] {
			i++
		}
		lo := max(0, i-20)
		x.Failf("%s: %d bytes, expected %d; they differ from byte %d: % x, expected % x", when, len(got), len(want), i,
			got[min(lo, len(got)):min(i+24, len(got))], want[min(lo, len(want)):min(i+24, len(want))])
	}
}

func TestC04(t *testing.T) {
	run := func(x *kit.X, c Damaged) {
		in := c.bytes()
		want := codec.DeltaIntact(in)
		canonical := codec.DeltaFile(0, want)
		factory := delta.NewStorageFactory()
		f := newFile(x, c.File)

		// in place
		f.put(in)
		h := f.handle()
		if err := factory.Recover(h); err != nil {
			x.Failf("recovery failed: %v", err)
		}
		sameBytes(x, f.bytes(), canonical, "recovered file")
		if err := factory.Recover(h); err != nil {
			x.Failf("the second recovery failed: %v", err)
		}
		sameBytes(x, f.bytes(), canonical, "file recovered twice")
		h.Close()

		// into another file
		dst := kit.NewDisk(nil)
		if err := delta.NewProtocol().RecoverTo(bytes.NewReader(in), dst.Handle()); err != nil {
			x.Failf("recovery to another file failed: %v", err)
		}
		sameBytes(x, dst.Data, canonical, "file recovered to")

		// what it answers
		s, err := factory.Open(f.handle())
		if err != nil {
			x.Failf("cannot open the recovered file: %v", err)
		}
		m := newModel(want)
		checkCounters(x, s, m, "recovered file")
		for p, op := range m.last {
			if got, ok := s.Get(p.user, p.item); !ok || byte(got) != op {
				x.Failf("recovered file: user %d item %d answers (%q, %v), expected %q", p.user, p.item, got, ok, op)
			}
		}
		if err := s.Close(); err != nil {
			x.Failf("cannot close the recovered file: %v", err)
		}
		sameBytes(x, f.bytes(), canonical, "recovered file opened and closed")

		// opening of anything must not panic
		f.put(in)
		if s, err := factory.Open(f.handle()); err == nil {
			s.Close()
		}
		f.put(in)
		s, err = factory.OpenMaybeRecover(f.handle())
		damaged := len(in) > 0 && (len(in) < codec.DeltaHead || in[9] != 0)
		if damaged && err != nil {
			x.Failf("opening with recovery failed: %v", err)
		}
		if err == nil {
			if damaged {
				checkCounters(x, s, m, "opened with recovery")
				sameBytes(x, f.bytes(), codec.DeltaFile(1, want), "file opened with recovery")
			}
			s.Close()
		}

		records := max(0, len(in)-codec.DeltaHead) / 18
		switch {
		case len(want) > 0 && len(want) < records:
			x.NonTrivial()
			x.Label("some records intact")
		case len(want) > 0:
			x.Label("all records intact")
		case records > 0:
			x.Label("no records intact")
		default:
			x.Label(fmt.Sprintf("no records"))
		}
		if len(want) > 65535 {
			x.Label("more than 65535 records")
		}
		if len(want) > 1820 {
			x.Label("larger than 32 KB")
		}
	}
	kit.Main(t, "C04",
		"damaged logs made of intact records, records with a flipped bit, foreign operations with right checksums, zero-filled and random stretches (also misaligned), with any header, cut and bit-flipped, and random bytes; recovered in place (twice) and to another file, compared byte by byte with what an independent decoder finds intact, opened, closed. Non-trivial: some but not all of the complete records are intact.",
		kit.New("memory", 8000, 150000, func(t *rapid.T) Damaged { return drawDamaged(t, []string{"mem", "mem", "buf"}) }, run),
		kit.Together(300, 6000, func(t *rapid.T) Damaged { return drawDamaged(t, []string{"mem"}) }, run),
		kit.New("os-file", 400, 4000, func(t *rapid.T) Damaged { return drawDamaged(t, []string{"os"}) }, run),
		kit.New("huge", 1, 20, func(t *rapid.T) Damaged {
			c := drawDamaged(t, []string{"mem"})
			if n := len(c.Pieces); n > 0 {
				c.Repeat = 66000/n + 1
			}
			c.Count = rapid.OneOf(rapid.Just(uint32(len(c.Pieces)*c.Repeat)), rapid.Uint32()).Draw(t, "count-huge")
			return c
		}, run).Patient(300),
	)
}
