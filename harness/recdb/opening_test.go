package recdb

import (
	"bytes"
	"errors"
	"fmt"
	"recengine/internal/domain"
	"recengine/internal/infra/delta"
	"recengine/internal/infra/index"
	"recengine/vpbt/codec"
	"recengine/vpbt/kit"
	"testing"

	"pgregory.net/rapid"
)

// OpeningCase is contents of a delta log or an index that may be anything.
type OpeningCase struct {
	Kind    string      `json:"kind"` // delta, index
	Raw     []byte      `json:"raw,omitempty"`
	Random  bool        `json:"random,omitempty"` // Raw is all there is
	Prefix  string      `json:"prefix,omitempty"` // instead of the right one
	Version byte        `json:"v"`
	Locked  byte        `json:"lock"`
	Extra   uint32      `json:"extra"` // added to the count (wrapping)
	Recs    []codec.Rec `json:"recs"`  // (an index has pairs of user and item)
	Times   int         `json:"times,omitempty"`
	Tail    []byte      `json:"tail,omitempty"`
	Cut     int         `json:"cut"` // bytes cut off the end
	Flip    []int       `json:"flip,omitempty"`
	File    string      `json:"file"`
	Changes []codec.Rec `json:"changes"` // what is done once it's open
}

func (c OpeningCase) bytes() []byte {
	if c.Random {
		return c.Raw
	}
	var body []byte
	count := uint32(0)
	for i := 0; i < max(1, c.Times); i++ {
		for _, r := range c.Recs {
			if c.Kind == "delta" {
				r.Item += uint64(i)
				body = append(body, r.Bytes()...)
			} else {
				body = append(body, codec.Pair{ID: r.User + uint64(i), Pos: r.Item}.Bytes()...)
			}
			count++
		}
	}
	b, prefix := codec.DeltaHeader(c.Version, c.Locked, count+c.Extra), codec.DeltaPrefix
	if c.Kind == "index" {
		b, prefix = codec.IndexHeader(c.Version, c.Locked, count+c.Extra), codec.IndexPrefix
	}
	if c.Prefix != "" {
		b = append([]byte(c.Prefix), b[len(prefix):]...)
	}
	b = append(append(b, body...), c.Tail...)
	for _, f := range c.Flip {
		f %= len(b) * 8
		b[f/8] ^= 1 << (f % 8)
	}
	return b[:len(b)-c.Cut%(len(b)+1)]
}

// closable lets the storages close any file.
type closable struct{ *file }

func (c closable) Close() error { return nil }
func (c closable) Truncate(size int64) error {
	return c.ReadWriteSeeker.(interface{ Truncate(int64) error }).Truncate(size)
}

func TestC31(t *testing.T) {
	run := func(x *kit.X, c OpeningCase) {
		b := c.bytes()
		prefix, head, size, lockAt := codec.DeltaPrefix, codec.DeltaHead, codec.DeltaSize, 9
		if c.Kind == "index" {
			prefix, head, size, lockAt = codec.IndexPrefix, codec.IndexHead, codec.IndexSize, 7
		}
		var deltaStore domain.DeltaStorage
		var indexStore domain.IndexStorage
		f := closable{newFile(x, c.File, b)}
		open := func() (err error) {
			shift(f, 0)
			if c.Kind == "delta" {
				deltaStore, err = delta.NewStorageFactory().Open(f)
			} else {
				indexStore, err = index.NewStorageFactory().Open(f, f)
			}
			return err
		}
		before := allocated()
		err := open()
		if took := allocated() - before; took > 16<<20+4096*uint64(len(b)) {
			x.Failf("opening %d bytes takes %d bytes of memory", len(b), took)
		}
		var corrupted *domain.CorruptedFileError
		isCorrupted := errors.As(err, &corrupted)

		// What the bytes are
		n := min(len(b), len(prefix))
		foreign := string(b[:n]) != prefix[:n]
		cut, locked, damaged := len(b) > 0 && len(b) < head, false, false
		count := 0
		if len(b) >= head {
			locked = b[lockAt] != 0
			count = int(codec.U32(b[head-4:]))
			cut = count > (len(b)-head)/size
		}
		refuse := func(what string, kind bool) {
			x.Label("refused: " + what)
			if err == nil {
				x.Failf("a file that is %s is opened", what)
			}
			if c.Kind == "index" && isCorrupted != kind {
				x.Failf("a file that is %s is refused with: %v", what, err)
			}
			now := f.bytes()
			if len(now) != len(b) {
				x.Failf("the refusal of a file that is %s changed its size from %d to %d", what, len(b), len(now))
			}
			for i := range b {
				if now[i] != b[i] && i != lockAt {
					x.Failf("the refusal of a file that is %s changed byte %d", what, i)
				}
			}
			if len(b) >= head {
				x.NonTrivial()
			}
		}
		switch {
		case foreign && n < len(prefix):
			if err == nil {
				x.Failf("%d foreign bytes are opened", n)
			}
			return
		case foreign:
			refuse("foreign", false)
			return
		case locked:
			refuse("locked", true)
			return
		case cut:
			refuse("cut", true)
			return
		}
		ops := map[[2]uint64]byte{}
		users := map[uint64]bool{}
		places := map[uint64]map[uint64]bool{}
		version := byte(1)
		if len(b) > 0 {
			version = b[len(prefix)]
			for i := 0; i < count; i++ {
				rec := b[head+i*size:]
				if c.Kind == "index" {
					id := codec.U64(rec)
					if places[id] == nil {
						places[id] = map[uint64]bool{}
					}
					places[id][codec.U64(rec[8:])] = true
				} else if r, ok := codec.DeltaRecord(rec); ok {
					ops[[2]uint64{r.User, r.Item}] = r.Op
					users[r.User] = true
				} else {
					damaged = true
				}
			}
		}
		if damaged || version != 1 && err != nil {
			x.Label("unspecified")
			return
		}
		if err != nil {
			x.Failf("%d bytes holding %d records are refused: %v", len(b), count, err)
		}
		check := func(when string) {
			if c.Kind == "index" {
				for id, pos := range places {
					if got, ok := indexStore.Get(id); !ok || !pos[got] {
						x.Failf("%s: %d is at (%d, %v), expected %v", when, id, got, ok, pos)
					}
					for _, other := range []uint64{id + 1, id - 1, id ^ 1<<63, id ^ 1<<32, ^id} {
						if got, ok := indexStore.Get(other); ok && places[other] == nil {
							x.Failf("%s: %d, which is absent, is at %d", when, other, got)
						}
					}
				}
				return
			}
			for at, op := range ops {
				if got, ok := deltaStore.Get(at[0], at[1]); !ok || byte(got) != op {
					x.Failf("%s: %d is (%q, %v), expected %q", when, at, got, ok, op)
				}
				for _, other := range [][2]uint64{{at[0], at[1] + 1}, {at[0] + 1, at[1]}, {at[1], at[0]}, {at[0] ^ 1<<63, at[1]}, {at[0], at[1] ^ 1<<32}} {
					if got, ok := deltaStore.Get(other[0], other[1]); ok && ops[other] == 0 {
						x.Failf("%s: %d, which is absent, is %q", when, other, got)
					}
				}
			}
		}
		check("opened")
		if c.Kind == "delta" && len(b) > 0 && len(b) != head+count*size {
			x.Label("with a tail")
			return
		}
		for _, r := range c.Changes {
			switch {
			case c.Kind == "delta":
				deltaStore.Add(domain.DeltaOp(r.Op), r.User, r.Item)
				ops[[2]uint64{r.User, r.Item}] = r.Op
			case r.Op == '+':
				if err := indexStore.Put(r.User, r.Item); err != nil {
					x.Failf("put failed: %v", err)
				}
				places[r.User] = map[uint64]bool{r.Item: true}
			default:
				if err := indexStore.Remove(r.User); err != nil {
					x.Failf("remove failed: %v", err)
				}
				delete(places, r.User)
			}
		}
		check("changed")
		if c.Kind == "delta" {
			err = deltaStore.Close()
		} else {
			err = indexStore.Close()
		}
		if err != nil {
			x.Failf("closing failed: %v", err)
		}
		if c.Kind == "delta" && version == 1 && len(c.Changes) == 0 && len(b) > 0 && !bytes.Equal(f.bytes(), b) {
			x.Failf("opening and closing changed the file")
		}
		if err := open(); err != nil {
			x.Failf("opening again failed: %v", err)
		}
		check("opened again")
		x.Label(fmt.Sprintf("opened with version %d", min(version, 2)))
		if count > 0 {
			x.NonTrivial()
		}
	}
	draw := func(files []string, times int) func(t *rapid.T) OpeningCase {
		return func(t *rapid.T) OpeningCase {
			c := OpeningCase{Kind: rapid.SampledFrom([]string{"delta", "index"}).Draw(t, "kind"), File: rapid.SampledFrom(files).Draw(t, "file")}
			prefix := codec.DeltaPrefix
			if c.Kind == "index" {
				prefix = codec.IndexPrefix
			}
			if kit.Uniform(10).Draw(t, "random") == 0 {
				c.Random = true
				c.Raw = kit.Bytes(t, "raw", 0, 100)
				if kit.Uniform(2).Draw(t, "prefixed") == 0 {
					c.Raw = append([]byte(prefix), c.Raw...)
				}
				return c
			}
			pool := kit.Pool(t, "pool", 1, 4)
			id := rapid.OneOf(rapid.SampledFrom(pool), kit.U64())
			rec := rapid.Custom(func(t *rapid.T) codec.Rec {
				return codec.Rec{Op: rapid.SampledFrom([]byte{'+', '-'}).Draw(t, "op"), User: id.Draw(t, "user"), Item: id.Draw(t, "item")}
			})
			c.Recs = kit.Seq(t, "recs", rec, 0, 40)
			c.Changes = rapid.SliceOfN(rec, 0, 6).Draw(t, "changes")
			if times > 0 {
				c.Times = rapid.IntRange(1, times).Draw(t, "times")
			}
			c.Version = rapid.SampledFrom([]byte{1, 1, 1, 1, 1, 1, 0, 2, 255}).Draw(t, "version")
			c.Locked = rapid.SampledFrom([]byte{0, 0, 0, 0, 0, 0, 1, 2, 255}).Draw(t, "locked")
			if kit.Uniform(10).Draw(t, "near") == 0 {
				c.Prefix = rapid.SampledFrom(codec.NearPrefixes(prefix)).Draw(t, "prefix")
			}
			c.Extra = rapid.OneOf(rapid.Just(uint32(0)), rapid.Just(uint32(0)), rapid.Just(uint32(0)), rapid.SampledFrom([]uint32{1, 2, 1<<32 - 1, 1<<32 - 2, 1 << 8, 1 << 16, 1 << 20, 1 << 24, 1 << 31, 1<<31 - 1}), rapid.Uint32()).Draw(t, "extra")
			if kit.Uniform(6).Draw(t, "tailed") == 0 {
				c.Tail = kit.Bytes(t, "tail", 1, 60)
			}
			if kit.Uniform(6).Draw(t, "cutting") == 0 {
				c.Cut = rapid.OneOf(rapid.IntRange(1, 40), rapid.IntRange(1, 800)).Draw(t, "cut")
			}
			if kit.Uniform(8).Draw(t, "flipping") == 0 {
				c.Flip = rapid.SliceOfN(rapid.OneOf(kit.Uniform(14*8), rapid.IntRange(0, 100000)), 1, 3).Draw(t, "flip")
			}
			return c
		}
	}
	kit.Main(t, "C31",
		"contents of delta logs and indices with any header and records, more or fewer than declared, cut, bit-flipped, with tails and prefixes resembling the right one, and random bytes, are opened without recovery; the outcome is compared with what the bytes are, the answers with the records; then changed, closed and opened again. Memory allocated by the opening is bounded by the bytes present. Non-trivial: opened with records, or refused though the header is complete.",
		kit.New("contents", 30000, 500000, draw([]string{"mem", "mem", "buf"}, 0), run),
		kit.New("large", 500, 8000, draw([]string{"mem", "buf"}, 300), run),
		kit.New("os-file", 400, 6000, draw([]string{"os"}, 3), run),
	)
}
