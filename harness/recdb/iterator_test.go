package recdb

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"iter"
	"recengine/internal/domain"
	"recengine/internal/infra/recdb"
	"recengine/vpbt/codec"
	"recengine/vpbt/kit"
	"testing"

	"pgregory.net/rapid"
)

// ScanOp is a step of a scan.
type ScanOp struct {
	// next, all (the rest), rewind, set, grow (another capacity), overflow, foreign,
	// and next, set and rewind meeting a failing file operation: fnext, fset, frewind
	K    string `json:"k"`
	With Lists  `json:"w"`
	N    int    `json:"n,omitempty"`
}

// ScanCase is a scan of a database.
type ScanCase struct {
	Entries []Lists  `json:"entries"`
	Count   int      `json:"count"` // the header tells so many entries less than there are
	Ops     []ScanOp `json:"ops"`
	File    string   `json:"file"`
	// Start is the position of the file before the scan.
	Start int `json:"start,omitempty"`
	// Repeat tells how many times the entries are repeated in the file.
	Repeat int `json:"repeat,omitempty"`
	// Other is a scan of another database made in turn with this one.
	Other *ScanCase `json:"other,omitempty"`
}

// DamagedCase is a scan of a database with a malformed entry.
type DamagedCase struct {
	Entries []Lists `json:"entries"`
	At      int     `json:"at"`
	How     string  `json:"how"` // which way it is malformed: likes, dislikes, capacity, cut
	N       int     `json:"n"`   // by how much
	Again   int     `json:"again"`
	File    string  `json:"file"`
}

func scanDamaged(x *kit.X, c DamagedCase) {
	at := c.At % len(c.Entries)
	b := codec.DBHeader(1, codec.DBTypeLike, 0, uint32(len(c.Entries)))
	offset := len(b)
	var entries []codec.Entry
	for i, l := range c.Entries {
		e := l.entry()
		entries = append(entries, e)
		raw := e.Bytes()
		if i < at {
			offset += len(raw)
		}
		if i == at {
			switch c.How {
			case "likes":
				binary.BigEndian.PutUint32(raw[13:], e.Capacity/8+uint32(c.N))
			case "dislikes":
				binary.BigEndian.PutUint32(raw[17+8*len(e.Likes):], e.Capacity/8+uint32(c.N))
			case "capacity":
				e.Capacity = uint32(c.N % e.Size())
				binary.BigEndian.PutUint32(raw, e.Capacity)
				entries[at] = e
			case "cut":
				b = append(b, raw[:c.N%len(raw)]...)
			}
		}
		if i != at || c.How != "cut" {
			b = append(b, raw...)
		} else {
			break
		}
	}
	f := newFile(x, c.File, b)
	want := append([]byte{}, b...)
	intact := func(when string) {
		if !bytes.Equal(f.bytes(), want) {
			x.Failf("%s: wrong file contents", when)
		}
	}
	it, err := recdb.NewIterator(f, newProto())
	if err != nil {
		x.Failf("cannot iterate: %v", err)
	}
	for i := 0; i <= c.Again%3; i++ {
		for j := 0; j < at; j++ {
			e, err := it.Next()
			if err != nil {
				x.Failf("entry %d cannot be read: %v", j, err)
			}
			matches(x, e, entries[j], fmt.Sprintf("entry %d", j))
		}
		malformed := func(when string) {
			e, err := it.Next()
			if err != nil {
				return
			}
			// It is fine to skip the malformed entry, but not to make one up
			for _, other := range entries[at+1:] {
				if c.How != "cut" && equals(e, other) {
					return
				}
			}
			x.Failf("%s: an entry is read from the malformed one %d (%s)", when, at, c.How)
		}
		malformed("the first time")
		for j := 0; j < c.Again; j++ {
			malformed("after the failure")
		}
		intact("after reading a malformed entry")
		if at > 0 {
			e := entries[at-1]
			for _, capacity := range []uint32{entries[at].Capacity, uint32(min(21, e.Size()))} {
				err := it.SetPrevious(&recdb.Entry{Capacity: capacity, Data: domain.NewProfile(1)})
				if capacity != e.Capacity {
					if err == nil {
						x.Failf("the entry before the malformed one is rewritten with another capacity %d", capacity)
					}
					intact("after a refused rewriting")
				} else if err == nil {
					blank := codec.Entry{Capacity: capacity, User: 1}
					copy(want[offset-int(capacity):], blank.Bytes())
					entries[at-1] = blank
					intact("after rewriting the entry before the malformed one")
				}
			}
			malformed("after rewriting")
			x.NonTrivial()
		}
		if err := it.Rewind(); err != nil {
			x.Failf("rewinding failed: %v", err)
		}
	}
	x.Label("malformed " + c.How)
}

func drawScan(t *rapid.T, entries, more int, files []string) ScanCase {
	c := drawScanOne(t, entries, more, files)
	if kit.Uniform(6).Draw(t, "two") == 0 {
		o := drawScanOne(t, entries, more, files)
		c.Other = &o
	}
	return c
}

func drawScanOne(t *rapid.T, entries, more int, files []string) ScanCase {
	c := ScanCase{File: rapid.SampledFrom(files).Draw(t, "file")}
	c.Entries = kit.Seq(t, "entries", rapid.Custom(func(t *rapid.T) Lists { return drawLists(t, more) }), 0, entries)
	if kit.Uniform(5).Draw(t, "fewer") == 0 {
		c.Count = rapid.IntRange(0, len(c.Entries)).Draw(t, "count")
	}
	if kit.Uniform(3).Draw(t, "moved") == 0 {
		c.Start = kit.Uniform(10000).Draw(t, "start")
	}
	c.Ops = kit.Seq(t, "ops", rapid.Custom(func(t *rapid.T) ScanOp {
		op := ScanOp{K: rapid.SampledFrom([]string{"next", "next", "next", "next", "next", "set", "set", "set", "set", "rewind", "all",
			"fnext", "fset", "frewind", "grow", "overflow", "foreign"}).Draw(t, "k")}
		switch op.K {
		case "set":
			op.With = drawLists(t, more)
			fallthrough
		case "grow", "overflow", "fnext", "fset", "frewind":
			op.N = rapid.OneOf(rapid.IntRange(1, 20), rapid.IntRange(1, 2000)).Draw(t, "n")
		}
		return op
	}), 1, 40)
	return c
}

func TestC11(t *testing.T) {
	one := func(x *kit.X, c ScanCase, proto recdb.Protocol, pause func()) {
		var entries []codec.Entry
		for i := 0; i < max(1, c.Repeat); i++ {
			for _, l := range c.Entries {
				entries = append(entries, l.entry())
			}
		}
		count := len(entries) - c.Count
		b := codec.DBHeader(1, codec.DBTypeLike, 0, uint32(count))
		for _, e := range entries {
			b = append(b, e.Bytes()...)
		}
		f := newFile(x, c.File, b)
		want := append([]byte{}, b...)
		if _, err := f.Seek(int64(c.Start%(len(b)+1)), io.SeekStart); err != nil {
			kit.Fatal("seek: %v", err)
		}
		it, err := recdb.NewIterator(f, proto)
		if err != nil {
			x.Failf("cannot iterate: %v", err)
		}
		next, latest := 0, 0
		// After a failure an operation may fail too (e.g. because of buffering),
		// but it is not allowed to succeed wrongly.
		shaky := false
		buffered := false // the failure is still to be reported
		offsets := []int{codec.DBHead}
		for _, e := range entries {
			offsets = append(offsets, offsets[len(offsets)-1]+int(e.Capacity))
		}
		advance := func(when string) {
			if it.HasNext() != (next < count) {
				x.Failf("%s: HasNext is %v after %d entries of %d", when, it.HasNext(), next, count)
			}
			e, err := it.Next()
			if err != nil && shaky {
				x.Label("rewinding after a failure")
				if err := it.Rewind(); err != nil {
					x.Failf("%s: rewinding failed: %v", when, err)
				}
				next, shaky, buffered = 0, false, false
				e, err = it.Next()
			}
			if next == count {
				if err == nil {
					x.Failf("%s: an entry after the last one", when)
				}
				return
			}
			if err != nil {
				x.Failf("%s: entry %d cannot be read: %v", when, next, err)
			}
			matches(x, e, entries[next], fmt.Sprintf("%s: entry %d", when, next))
			next++
			if shaky {
				x.Label("going on after a failure")
			}
			shaky = buffered
		}
		sets, afterSet := 0, false
		for i, op := range c.Ops {
			when := fmt.Sprintf("step %d (%s)", i, op.K)
			if next > 0 && op.K != "next" && op.K != "all" && op.K != "rewind" {
				when += fmt.Sprintf(" on entry %d of %d", next-1, count)
			}
			pause()
			mem, _ := f.ReadWriteSeeker.(*kit.MemFile)
			if op.K[0] == 'f' && op.K != "foreign" && mem == nil {
				op.K = op.K[1:] // no faults but in memory
			}
			switch op.K {
			case "fnext", "fset", "frewind":
				mem.Arm(&kit.Fault{At: op.N % 4, Bytes: op.N, Kinds: []string{"", "r", "w", "s"}[op.N/4%4]})
				hits := mem.Hits
				var err error
				switch op.K {
				case "fnext":
					if next == count {
						mem.Arm(nil)
						break
					}
					// (a failure may show up at the following reading because of buffering)
					var e *recdb.Entry
					if e, err = it.Next(); err == nil {
						matches(x, e, entries[next], fmt.Sprintf("%s: entry %d, a file operation failing", when, next))
						next++
						shaky = buffered
					} else if shaky && mem.Hits == hits {
						err = nil
						break
					}
					shaky = shaky || mem.Hits > hits
					buffered = buffered || mem.Hits > hits && err == nil
					if err != nil && next > 0 && op.N%2 == 0 {
						// The entry read partially is not the previous one
						mem.Arm(nil)
						profile := domain.NewProfile(1)
						if e := entries[next]; e.Capacity != entries[next-1].Capacity && it.SetPrevious(&recdb.Entry{Capacity: e.Capacity, Data: profile}) == nil {
							x.Failf("%s: after a failure the previous entry is rewritten with the capacity of the next one", when)
						}
						if !bytes.Equal(f.bytes(), want) {
							x.Failf("%s: a refused rewriting after a failure changed the file", when)
						}
					}
				case "frewind":
					if err = it.Rewind(); err == nil {
						next, shaky, buffered = 0, false, false
						break
					}
					mem.Arm(nil)
					if e, err := it.Next(); err == nil {
						if count == 0 || !equals(e, entries[0]) && (next == count || !equals(e, entries[next])) {
							x.Failf("%s: after a failed rewinding an entry was read that is neither the first nor the next one", when)
						}
					}
					if err := it.Rewind(); err != nil {
						x.Failf("%s: rewinding failed: %v", when, err)
					}
					next, shaky, buffered = 0, false, false
				case "fset":
					if next == 0 {
						mem.Arm(nil)
						break
					}
					e := entries[next-1]
					data := &domain.Profile{UserID: e.User ^ 1, Likes: e.Likes, Dislikes: e.Dislikes}
					err = it.SetPrevious(&recdb.Entry{Capacity: e.Capacity, Deleted: e.Deleted, Data: data})
					if mem.Hits == hits && err != nil && shaky {
						err = nil
					} else if mem.Hits == hits {
						e.User ^= 1
						entries[next-1] = e
						copy(want[offsets[next-1]:], e.Bytes())
					} else {
						// The entry may be damaged now, but nothing else
						got := f.bytes()
						if len(got) != len(want) {
							x.Failf("%s: the file has %d bytes, expected %d", when, len(got), len(want))
						}
						copy(got[offsets[next-1]:offsets[next]], want[offsets[next-1]:])
						shaky = true
					}
				}
				mem.Arm(nil)
				if mem.Hits > hits {
					x.Label("failure in " + op.K[1:])
					if err == nil && mem.HitOp != 'r' {
						x.Failf("%s ignored a failed file operation (%c)", when, mem.HitOp)
					}
				} else if err != nil {
					x.Failf("%s failed though nothing else did: %v", when, err)
				}
			case "next":
				advance(when)
				afterSet = afterSet || sets > 0
			case "all":
				for next < count {
					advance(when)
				}
				advance(when)
				afterSet = afterSet || sets > 0
			case "rewind":
				if err := it.Rewind(); err != nil {
					x.Failf("%s failed: %v", when, err)
				}
				next, shaky, buffered = 0, false, false
			default:
				e := op.With.entry()
				capacity := uint32(3000)
				if next > 0 {
					capacity = entries[next-1].Capacity
				} else if count > 0 {
					// The one read before rewinding, if any
					capacity = entries[latest].Capacity
				}
				fits := op.K == "set"
				entry := &recdb.Entry{Capacity: capacity, Deleted: e.Deleted, Data: op.With.profile()}
				switch op.K {
				case "set":
					// Shorten the lists to what fits
					for e.Size() > int(capacity) && len(e.Likes)+len(e.Dislikes) > 0 {
						if len(e.Likes) > 0 {
							e.Likes = e.Likes[:len(e.Likes)-1]
						} else {
							e.Dislikes = e.Dislikes[:len(e.Dislikes)-1]
						}
					}
					p := op.With.profile()
					p.Likes, p.Dislikes = e.Likes, e.Dislikes
					entry.Data = p
				case "grow":
					entry.Capacity = capacity + uint32(op.N)
					if op.N%2 == 0 && int(capacity)-op.N >= e.Size() {
						entry.Capacity = capacity - uint32(op.N)
					}
				case "overflow":
					l := Lists{User: 1, MoreL: int(capacity)/8 + op.N%5 - 1}
					if l.entry().Size() <= int(capacity) {
						l.MoreL += 3
					}
					entry.Data = l.profile()
				case "foreign":
					entry.Data = nil
				}
				err := it.SetPrevious(entry)
				if next == 0 {
					fits = false
				}
				if err != nil && shaky {
					fits = false
				}
				if fits != (err == nil) {
					x.Failf("%s: rewriting returned %v (size %d, capacity %d)", when, err, e.Size(), capacity)
				}
				if fits {
					e.Capacity = capacity
					entries[next-1] = e
					copy(want[offsets[next-1]:], e.Bytes())
					sets++
					if next < count {
						x.Label("rewritten in the middle")
					}
				} else {
					x.Label("refused")
				}
			}
			if next > 0 {
				latest = next - 1
			}
			if it.HasNext() != (next < count) {
				x.Failf("%s: HasNext is %v after %d entries of %d", when, it.HasNext(), next, count)
			}
			if got := f.bytes(); !bytes.Equal(got, want) {
				j := 0
				for j < len(got) && j < len(want) && got[j] == want[j] {
					j++
				}
				x.Failf("%s: the file has %d bytes, expected %d, differing from byte %d (entries start at %v)", when, len(got), len(want), j, offsets)
			}
		}
		if err := it.Rewind(); err != nil {
			x.Failf("final rewind failed: %v", err)
		}
		next, shaky, buffered = 0, false, false
		for next < count {
			advance("final scan")
		}
		advance("final scan")
		if count > 65535 {
			x.Label("more than 65535 entries")
		}
		if len(b) > 4096 {
			x.Label("larger than 4 KB")
		}
		if afterSet {
			x.NonTrivial()
		}
	}
	run := func(x *kit.X, c ScanCase) {
		proto := newProto()
		if c.Other == nil {
			one(x, c, proto, func() {})
			return
		}
		x.Label("two databases")
		start := func(c ScanCase) func() bool {
			next, _ := iter.Pull(func(yield func(int) bool) { one(x, c, proto, func() { yield(0) }) })
			return func() bool { _, more := next(); return more }
		}
		a, b := start(c), start(*c.Other)
		for moreA, moreB := true, true; moreA || moreB; {
			moreA = moreA && a()
			moreB = moreB && b()
		}
	}
	kit.Main(t, "C11",
		"random databases (entries from 21 bytes to tens of KB) scanned with random interleavings of reading, rewinding and rewriting the last entry (fitting, of another capacity, too large, foreign), some meeting a failing file operation, alone or in turn with the scan of another database, the file compared with the expected bytes after every step; \"vast\" scans and rewrites entries lying beyond an entry of gigabytes on a synthetic sparse file. Non-trivial: the scan went on after a rewriting.",
		kit.New("many", 4, 80, func(t *rapid.T) ScanCase {
			c := drawScanOne(t, 4, 0, []string{"mem", "os"})
			for i := range c.Entries {
				c.Entries[i].Spare %= 50
			}
			if n := len(c.Entries); n > 0 {
				c.Repeat = 65600/n + 1
			}
			c.Ops = c.Ops[:min(len(c.Ops), 3)]
			return c
		}, run).Patient(300),
		kit.New("vast", 2, 40, drawVast, vastOr(vastScan)).Patient(300),
		kit.New("scan", 24000, 400000, func(t *rapid.T) ScanCase { return drawScan(t, 14, 60, []string{"mem", "mem", "buf"}) }, run),
		kit.Together(400, 8000, func(t *rapid.T) ScanCase { return drawScan(t, 10, 300, []string{"mem", "buf"}) }, run),
		kit.New("large", 2000, 32000, func(t *rapid.T) ScanCase { return drawScan(t, 6, 1500, []string{"mem", "buf"}) }, run),
		kit.New("damaged", 4000, 80000, func(t *rapid.T) DamagedCase {
			return DamagedCase{
				Entries: kit.Seq(t, "entries", rapid.Custom(func(t *rapid.T) Lists { return drawLists(t, 60) }), 1, 8),
				At:      rapid.IntRange(0, 7).Draw(t, "at"),
				How:     rapid.SampledFrom([]string{"likes", "dislikes", "capacity", "cut"}).Draw(t, "how"),
				N:       rapid.OneOf(rapid.IntRange(1, 20), rapid.IntRange(1, 1<<20)).Draw(t, "n"),
				Again:   rapid.IntRange(0, 4).Draw(t, "again"),
				File:    rapid.SampledFrom([]string{"mem", "mem", "buf", "os"}).Draw(t, "file"),
			}
		}, scanDamaged),
		kit.New("os-file", 800, 8000, func(t *rapid.T) ScanCase { return drawScan(t, 10, 100, []string{"os"}) }, run),
	)
}
