// Package codec is an independent implementation of the documented file
// formats. It shares no code with the repository.
package codec

import (
	"bytes"
	"sort"
	"strings"
)

func be64(n uint64) []byte {
	b := make([]byte, 8)
	for i := range b {
		b[i] = byte(n >> (56 - 8*i))
	}
	return b
}

func be32(n uint32) []byte { return []byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)} }

// U64 decodes a big-endian number.
func U64(b []byte) (n uint64) {
	for _, c := range b[:8] {
		n = n<<8 | uint64(c)
	}
	return
}

// U32 decodes a big-endian number.
func U32(b []byte) (n uint32) {
	for _, c := range b[:4] {
		n = n<<8 | uint32(c)
	}
	return
}

// ---- delta log: "RECDELTA", version, locked, count(4), records of 18 bytes

const (
	DeltaPrefix = "RECDELTA"
	DeltaHead   = 8 + 6
	DeltaSize   = 18
)

// Rec is a delta log record.
type Rec struct {
	Op   byte   `json:"op"`
	User uint64 `json:"u"`
	Item uint64 `json:"i"`
}

// Sum is the record's checksum.
func (r Rec) Sum() byte {
	s := r.Op
	for i := 0; i < 64; i += 8 {
		s += byte(r.User>>i) + byte(r.Item>>i)
	}
	return s
}

// Bytes encodes the record with the valid checksum.
func (r Rec) Bytes() []byte {
	return append(append(append([]byte{r.Op}, be64(r.User)...), be64(r.Item)...), r.Sum())
}

// DeltaHeader encodes the prefix and the header.
func DeltaHeader(version, locked byte, count uint32) []byte {
	return append(append([]byte(DeltaPrefix), version, locked), be32(count)...)
}

// DeltaFile encodes a whole log.
func DeltaFile(locked byte, recs []Rec) []byte {
	b := DeltaHeader(1, locked, uint32(len(recs)))
	for _, r := range recs {
		b = append(b, r.Bytes()...)
	}
	return b
}

// DeltaRecord decodes the record at the start of b; ok tells whether it's intact.
func DeltaRecord(b []byte) (r Rec, ok bool) {
	if len(b) < DeltaSize {
		return r, false
	}
	r = Rec{b[0], U64(b[1:]), U64(b[9:])}
	return r, (r.Op == '+' || r.Op == '-') && r.Sum() == b[17]
}

// DeltaIntact returns the intact records of arbitrary bytes.
func DeltaIntact(b []byte) []Rec {
	var recs []Rec
	if len(b) < DeltaHead || string(b[:8]) != DeltaPrefix {
		return nil
	}
	for b = b[DeltaHead:]; len(b) >= DeltaSize; b = b[DeltaSize:] {
		if r, ok := DeltaRecord(b); ok {
			recs = append(recs, r)
		}
	}
	return recs
}

// ---- index: "RECIDX", version, locked, count(4), records of 16 bytes

const (
	IndexPrefix = "RECIDX"
	IndexHead   = 6 + 6
	IndexSize   = 16
)

// Pair is an index record.
type Pair struct {
	ID  uint64 `json:"id"`
	Pos uint64 `json:"pos"`
}

// Bytes encodes the record.
func (p Pair) Bytes() []byte { return append(be64(p.ID), be64(p.Pos)...) }

// IndexHeader encodes the prefix and the header.
func IndexHeader(version, locked byte, count uint32) []byte {
	return append(append([]byte(IndexPrefix), version, locked), be32(count)...)
}

// IndexFile encodes a whole index.
func IndexFile(locked byte, pairs []Pair) []byte {
	b := IndexHeader(1, locked, uint32(len(pairs)))
	for _, p := range pairs {
		b = append(b, p.Bytes()...)
	}
	return b
}

// IndexMap decodes a properly closed index.
func IndexMap(b []byte) (m map[uint64]uint64, ok bool) {
	if len(b) < IndexHead || string(b[:6]) != IndexPrefix || b[7] != 0 {
		return nil, false
	}
	n := int(U32(b[8:]))
	b = b[IndexHead:]
	m = map[uint64]uint64{}
	for i := 0; i < n; i++ {
		if len(b) < IndexSize {
			return nil, false
		}
		m[U64(b)] = U64(b[8:])
		b = b[IndexSize:]
	}
	return m, true
}

// ---- recommendation database: "RECDB", version, type(8), locked, count(4), entries

const (
	DBPrefix   = "RECDB"
	DBHead     = 5 + 14
	DBTypeLike = "LIKE    "
)

// Entry is a database entry.
type Entry struct {
	Capacity uint32   `json:"cap"`
	Deleted  byte     `json:"del"`
	User     uint64   `json:"u"`
	Likes    []uint64 `json:"l"`
	Dislikes []uint64 `json:"d"`
}

// Size is the minimal capacity of the entry.
func (e Entry) Size() int { return 4 + 1 + 8 + 4 + 8*len(e.Likes) + 4 + 8*len(e.Dislikes) }

// Bytes encodes the entry padded with zeros.
func (e Entry) Bytes() []byte {
	b := append(be32(e.Capacity), e.Deleted)
	b = append(b, be64(e.User)...)
	b = append(b, be32(uint32(len(e.Likes)))...)
	for _, x := range e.Likes {
		b = append(b, be64(x)...)
	}
	b = append(b, be32(uint32(len(e.Dislikes)))...)
	for _, x := range e.Dislikes {
		b = append(b, be64(x)...)
	}
	for len(b) < int(e.Capacity) {
		b = append(b, 0)
	}
	return b
}

// DBHeader encodes the prefix and the header.
func DBHeader(version byte, typ string, locked byte, count uint32) []byte {
	b := append([]byte(DBPrefix), version)
	b = append(b, typ[:8]...)
	return append(append(b, locked), be32(count)...)
}

// DBEntry decodes the entry at the start of b. ok is false unless b holds the
// complete entry and its lists fit its capacity.
func DBEntry(b []byte) (e Entry, ok bool) {
	if len(b) < 17 {
		return e, false
	}
	e.Capacity, e.Deleted, e.User = U32(b), b[4], U64(b[5:])
	total := int64(e.Capacity)
	if int64(len(b)) < total {
		return e, false
	}
	off := int64(13)
	for _, list := range []*[]uint64{&e.Likes, &e.Dislikes} {
		if off+4 > int64(len(b)) || off+4 > total {
			return e, false
		}
		n := int64(U32(b[off:]))
		off += 4
		if off+8*n > total {
			return e, false
		}
		*list = make([]uint64, 0, n)
		for i := int64(0); i < n; i++ {
			*list = append(*list, U64(b[off:]))
			off += 8
		}
	}
	return e, true
}

// Equal tells whether the entries are equal, nil and empty lists being the same.
func Equal(a, b Entry) bool {
	if a.Capacity != b.Capacity {
		return false
	}
	a.Capacity, b.Capacity = 0, 0 // the free space may have gigabytes
	return bytes.Equal(a.Bytes(), b.Bytes())
}

// NearPrefixes lists contents that resemble the prefix without being it.
func NearPrefixes(prefix string) []string {
	var out []string
	add := func(s string) {
		if len(s) < len(prefix) || s[:len(prefix)] != prefix {
			out = append(out, s)
		}
	}
	n := len(prefix)
	reversed, sorted, folded := []byte(prefix), []byte(prefix), []byte(prefix)
	for i := range reversed {
		reversed[i] = prefix[n-1-i]
		folded[i] |= 0x20 * byte(i%2)
	}
	sort.Slice(sorted, func(i, j int) bool { return sorted[i] < sorted[j] })
	lower := strings.ToLower(prefix)
	for _, s := range []string{lower, prefix[:1] + lower[1:], lower[:n-1] + prefix[n-1:], string(reversed), string(sorted), string(folded),
		strings.Repeat("\x00", n), strings.Repeat(" ", n), strings.Repeat(prefix[:1], n), prefix[:n/2] + prefix[:n-n/2]} {
		add(s)
	}
	for i := 0; i < n; i++ {
		add(prefix[:i] + prefix[i+1:] + prefix[n-1:])                                   // one left out
		add(prefix[:i] + " " + prefix[i:])                                              // one too many
		add(prefix[:i] + "\x00" + prefix[i:])                                           // likewise
		add(prefix[:i] + strings.ToLower(prefix[i:i+1]) + prefix[i+1:])                 // one folded
		add(prefix[:i] + strings.Repeat("\x00", n-i))                                   // the start only
		add(strings.Repeat("\x00", i) + strings.Repeat("\xff", n-i))                    // nothing of it
		add(prefix[:n-i-1] + string(rune('A'+(prefix[n-i-1]-'A'+1)%26)) + prefix[n-i:]) // the next letter
		if i+1 < n {
			add(prefix[:i] + prefix[i+1:i+2] + prefix[i:i+1] + prefix[i+2:]) // two swapped
		}
	}
	add("\xef\xbb\xbf" + prefix)
	add("\r\n" + prefix)
	for _, other := range []string{DeltaPrefix, IndexPrefix, DBPrefix} {
		add(other)
	}
	return out
}
