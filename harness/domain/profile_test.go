package domain

import (
	"fmt"
	"math"
	"recengine/internal/domain"
	"recengine/vpbt/kit"
	"sort"
	"testing"

	"pgregory.net/rapid"
)

// ProfileOp is an action on an item, a position in the pool.
type ProfileOp struct {
	K string `json:"k"`
	I int    `json:"i"`
	P int    `json:"p"` // the profile
}

// ProfileCase is a history of a few profiles.
type ProfileCase struct {
	Users []uint64    `json:"users"`
	Zero  bool        `json:"zero"` // profiles are made as zero values
	Pool  []uint64    `json:"pool"`
	Ops   []ProfileOp `json:"ops"`
}

func TestC12(t *testing.T) {
	run := func(x *kit.X, c ProfileCase) {
		profiles := make([]*domain.Profile, len(c.Users))
		states := make([]map[uint64]int, len(c.Users))
		for i, user := range c.Users {
			profiles[i], states[i] = domain.NewProfile(user), map[uint64]int{}
			if c.Zero {
				profiles[i] = &domain.Profile{UserID: user}
			}
		}
		switched := false
		check := func(when string, n int) {
			p, state := profiles[n], states[n]
			var likes, dislikes []uint64
			for _, item := range c.Pool {
				want := state[item]
				if got := p.QualifyItem(item); got != want {
					x.Failf("%s: item %d of profile %d is qualified as %d, expected %d", when, item, n, got, want)
				}
				if want == 1 {
					likes = append(likes, item)
				} else if want == -1 {
					dislikes = append(dislikes, item)
				}
			}
			if p.QualifyItem(c.Pool[len(c.Pool)-1]+1) != 0 && c.Pool[len(c.Pool)-1] != 1<<64-1 {
				x.Failf("%s: an unknown item of profile %d is qualified", when, n)
			}
			if fmt.Sprint(p.Likes) != fmt.Sprint(likes) || fmt.Sprint(p.Dislikes) != fmt.Sprint(dislikes) {
				x.Failf("%s: the lists of profile %d are %v and %v, expected %v and %v", when, n, p.Likes, p.Dislikes, likes, dislikes)
			}
			if p.UserID != c.Users[n] {
				x.Failf("%s changed the user of profile %d", when, n)
			}
		}
		for i, op := range c.Ops {
			item := c.Pool[op.I]
			p, state := profiles[op.P], states[op.P]
			when := fmt.Sprintf("step %d: %s %d in profile %d", i, op.K, item, op.P)
			was := state[item]
			switch op.K {
			case "like":
				p.Like(item)
				state[item] = 1
			case "dislike":
				p.Dislike(item)
				state[item] = -1
			case "unlike":
				p.Unlike(item)
				if was == 1 {
					state[item] = 0
				}
			case "undislike":
				p.Undislike(item)
				if was == -1 {
					state[item] = 0
				}
			case "remove":
				p.RemoveItem(item)
				state[item] = 0
			}
			switched = switched || was != 0 && state[item] != was
			if len(c.Pool) <= 50 || i%16 == 15 || i == len(c.Ops)-1 {
				for n := range profiles {
					check(when, n)
				}
			}
		}
		if switched {
			x.NonTrivial()
		}
		for n := range profiles {
			if len(profiles[n].Likes) > 32 && len(profiles[n].Dislikes) > 32 {
				x.Label("long lists")
			}
		}
	}
	gen := func(pool, ops int) func(t *rapid.T) ProfileCase {
		return func(t *rapid.T) ProfileCase {
			c := ProfileCase{Users: rapid.SliceOfN(kit.U64(), 1, 3).Draw(t, "users"), Zero: rapid.Bool().Draw(t, "zero")}
			c.Pool = kit.Pool(t, "pool", 1, pool)
			if pool > 50 {
				c.Pool = dense(t, "pool", pool)
			}
			kinds := rapid.SampledFrom([][]string{
				{"like", "like", "like", "dislike", "dislike", "dislike", "unlike", "undislike", "remove"},
				{"like", "dislike"},
				{"like", "like", "like", "like", "unlike", "remove"},
				{"dislike", "dislike", "dislike", "dislike", "undislike", "remove"},
			}).Draw(t, "kinds")
			c.Ops = kit.Seq(t, "ops", rapid.Custom(func(t *rapid.T) ProfileOp {
				return ProfileOp{
					rapid.SampledFrom(kinds).Draw(t, "k"),
					kit.Uniform(len(c.Pool)).Draw(t, "item"),
					kit.Uniform(len(c.Users)).Draw(t, "p"),
				}
			}), 1, ops)
			return c
		}
	}
	kit.Main(t, "C12",
		"random histories of liking, disliking and withdrawing items of a pool in one to three profiles at a time; after every step (every 16th for large pools) every item's qualification and both lists of every profile are compared with a map. Non-trivial: an item changed its qualification after having got one.",
		kit.New("small", 45000, 600000, gen(6, 40), run),
		kit.New("large", 7500, 90000, gen(40, 200), run),
		kit.Together(600, 12000, gen(20, 200), run),
		kit.New("huge", 450, 6000, gen(400, 1500), run),
	)
}

// Draws up to n distinct identifiers, most of them in runs, sorted.
func dense(t *rapid.T, label string, n int) []uint64 {
	size := kit.Size(t, label+"-size", n)
	gaps := rapid.SampledFrom([]uint64{1, 1, 2, 1 << 20, 1 << 50}).Draw(t, label+"-gap")
	next := kit.U64().Draw(t, label+"-start") >> 8
	salt := rapid.Uint64().Draw(t, label+"-salt")
	ids := make([]uint64, size)
	for i := range ids {
		ids[i] = next
		salt = salt*6364136223846793005 + 1442695040888963407
		next += 1 + (salt>>33)%gaps
	}
	return ids
}

// PairCase is two profiles: each item is in none, the likes or the dislikes of either.
type PairCase struct {
	Items  []uint64 `json:"items"`
	A      []int    `json:"a"` // 0 unknown, 1 liked, 2 disliked
	B      []int    `json:"b"`
	Factor float32  `json:"f"`
	UserA  uint64   `json:"ua"`
	UserB  uint64   `json:"ub"`
	Nil    bool     `json:"nil"`
	// Times tells how many times the states are repeated with further items
	// (the items are then numbered).
	Times int `json:"times,omitempty"`
}

func TestC13(t *testing.T) {
	run := func(x *kit.X, c PairCase) {
		if c.Times > 1 && len(c.A) == len(c.B) {
			a, b := c.A, c.B
			c.Items, c.A, c.B = nil, nil, nil
			for len(c.Items) < c.Times*len(a) {
				i := len(c.Items) % len(a)
				c.Items, c.A, c.B = append(c.Items, uint64(len(c.Items))), append(c.A, a[i]), append(c.B, b[i])
			}
			if len(c.Items) > 65535 {
				x.Label("more than 65535 items")
			}
		}
		brief := func(p domain.Profile) string {
			if len(p.Likes)+len(p.Dislikes) > 10000 {
				return fmt.Sprintf("{%d likes and %d dislikes}", len(p.Likes), len(p.Dislikes))
			}
			return fmt.Sprint(p)
		}
		build := func(user uint64, state []int) domain.Profile {
			p := *domain.NewProfile(user)
			if c.Nil {
				p.Likes, p.Dislikes = nil, nil
			}
			for i, s := range state {
				if s == 1 {
					p.Likes = append(p.Likes, c.Items[i])
				} else if s == 2 {
					p.Dislikes = append(p.Dislikes, c.Items[i])
				}
			}
			return p
		}
		a, b := build(c.UserA, c.A), build(c.UserB, c.B)
		var cl, dl, cd, dd float64
		for i := range c.Items {
			if c.A[i] == 1 || c.B[i] == 1 {
				dl++
				if c.A[i] == c.B[i] {
					cl++
				}
			}
			if c.A[i] == 2 || c.B[i] == 2 {
				dd++
				if c.A[i] == c.B[i] {
					cd++
				}
			}
		}
		f := float64(c.Factor)
		want := 0.0
		if dl+f*dd > 0 {
			want = 100 * (cl + f*cd) / (dl + f*dd)
		}
		near := func(got float32, want float64) bool {
			return !math.IsNaN(float64(got)) && math.Abs(float64(got)-want) <= 2e-3
		}
		before := fmt.Sprint(a, b)
		got := a.ComputeSimilarity(b, c.Factor)
		if !near(got, want) {
			x.Failf("similarity of %v and %v with the factor %v is %v, expected %v", brief(a), brief(b), c.Factor, got, want)
		}
		if got < 0 || got > 100.001 {
			x.Failf("similarity %v is out of range", got)
		}
		if back := b.ComputeSimilarity(a, c.Factor); !near(back, float64(got)) {
			x.Failf("similarity isn't symmetric: %v and %v", got, back)
		}
		self := a.ComputeSimilarity(a, c.Factor)
		switch {
		case len(a.Likes) > 0 || len(a.Dislikes) > 0 && c.Factor > 0:
			if !near(self, 100) {
				x.Failf("similarity of %v with itself is %v", brief(a), self)
			}
		default:
			if self != 0 {
				x.Failf("similarity of %v with itself is %v, there is nothing to compare", brief(a), self)
			}
		}
		if after := fmt.Sprint(a, b); after != before {
			x.Failf("computing similarity changed the profiles from %.200s to %.200s", before, after)
		}
		for _, user := range []uint64{c.UserB ^ 0x5555, c.UserB, 0} {
			other := a
			other.UserID = user
			if again := other.ComputeSimilarity(b, c.Factor); again != got {
				x.Failf("similarity depends on the user: %v and %v", got, again)
			}
		}
		if want > 0 && want < 100 {
			x.NonTrivial()
		}
		if dd > 0 && dl > 0 && f > 0 && f < 1 {
			x.Label("likes and dislikes weighted")
		}
		if dl+f*dd == 0 {
			x.Label("nothing to compare")
		}
	}
	styles := [][]int{{0, 1, 2}, {0, 1}, {0, 2}, {1, 2}, {0, 0, 0, 1, 2}, {0}, {1, 1, 1, 1, 2}, {1}, {2}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2}}
	gen := func(size int) func(t *rapid.T) PairCase {
		return func(t *rapid.T) PairCase {
			c := PairCase{}
			if size > 50 {
				c.Items = dense(t, "items", size)
			} else {
				c.Items = rapid.SliceOfNDistinct(kit.U64(), 0, size, rapid.ID[uint64]).Draw(t, "items")
			}
			sort.Slice(c.Items, func(i, j int) bool { return c.Items[i] < c.Items[j] })
			// Either profile of a style of its own, changing now and then
			fill := func(label string) []int {
				n := len(c.Items)
				state := make([]int, 0, n)
				if size <= 50 {
					style := rapid.SampledFrom(styles).Draw(t, label+"-style")
					for range c.Items {
						state = append(state, rapid.SampledFrom(style).Draw(t, label))
					}
					return state
				}
				salt := rapid.Uint64().Draw(t, label+"-salt")
				for len(state) < n {
					style := rapid.SampledFrom(styles).Draw(t, label+"-style")
					run := rapid.IntRange(1, n).Draw(t, label+"-run")
					for i := 0; i < run && len(state) < n; i++ {
						salt = salt*6364136223846793005 + 1442695040888963407
						state = append(state, style[(salt>>33)%uint64(len(style))])
					}
				}
				return state
			}
			c.A = fill("a")
			if rapid.IntRange(0, 4).Draw(t, "alike") == 0 {
				c.B = append([]int{}, c.A...)
				for i := 0; i < 3 && len(c.B) > 0; i++ {
					c.B[kit.Uniform(len(c.B)).Draw(t, "change-at")] = rapid.IntRange(0, 2).Draw(t, "change")
				}
			} else {
				c.B = fill("b")
			}
			c.Factor = rapid.OneOf(rapid.SampledFrom([]float32{0, 1, 0.5, 0.25, 0.9, 1e-3, 1e-6}), rapid.Float32Range(1e-6, 1)).Draw(t, "factor")
			c.UserA, c.UserB = kit.U64().Draw(t, "ua"), kit.U64().Draw(t, "ub")
			c.Nil = rapid.Bool().Draw(t, "nil")
			return c
		}
	}
	kit.Main(t, "C13",
		"random pairs of profiles (all overlaps of likes and dislikes, alike and unlike, of equal and very different sizes, empty and nil lists, up to 3000 items, a few of up to 300000) with random factors; similarity compared with the formula computed in double precision over sets, in both directions, with itself, with other and equal users. Non-trivial: an expected similarity strictly between 0 and 100.",
		kit.New("small", 120000, 1500000, gen(12), run),
		kit.New("medium", 24000, 300000, gen(40), run),
		kit.Together(2000, 40000, gen(150), run),
		kit.New("large", 9000, 120000, gen(150), run),
		kit.New("huge", 600, 9000, gen(3000), run),
		kit.New("vast", 16, 240, func(t *rapid.T) PairCase {
			c := gen(150)(t)
			if n := len(c.A); n > 0 {
				c.Times = rapid.SampledFrom([]int{33000, 66000, 80000, 132000, 270000}).Draw(t, "total")/n + 1
			}
			return c
		}, run).Patient(100),
		kit.New("colossal", 2, 30, func(t *rapid.T) PairCase {
			c := gen(150)(t)
			if n := len(c.A); n > 0 {
				c.Times = rapid.SampledFrom([]int{1100000, 2200000, 4300000}).Draw(t, "total")/n + 1
			}
			return c
		}, run).Patient(300),
	)
}
