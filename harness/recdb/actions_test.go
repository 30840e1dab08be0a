package recdb

import (
	"fmt"
	"recengine/internal/domain"
	"recengine/internal/infra/recdb"
	"recengine/vpbt/kit"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Act is an action handed to the like storage.
type Act struct {
	Type int    `json:"type"`
	User uint64 `json:"user"`
	Item uint64 `json:"item"`
	// How many replies the client has room for before it takes them (it is
	// waiting for them anyway)
	Room int `json:"room"`
	// Anything may come along with an unknown action
	Payload int `json:"payload,omitempty"`
}

// ActionsCase is a life of a like storage: the batches it gets.
type ActionsCase struct {
	Batches [][]Act `json:"batches"`
	Times   int     `json:"times,omitempty"` // the actions of every batch are repeated
}

func TestC32(t *testing.T) {
	const patience = 10 * time.Second
	type reply struct {
		from  int
		kind  string
		value any
	}
	run := func(x *kit.X, c ActionsCase) {
		store := recdb.NewLikeStorage()
		for n, batch := range c.Batches {
			var acts []Act
			for i := 0; i < max(1, c.Times); i++ {
				acts = append(acts, batch...)
			}
			replies := make(chan reply, 4*len(acts)+1)
			over := make(chan struct{})
			var clients sync.WaitGroup
			actions := make([]domain.Action, len(acts))
			for i, a := range acts {
				errs := make(chan error, max(1, a.Room))
				action := domain.Action{ActionType: a.Type, Error: errs}
				var profile chan *domain.Profile
				var similar chan *[]domain.SimilarProfile
				var items chan *[]domain.RecItem
				switch a.Type {
				case domain.ActionDeleteProfile:
					action.Payload = domain.DeleteProfilePayload{UserID: a.User}
				case domain.ActionGetProfile:
					profile = make(chan *domain.Profile, a.Room)
					action.Payload = domain.GetProfilePayload{UserID: a.User, Profile: profile}
				case domain.ActionLike, domain.ActionDislike, domain.ActionDeleteItem:
					action.Payload = domain.LikePayload{UserID: a.User, ItemID: a.Item}
				case domain.ActionGetSimilarProfiles:
					similar = make(chan *[]domain.SimilarProfile, a.Room)
					action.Payload = domain.GetSimilarProfilesPayload{UserID: a.User, Profiles: similar}
				case domain.ActionRecommendItems:
					items = make(chan *[]domain.RecItem, a.Room)
					action.Payload = domain.RecommendItemsPayload{UserID: a.User, Items: items}
				default:
					action.Payload = []any{nil, a.User, domain.LikePayload{UserID: a.User, ItemID: a.Item}}[a.Payload%3]
				}
				actions[i] = action
				take := func(over <-chan struct{}) bool {
					r := reply{from: i}
					select {
					case v := <-errs:
						r.kind, r.value = "error", v
					case v := <-profile:
						r.kind, r.value = "profile", v
					case v := <-similar:
						r.kind, r.value = "similar", v
					case v := <-items:
						r.kind, r.value = "items", v
					case <-over:
						return false
					}
					replies <- r
					return true
				}
				clients.Add(1)
				go func() {
					defer clients.Done()
					for take(over) {
					}
					// What is left, if anything
					for len(errs)+len(profile)+len(similar)+len(items) > 0 {
						take(nil)
					}
				}()
			}
			failed := make(chan string, 1)
			go func() {
				defer func() {
					if r := recover(); r != nil {
						failed <- fmt.Sprintf("panics: %v", r)
					}
				}()
				if err := store.ProcessActions(actions); err != nil {
					failed <- fmt.Sprintf("fails: %v", err)
				}
				failed <- ""
			}()
			late := time.NewTimer(patience)
			defer late.Stop()
			end := sync.OnceFunc(func() { close(over) })
			defer end()
			got := make([]int, len(acts))
			// What a reply has to be, or why it isn't that
			judge := func(r reply) string {
				got[r.from]++
				a := acts[r.from]
				if got[r.from] > 1 {
					return "one more reply"
				}
				err, _ := r.value.(error)
				switch a.Type {
				case domain.ActionDeleteProfile, domain.ActionLike, domain.ActionDislike, domain.ActionDeleteItem:
					if r.kind != "error" || err != nil {
						return fmt.Sprintf("the reply %s %v", r.kind, r.value)
					}
				case domain.ActionGetProfile:
					if r.kind != "profile" {
						return fmt.Sprintf("the reply %s %v", r.kind, r.value)
					}
					if p := r.value.(*domain.Profile); p != nil && p.UserID != a.User {
						return fmt.Sprintf("the profile of %d", p.UserID)
					}
				case domain.ActionGetSimilarProfiles:
					if r.kind != "similar" || r.value.(*[]domain.SimilarProfile) == nil {
						return fmt.Sprintf("the reply %s %v", r.kind, r.value)
					}
				case domain.ActionRecommendItems:
					if r.kind != "items" || r.value.(*[]domain.RecItem) == nil {
						return fmt.Sprintf("the reply %s %v", r.kind, r.value)
					}
				default:
					x.Label("unknown")
					if r.kind != "error" || err == nil {
						return fmt.Sprintf("the reply %s %v", r.kind, r.value)
					}
				}
				return ""
			}
			for waiting, done := len(acts), false; waiting > 0 || !done; {
				select {
				case msg := <-failed:
					if msg != "" {
						x.Failf("batch %d of %d actions %s", n, len(acts), msg)
					}
					done = true
				case r := <-replies:
					waiting--
					if what := judge(r); what != "" {
						x.Failf("action %d of %d in batch %d, of type %d, gets %s", r.from, len(acts), n, acts[r.from].Type, what)
					}
				case <-late.C:
					for i := range got {
						if got[i] == 0 {
							x.Failf("action %d of %d in batch %d, of type %d, gets no reply", i, len(acts), n, acts[i].Type)
						}
					}
					x.Failf("batch %d of %d actions does not end", n, len(acts))
				}
			}
			end()
			clients.Wait()
			close(replies)
			for r := range replies {
				x.Failf("action %d of %d in batch %d, of type %d, gets %s", r.from, len(acts), n, acts[r.from].Type, judge(r))
			}
			if len(acts) > 1 {
				x.NonTrivial()
			}
		}
		if err := store.Close(); err != nil {
			x.Failf("closing fails: %v", err)
		}
	}
	draw := func(batches, acts, times int) func(t *rapid.T) ActionsCase {
		return func(t *rapid.T) ActionsCase {
			pool := kit.Pool(t, "pool", 1, 4)
			id := rapid.OneOf(rapid.SampledFrom(pool), kit.U64())
			act := rapid.Custom(func(t *rapid.T) Act {
				a := Act{User: id.Draw(t, "user"), Item: id.Draw(t, "item"), Room: kit.Uniform(3).Draw(t, "room")}
				a.Type = domain.ActionDeleteProfile + kit.Uniform(7).Draw(t, "type")
				if kit.Uniform(8).Draw(t, "unknown") == 0 {
					a.Type = rapid.OneOf(rapid.SampledFrom([]int{-1, domain.ActionRecommendItems + 1, 1 << 8, 1<<8 + domain.ActionLike, 1<<32 + domain.ActionLike}), rapid.IntRange(domain.ActionRecommendItems+1, 1<<40)).Draw(t, "which")
					a.Payload = kit.Uniform(3).Draw(t, "payload")
				}
				return a
			})
			c := ActionsCase{Batches: rapid.SliceOfN(rapid.Custom(func(t *rapid.T) []Act { return kit.Seq(t, "acts", act, 0, acts) }), 1, batches).Draw(t, "batches")}
			if times > 0 {
				c.Times = rapid.IntRange(1, times).Draw(t, "times")
			}
			return c
		}
	}
	kit.Main(t, "C32",
		"batches of actions of every type, known or not, for the same or different users, are handed to a like storage, whose clients have room for 0-2 replies and wait for them all the time; replies are counted and their kinds judged. Non-trivial: a batch of several actions.",
		kit.New("batches", 12000, 250000, draw(5, 12, 0), run),
		kit.New("large", 300, 6000, draw(2, 60, 30), run),
		kit.Together(400, 8000, draw(3, 8, 0), run),
	)
}
