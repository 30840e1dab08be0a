package api

import (
	"encoding/json"
	"fmt"
	"net/http/httptest"
	"os"
	"path/filepath"
	"recengine/internal/domain"
	"recengine/internal/domain/valueobjects"
	"recengine/vpbt/kit"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

// Part is a field of a request body.
type Part struct {
	Key     string `json:"key"`
	Value   string `json:"value"` // JSON, nothing if the field is left out
	Bad     bool   `json:"bad"`
	Missing bool   `json:"missing"` // also null or an empty string
}

// Ask is a request, the faults of which are known.
type Ask struct {
	Method string `json:"method"`
	Name   string `json:"name"` // path parameter
	Parts  []Part `json:"parts"`
	Raw    []byte `json:"raw"` // a body that isn't acceptable at all
	Type   string `json:"type"`
}

// RefusalCase is a series of such requests.
type RefusalCase struct {
	Before []string `json:"before"`
	Asks   []Ask    `json:"asks"`
}

func (a *Ask) call() *Call {
	c := &Call{Method: a.Method, List: a.Method == "POST", Name: []byte(a.Name), Type: a.Type}
	if a.Raw != nil {
		c.Body = a.Raw
		return c
	}
	var fields []string
	for _, p := range a.Parts {
		if p.Value != "" {
			fields = append(fields, quote(p.Key)+": "+p.Value)
		}
	}
	c.Body = []byte("{" + strings.Join(fields, ", ") + "}")
	return c
}

func TestC30(t *testing.T) {
	run := func(x *kit.X, c RefusalCase) {
		dir := filepath.Join(x.Dir(), "data")
		if err := os.Mkdir(dir, 0755); err != nil {
			kit.Fatal("mkdir: %v", err)
		}
		svc := service(dir)
		handler := router(svc)
		names := map[string]bool{}
		for _, n := range c.Before {
			name, err := valueobjects.ParseNamespaceName(n)
			if err != nil {
				kit.Fatal("name: %v", err)
			}
			if _, err := svc.CreateNamespace(&domain.NamespaceCreateRequest{Name: name, Type: valueobjects.MakeLikeNamespaceType(), DislikeFactor: 1}); err != nil {
				x.Failf("creating %s: %v", n, err)
			}
			names[n] = true
		}
		refusals := 0
		for i, ask := range c.Asks {
			call := ask.call()
			when := fmt.Sprintf("request %d: %s", i, call.text())
			resp := httptest.NewRecorder()
			handler.ServeHTTP(resp, call.request())
			status, body := resp.Code, resp.Body.String()
			// What must happen
			invalid, missing := map[string]bool{}, map[string]bool{}
			newName := ""
			for _, p := range ask.Parts {
				if p.Bad {
					invalid[p.Key] = true
				}
				if p.Missing {
					missing[p.Key] = true
				}
				if p.Key == "name" && !p.Bad {
					json.Unmarshal([]byte(p.Value), &newName)
				}
			}
			want, byFields := 0, false
			named, err := valueobjects.ParseNamespaceName(ask.Name)
			pathOK := err == nil && named.Value() == ask.Name
			switch {
			case ask.Method != "POST" && !pathOK:
				want = 400
			case ask.Method != "POST" && !names[ask.Name]:
				want = 404
			case ask.Method == "GET":
				want = 200
			case ask.Raw != nil:
				want = 400
			case len(invalid) > 0:
				want, byFields = 400, true
			case names[newName] && !(ask.Method == "PUT" && newName == ask.Name):
				want = 4 // any of these
			case ask.Method == "POST":
				want = 201
				names[newName] = true
			default:
				want = 200
				delete(names, ask.Name)
				names[newName] = true
			}
			if want == 4 && (status < 400 || status > 499) || want > 4 && status != want {
				x.Failf("%s: status %d (%s), expected %d", when, status, body, want)
			}
			if status < 300 {
				continue
			}
			refusals++
			var reply struct {
				Message any `json:"message"`
				Error   any `json:"error"`
				Errors  []struct {
					Field   string `json:"field"`
					Message string `json:"message"`
				} `json:"errors"`
			}
			if kind := resp.Result().Header.Get("Content-Type"); !strings.HasPrefix(kind, "application/json") {
				x.Failf("%s: the refusal is of type %s: %s", when, kind, body)
			}
			if err := json.Unmarshal([]byte(body), &reply); err != nil || !strings.HasPrefix(strings.TrimSpace(body), "{") {
				x.Failf("%s: the refusal isn't a JSON object (%v): %s", when, err, body)
			}
			message, _ := reply.Message.(string)
			if len(reply.Errors) == 0 && message == "" {
				x.Failf("%s: the refusal isn't explained: %s", when, body)
			}
			seen := map[string]bool{}
			for _, e := range reply.Errors {
				field := ""
				for _, p := range ask.Parts {
					if strings.EqualFold(p.Key, e.Field) {
						field = p.Key
					}
				}
				if e.Message == "" || e.Field == "" {
					x.Failf("%s: an invalid field isn't explained: %s", when, body)
				}
				if ask.Raw == nil && (!invalid[field] || seen[field]) {
					x.Failf("%s: the field %s is reported: %s", when, e.Field, body)
				}
				seen[field] = true
			}
			if byFields {
				if len(seen) == 0 {
					x.Failf("%s: the invalid fields aren't reported: %s", when, body)
				}
				for field := range missing {
					if !seen[field] {
						x.Failf("%s: the missing field %s isn't reported: %s", when, field, body)
					}
				}
				x.Label("invalid fields")
				if len(invalid) > 1 {
					x.Label("several invalid fields")
				}
			} else if len(reply.Errors) > 0 && ask.Raw == nil {
				x.Failf("%s: valid fields are reported: %s", when, body)
			}
			x.Label(fmt.Sprintf("status %d", status))
		}
		if refusals > 0 {
			x.NonTrivial()
		}
	}
	draw := func(t *rapid.T) RefusalCase {
		c := RefusalCase{Before: rapid.SliceOfNDistinct(rapid.SampledFrom(append([]string{"a", "b", "ns1"}, oddNames...)), 0, 4, rapid.ID[string]).Draw(t, "before")}
		known := append([]string{"a", "b", "ns1", "like"}, c.Before...)
		part := func(t *rapid.T, key string, required bool, good, bad []string) Part {
			p := Part{Key: key}
			k := rapid.IntRange(0, 9).Draw(t, key+"-how")
			switch {
			case k == 9:
				p.Missing, p.Bad = required, required
				p.Value = rapid.SampledFrom([]string{"", "", "null"}).Draw(t, key+"-left-out")
				if required && key != "dislikeFactor" && rapid.Bool().Draw(t, key+"-empty") {
					p.Value = `""`
				}
			case k > 6 && len(bad) > 0:
				p.Bad = true
				p.Value = rapid.SampledFrom(bad).Draw(t, key)
			default:
				p.Value = rapid.SampledFrom(good).Draw(t, key)
			}
			return p
		}
		var goodNames, wrongNames []string
		for _, n := range append(jsonNames, c.Before...) {
			if apiName(n) {
				goodNames = append(goodNames, quote(n))
			}
		}
		for _, n := range append(badNames, oddNames...) {
			if n != "" && !apiName(n) {
				wrongNames = append(wrongNames, quote(n))
			}
		}
		c.Asks = kit.Seq(t, "asks", rapid.Custom(func(t *rapid.T) Ask {
			a := Ask{Method: rapid.SampledFrom([]string{"POST", "POST", "PUT", "PUT", "GET"}).Draw(t, "method"), Type: "application/json"}
			if a.Method != "POST" {
				a.Name = rapid.OneOf(rapid.SampledFrom(known), rapid.SampledFrom(known), rapid.StringMatching(`[a-zA-Z][a-zA-Z0-9_-]{0,20}`),
					rapid.SampledFrom([]string{"1", "-a", "a b", "é", "a.b", "9x", "_", "a\n", " a", "a'", "a\x00"})).Draw(t, "name")
			}
			if a.Method == "GET" {
				return a
			}
			if rapid.IntRange(0, 7).Draw(t, "raw") == 7 {
				a.Raw = []byte(rapid.SampledFrom([]string{"", "{", "[]", "null x", "true", `"a"`, "{}}", `{"name": 5}`, `{"name": "a", "dislikeFactor": "1"}`, `{"name":"a","type":"like","dislikeFactor":1e39}`,
					`{"name":"a","type":"like","dislikeFactor":1,"maxSimilarProfiles":-1}`, `{"name":"a","type":"like","dislikeFactor":1,"maxSimilarProfiles":18446744073709551616}`,
					`{"name":"a","type":"like","dislikeFactor":1`, "\xff\xfe", "name=a", "<a/>", `{"name":"a","type":"like","dislikeFactor":NaN}`, `[{"name":"a","type":"like","dislikeFactor":1}]`,
					`{"name":["a"],"type":"like","dislikeFactor":1}`, `{"name":"a","type":{},"dislikeFactor":true}`}).Draw(t, "body"))
				if string(a.Raw) == "{}}" {
					a.Raw = []byte("}")
				}
				a.Type = rapid.SampledFrom([]string{"application/json", "", "text/plain"}).Draw(t, "type")
				return a
			}
			parts := []Part{part(t, "name", true, goodNames, wrongNames),
				part(t, "dislikeFactor", true, []string{"0", "1", "0.5", "1e-3", "0.75"}, []string{"1.5", "-0.5", "2", "-1", "1e10", "100", "1.01", "-1e-3", "3e38"}),
				part(t, "maxSimilarProfiles", false, []string{"1", "2", "1000", "4294967296", "18446744073709551615"}, nil)}
			if a.Method == "POST" {
				var kinds []string
				for _, k := range []string{"Like", "LIKE", "like ", " like", "likes", "lik", "dislike", "rating", "l", "like\x00"} {
					kinds = append(kinds, quote(k))
				}
				parts = append(parts, part(t, "type", true, []string{`"like"`}, kinds))
			}
			a.Parts = rapid.Permutation(parts).Draw(t, "order")
			return a
		}), 1, 20)
		return c
	}
	kit.Main(t, "C30",
		"series of requests whose path, body and every field are drawn as valid, invalid, missing or malformed; the status and the explanation of every refusal are compared with the faults that were put in. Non-trivial: some request is refused.",
		kit.New("refusals", 4000, 80000, draw, run),
	)
}
