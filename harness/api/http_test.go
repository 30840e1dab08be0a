package api

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/big"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"recengine/internal/domain"
	"recengine/internal/domain/valueobjects"
	"recengine/vpbt/kit"
	"strconv"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

func itoa(s Settings) string { return fmt.Sprintf("limit %d factor %v", s.Limit, s.Factor) }

// Call is an HTTP request.
type Call struct {
	Method string `json:"method"`
	List   bool   `json:"list,omitempty"`  // of the collection rather than of one namespace
	Name   []byte `json:"name,omitempty"`  // path parameter
	Other  string `json:"other,omitempty"` // another path
	Body   []byte `json:"body,omitempty"`
	Type   string `json:"type,omitempty"`   // content type
	Shard  int    `json:"shard,omitempty"`  // which of the two services
	Chunks bool   `json:"chunks,omitempty"` // the body comes byte by byte, its length unknown
	Quoted int    `json:"quoted,omitempty"` // every so many characters of the path parameter are percent-encoded needlessly
}

// HTTPCase is a sequence of requests.
type HTTPCase struct {
	Before []string `json:"before"` // namespaces registered otherwise
	Crowd  int      `json:"crowd"`  // more of them
	Calls  []Call   `json:"calls"`
}

// verdict on a request body
type verdict int

const (
	reject verdict = iota
	accept
	either // unspecified
)

// wanted is what a request body asks for.
type wanted struct {
	name     string
	settings Settings
	exact    bool // the effect of an unspecified body is known
}

func apiName(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= 'a' && c <= 'z') && (i == 0 || !(c >= '0' && c <= '9')) {
			return false
		}
	}
	return s != ""
}

// judge decides on a body, independently of the validation under test.
func judge(body []byte, create bool) (verdict, wanted) {
	known := map[string]bool{"name": true, "maxSimilarProfiles": true, "dislikeFactor": true}
	if create {
		known["type"] = true
	}
	var w wanted
	dec := json.NewDecoder(bytes.NewReader(body))
	dec.UseNumber()
	var raw json.RawMessage
	if err := dec.Decode(&raw); err != nil {
		return reject, w
	}
	loose := len(bytes.TrimSpace(body[dec.InputOffset():])) > 0 // something follows
	trimmed := bytes.TrimSpace(raw)
	if len(trimmed) == 0 || trimmed[0] != '{' {
		return reject, w
	}
	// Fields
	inner := json.NewDecoder(bytes.NewReader(raw))
	inner.UseNumber()
	inner.Token()
	fields := map[string]json.RawMessage{}
	for inner.More() {
		key, err := inner.Token()
		if err != nil {
			return reject, w
		}
		var value json.RawMessage
		if err := inner.Decode(&value); err != nil {
			return reject, w
		}
		k := key.(string)
		_, twice := fields[k]
		if !known[k] || twice {
			loose = true
		}
		for name := range known {
			if k != name && strings.EqualFold(k, name) {
				loose = true // an unspecified effect, too
				return either, w
			}
		}
		if twice && known[k] {
			return either, w
		}
		fields[k] = bytes.TrimSpace(value)
	}
	w.exact = true
	get := func(k string) (any, bool) {
		v, has := fields[k]
		if !has || string(v) == "null" {
			return nil, false
		}
		d := json.NewDecoder(bytes.NewReader(v))
		d.UseNumber()
		var out any
		if err := d.Decode(&out); err != nil {
			return nil, true
		}
		return out, true
	}
	bad, unsure := false, loose
	name, _ := get("name")
	if s, ok := name.(string); ok && apiName(s) {
		w.name = s
	} else {
		bad = true
	}
	if create {
		kind, _ := get("type")
		if s, ok := kind.(string); !ok || s != "like" {
			bad = true
		}
	}
	w.settings.Limit = defaultLimit
	if limit, has := get("maxSimilarProfiles"); has {
		n, ok := limit.(json.Number)
		if !ok {
			bad = true
		} else if v, err := strconv.ParseUint(string(n), 10, 64); err == nil {
			if v == 0 {
				unsure = true // the default
			} else {
				w.settings.Limit = v
			}
		} else if r, ok := new(big.Rat).SetString(string(n)); ok && len(n) < 100 && r.IsInt() && r.Sign() >= 0 && r.Num().IsUint64() {
			// 1.0, 1e3, -0
			unsure = true
			if r.Sign() > 0 {
				w.settings.Limit = r.Num().Uint64()
			}
		} else {
			bad = true
		}
	} else if _, null := fields["maxSimilarProfiles"]; null {
		unsure = true
	}
	factor, _ := get("dislikeFactor")
	if n, ok := factor.(json.Number); !ok {
		bad = true
	} else if v, err := strconv.ParseFloat(string(n), 64); err != nil {
		bad = true // out of range
	} else {
		w.settings.Factor = float32(v)
		switch {
		case v < -1e-30 || v > 1.000001:
			bad = true
		case v < 0 || v > 1 || v == 0 && n[0] == '-' || v > 0 && v < 1e-30:
			unsure, w.exact = true, false // single precision makes it valid
		}
	}
	if bad {
		return reject, w
	}
	if unsure {
		return either, w
	}
	return accept, w
}

type byteByByte struct{ data []byte }

func (b *byteByByte) Read(p []byte) (int, error) {
	if len(b.data) == 0 {
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	p[0] = b.data[0]
	b.data = b.data[1:]
	return 1, nil
}

const collection = "/api/v1/namespaces"

func (c *Call) request() *http.Request {
	r := httptest.NewRequest("GET", "http://localhost/", nil)
	r.Method = c.Method
	path := collection
	if c.Other != "" {
		path = c.Other
	} else if !c.List {
		path += "/" + string(c.Name)
	}
	r.URL = &url.URL{Path: path}
	if c.Quoted > 0 && strings.HasSuffix(path, string(c.Name)) && !bytes.Contains(c.Name, []byte("/")) {
		raw := collection + "/"
		for i, b := range c.Name {
			if i%c.Quoted == 0 || url.PathEscape(string(b)) != string(b) {
				raw += fmt.Sprintf("%%%02X", b)
			} else {
				raw += string(b)
			}
		}
		r.URL.RawPath = raw
	}
	r.RequestURI = r.URL.RequestURI()
	if c.Chunks {
		r.Body, r.ContentLength = io.NopCloser(&byteByByte{c.Body}), -1
	} else {
		r.Body, r.ContentLength = io.NopCloser(bytes.NewReader(c.Body)), int64(len(c.Body))
	}
	if c.Type != "" {
		r.Header.Set("Content-Type", c.Type)
	}
	return r
}

func (c *Call) text() string {
	body := string(c.Body)
	if len(body) > 300 {
		body = body[:300] + "..."
	}
	return fmt.Sprintf("%s %s %q", c.Method, c.request().URL.Path, body)
}

func describes(x *kit.X, v any, name string, s Settings) string {
	m, ok := v.(map[string]any)
	if !ok {
		return fmt.Sprintf("is %v", v)
	}
	limit, _ := m["maxSimilarProfiles"].(json.Number)
	if m["name"] != name || m["type"] != "like" || string(limit) != strconv.FormatUint(s.Limit, 10) {
		return fmt.Sprintf("describes %v, expected %s limit %d", m, name, s.Limit)
	}
	return ""
}

func TestC18(t *testing.T) {
	run := func(x *kit.X, c HTTPCase) {
		type server struct {
			dir     string
			svc     *domain.NamespaceService
			handler http.Handler
			model   map[string]Settings
		}
		servers := [2]*server{}
		serve := func(i int) *server {
			if servers[i] == nil {
				dir := filepath.Join(x.Dir(), fmt.Sprintf("data%d", i))
				if err := os.Mkdir(dir, 0755); err != nil {
					kit.Fatal("mkdir: %v", err)
				}
				svc := service(dir)
				s := &server{dir: dir, svc: svc, model: map[string]Settings{}}
				if i == 0 {
					for k, n := range append(crowd(c.Crowd), c.Before...) {
						name, err := valueobjects.ParseNamespaceName(n)
						if err != nil {
							kit.Fatal("name: %v", err)
						}
						set := Settings{uint64(k + 1), 0.5}
						if _, err := svc.CreateNamespace(&domain.NamespaceCreateRequest{Name: name, Type: valueobjects.MakeLikeNamespaceType(),
							MaxSimilarProfiles: uint(set.Limit), DislikeFactor: set.Factor}); err != nil {
							x.Failf("creating %s: %v", n, err)
						}
						s.model[n] = set
					}
				}
				s.handler = router(svc)
				servers[i] = s
			}
			return servers[i]
		}
		changes, refusals := 0, 0
		for i, call := range c.Calls {
			srv := serve(call.Shard % 2)
			dir, svc, handler, model := srv.dir, srv.svc, srv.handler, srv.model
			when := fmt.Sprintf("request %d: %s", i, call.text())
			resp := httptest.NewRecorder()
			handler.ServeHTTP(resp, call.request())
			status := resp.Code
			ok := status >= 200 && status < 300
			if !ok && (status < 400 || status > 499) {
				x.Failf("%s: status %d", when, status)
			}
			var reply any
			if ok {
				dec := json.NewDecoder(resp.Body)
				dec.UseNumber()
				if err := dec.Decode(&reply); err != nil {
					x.Failf("%s: the response isn't JSON: %v", when, err)
				}
			}
			after := map[string]Settings{}
			for k, v := range model {
				after[k] = v
			}
			name := string(call.Name)
			expect, free := reject, false
			switch {
			case call.Other != "":
			case call.Method == "GET" && call.List:
				if !ok {
					x.Failf("%s: status %d", when, status)
				}
				list, isList := reply.([]any)
				if !isList || len(list) != len(model) {
					x.Failf("%s: lists %v, expected %s", when, reply, text(model))
				}
				seen := map[string]bool{}
				for _, e := range list {
					m, _ := e.(map[string]any)
					n, _ := m["name"].(string)
					s, has := model[n]
					if !has || seen[n] {
						x.Failf("%s: lists %v, expected %s", when, reply, text(model))
					}
					seen[n] = true
					if bad := describes(x, e, n, s); bad != "" {
						x.Failf("%s: the response %s", when, bad)
					}
				}
				expect = accept
			case call.Method == "GET":
				s, has := model[name]
				if has {
					expect = accept
					if ok {
						if bad := describes(x, reply, name, s); bad != "" {
							x.Failf("%s: the response %s", when, bad)
						}
					}
				}
			case call.Method == "POST" && call.List || call.Method == "PUT" && !call.List:
				var w wanted
				create := call.Method == "POST"
				expect, w = judge(call.Body, create)
				_, taken := model[w.name]
				if !create {
					_, has := model[name]
					if !has {
						expect = reject
					}
					taken = taken && name != w.name
				}
				if taken {
					if expect == accept || w.exact {
						expect = reject
					}
				}
				if expect == either && !w.exact {
					free = true
				}
				if ok && expect != reject {
					if !create {
						delete(after, name)
					}
					after[w.name] = w.settings
					changes++
					if !free {
						if bad := describes(x, reply, w.name, w.settings); bad != "" {
							x.Failf("%s: the response %s", when, bad)
						}
					}
				}
			}
			if expect == accept && !ok {
				x.Failf("%s: status %d (%s), though the request is valid, having %s", when, status, resp.Body, text(model))
			}
			if expect == reject && ok {
				x.Failf("%s: status %d, though the request is invalid, having %s", when, status, text(model))
			}
			if !ok {
				refusals++
			}
			now := registered(svc)
			if free && ok {
				after = now
			}
			if !near(now, after) {
				x.Failf("%s: status %d, the namespaces are %s, expected %s", when, status, text(now), text(after))
			}
			model = now
			srv.model = now
			if i == len(c.Calls)-1 || ok && call.Method != "GET" {
				if saved := reloaded(x, dir); !same(saved, model) {
					x.Failf("%s: status %d, the saved namespaces are %s, expected %s", when, status, text(saved), text(model))
				}
			}
			x.Label(map[verdict]string{accept: "valid requests", reject: "invalid requests", either: "unspecified requests"}[expect])
		}
		if changes > 0 && refusals > 0 {
			x.NonTrivial()
		}
	}
	kit.Main(t, "C18",
		"sequences of HTTP requests to the routes of the service: valid ones, valid ones with any part damaged, JSON of any shape, raw bytes, any path parameter, method and content type; an independent judge says for every body whether it must be accepted, rejected, or is unspecified; statuses, responses, the registry and the saved file are compared with a map. Non-trivial: at least one change and one refusal.",
		kit.New("requests", 5000, 100000, drawHTTP, run),
		kit.New("multitude", 6, 120, drawMultitude, run),
	)
}

// near compares up to the rounding to single precision.
func near(a, b map[string]Settings) bool {
	for k, v := range a {
		if w, ok := b[k]; !ok || v.Limit != w.Limit || math.Abs(float64(v.Factor-w.Factor)) > 1e-6*math.Abs(float64(w.Factor)) {
			return false
		}
	}
	return len(a) == len(b)
}

// crowd names many namespaces.
func crowd(n int) []string {
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, fmt.Sprintf("crowd%d", i))
	}
	return l
}

// Generators

var jsonNames = []string{"a", "b", "ns1", "like", "x9y8", "abcdefghij"}

func drawJSONName(t *rapid.T) string {
	return rapid.OneOf(
		rapid.SampledFrom(jsonNames), rapid.SampledFrom(jsonNames), rapid.SampledFrom(jsonNames),
		rapid.StringMatching(`[a-z][a-z0-9]{0,20}`),
		rapid.Custom(func(t *rapid.T) string {
			if kit.Uniform(8).Draw(t, "long") > 0 {
				return rapid.SampledFrom(jsonNames).Draw(t, "name")
			}
			return "long" + strings.Repeat("x1", 1<<kit.Uniform(13).Draw(t, "length"))
		}),
	).Draw(t, "name")
}

func quote(s string) string {
	b, _ := json.Marshal(s)
	return string(b)
}

func drawFactor(t *rapid.T) string {
	return rapid.OneOf(
		rapid.SampledFrom([]string{"0", "1", "0.5", "0.0", "1.0", "1e-5", "10e-1", "0.25", "1E0", "0e5", "0.999"}),
		rapid.Map(rapid.Float64Range(0.0001, 0.999), func(f float64) string { return strconv.FormatFloat(f, 'g', -1, 64) }),
	).Draw(t, "factor")
}

func drawLimit(t *rapid.T) string {
	return strconv.FormatUint(rapid.OneOf(rapid.Uint64Range(1, 5000), rapid.SampledFrom([]uint64{1, 999, 1000, 1 << 31, 1 << 32, 1<<53 + 1, 1<<63 - 1, 1 << 63, 1<<64 - 1}),
		rapid.Uint64Range(1, 1<<64-1)).Draw(t, "limit"), 10)
}

type field struct{ key, value string }

func drawFields(t *rapid.T, create bool) []field {
	fields := []field{{"name", quote(drawJSONName(t))}, {"dislikeFactor", drawFactor(t)}}
	if create {
		fields = append(fields, field{"type", `"like"`})
	}
	if rapid.Bool().Draw(t, "limited") {
		fields = append(fields, field{"maxSimilarProfiles", drawLimit(t)})
	}
	return rapid.Permutation(fields).Draw(t, "order")
}

func object(t *rapid.T, fields []field) []byte {
	space := rapid.SampledFrom([]string{"", "", " ", "\n\t"}).Draw(t, "space")
	if kit.Uniform(40).Draw(t, "padded") == 0 {
		space = strings.Repeat(" ", 1<<(4+kit.Uniform(10).Draw(t, "padding")))
	}
	var parts []string
	for _, f := range fields {
		parts = append(parts, quote(f.key)+space+":"+space+f.value)
	}
	return []byte(space + "{" + space + strings.Join(parts, space+","+space) + space + "}" + space)
}

var badValues = []string{"null", "true", "false", "{}", "[]", `""`, `"a"`, "0", "-1", "1", "-0", "1.5", "1.0", "1e3", "1e400", "-1e400", "1e-400", "2", "1.1", "-0.1",
	"18446744073709551615", "18446744073709551616", "-9223372036854775808", "99999999999999999999999999", `"0.5"`, `"1"`, "0.50000001", `["a"]`, `{"a":1}`, "NaN", "Infinity", "01", "+1", ".5", "1.", "tru", "1e39", "3.5e38", "1.01"}

// Names of namespaces that are valid, but not for requests.
var oddNames = []string{"A", "NS", "Ns1", "x-y", "x_y", "a-", "B_9", "nS1"}

var badNames = []string{"", "A", "aB", "Ab", "1", "1a", "9", "-a", "a-b", "a_b", "_", "a b", " a", "a ", "a\n", "\na", "a\x00", "é", "aé", "ж", "名", "a.b", "../a", "a/b", "a\\b", "%61",
	"\u00aa", "a\u0661", "\u212a", "ａ", "null", "like\u0000", strings.Repeat("a", 300) + "A", "a\u0301", "\ufeffa", "a'", "a\"", "a;", "ß", "ª", "²", "a²"}

func randomJSON(t *rapid.T, depth int) string {
	switch k := kit.Uniform(9).Draw(t, "json"); {
	case k < 3 || depth == 0:
		return rapid.SampledFrom(badValues).Draw(t, "scalar")
	case k < 4:
		return quote(rapid.String().Draw(t, "string"))
	case k < 6:
		var parts []string
		for i := kit.Uniform(4).Draw(t, "n"); i > 0; i-- {
			parts = append(parts, randomJSON(t, depth-1))
		}
		return "[" + strings.Join(parts, ",") + "]"
	}
	var parts []string
	for i := kit.Uniform(4).Draw(t, "n"); i > 0; i-- {
		key := rapid.OneOf(rapid.SampledFrom([]string{"name", "type", "dislikeFactor", "maxSimilarProfiles", "", "Name", "x"}), rapid.String()).Draw(t, "key")
		parts = append(parts, quote(key)+":"+randomJSON(t, depth-1))
	}
	return "{" + strings.Join(parts, ",") + "}"
}

func drawBody(t *rapid.T, create bool) []byte {
	fields := drawFields(t, create)
	switch k := kit.Uniform(24).Draw(t, "body"); {
	case k < 10:
		return object(t, fields)
	case k < 15: // a field damaged
		i := kit.Uniform(len(fields)).Draw(t, "which")
		fields[i].value = rapid.SampledFrom(badValues).Draw(t, "value")
		return object(t, fields)
	case k < 18: // a bad name or type
		for i := range fields {
			if fields[i].key == "name" && k < 17 {
				fields[i].value = quote(rapid.SampledFrom(badNames).Draw(t, "name"))
			}
			if fields[i].key == "type" && k == 17 {
				fields[i].value = quote(rapid.SampledFrom([]string{"", "Like", "LIKE", "like ", " like", "likes", "lik", "dislike", "rating", "l", "like\x00", "like\n"}).Draw(t, "type"))
			}
		}
		return object(t, fields)
	case k < 19: // a field missing, or twice, or more of them
		i := kit.Uniform(len(fields)).Draw(t, "which")
		return object(t, append(fields[:i:i], fields[i+1:]...))
	case k < 20:
		extra := field{rapid.SampledFrom([]string{"x", "id", "Name", "NAME", "name", "type", "dislikeFactor", "basePath", ""}).Draw(t, "key"), rapid.SampledFrom(append([]string{`"b"`, `"like"`}, badValues...)).Draw(t, "value")}
		return object(t, append(fields, extra))
	case k < 21: // damaged bytes
		b := object(t, fields)
		i := kit.Uniform(len(b)).Draw(t, "at")
		switch kit.Uniform(3).Draw(t, "how") {
		case 0:
			return b[:i]
		case 1:
			b[i] = rapid.SampledFrom([]byte{0, '"', '{', '}', ',', ':', '\\', 0xff, 'A', '1', '-', '.'}).Draw(t, "byte")
			return b
		}
		return append(b[:i:i], b[i+1:]...)
	case k < 22:
		return kit.Bytes(t, "raw", 0, 60)
	case k < 23:
		unit := rapid.SampledFrom([]string{"[", "{\"name\":", "{\"name\":[", " ", "\"", "[[],", "9", "{}"}).Draw(t, "unit")
		return []byte(strings.Repeat(unit, kit.Size(t, "n", 12000)))
	}
	return []byte(randomJSON(t, 4))
}

// drawMultitude draws a few requests to a service having very many namespaces.
func drawMultitude(t *rapid.T) HTTPCase {
	c := drawHTTP(t)
	c.Crowd = rapid.IntRange(1000, 1500).Draw(t, "multitude")
	if len(c.Calls) > 5 {
		c.Calls = c.Calls[:5]
	}
	c.Calls = append(c.Calls, Call{Method: "GET", List: true, Type: "application/json"})
	return c
}

func drawHTTP(t *rapid.T) HTTPCase {
	param := rapid.OneOf(
		rapid.SampledFrom(jsonNames), rapid.SampledFrom(jsonNames), rapid.SampledFrom(jsonNames),
		rapid.StringMatching(`[a-z][a-z0-9]{0,20}`),
		rapid.SampledFrom(badNames), rapid.SampledFrom([]string{"A", "x-y", "..", ".", ":namespace", "*", "a?b", "a#b", "a%zz", "a//b", "a/../b"}),
		rapid.String(),
		rapid.Custom(func(t *rapid.T) string { return string(kit.Bytes(t, "param", 1, 20)) }),
	)
	c := HTTPCase{}
	if rapid.IntRange(0, 2).Draw(t, "some") == 2 {
		c.Before = rapid.SliceOfNDistinct(rapid.SampledFrom(oddNames), 1, 4, rapid.ID[string]).Draw(t, "before")
		odd := rapid.SampledFrom(c.Before)
		param = rapid.OneOf(param, param, odd, odd)
	}
	if rapid.IntRange(0, 9).Draw(t, "crowded") == 9 {
		c.Crowd = kit.Size(t, "crowd", 150)
		param = rapid.OneOf(param, param, rapid.SampledFrom(crowd(c.Crowd)))
	}
	two := rapid.IntRange(0, 3).Draw(t, "two") == 3
	c.Calls = kit.Seq(t, "calls", rapid.Custom(func(t *rapid.T) Call {
		c := Call{Type: "application/json"}
		if two {
			c.Shard = kit.Uniform(2).Draw(t, "shard")
		}
		switch k := kit.Uniform(20).Draw(t, "k"); {
		case k < 8:
			c.Method, c.List, c.Body = "POST", true, drawBody(t, true)
		case k < 13:
			c.Method, c.Body = "PUT", drawBody(t, false)
		case k < 16:
			c.Method = "GET"
		case k < 18:
			c.Method, c.List = "GET", true
		case k < 19:
			c.Method = rapid.SampledFrom([]string{"DELETE", "PATCH", "OPTIONS", "TRACE", "POST"}).Draw(t, "method")
			c.Body = drawBody(t, true)
		default:
			c.Method = rapid.SampledFrom([]string{"GET", "POST", "PUT"}).Draw(t, "method")
			c.Body = drawBody(t, true)
			c.Other = rapid.SampledFrom([]string{"/", "/api", "/api/v1", "/api/v2/namespaces", "/api/v1/namespace", "/api/v1/namespaces/a/b", "/API/V1/NAMESPACES", "/swagger", "/api/v1/namespacesx"}).Draw(t, "other")
		}
		if !c.List && c.Other == "" {
			name := strings.TrimRight(param.Draw(t, "param"), "/")
			if name == "" || strings.HasPrefix(name, "/") {
				name = "/x"
			}
			c.Name = []byte(name)
			if kit.Uniform(6).Draw(t, "quoting") == 0 {
				c.Quoted = rapid.IntRange(1, 3).Draw(t, "quoted")
			}
		}
		if (c.Method == "PUT" && c.List) || (c.Method == "POST" && !c.List) {
			c.Method = "DELETE"
		}
		if v, _ := judge(c.Body, c.Method == "POST"); v == accept {
			// The type tells nothing new: only JSON is accepted
			c.Type = rapid.SampledFrom([]string{"application/json", "application/json", "application/json", "application/json; charset=utf-8", "Application/JSON", "",
				"text/plain", "application/x-www-form-urlencoded", "multipart/form-data"}).Draw(t, "type")
		} else {
			c.Type = rapid.SampledFrom([]string{"application/json", "application/json", "", "text/plain", "application/x-www-form-urlencoded", "multipart/form-data", "application/xml", "\x00"}).Draw(t, "type")
		}
		c.Chunks = kit.Uniform(5).Draw(t, "chunks") == 0
		return c
	}), 1, 25)
	return c
}
