package api

import (
	"fmt"
	"os"
	"recengine/internal/api/shard"
	"recengine/vpbt/kit"
	"strconv"
	"strings"
	"testing"

	"pgregory.net/rapid"
)

// EnvCase is an environment with defaults.
type EnvCase struct {
	Host        []byte `json:"host"` // nil: unset
	Port        []byte `json:"port"`
	Default     bool   `json:"default"` // defaults are given
	DefaultHost string `json:"dhost"`
	DefaultPort int    `json:"dport"`
}

// ports returns the ports the value may stand for; ok if it must be taken.
func ports(s string) (port int, must, may bool) {
	sign := strings.HasPrefix(s, "+") || strings.HasPrefix(s, "-")
	digits := s
	if sign {
		digits = s[1:]
	}
	if digits == "" || strings.Trim(digits, "0123456789") != "" {
		return 0, false, false
	}
	n, err := strconv.ParseInt(digits, 10, 64)
	if err != nil || s[0] == '-' && n != 0 {
		return 0, false, false
	}
	// Whether a sign is all right is unspecified
	return int(n), !sign, true
}

func TestC26(t *testing.T) {
	run := func(x *kit.X, c EnvCase) {
		for _, v := range []struct {
			name  string
			value []byte
		}{{"REC_HOST", c.Host}, {"REC_PORT", c.Port}} {
			if v.value == nil {
				os.Unsetenv(v.name)
			} else if err := os.Setenv(v.name, string(v.value)); err != nil {
				kit.Fatal("setenv: %v", err)
			}
			defer os.Unsetenv(v.name)
		}
		var defaults *shard.Config
		host, port := "localhost", 8080
		if c.Default {
			defaults = &shard.Config{Host: c.DefaultHost, Port: c.DefaultPort}
			host, port = c.DefaultHost, c.DefaultPort
		}
		got := shard.NewConfigFromEnv(defaults)
		if got == nil {
			x.Failf("there is no configuration")
		}
		what := fmt.Sprintf("host %q port %q, defaults %v", c.Host, c.Port, defaults)
		if len(c.Host) > 0 {
			host = string(c.Host)
		}
		n, must, may := ports(string(c.Port))
		if must {
			port = n
		} else if may && got.Port == n {
			port = n
		}
		if got.Host != host || got.Port != port {
			x.Failf("%s: the configuration is %+v, expected host %q port %d", what, *got, host, port)
		}
		if addr := got.GetHostPort(); addr != host+":"+fmt.Sprint(port) {
			x.Failf("%s: the address is %q", what, addr)
		}
		if c.Default && (defaults.Host != c.DefaultHost || defaults.Port != c.DefaultPort) {
			x.Failf("%s: the defaults have changed", what)
		}
		if len(c.Port) > 0 && !must {
			x.Label("unusable port")
		} else if must {
			x.Label("usable port")
		}
		if len(c.Host) > 0 || len(c.Port) > 0 {
			x.NonTrivial()
		}
	}
	clean := func(s string) []byte { return []byte(strings.ReplaceAll(s, "\x00", "")) }
	kit.Main(t, "C26",
		"values of REC_HOST and REC_PORT (unset, empty, valid, other bases, signs, spaces, overflows, arbitrary bytes) with and without defaults of any values; compared with an independent reading. Non-trivial: a variable is set.",
		kit.New("environments", 60000, 1500000, func(t *rapid.T) EnvCase {
			c := EnvCase{Default: rapid.Bool().Draw(t, "default"), DefaultHost: rapid.OneOf(rapid.SampledFrom([]string{"", "localhost", "0.0.0.0"}), rapid.String()).Draw(t, "dhost"),
				DefaultPort: rapid.OneOf(rapid.SampledFrom([]int{0, 1, 8080, 65535, -1}), rapid.Int()).Draw(t, "dport")}
			if kit.Uniform(5).Draw(t, "nohost") > 0 {
				c.Host = clean(rapid.OneOf(rapid.SampledFrom([]string{"", "localhost", "127.0.0.1", "::1", "[::1]", " ", "a:b", "0.0.0.0", "example.com", ":", "-"}), rapid.String()).Draw(t, "host"))
			}
			if kit.Uniform(8).Draw(t, "noport") > 0 {
				c.Port = clean(rapid.OneOf(
					rapid.Map(rapid.IntRange(0, 65535), strconv.Itoa),
					rapid.Map(rapid.Int(), strconv.Itoa),
					rapid.SampledFrom([]string{"", "0", "1", "80", "8080", "65535", "65536", "-1", "+80", "-0", "007", "010", "0x1F", "0b11", "0o17", "1_000", "80 ", " 80", "80\n", "8e3", "8.0",
						"2147483648", "4294967296", "9223372036854775807", "9223372036854775808", "99999999999999999999", "-9223372036854775808", "٨٠", "８０", "a", "0a", "80a", "--1", "1-1", ":80", "NaN"}),
					rapid.StringMatching(`[+-]?[0-9]{1,25}`),
					rapid.String(),
					rapid.Custom(func(t *rapid.T) string { return string(kit.Bytes(t, "bytes", 0, 12)) }),
				).Draw(t, "port"))
			}
			return c
		}, run),
	)
}
