package prop

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// S is a string that survives JSON whatever bytes it holds.
type S string

// MarshalJSON writes valid UTF-8 as a string and the rest as {"b64":...}.
func (s S) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(string(s)) {
		return json.Marshal(string(s))
	}
	return json.Marshal(map[string]string{"b64": base64.StdEncoding.EncodeToString([]byte(s))})
}

// UnmarshalJSON is the inverse.
func (s *S) UnmarshalJSON(b []byte) error {
	if len(b) > 0 && b[0] == '{' {
		var m map[string]string
		if err := json.Unmarshal(b, &m); err != nil {
			return err
		}
		d, err := base64.StdEncoding.DecodeString(m["b64"])
		*s = S(d)
		return err
	}
	var x string
	if err := json.Unmarshal(b, &x); err != nil {
		return err
	}
	*s = S(x)
	return nil
}

// F is a float64 that survives JSON, infinities and NaN included.
type F float64

// MarshalJSON implements json.Marshaler.
func (f F) MarshalJSON() ([]byte, error) {
	x := float64(f)
	if math.IsNaN(x) || math.IsInf(x, 0) {
		return json.Marshal(fmt.Sprint(x))
	}
	return []byte(strconv.FormatFloat(x, 'g', -1, 64)), nil
}

// UnmarshalJSON implements json.Unmarshaler.
func (f *F) UnmarshalJSON(b []byte) error {
	s := string(b)
	if len(s) > 0 && s[0] == '"' {
		s = s[1 : len(s)-1]
	}
	x, err := strconv.ParseFloat(s, 64)
	*f = F(x)
	return err
}

// Pick draws one of the values.
func Pick[T any](t *rapid.T, label string, vs ...T) T {
	return rapid.SampledFrom(vs).Draw(t, label)
}

// Int draws an int in [lo,hi].
func Int(t *rapid.T, label string, lo, hi int) int {
	return rapid.IntRange(lo, hi).Draw(t, label)
}

// Bool draws a bool.
func Bool(t *rapid.T, label string) bool { return rapid.Bool().Draw(t, label) }

// OneIn is true about one time in n (and shrinks to false).
func OneIn(t *rapid.T, label string, n int) bool {
	return rapid.IntRange(0, n-1).Draw(t, label) == n-1
}

// Slice draws a slice of between lo and hi elements made by f.
func Slice[T any](t *rapid.T, label string, lo, hi int, f func(*rapid.T) T) []T {
	return rapid.SliceOfN(rapid.Custom(f), lo, hi).Draw(t, label)
}

// Bytes draws between lo and hi random bytes.
func Bytes(t *rapid.T, label string, lo, hi int) []byte {
	return rapid.SliceOfN(rapid.Byte(), lo, hi).Draw(t, label)
}

// Printable draws a string of printable ASCII bytes (0x20..0x7e).
func Printable(t *rapid.T, label string, lo, hi int) string {
	n := rapid.IntRange(lo, hi).Draw(t, label+"Len")
	b := make([]byte, n)
	if n <= 24 {
		for i := range b {
			b[i] = byte(rapid.IntRange(0x20, 0x7e).Draw(t, label))
		}
		return string(b)
	}
	// long strings: a repeated short pattern keeps generation and shrinking cheap
	pat := Printable(t, label, 1, 8)
	for i := range b {
		b[i] = pat[i%len(pat)]
	}
	return string(b)
}

// Errf is fmt.Errorf.
func Errf(format string, a ...interface{}) error { return fmt.Errorf(format, a...) }
