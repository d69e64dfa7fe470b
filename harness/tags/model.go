// Package tags checks the tag package: T01..T04.
package tags

import (
	"fmt"
	"sort"

	. "go.opencensus.io/verif/prop"
	"pgregory.net/rapid"
)

// Entry is one tag of the model: its value and whether it propagates.
type Entry struct {
	Val  string
	Prop bool
}

// Model is the reference tag map.
type Model map[string]Entry

func (m Model) clone() Model {
	o := Model{}
	for k, v := range m {
		o[k] = v
	}
	return o
}

func validStr(s string) bool {
	if len(s) > 255 {
		return false
	}
	for i := 0; i < len(s); i++ {
		if s[i] < 0x20 || s[i] > 0x7e {
			return false
		}
	}
	return true
}

func validKey(s string) bool { return s != "" && validStr(s) }

func rep(c byte, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = c
	}
	return string(b)
}

// keyUniverse are the key names histories draw from.
var keyUniverse = []string{"a", "b", "c", "d", "key with space", "~", " ", rep('k', 255), rep('x', 128), rep('x', 127)}

func genValue(t *rapid.T) string {
	switch Int(t, "valKind", 0, 9) {
	case 0:
		return ""
	case 1, 2, 3:
		return Pick(t, "v", "1", "2", "v1", "value")
	case 4:
		return rep(byte(Int(t, "fill", 0x20, 0x7e)), Pick(t, "vlen", 127, 128, 129, 254, 255))
	default:
		return Printable(t, "v", 0, 6)
	}
}

func genBadValue(t *rapid.T) S {
	switch Int(t, "badKind", 0, 5) {
	case 0:
		return S(rep('v', Pick(t, "vlen", 256, 257, 300, 512)))
	case 1:
		return S("a" + string(rune(Pick(t, "c", 0x00, 0x01, 0x0a, 0x1f, 0x7f))) + "b")
	case 2:
		return S("\xff\xfe")
	case 3:
		return S("h\u00e9llo")
	case 4:
		return S("\U0001F600")
	default:
		return S("ok\x7f")
	}
}

func sortedKeys(m Model) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// refDecode is the reference decoder of the binary tag format. It returns the
// entries in wire order, or ok=false when the input must be rejected.
func refDecode(b []byte) (entries [][2]string, ok bool) {
	if len(b) == 0 {
		return nil, true
	}
	if b[0] != 0 {
		return nil, false
	}
	b = b[1:]
	str := func() (string, bool) {
		var n uint64
		var shift uint
		i := 0
		for {
			if i >= len(b) || i >= 10 {
				return "", false
			}
			c := b[i]
			if i == 9 && c > 1 {
				return "", false
			}
			n |= uint64(c&0x7f) << shift
			shift += 7
			i++
			if c < 0x80 {
				break
			}
		}
		b = b[i:]
		if n > uint64(len(b)) {
			return "", false
		}
		s := string(b[:n])
		b = b[n:]
		return s, true
	}
	for len(b) > 0 {
		if b[0] != 0 {
			return nil, false
		}
		b = b[1:]
		k, ok := str()
		if !ok {
			return nil, false
		}
		v, ok := str()
		if !ok {
			return nil, false
		}
		if !validKey(k) || !validStr(v) {
			return nil, false
		}
		entries = append(entries, [2]string{k, v})
	}
	return entries, true
}

func show(s string) string {
	if len(s) > 40 {
		return fmt.Sprintf("%q...(%d bytes)", s[:20], len(s))
	}
	return fmt.Sprintf("%q", s)
}
