package genreplay

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"
)

// Rng is a splitmix64 generator.
type Rng struct{ s uint64 }

func (r *Rng) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *Rng) intn(n int) int { return int(r.next() % uint64(n)) }

// conc chooses concrete scalars for the tokens of a behaviour.
type conc struct {
	r      *Rng
	chosen map[string]any
}

func newConc(r *Rng) *conc { return &conc{r: r, chosen: map[string]any{}} }

var strs = []string{"abc", "x y", "null", "~", "true", "12", "1.5", "- a", "a: b", "#c", "a #b", "multi\nline\n", " lead", "trail ", "é世界",
	"\ttab", "'", "\"q\"", "\\", "[a]", "{", "&a", "*a", "!t", "%", "@", "`", ",", "2001-01-01", "<<", "---", "...", "?", ":", "k: |\n  v", "a\x01b", "\n", "=", "0x1F", "y", "Null", ".inf"}

func bits(kind string) int {
	for _, b := range []int{8, 16, 32, 64} {
		if strings.HasSuffix(kind, strconv.Itoa(b)) {
			return b
		}
	}
	return 64
}

func (c *conc) draw(kind string) any {
	r := c.r
	switch kind {
	case "string", "nstring", "text", "textstruct", "engine", "eiface":
		return strs[r.intn(len(strs))]
	case "bytes":
		return strs[r.intn(len(strs))]
	case "bytes4":
		return []string{"abcd", "null", "a: b", "    ", "1234", "é:x", "true"}[r.intn(7)]
	case "bool", "nbool":
		return true
	case "int", "int8", "int16", "int32", "int64", "nint8", "yamly", "iface":
		b := bits(kind)
		return []int64{1, -1, 42, math.MaxInt64 >> (64 - b), math.MinInt64 >> (64 - b), int64(r.next()) >> (64 - b)}[r.intn(6)]
	case "uint", "uint8", "uint16", "uint32", "uint64", "nuint":
		b := bits(kind)
		return []uint64{1, 42, math.MaxUint64 >> (64 - b), 1 << (b - 1), r.next() >> (64 - b)}[r.intn(5)]
	case "float32", "nfloat32":
		return []float64{1.5, -2.25, 3, 1e10, math.MaxFloat32, math.SmallestNonzeroFloat32, math.Inf(1), math.Inf(-1), float64(float32(0.1)), -16777216}[r.intn(10)]
	case "float64":
		return []float64{1.5, -2.25, 3, 1e21, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), 0.1, -9007199254740992, 1e-7}[r.intn(11)]
	case "time":
		t := time.Date(1+r.intn(9998), time.Month(1+r.intn(12)), 1+r.intn(28), r.intn(24), r.intn(60), r.intn(60), 0, time.UTC)
		switch r.intn(3) {
		case 0:
			t = t.Add(time.Duration(r.intn(1000000000)))
		case 1:
			t = time.Date(t.Year(), t.Month(), t.Day(), 0, 0, 0, 0, time.UTC)
		}
		return t
	case "any":
		return []any{"text", true, 1.5, "a b"}[r.intn(4)]
	}
	panic("kind " + kind)
}

func zeroOf(kind string) any {
	switch kind {
	case "string", "nstring", "text", "textstruct", "engine", "eiface", "bytes", "any":
		return ""
	case "bytes4":
		return "\x00\x00\x00\x00"
	case "bool", "nbool":
		return false
	case "float32", "float64", "nfloat32":
		return 0.0
	case "time":
		return time.Time{}
	case "uint", "uint8", "uint16", "uint32", "uint64", "nuint":
		return uint64(0)
	}
	return int64(0)
}

// scalar gives the concrete scalar for a token; the same within one behaviour.
func (c *conc) scalar(kind, tok string) any {
	if tok == "zero" {
		return zeroOf(kind)
	}
	k := kind + "/" + tok
	if v, ok := c.chosen[k]; ok {
		return v
	}
	v := c.draw(kind)
	for i := 0; i < 100; i++ {
		if v != zeroOf(kind) && v != c.chosen[kind+"/a"] && v != c.chosen[kind+"/b"] {
			break
		}
		v = c.draw(kind)
	}
	c.chosen[k] = v
	return v
}

func (c *conc) key(kind, tok string) any {
	if kind == "string" && tok[0] == 'k' {
		return tok
	}
	if kind == "bool" {
		return tok == "a"
	}
	return c.scalar(kind, tok)
}

func (c *conc) misfit(kind string) string {
	pick := func(s ...string) string { return s[c.r.intn(len(s))] }
	b := bits(kind)
	switch kind {
	case "bool", "nbool":
		return pick("abc", "12", "1.5", "truee", "'nope'")
	case "int", "int8", "int16", "int32", "int64", "nint8":
		return pick("abc", "1.5", "true", "1e", new(bigPow).pow(b-1, 0), "-"+new(bigPow).pow(b-1, 1), new(bigPow).pow(b, 0), "99999999999999999999999")
	case "yamly", "iface":
		return pick("abc", "1.5", "9223372036854775808")
	case "uint", "uint8", "uint16", "uint32", "uint64", "nuint":
		return pick("abc", "-1", "1.5", "true", new(bigPow).pow(b, 0), "99999999999999999999999")
	case "float32", "nfloat32":
		return pick("abc", "true", "1e300", "-3.5e38", "1.2.3")
	case "float64":
		return pick("abc", "true", "1e999", "1.2.3")
	case "time":
		return pick("abc", "12", "true", "2001-13-01", "2001-02-30", "1.5")
	case "text", "textstruct", "engine", "eiface":
		return pick("abc", "'x:y'", "12")
	}
	panic("misfit " + kind)
}

// bigPow writes 2^n + d.
type bigPow struct{}

func (*bigPow) pow(n, d int) string {
	if n < 63 {
		return strconv.FormatInt(1<<n+int64(d), 10)
	}
	if n == 63 {
		return strconv.FormatUint(1<<63+uint64(d), 10)
	}
	return "1844674407370955161" + strconv.Itoa(6+d)
}

// text of a scalar in a document.
func (c *conc) text(kind string, v any) string {
	switch x := v.(type) {
	case string:
		switch kind {
		case "text":
			x = "t:" + x
		case "textstruct":
			x = "s:" + x
		case "engine", "eiface":
			x = "e:" + x
		}
		return c.quote(x)
	case bool:
		return strconv.FormatBool(x)
	case int64:
		return strconv.FormatInt(x, 10)
	case uint64:
		return strconv.FormatUint(x, 10)
	case float64:
		switch {
		case math.IsInf(x, 1):
			return []string{".inf", "+.inf", ".Inf"}[c.r.intn(3)]
		case math.IsInf(x, -1):
			return "-.inf"
		}
		return strconv.FormatFloat(x, []byte{'g', 'e'}[c.r.intn(2)], -1, 64)
	case time.Time:
		if x.Hour() == 0 && x.Minute() == 0 && x.Second() == 0 && x.Nanosecond() == 0 && c.r.intn(2) == 0 {
			return x.Format("2006-01-02")
		}
		if x.Year() > 1 && x.Year() < 9998 && c.r.intn(2) == 0 {
			x = x.In(time.FixedZone("", (c.r.intn(23)-11)*3600))
		}
		return x.Format(time.RFC3339Nano)
	}
	panic(fmt.Sprintf("%T", v))
}

func (c *conc) quote(s string) string {
	plain := len(s) > 0
	for _, ch := range s {
		if !(ch >= 'a' && ch <= 'z') {
			plain = false
		}
	}
	if plain && s != "null" && s != "true" && s != "y" && c.r.intn(2) == 0 {
		return s
	}
	if !strings.ContainsAny(s, "\n\t\x00\x01") && c.r.intn(2) == 0 {
		return "'" + strings.ReplaceAll(s, "'", "''") + "'"
	}
	var b strings.Builder
	b.WriteByte('"')
	for _, ch := range s {
		switch {
		case ch == '"' || ch == '\\':
			b.WriteByte('\\')
			b.WriteRune(ch)
		case ch == '\n':
			b.WriteString("\\n")
		case ch < 32:
			fmt.Fprintf(&b, "\\x%02x", ch)
		default:
			b.WriteRune(ch)
		}
	}
	b.WriteByte('"')
	return b.String()
}
