package main

import (
	"bytes"
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/KSpaceer/yamly"
	goyamldec "github.com/KSpaceer/yamly/engines/goyaml/decode"
	goyamlenc "github.com/KSpaceer/yamly/engines/goyaml/encode"
	yaydec "github.com/KSpaceer/yamly/engines/yayamls/decode"
	yayenc "github.com/KSpaceer/yamly/engines/yayamls/encode"
	"gopkg.in/yaml.v3"
)

// val is a concrete value tree: what a document means.
type val struct {
	kind string // int uint bool float str ts null seq map
	i    int64
	u    uint64
	b    bool
	f    float64
	s    string
	t    time.Time
	c    []*val // entries; key, value, key, value... for a mapping
}

func (v *val) String() string {
	switch v.kind {
	case "int":
		return fmt.Sprintf("int(%d)", v.i)
	case "uint":
		return fmt.Sprintf("uint(%d)", v.u)
	case "bool":
		return fmt.Sprintf("bool(%v)", v.b)
	case "float":
		return fmt.Sprintf("float(%v)", v.f)
	case "str":
		return fmt.Sprintf("str(%q)", v.s)
	case "ts":
		return "ts(" + v.t.Format(time.RFC3339Nano) + ")"
	case "null":
		return "null"
	}
	var parts []string
	for _, c := range v.c {
		parts = append(parts, c.String())
	}
	return v.kind + "[" + strings.Join(parts, ", ") + "]"
}

var (
	poolInts   = []int64{0, 1, -1, 7, -42, 1000000, math.MaxInt64, math.MinInt64, math.MaxInt32, -128, 8, 10}
	poolUints  = []uint64{0, 1, 255, math.MaxUint64, 1 << 63, 1<<63 - 1, 65536}
	poolFloats = []float64{
		0, 1.5, -2.25, 1e300, 5e-324, 0.1, math.Inf(1), math.Inf(-1), math.NaN(), 1e21,
		123456789.125, math.MaxFloat64, math.SmallestNonzeroFloat64, -0.5, 3,
	}
	poolStrings = []string{
		"", " ", "x", "a b", "null", "~", "Null", "true", "False", "12", "-7", "0x1F", "0o17", "1.5", ".inf", ".nan",
		"2020-01-01", "2020-01-02T03:04:05Z", "- a", "a: b", "a:", ":a", "#c", "a #b", "a#b", `"`, `'`, `\`, `\n`, `"q"`, `'q'`,
		"\n", "a\nb", "a\n", "\na", "a\n\nb\n", "\ta", "a\t", "a\tb", "é", "日本語", "\u0000", "\a", "\u0085", "\u00a0",
		"\u2028", "\u2029", "\ufeff", "😀", "---", "...", "--- a", "&a", "*a", "!t", "!!str x", "%d", "%YAML 1.2", "@", "`",
		"[", "]", "{", "}", ",", "?", ":", "|", ">", "<<", "=", "\r", "a\r\nb", "a ", " a", "  a  b  ", "[a, b]", "{a: b}",
		"? a", "a, b", "\x1b[0m", "\x7f", "\u009f", "a\\\nb", "x\\", `\x41`, `\u0041`, `\"`, "it's", `say "hi"`,
		strings.Repeat("long text ", 30), strings.Repeat("x", 300), "a\n  b\n c", "\n\n", " \n ", "a: b\nc: d", "- a\n- b",
		"key\u00a0with\u2003spaces", "\U0010ffff", "\ue000", "+", "-", "+1", "1_000", "0b11", "1e3", "yes", "on", "y",
	}
	poolTimes = []time.Time{
		time.Date(2001, 12, 14, 21, 59, 43, 0, time.UTC),
		time.Date(2020, 1, 2, 3, 4, 5, 600, time.UTC),
		time.Date(1, 1, 1, 0, 0, 0, 0, time.UTC),
		time.Date(9999, 12, 31, 23, 59, 59, 999999999, time.UTC),
		time.Date(2023, 6, 1, 12, 0, 0, 500000000, time.FixedZone("", 3*3600+1800)),
		time.Date(1969, 7, 20, 20, 17, 40, 0, time.FixedZone("", -5*3600)),
	}
	// raw documents together with their meaning
	poolRaws = []struct {
		text string
		v    *val
	}{
		{"[1, x]", seqOf(intv(1), strv("x"))},
		{"k: v\n", mapOf(strv("k"), strv("v"))},
		{"- 1\n- - a\n  - b\n", seqOf(intv(1), seqOf(strv("a"), strv("b")))},
		{"a: 1\nb:\n  c: true\n", mapOf(strv("a"), intv(1), strv("b"), mapOf(strv("c"), boolv(true)))},
		{"plain", strv("plain")},
		{"\"q: 1\"", strv("q: 1")},
		{"17", intv(17)},
		{"null", nullv()},
		{"{}", mapOf()},
		{"[]", seqOf()},
		{"# comment\n[a] # tail\n", seqOf(strv("a"))},
		{"--- x\n", strv("x")},
		{"|\n  one\n  two\n", strv("one\ntwo\n")},
		{"{a: [b, {c: d}]}", mapOf(strv("a"), seqOf(strv("b"), mapOf(strv("c"), strv("d"))))},
	}
	poolBadRaws = []string{"[", "{a: b", "a: [1,", "\"x", "a: b: c", "- a\nb: c", "}", "'q", "a: |x\n", "a\n---\nb\n", "---\n- 1\n...\n---\n- 2\n", "[1]]", "{a: b} c", "\"a\" \"b\"", "- a\n b: c\n"}
)

func intv(i int64) *val    { return &val{kind: "int", i: i} }
func strv(s string) *val   { return &val{kind: "str", s: s} }
func boolv(b bool) *val    { return &val{kind: "bool", b: b} }
func nullv() *val          { return &val{kind: "null"} }
func seqOf(c ...*val) *val { return &val{kind: "seq", c: c} }
func mapOf(c ...*val) *val { return &val{kind: "map", c: c} }

func randScalar(r *rng) *val {
	switch r.intn(10) {
	case 0:
		return intv(poolInts[r.intn(len(poolInts))])
	case 1:
		return &val{kind: "uint", u: poolUints[r.intn(len(poolUints))]}
	case 2:
		return boolv(r.intn(2) == 0)
	case 3:
		return &val{kind: "float", f: poolFloats[r.intn(len(poolFloats))]}
	case 4:
		return &val{kind: "ts", t: poolTimes[r.intn(len(poolTimes))]}
	case 5:
		return nullv()
	default:
		return strv(poolStrings[r.intn(len(poolStrings))])
	}
}

func insertScalar(in yamly.Inserter, v *val, r *rng) {
	switch v.kind {
	case "int":
		in.InsertInteger(v.i)
	case "uint":
		in.InsertUnsigned(v.u)
	case "bool":
		in.InsertBoolean(v.b)
	case "float":
		in.InsertFloat(v.f)
	case "ts":
		in.InsertTimestamp(v.t)
	case "null":
		in.InsertNull()
	case "str":
		if r.intn(4) == 0 {
			in.InsertRawText([]byte(v.s), nil)
		} else {
			in.InsertString(v.s)
		}
	default:
		must(fmt.Errorf("not a scalar: %s", v.kind))
	}
}

// engine is one of the engines of yamly behind the common interfaces.
type engine struct {
	name       string
	newEncoder func() yamly.Encoder
	// newReader returns a reader of the document. parse errors are returned as is.
	newReader func(src string, multi bool) (yamly.Decoder, error)
}

var engines = []engine{
	{
		name: "yayamls",
		newEncoder: func() yamly.Encoder {
			return yamly.NewEncoder(yayenc.NewASTBuilder(), yayenc.NewASTWriter())
		},
		newReader: func(src string, multi bool) (yamly.Decoder, error) {
			var opts []yaydec.ReaderOption
			if multi {
				opts = append(opts, yaydec.WithMultipleDenyErrors())
			}
			d, err := yaydec.NewASTReaderFromBytes([]byte(src), opts...)
			if err != nil {
				return nil, err
			}
			return d, nil
		},
	},
	{
		name: "goyaml",
		newEncoder: func() yamly.Encoder {
			return yamly.NewEncoder(goyamlenc.NewASTBuilder(), &goyamlenc.ASTWriter{})
		},
		newReader: func(src string, multi bool) (yamly.Decoder, error) {
			var n yaml.Node
			if err := yaml.Unmarshal([]byte(src), &n); err != nil {
				return nil, err
			}
			var opts []goyamldec.ReaderOption
			if multi {
				opts = append(opts, goyamldec.WithMultipleDenyErrors())
			}
			return goyamldec.NewASTReader(&n, opts...), nil
		},
	},
}

// encodeBy finishes the encoder in one of the available ways.
func encodeBy(e yamly.Encoder, r *rng) (string, bool, error) {
	switch r.intn(3) {
	case 0:
		s, err := e.EncodeToString()
		return s, s == "", err
	case 1:
		b, err := e.EncodeToBytes()
		return string(b), len(b) == 0, err
	default:
		var buf bytes.Buffer
		err := e.EncodeTo(&buf)
		return buf.String(), buf.Len() == 0, err
	}
}

// readAs walks the decoder along the expected tree with typed reads and
// reports the first difference.
func readAs(d yamly.Decoder, v *val, path string) string {
	fail := func(got any) string {
		return fmt.Sprintf("at %s: expected %s, read %v (error: %v)", path, v, got, d.Error())
	}
	if v.kind != "null" && d.TryNull() {
		return fail("null")
	}
	switch v.kind {
	case "null":
		if !d.TryNull() {
			return fail("not null")
		}
	case "int":
		if g := d.Integer(64); g != v.i || d.Error() != nil {
			return fail(g)
		}
	case "uint":
		if g := d.Unsigned(64); g != v.u || d.Error() != nil {
			return fail(g)
		}
	case "bool":
		if g := d.Boolean(); g != v.b || d.Error() != nil {
			return fail(g)
		}
	case "float":
		g := d.Float(64)
		if !(g == v.f || (math.IsNaN(g) && math.IsNaN(v.f))) || d.Error() != nil {
			return fail(g)
		}
	case "ts":
		g := d.Timestamp()
		if !g.Equal(v.t) || d.Error() != nil {
			return fail(g)
		}
		_, gotOff := g.Zone()
		if _, off := v.t.Zone(); off != gotOff {
			return fail(g)
		}
	case "str":
		if g := d.String(); g != v.s || d.Error() != nil {
			return fail(fmt.Sprintf("%q", g))
		}
	case "seq", "map":
		var st yamly.CollectionState
		n := len(v.c)
		if v.kind == "seq" {
			st = d.Sequence()
		} else {
			st = d.Mapping()
			n /= 2
		}
		if d.Error() != nil {
			return fail("no " + v.kind)
		}
		if st.Size() != n {
			return fail(fmt.Sprintf("size %d", st.Size()))
		}
		for i := 0; i < n; i++ {
			if !st.HasUnprocessedItems() {
				return fail(fmt.Sprintf("only %d of %d items", i, n))
			}
			if v.kind == "seq" {
				if m := readAs(d, v.c[i], fmt.Sprintf("%s[%d]", path, i)); m != "" {
					return m
				}
				continue
			}
			if m := readAs(d, v.c[2*i], fmt.Sprintf("%s.key%d", path, i)); m != "" {
				return m
			}
			if m := readAs(d, v.c[2*i+1], fmt.Sprintf("%s.value%d", path, i)); m != "" {
				return m
			}
		}
		if st.HasUnprocessedItems() {
			return fail("extra items")
		}
	default:
		must(fmt.Errorf("unknown kind %q", v.kind))
	}
	return ""
}

// atEnd checks that nothing is left to read.
func atEnd(d yamly.Decoder) string {
	if err := d.Error(); err != nil {
		return fmt.Sprintf("unexpected error: %v", err)
	}
	d.Skip()
	if d.Error() == nil {
		return "extra content after the document"
	}
	return ""
}

// nodeIs compares a yaml.v3 node (an independent parser) with the expected tree.
func nodeIs(n *yaml.Node, v *val, path string) string {
	fail := func(got any) string {
		return fmt.Sprintf("independent parser at %s: expected %s, got %v", path, v, got)
	}
	if n.Kind == yaml.DocumentNode {
		n = n.Content[0]
	}
	if n.Kind == yaml.AliasNode {
		n = n.Alias
	}
	switch v.kind {
	case "seq", "map":
		want := yaml.SequenceNode
		if v.kind == "map" {
			want = yaml.MappingNode
		}
		if n.Kind != want || len(n.Content) != len(v.c) {
			return fail(fmt.Sprintf("kind %d, %d children", n.Kind, len(n.Content)))
		}
		for i := range v.c {
			if m := nodeIs(n.Content[i], v.c[i], fmt.Sprintf("%s/%d", path, i)); m != "" {
				return m
			}
		}
		return ""
	}
	if n.Kind != yaml.ScalarNode {
		return fail(fmt.Sprintf("kind %d", n.Kind))
	}
	switch v.kind {
	case "null":
		if n.ShortTag() != "!!null" {
			return fail(n.ShortTag() + " " + n.Value)
		}
	case "int":
		var g int64
		if err := n.Decode(&g); err != nil || g != v.i || n.ShortTag() != "!!int" {
			return fail(n.Value)
		}
	case "uint":
		var g uint64
		if err := n.Decode(&g); err != nil || g != v.u {
			return fail(n.Value)
		}
	case "bool":
		var g bool
		if err := n.Decode(&g); err != nil || g != v.b || n.ShortTag() != "!!bool" {
			return fail(n.Value)
		}
	case "float":
		var g float64
		if err := n.Decode(&g); err != nil || !(g == v.f || (math.IsNaN(g) && math.IsNaN(v.f))) {
			return fail(n.Value)
		}
	case "ts":
		g, err := time.Parse(time.RFC3339Nano, n.Value)
		if err != nil {
			g, err = time.Parse("2006-01-02", n.Value)
		}
		if err != nil || !g.Equal(v.t) {
			return fail(n.Value)
		}
	case "str":
		if n.Value != v.s || n.ShortTag() != "!!str" {
			return fail(fmt.Sprintf("%s %q", n.ShortTag(), n.Value))
		}
	}
	return ""
}

// meansFor checks that the text means the value for the reader of the engine
// and for the independent parser.
func meansFor(e engine, text string, v *val) string {
	switch via {
	case "raw":
		return rawFor(e, text, v)
	case "mixed":
		return mixedFor(e, text, v)
	case "insert":
		return insertFor(e, text, v)
	case "rewrite":
		return rewriteFor(e, text, v)
	}
	return directlyMeans(e, text, v)
}

func directlyMeans(e engine, text string, v *val) string {
	d, err := e.newReader(text, false)
	if err != nil {
		return fmt.Sprintf("%s does not read %q: %v", e.name, text, err)
	}
	if m := readAs(d, v, "$"); m != "" {
		return fmt.Sprintf("%s reads %q: %s", e.name, text, m)
	}
	if m := atEnd(d); m != "" {
		return fmt.Sprintf("%s reads %q: %s", e.name, text, m)
	}
	return ""
}

func meansIndependently(text string, v *val) string {
	var n yaml.Node
	if err := yaml.Unmarshal([]byte(text), &n); err != nil {
		return fmt.Sprintf("independent parser rejects %q: %v", text, err)
	}
	if n.Kind == 0 {
		if v.kind == "null" {
			return ""
		}
		return fmt.Sprintf("independent parser reads nothing from %q", text)
	}
	if m := nodeIs(&n, v, "$"); m != "" {
		return fmt.Sprintf("%q: %s", text, m)
	}
	return ""
}
