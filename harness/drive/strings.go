package main

import (
	"encoding/json"
	"fmt"

	"github.com/KSpaceer/yamly"
)

// kind strings: a string at a place of a document is encoded and decoded.
func init() { kinds["strings"] = replayStrings }

var charsOf = map[string][]string{
	"ch":    {"a", "b", "Z", "é", "_", "/", "$", "(", "x", "日"},
	"digit": {"0", "1", "9", "7"},
	"dot":   {".", "..", "..."},
	"wide":  {"😀", "\u00a0", "\u2003", "\U0010ffff", "\ue000", "\u00ad", "\u200d", "é́"},
	"sp":    {" ", " ", "  "},
	"tab":   {"\t"},
	"lf":    {"\n"},
	"cr":    {"\r", "\r\n"},
	"ctrl":  {"\x00", "\x01", "\a", "\b", "\x1b", "\x7f", "\u0080", "\u009f", "\v", "\f", "\uffff", "\ufffe"},
	"nel":   {"\u0085", "\u2028", "\u2029"},
	"bom":   {"\ufeff"},
	"colon": {":"},
	"dash":  {"-", "--", "---"},
	"q":     {"?"},
	"hash":  {"#"},
	"sq":    {"'"},
	"dq":    {`"`},
	"bs":    {`\`},
	"comma": {","},
	"open":  {"[", "{"},
	"close": {"]", "}"},
	"prop":  {"&", "*", "!"},
	"blk":   {"|", ">"},
	"res":   {"%", "@", "`"},
	"math":  {"+", "=", "<<", "~", "<", "^"},
	"e":     {"e", "E", "x", "o", "b", "n", "t", "u", "f", "i", "N", "y"},
	"word": {
		"null", "Null", "NULL", "~", "true", "True", "FALSE", "yes", "no", "on", "off", "y", "n", ".inf", "-.INF", ".nan", ".NaN", "+.Inf",
		"12", "-7", "0", "0x1F", "0o17", "017", "1_000", "0b11", "1e3", "1.5", "-.5", "1.", "+1", "190:20:30", "<<", "=", "2020-01-01",
		"2020-01-02T03:04:05Z", "2001-12-14 21:59:43.10 -5", "---", "...", "--- ", "%YAML 1.2", "!!str x", "&a", "*a", "? a", "- a", "a: b",
		"a #b", "#c", "[a]", "{a: b}", "'q'", `"q"`, `\n`, `\x41`, "-", "?", ":", "|", ">", "|-\n x", "\xc2\xa0", "18446744073709551616", "99999999999999999999999",
	},
}

type placing struct {
	build func(in yamly.Inserter, put func())
	means func(v *val) *val
}

var placings = map[string]placing{
	"root": {func(in yamly.Inserter, put func()) { put() }, func(v *val) *val { return v }},
	"item": {func(in yamly.Inserter, put func()) {
		in.StartSequence()
		put()
		in.InsertString("x")
		put()
		in.EndSequence()
	}, func(v *val) *val { return seqOf(v, strv("x"), v) }},
	"value": {func(in yamly.Inserter, put func()) {
		in.StartMapping()
		in.InsertString("k")
		put()
		in.InsertString("l")
		in.InsertInteger(1)
		in.EndMapping()
	}, func(v *val) *val { return mapOf(strv("k"), v, strv("l"), intv(1)) }},
	"key": {func(in yamly.Inserter, put func()) {
		in.StartMapping()
		put()
		in.InsertString("v")
		in.InsertString("last key")
		in.InsertNull()
		in.EndMapping()
	}, func(v *val) *val { return mapOf(v, strv("v"), strv("last key"), nullv()) }},
	"keyofmap": {func(in yamly.Inserter, put func()) {
		in.StartMapping()
		put()
		in.StartMapping()
		put()
		put()
		in.EndMapping()
		in.EndMapping()
	}, func(v *val) *val { return mapOf(v, mapOf(v, v)) }},
	"deep": {func(in yamly.Inserter, put func()) {
		in.StartSequence()
		in.StartMapping()
		in.InsertString("k")
		in.StartSequence()
		in.StartSequence()
		put()
		put()
		in.EndSequence()
		in.EndSequence()
		in.InsertString("l")
		in.StartMapping()
		put()
		in.StartSequence()
		put()
		in.EndSequence()
		in.EndMapping()
		in.EndMapping()
		put()
		in.EndSequence()
	}, func(v *val) *val {
		return seqOf(mapOf(strv("k"), seqOf(seqOf(v, v)), strv("l"), mapOf(v, seqOf(v))), v)
	}},
}

type stringsBehavior struct {
	Str   []string `json:"str"`
	Place string   `json:"place"`
}

func replayStrings(line []byte, r *rng, _ int) (int, string) {
	var b stringsBehavior
	must(json.Unmarshal(line, &b))
	s := ""
	for _, c := range b.Str {
		pool := charsOf[c]
		if pool == nil {
			must(fmt.Errorf("class %q", c))
		}
		s += pool[r.intn(len(pool))]
	}
	pl, ok := placings[b.Place]
	if !ok {
		must(fmt.Errorf("place %q", b.Place))
	}
	v := strv(s)
	want := pl.means(v)
	obs := 0
	for _, e := range engines {
		enc := e.newEncoder()
		pl.build(enc, func() { insertScalar(enc, v, r) })
		text, _, err := encodeBy(enc, r)
		if err != nil {
			return obs, fmt.Sprintf("%s: %s is not encoded: %v", e.name, want, err)
		}
		for _, d := range engines {
			obs++
			if m := meansFor(d, text, want); m != "" {
				return obs, fmt.Sprintf("%s encodes %s: %s", e.name, want, m)
			}
		}
		if m := meansIndependently(text, want); m != "" {
			return obs, fmt.Sprintf("%s encodes %s: %s", e.name, want, m)
		}
	}
	return obs, ""
}
