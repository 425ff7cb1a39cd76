package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/KSpaceer/yamly"
	goyamldec "github.com/KSpaceer/yamly/engines/goyaml/decode"
	yaydec "github.com/KSpaceer/yamly/engines/yayamls/decode"
	"github.com/KSpaceer/yamly/engines/yayamls/parser"
	"gopkg.in/yaml.v3"
)

// kind agree: documents in every presentation with scalars of every type; every read at every
// node is answered alike by both engines.
func init() { kinds["agree"] = replayAgree }

var (
	typedPlain = []string{
		"null", "~", "Null", "NULL", "nULL", "true", "True", "FALSE", "tRUE", "yes", "off", "y", "0", "7", "-12", "+3", "0x1F", "0xg", "0o17", "0o8",
		"017", "1_000", "1__0", "0b101", "1.5", "-.5", "1.", "1e3", "1E-3", ".inf", "-.INF", "+.Inf", ".nan", ".NaN", "inf", "nan", ".", "e3", "+", "-x",
		"127", "128", "-128", "-129", "255", "256", "65535", "65536", "2147483647", "2147483648", "9223372036854775807", "9223372036854775808",
		"-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "1e400", "0.1", "3.4028236e38",
		"2020-01-01", "2020-02-30", "2020-1-1", "2001-12-14t21:59:43.10-05:00", "2001-12-14 21:59:43.10 -5", "2001-12-14T21:59:43Z", "12e03",
		"0x", "0xFFFFFFFFFFFFFFFF", "-0x1F", "0x7F", "1.0", "100.0", "=", "a", "b c", "-0", "00", "08", "0.", "1e", "0e0",
	}
	typedQuoted = []string{"null", "~", "true", "12", "-7", "1.5", ".inf", "2020-01-01", "0x1F", "", " ", "a", "x: y", "1 ", "1e3"}
)

func replayAgree(line []byte, r *rng, _ int) (int, string) {
	var b styleBehavior
	must(json.Unmarshal(line, &b))
	text := b.Text
	means := make([]string, len(b.Sc)+1)
	for i, s := range b.Sc {
		var p string
		switch {
		case s.St == "plain" && !s.Cont:
			p = typedPlain[r.intn(len(typedPlain))]
			if regexp.MustCompile(`!!str[ \t]+(&\S+[ \t]+)?\$`+strconv.Itoa(i+1)+`\$`).MatchString(text) && (strings.ToLower(p) == "null" || p == "~") {
				// resolution of explicit tags is a known finding
				p = "a"
			}
		case s.St == "single" || s.St == "double":
			p = typedQuoted[r.intn(len(typedQuoted))]
			if s.Cont {
				p = "a"
			}
		case s.St == "block":
			p = []string{"12", "true", "null", "a", "2020-01-01"}[r.intn(5)]
		default:
			p = []string{"a", "1", "null"}[r.intn(3)]
		}
		means[i+1] = p
		text = strings.ReplaceAll(text, "$"+strconv.Itoa(i+1)+"$", p)
	}
	pos := 0
	return agree(text, eventTree(b.Ev, &pos, means))
}

// agree compares the answers of both engines to all reads at all nodes of the tree.
func agree(text string, tree *val) (int, string) {
	yay, err := parser.ParseString(text, parser.WithOmitStream())
	if err != nil {
		return 1, fmt.Sprintf("yayamls does not read %q: %v", text, err)
	}
	var goy yaml.Node
	if err := yaml.Unmarshal([]byte(text), &goy); err != nil {
		must(fmt.Errorf("independent parser rejects %q: %w", text, err))
	}
	obs := 0
	var walk func(v *val, path []int) string
	walk = func(v *val, path []int) string {
		for op := range reads {
			obs++
			a := answer(yaydec.NewASTReader(yay), tree, path, op)
			b := answer(goyamldec.NewASTReader(&goy), tree, path, op)
			if a == b {
				obs++
				a = answer(yaydec.NewASTReader(yay, yaydec.WithMultipleDenyErrors()), tree, path, op)
				b = answer(goyamldec.NewASTReader(&goy, goyamldec.WithMultipleDenyErrors()), tree, path, op)
			}
			if a != b {
				return fmt.Sprintf("engines answer read %s at %v of %q differently:\n yayamls: %s\n goyaml:  %s", reads[op].name, path, text, a, b)
			}
		}
		for i, c := range v.c {
			if m := walk(c, append(path[:len(path):len(path)], i)); m != "" {
				return m
			}
		}
		return ""
	}
	return obs, walk(tree, nil)
}

var reads = []struct {
	name string
	do   func(d yamly.Decoder) any
}{
	{"Integer(8)", func(d yamly.Decoder) any { return d.Integer(8) }},
	{"Integer(16)", func(d yamly.Decoder) any { return d.Integer(16) }},
	{"Integer(32)", func(d yamly.Decoder) any { return d.Integer(32) }},
	{"Integer(64)", func(d yamly.Decoder) any { return d.Integer(64) }},
	{"Unsigned(8)", func(d yamly.Decoder) any { return d.Unsigned(8) }},
	{"Unsigned(32)", func(d yamly.Decoder) any { return d.Unsigned(32) }},
	{"Unsigned(64)", func(d yamly.Decoder) any { return d.Unsigned(64) }},
	{"Float(32)", func(d yamly.Decoder) any { return d.Float(32) }},
	{"Float(64)", func(d yamly.Decoder) any { return d.Float(64) }},
	{"Boolean", func(d yamly.Decoder) any { return d.Boolean() }},
	{"String", func(d yamly.Decoder) any { return d.String() }},
	{"Timestamp", func(d yamly.Decoder) any { return d.Timestamp() }},
	{"TryNull", func(d yamly.Decoder) any { return d.TryNull() }},
	{"Any", func(d yamly.Decoder) any { return d.Any() }},
	{"Sequence", func(d yamly.Decoder) any { st := d.Sequence(); return [2]any{st.Size(), st.HasUnprocessedItems()} }},
	{"Mapping", func(d yamly.Decoder) any { st := d.Mapping(); return [2]any{st.Size(), st.HasUnprocessedItems()} }},
	{"Skip", func(d yamly.Decoder) any { d.Skip(); return nil }},
}

func answer(d yamly.Decoder, v *val, path []int, op int) (out string) {
	defer func() {
		if p := recover(); p != nil {
			out = fmt.Sprintf("panic %v", p)
		}
	}()
	for _, i := range path {
		if v.kind == "seq" {
			d.Sequence()
		} else {
			d.Mapping()
		}
		for k := 0; k < i; k++ {
			d.Skip()
		}
		v = v.c[i]
	}
	if err := d.Error(); err != nil {
		return fmt.Sprintf("node is not reached: %v", err)
	}
	got := reads[op].do(d)
	out = shown(got)
	if err := d.Error(); err != nil {
		return out + ", " + class(err)
	}
	// what comes next
	null := d.TryNull()
	s := d.String()
	return out + fmt.Sprintf(", then null=%v string=%q %s", null, s, class(d.Error()))
}

func class(err error) string {
	switch {
	case err == nil:
		return "no error"
	case errors.Is(err, yamly.ErrDenied):
		return "denied"
	case errors.Is(err, yamly.ErrEndOfStream):
		return "end"
	}
	return "error"
}

// shown renders values so that equal ones look equal.
func shown(v any) string {
	switch v := v.(type) {
	case time.Time:
		return "time " + v.UTC().Format(time.RFC3339Nano)
	case float64:
		if math.IsNaN(v) {
			return "nan"
		}
		return fmt.Sprintf("float %v", v)
	case []any:
		var parts []string
		for _, e := range v {
			parts = append(parts, shown(e))
		}
		return "[" + strings.Join(parts, ", ") + "]"
	case map[string]any, map[any]any:
		rv := reflect.ValueOf(v)
		var parts []string
		for _, k := range rv.MapKeys() {
			parts = append(parts, shown(k.Interface())+": "+shown(rv.MapIndex(k).Interface()))
		}
		sortStrings(parts)
		return fmt.Sprintf("%T{%s}", v, strings.Join(parts, ", "))
	}
	return fmt.Sprintf("%T %#v", v, v)
}

func sortStrings(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

// kind agreeword: a scalar of the model of scalars, plain and quoted.
func init() { kinds["agreeword"] = replayAgreeWord }

func replayAgreeWord(line []byte, _ *rng, _ int) (int, string) {
	var b scalarBehavior
	must(json.Unmarshal(line, &b))
	obs := 0
	for _, text := range []string{b.Text, "'" + strings.ReplaceAll(b.Text, "'", "''") + "'"} {
		var n yaml.Node
		if err := yaml.Unmarshal([]byte("- "+text+"\n"), &n); err != nil || len(n.Content[0].Content) != 1 ||
			n.Content[0].Content[0].Kind != yaml.ScalarNode || n.Content[0].Content[0].Value != b.Text {
			continue // not a plain scalar
		}
		o, m := agree("- "+text+"\n- k: "+text+"\n", seqOf(strv(b.Text), mapOf(strv("k"), strv(b.Text))))
		obs += o
		if m != "" {
			return obs, m
		}
	}
	return obs, ""
}
