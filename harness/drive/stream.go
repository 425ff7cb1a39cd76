package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/KSpaceer/yamly"
	"github.com/KSpaceer/yamly/engines/yayamls/ast"
	yaydec "github.com/KSpaceer/yamly/engines/yayamls/decode"
	yayenc "github.com/KSpaceer/yamly/engines/yayamls/encode"
	"github.com/KSpaceer/yamly/engines/yayamls/parser"
	"gopkg.in/yaml.v3"
)

// kind stream: streams of several documents.
func init() { kinds["stream"] = replayStream }

type content struct {
	text string
	v    *val
}

var (
	streamInline = []content{
		{"a\n", strv("a")}, {"a b # c\n", strv("a b")}, {"'--- x'\n", strv("--- x")}, {"\"...\"\n", strv("...")}, {"[a, '---']\n", seqOf(strv("a"), strv("---"))},
		{"{a: b}\n", mapOf(strv("a"), strv("b"))}, {"|\n  x\n  ---\n  ...\n", strv("x\n---\n...\n")}, {"7\n", intv(7)}, {"null\n", nullv()},
		{">-\n --- y\n z\n", strv("--- y z")}, {"a\n b\n", strv("a b")}, {"\"x\n  --- y\"\n", strv("x --- y")}, {"!!str a\n", strv("a")}, {"&a [x]\n", seqOf(strv("x"))},
		{"---a\n", strv("---a")}, {"[a,\n b]\n", seqOf(strv("a"), strv("b"))},
	}
	streamOwn = []content{
		{"a: b\n", mapOf(strv("a"), strv("b"))}, {"- a\n- --- \n", nil}, {"- a\n- b\n", seqOf(strv("a"), strv("b"))}, {"a: ---\n", nil},
		{"---a\n", strv("---a")}, {"...a\n", strv("...a")}, {"a ---\n", strv("a ---")}, {"a ...\n", strv("a ...")}, {"a: |\n ---\n ...\nb: c\n", mapOf(strv("a"), strv("---\n...\n"), strv("b"), strv("c"))},
		{"- |\n  ...\n- x\n", seqOf(strv("...\n"), strv("x"))}, {"? a\n: - b\n", mapOf(strv("a"), seqOf(strv("b")))}, {"- a: b\n  c: d\n", seqOf(mapOf(strv("a"), strv("b"), strv("c"), strv("d")))},
		{"a:\n  - b # ---\n  - c\n", mapOf(strv("a"), seqOf(strv("b"), strv("c")))}, {" --- \n", nil}, {"'a\n\n  ... b'\n", strv("a\n... b")}, {"k: 'x ---'\n", mapOf(strv("k"), strv("x ---"))},
		{"a: \n", mapOf(strv("a"), nullv())}, {"....\n", strv("....")}, {"----\n", strv("----")}, {"%\n"[:0] + "x%y\n", strv("x%y")}, {"a: %\n"[:3] + "b%\n", mapOf(strv("a"), strv("b%"))},
	}
)

func init() {
	for _, l := range []*[]content{&streamInline, &streamOwn} {
		var kept []content
		for _, c := range *l {
			if c.v != nil {
				kept = append(kept, c)
			}
		}
		*l = kept
	}
}

type streamBehavior struct {
	Parts []string `json:"parts"`
	Docs  []int    `json:"docs"`
	Bad   bool     `json:"bad"`
}

func replayStream(line []byte, r *rng, _ int) (int, string) {
	var b streamBehavior
	must(json.Unmarshal(line, &b))
	var sb strings.Builder
	vals := map[int]*val{0: nullv()}
	handle := 'a'
	other := false    // something the independent parser does not know
	afterEnd := false // the last marker is the end of a document
	inDoc := false    // indented lines may belong to a scalar
	for i, p := range b.Parts {
		switch p {
		case "comment":
			n := 4
			if inDoc {
				n = 3
			}
			sb.WriteString([]string{"# c\n", "# --- x\n", "#\n", "  # ...\n"}[r.intn(n)])
		case "blank":
			n := 2
			if inDoc {
				n = 1
			}
			sb.WriteString([]string{"\n", "  \n"}[r.intn(n)])
		case "yaml":
			sb.WriteString("%YAML 1.1\n")
		case "tag":
			fmt.Fprintf(&sb, "%%TAG !%c! tag:example.com,2000:app/ # c\n", handle)
			handle++
		case "other":
			other = true
			sb.WriteString([]string{"%FOO\n", "%FOO bar baz\n", "%reserved a # c\n"}[r.intn(3)])
		case "start":
			sb.WriteString([]string{"---\n", "--- # c\n", "---  \n"}[r.intn(3)])
			afterEnd, inDoc = false, false
		case "start+":
			c := streamInline[r.intn(len(streamInline))]
			sb.WriteString("--- " + c.text)
			afterEnd, inDoc = false, true
			vals[i+1] = c.v
		case "content":
			pool := streamOwn
			if r.intn(3) == 0 {
				pool = streamInline
			}
			c := pool[r.intn(len(pool))]
			sb.WriteString(c.text)
			other = other || afterEnd
			inDoc = true
			vals[i+1] = c.v
		case "end":
			sb.WriteString([]string{"...\n", "... # c\n", "...  \n"}[r.intn(3)])
			afterEnd, inDoc = true, false
		default:
			must(fmt.Errorf("part %q", p))
		}
	}
	text := sb.String()
	if b.Bad {
		if tree, err := parser.ParseString(text); err == nil {
			return 1, fmt.Sprintf("yayamls accepts %q although no document begins behind the directives: %v", text, tree)
		}
		if _, err := engines[0].newReader(text, false); err == nil {
			return 1, fmt.Sprintf("yayamls reads %q although no document begins behind the directives", text)
		}
		return 2, ""
	}
	var want []*val
	for _, d := range b.Docs {
		want = append(want, vals[d])
	}
	// the independent parser knows neither reserved directives nor bare documents behind others
	if !other {
		dec := yaml.NewDecoder(strings.NewReader(text))
		n := 0
		for ; ; n++ {
			var node yaml.Node
			err := dec.Decode(&node)
			if errors.Is(err, io.EOF) {
				break
			}
			if err != nil {
				must(fmt.Errorf("independent parser on %q: %w", text, err))
			}
			if n >= len(want) {
				must(fmt.Errorf("independent parser finds more documents in %q", text))
			}
			if m := nodeIs(&node, want[n], "$"); m != "" {
				must(fmt.Errorf("document %d of %q: %s", n+1, text, m))
			}
		}
		if n != len(want) {
			must(fmt.Errorf("independent parser finds %d documents in %q, expected %d", n, text, len(want)))
		}
	}
	obs := 0
	tree, err := parser.ParseString(text)
	if err != nil {
		return obs, fmt.Sprintf("yayamls does not parse %q: %v", text, err)
	}
	if via == "rewrite" {
		out, err := yayenc.NewASTWriter().WriteString(tree)
		if err != nil {
			return 1, fmt.Sprintf("tree of %q is not written: %v", text, err)
		}
		if tree, err = parser.ParseString(out); err != nil {
			return 1, fmt.Sprintf("tree of %q written again as %q is not parsed: %v", text, out, err)
		}
		text = out
	}
	stream, ok := tree.(*ast.StreamNode)
	if !ok {
		return obs, fmt.Sprintf("yayamls gives a %T for %q", tree, text)
	}
	docs := stream.Documents()
	// no document at all may be presented as a single empty one, to a reader as well
	if len(want) == 0 && len(docs) == 0 {
		return 1, ""
	}
	if len(want) == 0 && len(docs) == 1 {
		want = []*val{nullv()}
	}
	if len(docs) != len(want) {
		return obs, fmt.Sprintf("yayamls finds %d documents in %q, expected %d", len(docs), text, len(want))
	}
	reads := readAs
	if via == "raw" {
		reads = func(d yamly.Decoder, v *val, _ string) string { return rawAt(d, v, r.intn(3)) }
	}
	for i, d := range docs {
		obs++
		rd := yaydec.NewASTReader(d)
		if m := reads(rd, want[i], "$"); m != "" {
			return obs, fmt.Sprintf("yayamls, document %d of %q: %s", i+1, text, m)
		}
		if m := atEnd(rd); m != "" {
			return obs, fmt.Sprintf("yayamls, document %d of %q: %s", i+1, text, m)
		}
	}
	// one reader of the whole stream delivers the documents one after another
	rd, err := engines[0].newReader(text, false)
	if err != nil {
		return obs, fmt.Sprintf("yayamls does not read %q: %v", text, err)
	}
	for i := range want {
		obs++
		how := reads
		switch k := r.intn(4); {
		case k == 0:
			how = skips
		case k == 1 && via == "":
			how = readWhole
		}
		if m := how(rd, want[i], fmt.Sprintf("document %d", i+1)); m != "" {
			return obs, fmt.Sprintf("yayamls, reader of the stream %q: %s", text, m)
		}
	}
	if m := atEnd(rd); m != "" {
		return obs, fmt.Sprintf("yayamls, reader of the stream %q: %s", text, m)
	}
	return obs, ""
}

func skips(d yamly.Decoder, _ *val, _ string) string {
	d.Skip()
	if err := d.Error(); err != nil {
		return fmt.Sprintf("error %v of skipping", err)
	}
	return ""
}

func readWhole(d yamly.Decoder, v *val, path string) string {
	got := canonAny(d.Any())
	if err := d.Error(); err != nil || got != canonVal(v) {
		return fmt.Sprintf("at %s: expected %s, read %s (error: %v)", path, v, got, err)
	}
	return ""
}
