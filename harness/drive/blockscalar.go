package main

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
)

// kind block: lines of a block scalar and the text they denote, in every position of a document.
func init() { kinds["block"] = replayBlock }

var blockTexts = []string{
	"a", "b c", "# x", "a: b", "- a", "'", `"`, `a\nb`, "[", "}", "é", "&a", "*a", "!t", "%d", "? a", "|", ">", ",", "a # b", "a\tb",
	"--", "a:", "x ", "y\t", "日本", `\`, "'q'", `"q" z`, "{a: b", "key: |", "@", "`", "a\u00a0", "😀", "...a", "a ...", "a ---", "...", "---",
}

type blockBehavior struct {
	Folded   bool     `json:"folded"`
	Chomp    string   `json:"chomp"`
	Explicit bool     `json:"explicit"`
	Lines    []string `json:"lines"`
	Out      []string `json:"out"`
	EOF      bool     `json:"eof"`
}

// positions of a block scalar: text with @ for it, what follows (the scalar brings the last line break
// before it), the indentation of the parent
type blockPosition struct {
	before, after string
	parent        int
	means         func(*val) *val
}

var blockPositions = []blockPosition{
	{"", "", 0, func(v *val) *val { return v }},
	{"--- ", "...\n", 0, func(v *val) *val { return v }},
	{"- ", "- x\n", 0, func(v *val) *val { return seqOf(v, strv("x")) }},
	{"- x\n- ", "", 0, func(v *val) *val { return seqOf(strv("x"), v) }},
	{"- - x\n  - ", "- y\n", 2, func(v *val) *val { return seqOf(seqOf(strv("x"), v), strv("y")) }},
	{"k: ", "l: x\n", 0, func(v *val) *val { return mapOf(strv("k"), v, strv("l"), strv("x")) }},
	{"k: ", "# c\nl: x\n", 0, func(v *val) *val { return mapOf(strv("k"), v, strv("l"), strv("x")) }},
	{"m:\n  k: ", "  l: x\nn: y\n", 2, func(v *val) *val {
		return mapOf(strv("m"), mapOf(strv("k"), v, strv("l"), strv("x")), strv("n"), strv("y"))
	}},
	{"m:\n  k: ", "n: y\n", 2, func(v *val) *val { return mapOf(strv("m"), mapOf(strv("k"), v), strv("n"), strv("y")) }},
	{"m:\n- k: ", "  l: x\n- y\n", 2, func(v *val) *val {
		return mapOf(strv("m"), seqOf(mapOf(strv("k"), v, strv("l"), strv("x")), strv("y")))
	}},
	{"? ", ": x\n", 0, func(v *val) *val { return mapOf(v, strv("x")) }},
	{"? k\n: ", "l: x\n", 0, func(v *val) *val { return mapOf(strv("k"), v, strv("l"), strv("x")) }},
	{"k: &a ", "l: *a\n", 0, func(v *val) *val { return mapOf(strv("k"), v, strv("l"), v) }},
	{"- !!str ", "- x\n", 0, func(v *val) *val { return seqOf(v, strv("x")) }},
}

func replayBlock(line []byte, r *rng, _ int) (int, string) {
	var b blockBehavior
	must(json.Unmarshal(line, &b))
	texts := map[string]string{"LF": "\n", "SP": " "}
	for i, k := range b.Lines {
		t := blockTexts[r.intn(len(blockTexts))]
		switch k {
		case "more":
			t = strings.Repeat(" ", 1+r.intn(3)) + t
		case "tab":
			t = "\t" + t
		case "blank":
			t = strings.Repeat(" ", 1+r.intn(2))
		}
		texts[strconv.Itoa(i+1)] = t
	}
	var want strings.Builder
	for _, o := range b.Out {
		t, ok := texts[o]
		if !ok {
			must(fmt.Errorf("output %q", o))
		}
		want.WriteString(t)
	}
	obs := 0
	for _, pos := range blockPositions {
		if b.EOF && pos.after != "" {
			continue
		}
		ind := 1 + r.intn(4)
		switch wide := r.intn(6); {
		case wide == 0:
			ind = 1 + r.intn(9)
		case wide == 1 && !b.Explicit:
			ind = 1 + r.intn(24)
		}
		var sb strings.Builder
		sb.WriteString(pos.before)
		if b.Folded {
			sb.WriteByte('>')
		} else {
			sb.WriteByte('|')
		}
		chomp := map[string]string{"clip": "", "strip": "-", "keep": "+"}[b.Chomp]
		num := ""
		if b.Explicit {
			num = strconv.Itoa(ind)
		}
		if r.intn(2) == 0 {
			sb.WriteString(chomp + num)
		} else {
			sb.WriteString(num + chomp)
		}
		sb.WriteString([]string{"", "", " ", " # c", "  # |", "\t# c"}[r.intn(6)])
		brk := []string{"\n", "\n", "\n", "\r\n"}[r.intn(4)]
		sb.WriteString(brk)
		full := strings.Repeat(" ", pos.parent+ind)
		for i, k := range b.Lines {
			switch k {
			case "empty":
			case "white":
				sb.WriteString(strings.Repeat(" ", 1+r.intn(pos.parent+ind)))
			default:
				sb.WriteString(full + texts[strconv.Itoa(i+1)])
			}
			if i < len(b.Lines)-1 || !b.EOF {
				sb.WriteString(brk)
			}
		}
		sb.WriteString(pos.after)
		doc := sb.String()
		v := pos.means(strv(want.String()))
		if m := meansIndependently(doc, v); m != "" {
			must(fmt.Errorf("%s", m))
		}
		for _, e := range engines {
			obs++
			if m := meansFor(e, doc, v); m != "" {
				return obs, m
			}
		}
	}
	return obs, ""
}
