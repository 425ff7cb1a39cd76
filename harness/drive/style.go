package main

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
)

// kind style: documents in every presentation; both engines have to deliver the events.
func init() { kinds["style"] = replayStyle }

type phrase struct{ text, means string }

func same(s ...string) []phrase {
	var out []phrase
	for _, x := range s {
		out = append(out, phrase{x, x})
	}
	return out
}

var (
	// plain scalars that are strings everywhere
	plainAnywhere = same("a", "b c", "x-y", "a:b", "a#b", "é", "-x", "it's", "http://x/y;z=1&w", `C:\d\n`, "1 a", "2020 x",
		"a%b", "a!b", "a&b", "a*b", "x  y", "日本 語", "a.b", "...a", "a=b", "a@b", "a`b", "~a", "\U0001F600 z", "nullx", "truey",
		"a - b", "a -- b", "a & b", "a *b", "a !c %d", "x | y > z", "$1", "(a)", "a;b", "^", "_", "<a>", "a|b", "a>b", "\u00a0x", "a\u2003b")
	// and those which are strings outside of flow collections only
	plainBlock = same("a,b", "a, b", "a]", "a[b]", "b{c}", "a}b", ":x", "?x", "a:,b", "a ? b", "x?y", "a [b] c", "a {b", "q \"r\" s", "a , b")
	// lines after the first one of a plain scalar
	plainCont = same("@a", "a", "-x", "b - c", "x \"q\"", "y &z *w !v %u | >")
	singleQ   = []phrase{
		{"a", "a"}, {"a b", "a b"}, {"it''s", "it's"}, {"# x", "# x"}, {"a: b", "a: b"}, {"- a", "- a"}, {"[", "["},
		{"a, b", "a, b"}, {"}", "}"}, {`\n`, `\n`}, {`"`, `"`}, {"é", "é"}, {"&a", "&a"}, {"*a", "*a"}, {"!t", "!t"}, {"%d", "%d"},
		{"a #b", "a #b"}, {"''", "'"}, {"x ''y'' z", "x 'y' z"}, {"@", "@"}, {"`", "`"}, {"|", "|"}, {"? a", "? a"}, {":", ":"},
	}
	doubleQ = []phrase{
		{"a", "a"}, {"a b", "a b"}, {`a\nb`, "a\nb"}, {`\"`, `"`}, {`\\`, `\`}, {`\t`, "\t"}, {`\x41`, "A"}, {`\u00e9`, "é"},
		{`\U0001F600`, "😀"}, {"# x", "# x"}, {"a: b", "a: b"}, {"- a", "- a"}, {"[", "["}, {"]", "]"}, {"a, b", "a, b"}, {"it's", "it's"},
		{`\0`, "\x00"}, {`\e`, "\x1b"}, {`\_`, "\u00a0"}, {`\L\P`, "\u2028\u2029"}, {`\N`, "\u0085"}, {"é", "é"},
		{"&a", "&a"}, {"*a", "*a"}, {"%d", "%d"}, {"{", "{"}, {"a #b", "a #b"}, {`\a\b\f\v\r`, "\a\b\f\v\r"}, {"? a", "? a"},
	}
	blockLine = same("a", "a b", "# x", "a: b", "- a", "'", `"`, `\n`, "[", "}", "é", "&a", "*a", "!t", "%d", "? a", "|", ">", ", ",
		"a # b", "a\tb", "--", "a:")
)

type styleBehavior struct {
	Text string   `json:"text"`
	Ev   []string `json:"ev"`
	Sc   []struct {
		St   string `json:"st"`
		Fl   bool   `json:"fl"`
		Key  bool   `json:"key"`
		Cont bool   `json:"cont"`
	} `json:"sc"`
}

func replayStyle(line []byte, r *rng, _ int) (int, string) {
	var b styleBehavior
	must(json.Unmarshal(line, &b))
	text := b.Text
	means := make([]string, len(b.Sc)+1)
	for i, s := range b.Sc {
		var p phrase
		switch s.St {
		case "plain":
			k := r.intn(4)
			switch {
			case k == 0 && s.Cont && !s.Fl:
				p = plainCont[r.intn(len(plainCont))]
			case k == 0 && !s.Fl:
				p = plainBlock[r.intn(len(plainBlock))]
			default:
				p = plainAnywhere[r.intn(len(plainAnywhere))]
			}
		case "single":
			p = singleQ[r.intn(len(singleQ))]
		case "double":
			p = doubleQ[r.intn(len(doubleQ))]
		case "block":
			p = blockLine[r.intn(len(blockLine))]
		default:
			must(fmt.Errorf("style %q", s.St))
		}
		means[i+1] = p.means
		text = strings.ReplaceAll(text, "$"+strconv.Itoa(i+1)+"$", p.text)
	}
	pos := 0
	v := eventTree(b.Ev, &pos, means)
	if pos != len(b.Ev) {
		must(fmt.Errorf("events left"))
	}
	if m := meansIndependently(text, v); m != "" {
		must(fmt.Errorf("%s", m))
	}
	for _, e := range engines {
		if m := meansFor(e, text, v); m != "" {
			return 1, m
		}
	}
	return len(b.Ev) * 2, ""
}

func eventTree(ev []string, pos *int, means []string) *val {
	e := ev[*pos]
	*pos++
	switch {
	case e == "[" || e == "{":
		v := &val{kind: "seq"}
		end := "]"
		if e == "{" {
			v.kind, end = "map", "}"
		}
		for ev[*pos] != end {
			v.c = append(v.c, eventTree(ev, pos, means))
		}
		*pos++
		return v
	case e == "null":
		return nullv()
	case e == "int":
		return intv(7)
	case strings.HasPrefix(e, "s"):
		sep := ""
		parts := []string{e[1:]}
		if i := strings.IndexAny(e, "_/"); i > 0 {
			sep = map[byte]string{'_': " ", '/': "\n"}[e[i]]
			parts = []string{e[1:i], e[i+1:]}
		}
		for i, p := range parts {
			n, err := strconv.Atoi(p)
			must(err)
			parts[i] = means[n]
		}
		return strv(strings.Join(parts, sep))
	}
	must(fmt.Errorf("event %q", e))
	return nil
}
