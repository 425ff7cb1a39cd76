package main

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
)

// kind quoted: items of a quoted scalar and the text they denote, in every position of a document.
func init() { kinds["quoted"] = replayQuoted }

var (
	quotedChars = []string{
		"a", "b", "Z", "0", "-", "?", ":", ",", "[", "]", "{", "}", "#", "&", "*", "!", "|", ">", "%", "@", "`", "é", "日", "😀",
		"~", "=", "<", "/", "\u00a0", "\u2003", "xyz", "- ", "k: v"[:2], ".", "$", "(", "_", "\u00ad", "\ufffd",
	}
	simpleEscapes = []phrase{
		{`\0`, "\x00"}, {`\a`, "\a"}, {`\b`, "\b"}, {`\t`, "\t"}, {`\n`, "\n"}, {`\v`, "\v"}, {`\f`, "\f"}, {`\r`, "\r"},
		{`\e`, "\x1b"}, {`\N`, "\u0085"}, {`\_`, "\u00a0"}, {`\L`, "\u2028"}, {`\P`, "\u2029"}, {`\x41`, "A"}, {`\x20`, " "},
		{`\xff`, "\u00ff"}, {`\x7F`, "\x7f"}, {`\u00e9`, "é"}, {`\u263A`, "☺"}, {`\uffff`, "\uffff"}, {`\U0001F600`, "😀"},
		{`\U0010FFFF`, "\U0010ffff"}, {`\U00000041`, "A"}, {`\x22`, `"`}, {`\x5c`, `\`}, {`\u000a`, "\n"}, {`\u005C`, `\`}, {`\x00`, "\x00"},
	}
	badEscapes = []string{
		`\q`, `\x4g`, `\xg4`, `\u12g4`, `\ug`, `\U0001F60g`, `\1`, `\X41`, `\c`, `\.`, `\u{41}`, `\z`, `\-`, `\A`, `\#`, `\T`,
	}
	truncEscapes = []string{`\x`, `\x4`, `\u`, `\u0`, `\u00e`, `\U`, `\U0001F60`, `\U0001`}
	singleChars  = append([]string{`"`}, quotedChars...)
)

type quotedBehavior struct {
	Quote string   `json:"quote"`
	Items []string `json:"items"`
	Out   []string `json:"out"`
	Bad   bool     `json:"bad"`
}

// positions of a scalar in a document: text with @ for it, the least indentation of its
// continuation lines, whether it has to fit on one line, and the meaning
type position struct {
	text  string
	ind   int
	one   bool
	means func(*val) *val
}

var positions = []position{
	{"@\n", 0, false, func(v *val) *val { return v }},
	{"--- @ # c\n", 0, false, func(v *val) *val { return v }},
	{"- @\n- x\n", 1, false, func(v *val) *val { return seqOf(v, strv("x")) }},
	{"- - @ # c\n  - x\n- y\n", 3, false, func(v *val) *val { return seqOf(seqOf(v, strv("x")), strv("y")) }},
	{"k: @\nl: x\n", 1, false, func(v *val) *val { return mapOf(strv("k"), v, strv("l"), strv("x")) }},
	{"m:\n  k: @\n  l: x\nn: y\n", 3, false, func(v *val) *val {
		return mapOf(strv("m"), mapOf(strv("k"), v, strv("l"), strv("x")), strv("n"), strv("y"))
	}},
	{"k:\n  @\nl: x\n", 1, false, func(v *val) *val { return mapOf(strv("k"), v, strv("l"), strv("x")) }},
	{"? @\n: x\n", 1, false, func(v *val) *val { return mapOf(v, strv("x")) }},
	{"[@, x]\n", 1, false, func(v *val) *val { return seqOf(v, strv("x")) }},
	{"[x,@]\n", 1, false, func(v *val) *val { return seqOf(strv("x"), v) }},
	{"{k: @, l: x}\n", 1, false, func(v *val) *val { return mapOf(strv("k"), v, strv("l"), strv("x")) }},
	{"- {k: [@ ]}\n- x\n", 2, false, func(v *val) *val { return seqOf(mapOf(strv("k"), seqOf(v)), strv("x")) }},
	{"- &a @\n- x\n", 1, false, func(v *val) *val { return seqOf(v, strv("x")) }},
	{"k: !!str @\nl: x\n", 1, false, func(v *val) *val { return mapOf(strv("k"), v, strv("l"), strv("x")) }},
	{"@: x\nl: y\n", 0, true, func(v *val) *val { return mapOf(v, strv("x"), strv("l"), strv("y")) }},
	{"k:\n  @ : x\n", 0, true, func(v *val) *val { return mapOf(strv("k"), mapOf(v, strv("x"))) }},
	{"- @: x\n  l: y\n", 0, true, func(v *val) *val { return seqOf(mapOf(v, strv("x"), strv("l"), strv("y"))) }},
	{"{@: x, l: y}\n", 0, true, func(v *val) *val { return mapOf(v, strv("x"), strv("l"), strv("y")) }},
	{"{@:x, l: y}\n", 0, true, func(v *val) *val { return mapOf(v, strv("x"), strv("l"), strv("y")) }},
	{"[@: x, y]\n", 0, true, func(v *val) *val { return seqOf(mapOf(v, strv("x")), strv("y")) }},
	{"&a @: x\n", 0, true, func(v *val) *val { return mapOf(v, strv("x")) }},
}

func replayQuoted(line []byte, r *rng, _ int) (int, string) {
	var b quotedBehavior
	must(json.Unmarshal(line, &b))
	// concrete items; line breaks are filled in per position
	text := make([]string, len(b.Items))
	means := map[string]string{"SP": " ", "LF": "\n"}
	multi := false
	for i, it := range b.Items {
		var m string
		switch it {
		case "ch":
			pool := quotedChars
			if b.Quote == "single" {
				pool = singleChars
			} else if r.intn(8) == 0 {
				pool = []string{"'"}
			}
			m = pool[r.intn(len(pool))]
			// "ch" is not white space at its end
			m = strings.TrimRight(m, " ")
			text[i] = m
		case "sp":
			m = " "
			text[i] = m
		case "tab":
			m = "\t"
			text[i] = m
		case "esc":
			p := simpleEscapes[r.intn(len(simpleEscapes))]
			text[i], m = p.text, p.means
		case "equote":
			text[i], m = `\"`, `"`
		case "ebs":
			text[i], m = `\\`, `\`
		case "esp":
			text[i], m = `\ `, " "
			if r.intn(3) == 0 {
				text[i], m = "\\\t", "\t"
			}
		case "qq":
			text[i], m = "''", "'"
		case "bs":
			text[i], m = `\`, `\`
		case "bad":
			text[i] = badEscapes[r.intn(len(badEscapes))]
		case "trunc":
			text[i] = truncEscapes[r.intn(len(truncEscapes))]
		case "nl", "enl":
			multi = true
		default:
			must(fmt.Errorf("item %q", it))
		}
		means[strconv.Itoa(i+1)] = m
	}
	var want strings.Builder
	for _, o := range b.Out {
		m, ok := means[o]
		if !ok {
			must(fmt.Errorf("output %q", o))
		}
		want.WriteString(m)
	}
	quote := `"`
	if b.Quote == "single" {
		quote = "'"
	}
	obs := 0
	for _, pos := range positions {
		if pos.one && multi {
			continue
		}
		var sb strings.Builder
		sb.WriteString(quote)
		brk := []string{"\n", "\n", "\n", "\r\n"}[r.intn(4)]
		for i, it := range b.Items {
			switch it {
			case "nl", "enl":
				if it == "enl" {
					sb.WriteByte('\\')
				}
				sb.WriteString(brk)
				// an empty line needs no indentation
				rest := b.Items[i+1:]
				blank := len(rest) > 0 && rest[0] == "nl"
				if !blank || r.intn(2) == 0 {
					sb.WriteString(strings.Repeat(" ", pos.ind+r.intn(2)))
				}
			default:
				sb.WriteString(text[i])
			}
		}
		sb.WriteString(quote)
		doc := strings.Replace(pos.text, "@", sb.String(), 1)
		if b.Bad {
			for _, e := range engines {
				obs++
				if d, err := e.newReader(doc, false); err == nil {
					return obs, fmt.Sprintf("%s accepts %q although it has an incorrect escape sequence: %#v", e.name, doc, d.Any())
				}
			}
			continue
		}
		v := pos.means(strv(want.String()))
		if m := meansIndependently(doc, v); m != "" {
			must(fmt.Errorf("%s", m))
		}
		for _, e := range engines {
			obs++
			if m := meansFor(e, doc, v); m != "" {
				return obs, m
			}
		}
	}
	return obs, ""
}
