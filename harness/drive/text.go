package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"time"

	"github.com/KSpaceer/yamly"
	goyamldec "github.com/KSpaceer/yamly/engines/goyaml/decode"
	yaydec "github.com/KSpaceer/yamly/engines/yayamls/decode"
	yayenc "github.com/KSpaceer/yamly/engines/yayamls/encode"
	"github.com/KSpaceer/yamly/engines/yayamls/parser"
	"gopkg.in/yaml.v3"
)

// kind text: arbitrary texts. A panic or an endless loop ends up in the caller.
func init() { kinds["text"] = replayText }

var fragments = map[string]string{
	"a": "a", "sp": " ", "lf": "\n", "tab": "\t", "colon": ":", "dash": "-", "q": "?", "[": "[", "]": "]", "{": "{", "}": "}",
	"comma": ",", "hash": "#", "amp": "&", "star": "*", "bang": "!", "pipe": "|", "gt": ">", "sq": "'", "dq": `"`, "pct": "%",
	"at": "@", "bs": `\`, "cr": "\r", "doc": "---", "end": "...", "bad": "\xff", "nul": "\x00", "uni": "é", "bom": "\ufeff",
	"merge": "<<", "1": "1", "null": "~", "yaml": "%YAML 1.2\n", "tagdir": "%TAG !e! !x\n", "crlf": "\r\n", "key": "k: ", "item": "- ",
	"anchor": "&a ", "alias": "*a", "tag": "!!str ", "lit": "|\n ", "fold": ">-\n ", "ind": "|2\n", "in2": "\n  ", "cmt": " # c\n",
	"vtag": "!<x> ", "esc": `\x4`, "trunc": "\xe6\x97", "nel": "\u0085",
}

// what precedes and follows the text
var textContexts = [][2]string{
	{"", ""}, {"", "\n"}, {"- ", "\n- z\n"}, {"k: ", "\nl: z\n"}, {"k:\n  ", "\n  z\n"}, {"[", "]"}, {"[a, ", ", b]\n"},
	{"{", "}"}, {"{k: ", "}\n"}, {`"`, `"`}, {"'", "'\n"}, {"|\n  ", "\n"}, {">\n ", ""}, {"- - ", ""}, {"? ", "\n: z\n"}, {"&a ", "\n"},
	{"--- ", "\n...\n"}, {"a\n---\n", ""}, {"k: &a {", "}\nl: *a\n"}, {"<<: ", "\nk: v\n"}, {"- &x [*x, ", "]\n"}, {"# ", "\n"},
}

func replayText(line []byte, r *rng, idx int) (int, string) {
	var frags []string
	must(json.Unmarshal(line, &frags))
	var text []byte
	for _, f := range frags {
		s, ok := fragments[f]
		if !ok {
			must(fmt.Errorf("fragment %q", f))
		}
		text = append(text, s...)
	}
	obs := 0
	contexts := textContexts
	if len(frags) > 2 {
		contexts = [][2]string{contexts[r.intn(len(contexts))], contexts[r.intn(len(contexts))]}
	}
	if n := len(frags); n > 0 && (n <= 2 || n == 3 && r.intn(3) == 0) {
		// nested or repeated many times
		var closing []byte
		for i := len(text) - 1; i >= 0; i-- {
			switch text[i] {
			case '[':
				closing = append(closing, ']')
			case '{':
				closing = append(closing, '}')
			}
		}
		times := []int{40, 200, 120}[n-1]
		again := string(bytes.Repeat(text, times-1))
		contexts = append(contexts[:len(contexts):len(contexts)], [2]string{again, "a" + string(bytes.Repeat(closing, times))})
	}
	for _, c := range contexts {
		src := []byte(c[0] + string(text) + c[1])
		kept := bytes.Clone(src)
		beg := time.Now()
		var first [2]string
		for call := 0; call < 2; call++ {
			for i := range first {
				obs++
				got := textOutcome(i, src)
				if call == 0 {
					first[i] = got
				} else if got != first[i] {
					return obs, fmt.Sprintf("%s answers differently for %q: %s, then %s", engines[i].name, kept, first[i], got)
				}
			}
		}
		if !bytes.Equal(src, kept) {
			return obs, fmt.Sprintf("source %q is changed to %q", kept, src)
		}
		if d := time.Since(beg); d > 30*time.Second {
			return obs, fmt.Sprintf("parsing of %q (%d bytes) takes %v", kept, len(kept), d)
		}
	}
	return obs, ""
}

// textOutcome gives a rendering of everything which is read from the source.
func textOutcome(i int, src []byte) string {
	var out bytes.Buffer
	show := func(what string, v any, err error) {
		if err != nil {
			fmt.Fprintf(&out, "%s: error %v; ", what, err)
			return
		}
		fmt.Fprintf(&out, "%s: %s; ", what, showAny(v))
	}
	if i == 0 {
		tree, err := parser.ParseBytes(src)
		if err == nil {
			var buf bytes.Buffer
			werr := yayenc.NewASTWriter().WriteTo(&buf, tree)
			show("tree", buf.String(), werr)
		} else {
			show("tree", nil, err)
		}
	}
	decoder := func() (yamly.Decoder, error) {
		if i == 0 {
			return yaydec.NewASTReaderFromBytes(src)
		}
		var n yaml.Node
		if err := yaml.Unmarshal(src, &n); err != nil {
			return nil, err
		}
		return goyamldec.NewASTReader(&n), nil
	}
	for k := 0; k < 11; k++ {
		d, err := decoder()
		if err != nil {
			show("parse", nil, err)
			break
		}
		var v any
		switch k {
		case 0:
			v = d.Any()
		case 1:
			v = string(d.Raw())
		case 2:
			v = d.String()
		case 3:
			v = d.Integer(64)
		case 4:
			v = d.Float(64)
		case 5:
			v = d.Boolean()
		case 6:
			v = d.Timestamp()
		case 7:
			d.Skip()
			d.Skip()
		case 8:
			v = walkAll(d, 0)
		case 9:
			v = d.TryNull()
		case 10:
			v = d.Unsigned(8)
		}
		show(fmt.Sprint(k), v, d.Error())
	}
	return out.String()
}

func walkAll(d yamly.Decoder, depth int) int {
	if d.Error() != nil {
		return 0
	}
	n := 1
	if depth > 40 {
		d.Skip()
		return n
	}
	if d.TryNull() {
		return n
	}
	st := d.Sequence()
	for st.HasUnprocessedItems() && d.Error() == nil {
		n += walkAll(d, depth+1)
	}
	return n
}

// showAny is fmt with ordered maps, which may be cyclic for none of the engines.
func showAny(v any) string { return fmt.Sprintf("%#v", v) }
