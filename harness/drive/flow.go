package main

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
)

// kind flow: flow documents, well-formed or not.
func init() { kinds["flow"] = replayFlow }

type flowBehavior struct {
	Toks []string `json:"toks"`
	OK   bool     `json:"ok"`
	Ev   []string `json:"ev"`
	CK   bool     `json:"ck"`
	// whether what is wrong comes behind a complete root node
	After bool `json:"after"`
}

func replayFlow(line []byte, r *rng, _ int) (int, string) {
	var b flowBehavior
	must(json.Unmarshal(line, &b))
	means := map[string]*val{}
	texts := make([]string, len(b.Toks))
	for i, t := range b.Toks {
		id := t + strconv.Itoa(i+1)
		switch t {
		case "s":
			p := plainAnywhere[r.intn(len(plainAnywhere))]
			texts[i], means[id] = p.text, strv(p.means)
		case "q":
			if r.intn(2) == 0 {
				p := singleQ[r.intn(len(singleQ))]
				texts[i], means[id] = "'"+p.text+"'", strv(p.means)
			} else {
				p := doubleQ[r.intn(len(doubleQ))]
				texts[i], means[id] = `"`+p.text+`"`, strv(p.means)
			}
		case "u":
			texts[i] = []string{`"`, `'`, `"a`, `'b c`, `"a\"`}[r.intn(5)]
		case "d":
			texts[i] = []string{"- x", "-\tx", "- ", "@x", "`x", "| ", ">", "%x", "-\n  x"}[r.intn(9)]
		default:
			texts[i] = t
		}
	}
	var want *val
	if b.OK {
		pos := 0
		want = flowTree(b.Ev, &pos, means)
	}
	obs := 0
	for layout := 0; layout < 3; layout++ {
		for place := 0; place < 3; place++ {
			var sb strings.Builder
			sb.WriteString([]string{"", "- ", "k: "}[place])
			for i, t := range b.Toks {
				sb.WriteString(texts[i])
				if i == len(b.Toks)-1 {
					break
				}
				next := b.Toks[i+1]
				sep := " "
				switch {
				case layout == 1 && t != ":" && next != "q" && next != "s" && next != "u" && next != "d":
					// closely together
					sep = ""
				case layout == 1 && (t == "[" || t == "{" || t == ","):
					sep = ""
				case layout == 2 && !b.CK && b.OK && (t == "[" || t == "{" || t == "," || next == "]" || next == "}"):
					sep = "\n  "
				}
				sb.WriteString(sep)
			}
			sb.WriteString("\n")
			doc := sb.String()
			if !b.OK {
				for _, e := range engines {
					if b.After && e.name == "goyaml" {
						// yaml.v3 reads a stream up to the end of its first document only
						continue
					}
					obs++
					if d, err := e.newReader(doc, false); err == nil {
						return obs, fmt.Sprintf("%s accepts the malformed %q as %#v", e.name, doc, d.Any())
					}
				}
				continue
			}
			v := want
			switch place {
			case 1:
				v = seqOf(want)
			case 2:
				v = mapOf(strv("k"), want)
			}
			if m := meansIndependently(doc, v); m != "" {
				must(fmt.Errorf("%s", m))
			}
			for _, e := range engines {
				obs++
				if m := meansFor(e, doc, v); m != "" {
					return obs, m
				}
			}
		}
		if !b.OK && layout == 1 {
			break
		}
	}
	return obs, ""
}

func flowTree(ev []string, pos *int, means map[string]*val) *val {
	e := ev[*pos]
	*pos++
	switch e {
	case "[", "{":
		v := &val{kind: "seq"}
		end := "]"
		if e == "{" {
			v.kind, end = "map", "}"
		}
		for ev[*pos] != end {
			v.c = append(v.c, flowTree(ev, pos, means))
		}
		*pos++
		return v
	case "null":
		return nullv()
	}
	v := means[e]
	if v == nil {
		must(fmt.Errorf("event %q", e))
	}
	return v
}
