package main

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"

	"gopkg.in/yaml.v3"
)

// kind lines: block collections, well-formed or not.
func init() { kinds["lines"] = replayLines }

type linesBehavior struct {
	Lines []struct {
		N int    `json:"n"`
		T string `json:"t"`
	} `json:"lines"`
	OK bool     `json:"ok"`
	Ev []string `json:"ev"`
}

func replayLines(line []byte, r *rng, round int) (int, string) {
	var b linesBehavior
	must(json.Unmarshal(line, &b))
	means := map[string]*val{}
	var sb strings.Builder
	newline := []string{"\n", "\n", "\r\n"}[r.intn(3)]
	for i, l := range b.Lines {
		id := strconv.Itoa(i + 1)
		key := []string{"k" + id, `"k` + id + `"`, "'k " + id + "'", "k- " + id}[r.intn(4)]
		means["k"+id] = strv(strings.Trim(key, `'"`))
		var text string
		// plain scalars would continue on lines behind them
		if r.intn(2) == 0 {
			p := singleQ[r.intn(len(singleQ))]
			text, means["v"+id] = "'"+p.text+"'", strv(p.means)
		} else if r.intn(4) == 0 {
			text, means["v"+id] = "[x, 'y']", seqOf(strv("x"), strv("y"))
			if l.T == "text" {
				text, means["v"+id] = "{x: 'y'}", mapOf(strv("x"), strv("y"))
			}
		} else {
			p := doubleQ[r.intn(len(doubleQ))]
			text, means["v"+id] = `"`+p.text+`"`, strv(p.means)
		}
		sb.WriteString(strings.Repeat(" ", l.N))
		switch l.T {
		case "key":
			sb.WriteString(key + ": " + text)
		case "open":
			sb.WriteString(key + ":")
		case "dash":
			sb.WriteString("- " + text)
		case "dopen":
			sb.WriteString("-")
		case "dkey":
			sb.WriteString("- " + key + ": " + text)
		case "dkopen":
			sb.WriteString("- " + key + ":")
		case "ddash":
			sb.WriteString("- - " + text)
		case "text":
			sb.WriteString(text)
		case "kk":
			sb.WriteString(key + ": " + key + ": " + text)
		case "kd":
			sb.WriteString(key + ": - " + text)
		default:
			must(fmt.Errorf("line %q", l.T))
		}
		if i == len(b.Lines)-1 && r.intn(2) == 0 {
			break
		}
		sb.WriteString([]string{"", "", " ", " # c"}[r.intn(4)] + newline)
		if r.intn(8) == 0 {
			sb.WriteString([]string{"", "  ", "# c", "      # c"}[r.intn(4)] + newline)
		}
	}
	doc := sb.String()
	obs := 0
	if !b.OK {
		for _, e := range engines {
			var n yaml.Node
			if e.name == "goyaml" && yaml.Unmarshal([]byte(doc), &n) == nil {
				// left to the underlying parser
				continue
			}
			obs++
			if d, err := e.newReader(doc, false); err == nil {
				return obs, fmt.Sprintf("%s accepts the malformed %q as %#v", e.name, doc, d.Any())
			}
		}
		return obs, ""
	}
	pos := 0
	want := linesTree(b.Ev, &pos, means)
	if m := meansIndependently(doc, want); m != "" {
		must(fmt.Errorf("%s", m))
	}
	for _, e := range engines {
		obs++
		if m := meansFor(e, doc, want); m != "" {
			return obs, m
		}
	}
	return obs, ""
}

func linesTree(ev []string, pos *int, means map[string]*val) *val {
	e := ev[*pos]
	*pos++
	switch e {
	case "map", "seq":
		v := &val{kind: e}
		for ev[*pos] != "end" {
			v.c = append(v.c, linesTree(ev, pos, means))
		}
		*pos++
		return v
	case "null":
		return nullv()
	}
	v := means[e]
	if v == nil {
		must(fmt.Errorf("event %q", e))
	}
	return v
}
