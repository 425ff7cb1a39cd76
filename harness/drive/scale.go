package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/KSpaceer/yamly"
)

func init() { kinds["scale"] = replayScale }

type scaleRun struct {
	unit string
	n    int
}

func (r *scaleRun) UnmarshalJSON(b []byte) error {
	var a []any
	if err := json.Unmarshal(b, &a); err != nil {
		return err
	}
	r.unit, r.n = a[0].(string), int(a[1].(float64))
	return nil
}

type scaleBehavior struct {
	Container string
	Parts     []struct {
		Src []scaleRun
		Val struct {
			T string
			R []scaleRun
			N int
		}
		Block bool
	}
	Obs []string
}

func expandRuns(runs []scaleRun, indent string) string {
	var sb strings.Builder
	for _, r := range runs {
		for i := 0; i < r.n; i++ {
			u := strings.NewReplacer("%", strconv.Itoa(i), "@", strconv.Itoa(i+1), "$e", "é", "$g", "😀",
				"\n", "\n"+indent, "^", "\n"+indent+strings.Repeat("  ", i)).Replace(r.unit)
			sb.WriteString(u)
		}
	}
	if indent == "" {
		return sb.String()
	}
	lines := strings.Split(sb.String(), "\n")
	for i, l := range lines {
		if l == indent && i+1 < len(lines) {
			lines[i] = ""
		}
	}
	return strings.Join(lines, "\n")
}

func scaleValue(t string, runs []scaleRun, n int) *val {
	v := &val{kind: "seq"}
	x := strv("x")
	key := func(i int) *val { return strv("k" + strconv.Itoa(i)) }
	switch t {
	case "str":
		return strv(expandRuns(runs, ""))
	case "ints", "twice":
		for k := 0; k < 1 || (k < 2 && t == "twice"); k++ {
			for i := 0; i < n; i++ {
				v.c = append(v.c, intv(int64(i)))
			}
		}
	case "map", "merged":
		v.kind = "map"
		for i := 0; i < n; i++ {
			v.c = append(v.c, key(i), intv(int64(i)))
		}
	case "pairs":
		for i := 0; i < n; i++ {
			v.c = append(v.c, mapOf(key(i), intv(int64(i))))
		}
	case "samepairs":
		for i := 0; i < n; i++ {
			v.c = append(v.c, mapOf(strv("k"), intv(int64(i))))
		}
	case "seqdeep":
		v = x
		for i := 0; i < n; i++ {
			v = seqOf(v)
		}
	case "mapdeep":
		v = x
		for i := 0; i < n; i++ {
			v = mapOf(strv("k"), v)
		}
	case "mixdeep":
		v = x
		for i := 0; i < n; i++ {
			v = seqOf(mapOf(strv("k"), v))
		}
	case "same":
		for i := 0; i < n; i++ {
			v.c = append(v.c, x)
		}
	case "chain":
		v.c = append(v.c, x)
		for i := 0; i < n; i++ {
			x = seqOf(x)
			v.c = append(v.c, x)
		}
	case "nulls":
		for i := 0; i < n; i++ {
			v.c = append(v.c, nullv())
		}
	default:
		must(fmt.Errorf("unknown value %q", t))
	}
	return v
}

func canonVal(v *val) string {
	switch v.kind {
	case "int":
		return fmt.Sprintf("num(%d)", v.i)
	case "str":
		return strconv.Quote(v.s)
	case "null":
		return "null"
	case "seq":
		parts := make([]string, len(v.c))
		for i, c := range v.c {
			parts[i] = canonVal(c)
		}
		return "[" + strings.Join(parts, ",") + "]"
	case "map":
		var parts []string
		for i := 0; i < len(v.c); i += 2 {
			parts = append(parts, strconv.Quote(v.c[i].s)+":"+canonVal(v.c[i+1]))
		}
		sort.Strings(parts)
		return "{" + strings.Join(parts, ",") + "}"
	}
	must(fmt.Errorf("no form of %q", v.kind))
	return ""
}

func insertVal(in yamly.Inserter, v *val, r *rng) {
	switch v.kind {
	case "seq":
		in.StartSequence()
		for _, c := range v.c {
			insertVal(in, c, r)
		}
		in.EndSequence()
	case "map":
		in.StartMapping()
		for _, c := range v.c {
			insertVal(in, c, r)
		}
		in.EndMapping()
	default:
		insertScalar(in, v, r)
	}
}

// scaleDoc lays the parts out in their container. A scalar "end" follows them.
func (b *scaleBehavior) doc() (string, []*val, *val) {
	var vals []*val
	for _, p := range b.Parts {
		vals = append(vals, scaleValue(p.Val.T, p.Val.R, p.Val.N))
	}
	var sb strings.Builder
	place := func(lead, indent string, src []scaleRun) {
		text := expandRuns(src, indent)
		sb.WriteString(lead)
		if !strings.HasPrefix(text, "\n") {
			sb.WriteString(" ")
		}
		sb.WriteString(text)
	}
	whole := &val{kind: "seq"}
	switch b.Container {
	case "root":
		text := expandRuns(b.Parts[0].Src, " ")
		if strings.HasPrefix(text, "\n") {
			text = strings.TrimPrefix(expandRuns(b.Parts[0].Src, ""), "\n")
		}
		return text + "\n", vals, vals[0]
	case "blockseq":
		for i, p := range b.Parts {
			place("-", "  ", p.Src)
			sb.WriteString("\n")
			whole.c = append(whole.c, vals[i])
		}
		sb.WriteString("- end\n")
	case "blockmap":
		whole.kind = "map"
		for i, p := range b.Parts {
			place(fmt.Sprintf("p%d:", i), "  ", p.Src)
			sb.WriteString("\n")
			whole.c = append(whole.c, strv(fmt.Sprintf("p%d", i)), vals[i])
		}
		sb.WriteString("e: end\n")
	case "flowseq":
		sb.WriteString("[")
		for i, p := range b.Parts {
			place("", "  ", p.Src)
			sb.WriteString(",")
			whole.c = append(whole.c, vals[i])
		}
		sb.WriteString(" end]\n")
	case "flowmap":
		sb.WriteString("{")
		whole.kind = "map"
		for i, p := range b.Parts {
			place(fmt.Sprintf(" p%d:", i), "  ", p.Src)
			sb.WriteString(",")
			whole.c = append(whole.c, strv(fmt.Sprintf("p%d", i)), vals[i])
		}
		sb.WriteString(" e: end}\n")
	default:
		must(fmt.Errorf("container %q", b.Container))
	}
	if whole.kind == "map" {
		whole.c = append(whole.c, strv("e"))
	}
	whole.c = append(whole.c, strv("end"))
	return sb.String(), vals, whole
}

func (b *scaleBehavior) name() string {
	s := b.Container
	for _, p := range b.Parts {
		s += fmt.Sprintf(" %v", p.Src)
	}
	return s
}

// around shows the place of the first difference.
func around(got, want string) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	cut := func(s string) string {
		lo, hi := max(i-20, 0), min(i+40, len(s))
		if lo > hi {
			lo = hi
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("at byte %d of %d (expected %d): %q, expected %q", i, len(got), len(want), cut(got), cut(want))
}

func clip(s string) string {
	if len(s) > 600 {
		return s[:300] + " ... " + s[len(s)-300:]
	}
	return s
}

func replayScale(line []byte, r *rng, _ int) (int, string) {
	var b scaleBehavior
	must(json.Unmarshal(line, &b))
	text, vals, whole := b.doc()
	if len(b.Obs) == 1 && b.Obs[0] == "refuse" {
		// yaml.v3 reads the first document only and is no judge of what follows it
		e := engines[0]
		if d, err := e.newReader(text, false); err == nil {
			return 1, clip(fmt.Sprintf("%s is malformed, but %s reads it as %v", b.name(), e.name, d.Any()))
		}
		return 1, ""
	}
	merged, tagged := false, false
	for _, p := range b.Parts {
		merged = merged || p.Val.T == "merged"
		tagged = tagged || strings.HasPrefix(p.Src[0].unit, "!")
	}
	if !merged && !tagged {
		if m := meansIndependently(text, whole); m != "" {
			must(fmt.Errorf("%s: %s", b.name(), clip(m)))
		}
	}
	obs := 0
	for _, o := range b.Obs {
		for _, e := range engines {
			obs++
			if m := scaleObserve(o, e, &b, text, vals, whole, r); m != "" {
				return obs, clip(fmt.Sprintf("%s (%s): %s: %s", b.name(), o, e.name, clip(m)))
			}
		}
	}
	return obs, ""
}

func scaleObserve(o string, e engine, b *scaleBehavior, text string, vals []*val, whole *val, r *rng) string {
	if o == "roundtrip" {
		enc := e.newEncoder()
		insertVal(enc, whole, r)
		out, _, err := encodeBy(enc, r)
		if err != nil {
			return fmt.Sprintf("not written: %v", err)
		}
		if m := meansIndependently(out, whole); m != "" {
			return clip(m)
		}
		for _, by := range engines {
			if m := meansFor(by, out, whole); m != "" {
				return clip(m)
			}
		}
		return ""
	}
	d, err := e.newReader(text, false)
	if err != nil {
		return fmt.Sprintf("rejected: %v", err)
	}
	switch o {
	case "walk":
		if m := readAs(d, whole, "$"); m != "" {
			return clip(m)
		}
		return atEnd(d)
	case "any":
		got, want := canonAny(d.Any()), canonVal(whole)
		if d.Error() != nil {
			return fmt.Sprintf("not read: %v", d.Error())
		}
		if got != want {
			return around(got, want)
		}
		return atEnd(d)
	case "skip", "raw":
		items := len(vals)
		if b.Container == "root" {
			items = 0
		} else if whole.kind == "map" {
			d.Mapping()
		} else {
			d.Sequence()
		}
		take := func(v *val) string {
			if o == "skip" {
				d.Skip()
				return ""
			}
			raw := string(d.Raw())
			if d.Error() != nil {
				return fmt.Sprintf("no raw data: %v", d.Error())
			}
			for _, by := range engines {
				if m := meansFor(by, raw, v); m != "" {
					return "raw data: " + clip(m)
				}
			}
			return ""
		}
		if items == 0 {
			if m := take(whole); m != "" {
				return m
			}
			return atEnd(d)
		}
		for i := range vals {
			if whole.kind == "map" {
				if m := readAs(d, whole.c[2*i], "key"); m != "" {
					return clip(m)
				}
			}
			if m := take(vals[i]); m != "" {
				return m
			}
		}
		if whole.kind == "map" {
			if m := readAs(d, strv("e"), "key"); m != "" {
				return clip(m)
			}
		}
		if m := readAs(d, strv("end"), "end"); m != "" {
			return clip(m)
		}
		return atEnd(d)
	}
	must(fmt.Errorf("observation %q", o))
	return ""
}
