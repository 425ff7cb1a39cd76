package main

import (
	"fmt"
	"hash/fnv"
	"strings"

	"github.com/KSpaceer/yamly"
	yayenc "github.com/KSpaceer/yamly/engines/yayamls/encode"
	"github.com/KSpaceer/yamly/engines/yayamls/parser"
)

// via says how documents are observed: directly, or after another step ("raw", "rewrite").
// It is the second part of a kind, e.g. "style:raw".
var via string

// ownOnly restricts the observation to yayamls (others know fewer tags and anchors).
var ownOnly bool

func meansEverywhere(text string, v *val) string {
	if ownOnly {
		return directlyMeans(engines[0], text, v)
	}
	for _, e := range engines {
		if m := directlyMeans(e, text, v); m != "" {
			return m
		}
	}
	return meansIndependently(text, v)
}

// rawFor takes nodes of the document raw, at the root and below.
func rawFor(e engine, text string, v *val) string {
	for depth := 0; depth <= 2; depth++ {
		d, err := e.newReader(text, false)
		if err != nil {
			return fmt.Sprintf("%s does not read %q: %v", e.name, text, err)
		}
		m := rawAt(d, v, depth)
		if m == "" {
			m = atEnd(d)
		}
		if m != "" {
			return fmt.Sprintf("%s, nodes of %q taken raw: %s", e.name, text, m)
		}
	}
	return ""
}

func rawAt(d yamly.Decoder, v *val, depth int) string {
	if depth == 0 || (v.kind != "seq" && v.kind != "map") {
		raw := string(d.Raw())
		if err := d.Error(); err != nil {
			return fmt.Sprintf("error %v", err)
		}
		return meansEverywhere(raw, v)
	}
	var st yamly.CollectionState
	if v.kind == "seq" {
		st = d.Sequence()
	} else {
		st = d.Mapping()
	}
	for i, c := range v.c {
		if (v.kind == "seq" || i%2 == 0) && !st.HasUnprocessedItems() {
			return fmt.Sprintf("items of %s are missing (error: %v)", v, d.Error())
		}
		if m := rawAt(d, c, depth-1); m != "" {
			return m
		}
	}
	if st.HasUnprocessedItems() {
		return fmt.Sprintf("more items than %s", v)
	}
	return ""
}

// rewriteFor writes the parsed tree.
func rewriteFor(e engine, text string, v *val) string {
	if e.name != engines[0].name {
		return ""
	}
	for _, opts := range [][]parser.ParseOption{nil, {parser.WithOmitStream()}} {
		tree, err := parser.ParseString(text, opts...)
		if err != nil {
			return fmt.Sprintf("%q is not parsed: %v", text, err)
		}
		out, err := yayenc.NewASTWriter().WriteString(tree)
		if err != nil {
			return fmt.Sprintf("tree of %q is not written: %v", text, err)
		}
		if m := meansEverywhere(out, v); m != "" {
			return fmt.Sprintf("tree of %q written again: %s", text, m)
		}
	}
	return ""
}

// insertFor puts the document into other ones as raw YAML.
func insertFor(e engine, text string, v *val) string {
	for way := 0; way < 4; way++ {
		enc := e.newEncoder()
		want := v
		switch way {
		case 0:
			enc.InsertRaw([]byte(text), nil)
		case 1:
			enc.StartSequence()
			enc.InsertRaw([]byte(text), nil)
			enc.InsertString("after")
			enc.EndSequence()
			want = seqOf(v, strv("after"))
		case 2:
			enc.StartMapping()
			enc.InsertString("key")
			enc.InsertRaw([]byte(text), nil)
			enc.InsertString("after")
			enc.InsertInteger(1)
			enc.EndMapping()
			want = mapOf(strv("key"), v, strv("after"), intv(1))
		case 3:
			enc.StartSequence()
			enc.StartMapping()
			enc.InsertRaw([]byte(text), nil)
			enc.InsertNull()
			enc.EndMapping()
			enc.EndSequence()
			want = seqOf(mapOf(v, nullv()))
		}
		out, err := enc.EncodeToString()
		if err != nil {
			return fmt.Sprintf("%s, %q inserted as raw data (way %d): %v", e.name, text, way, err)
		}
		if m := meansEverywhere(out, want); m != "" {
			return fmt.Sprintf("%s, %q inserted as raw data (way %d): %s", e.name, text, way, m)
		}
	}
	return ""
}

// mixedFor reads the document in every way, changing it from node to node.
func mixedFor(e engine, text string, v *val) string {
	h := fnv.New64a()
	h.Write([]byte(text))
	r := newRNG(seed, int(h.Sum64()>>2))
	for i := 0; i < 3; i++ {
		d, err := e.newReader(text, false)
		if err != nil {
			return fmt.Sprintf("%s does not read %q: %v", e.name, text, err)
		}
		m := mixedAt(d, v, r, "$")
		if m == "" {
			m = atEnd(d)
		}
		if m != "" {
			return fmt.Sprintf("%s reads %q node by node: %s", e.name, text, m)
		}
	}
	return ""
}

func mixedAt(d yamly.Decoder, v *val, r *rng, path string) string {
	switch k := r.intn(8); {
	case k == 0:
		return skips(d, v, path)
	case k == 1:
		if plainKeys(v) {
			return readWhole(d, v, path)
		}
	case k == 2:
		raw := string(d.Raw())
		if err := d.Error(); err != nil {
			return fmt.Sprintf("at %s: error %v", path, err)
		}
		if m := meansEverywhere(raw, v); m != "" {
			return "at " + path + ": " + m
		}
		return ""
	}
	if v.kind != "seq" && v.kind != "map" {
		return readAs(d, v, path)
	}
	var st yamly.CollectionState
	if v.kind == "seq" {
		st = d.Sequence()
	} else {
		st = d.Mapping()
	}
	per := 1
	if v.kind == "map" {
		per = 2
	}
	if st.Size() != len(v.c)/per {
		return fmt.Sprintf("at %s: size %d of %s (error: %v)", path, st.Size(), v, d.Error())
	}
	for i, c := range v.c {
		if i%per == 0 && !st.HasUnprocessedItems() {
			return fmt.Sprintf("at %s: only %d items of %s (error: %v)", path, i/per, v, d.Error())
		}
		if m := mixedAt(d, c, r, fmt.Sprintf("%s/%d", path, i)); m != "" {
			return m
		}
	}
	if st.HasUnprocessedItems() {
		return fmt.Sprintf("at %s: more items than %s", path, v)
	}
	return ""
}

// plainKeys says whether the tree is the same as a Go value of any type.
func plainKeys(v *val) bool {
	seen := map[string]bool{}
	for i, c := range v.c {
		if v.kind == "map" && i%2 == 0 {
			if c.kind != "str" || seen[c.s] || c.s == "<<" {
				return false
			}
			seen[c.s] = true
			continue
		}
		if !plainKeys(c) {
			return false
		}
	}
	if v.kind == "str" {
		// quoted text with the look of another type is typed by this look when read as a whole
		switch strings.ToLower(v.s) {
		case "true", "false", "yes", "no", "on", "off", "y", "n", "null", "~", "":
			return false
		}
		return !strings.ContainsAny(v.s, "0123456789") && !strings.HasPrefix(strings.TrimLeft(v.s, "+-"), ".")
	}
	return v.kind == "seq" || v.kind == "map" || v.kind == "int" || v.kind == "null"
}
