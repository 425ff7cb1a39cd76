package genreplay

import (
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"

	"gopkg.in/yaml.v3"
	"verif/gentypes"
)

// EmbeddedName is the name of the type of an embedded field.
func EmbeddedName(root, field string) string { return root + "E" + strings.ToUpper(field) }

// OddName is the name of an entry which has to be quoted in Go, YAML or both.
func OddName(field string) string {
	if odd := map[string]string{"f1": " f1 x ", "f2": `f"2\`, "f3": "ключ:3", "f4": "null", "f5": "-", "f6": "true"}[field]; odd != "" {
		return odd
	}
	return field + ": #"
}

func inlined(f *Field, fl Flags) bool { return f.In == "inline" || f.In == "embed" && fl.Inline }

// one is the replay of one behaviour for one engine.
type one struct {
	*conc
	t    *Type
	fl   Flags
	root string
	// anchored is the entry which is written as an alias of an earlier unknown entry.
	anchored string
}

// aliased gives the same document with the value of one entry in front of it, and an alias in its place.
func (o *one) aliased(t *Type, d *Doc) *Doc {
	if t.K != "struct" || d.D != "m" || len(d.E) == 0 || o.fl.Strict || o.r.intn(4) > 0 {
		return d
	}
	i := o.r.intn(len(d.E))
	if d.E[i].N == "?" {
		return d
	}
	o.anchored = d.E[i].N
	c := &Doc{D: "m", E: []DocEntry{{N: "first", Y: &Doc{D: "anchored", C: []*Doc{d.E[i].Y}}}}}
	c.E = append(c.E, d.E...)
	c.E[i+1].Y = &Doc{D: "alias"}
	return c
}

func (o *one) keyOf(t *Type, n string) string {
	if t != nil && t.K == "struct" {
		if f := o.field(t, n); f != nil && f.In == "embed" {
			return EmbeddedName(o.root, n)
		} else if f != nil && f.In == "odd" {
			return OddName(n)
		} else if f != nil && f.In == "plain" {
			return strings.ToUpper(n[:1]) + n[1:]
		}
	}
	if n == "?" {
		return "unknown"
	}
	return n
}

func structOf(t *Type) *Type {
	if t.K == "ptr" {
		return t.E
	}
	return t
}

// field finds the field for an entry of a struct.
func (o *one) field(t *Type, n string) *Field {
	for i := range t.F {
		if f := &t.F[i]; f.N == n && !inlined(f, o.fl) && f.In != "skip" && f.In != "hidden" {
			return f
		}
	}
	for i := range t.F {
		if f := &t.F[i]; inlined(f, o.fl) {
			if ff := o.field(structOf(f.T), n); ff != nil {
				return ff
			}
		}
	}
	return nil
}

func (o *one) fieldType(t *Type, n string) *Type {
	if f := o.field(t, n); f != nil {
		return f.T
	}
	return nil
}

// set builds a Go value.
func (o *one) set(t *Type, y *Value, rv reflect.Value) {
	if t.K == "self" {
		t = o.t
	}
	if y.V == "nil" {
		rv.Set(reflect.Zero(rv.Type()))
		return
	}
	switch t.K {
	case "ptr":
		rv.Set(reflect.New(rv.Type().Elem()))
		o.set(t.E, y.To, rv.Elem())
	case "slice":
		rv.Set(reflect.MakeSlice(rv.Type(), len(y.C), len(y.C)))
		for i, c := range y.C {
			o.set(t.E, c, rv.Index(i))
		}
	case "array":
		for i, c := range y.C {
			o.set(t.E, c, rv.Index(i))
		}
	case "map":
		rv.Set(reflect.MakeMap(rv.Type()))
		for _, e := range y.E {
			k := reflect.New(rv.Type().Key()).Elem()
			setScalar(t.Key, o.key(t.Key, e.N), k)
			v := reflect.New(rv.Type().Elem()).Elem()
			o.set(t.E, e.Y, v)
			rv.SetMapIndex(k, v)
		}
	case "struct":
		for i := range t.F {
			if t.F[i].In == "hidden" {
				continue
			}
			o.set(t.F[i].T, y.C[i], rv.Field(i))
		}
	default:
		setScalar(t.K, o.scalar(t.K, y.X), rv)
	}
}

func setScalar(kind string, v any, rv reflect.Value) {
	switch kind {
	case "bytes":
		rv.SetBytes([]byte(v.(string)))
	case "bytes4":
		reflect.Copy(rv, reflect.ValueOf([]byte(v.(string))))
	case "any":
		rv.Set(reflect.ValueOf(v))
	case "time":
		rv.Set(reflect.ValueOf(v))
	case "textstruct":
		rv.Set(reflect.ValueOf(gentypes.TextStruct{S: v.(string)}))
	case "engine":
		rv.Field(0).SetString(v.(string))
	case "iface":
		rv.Set(reflect.ValueOf(&gentypes.Yamly{N: v.(int64)}))
	case "eiface":
		if rv.Type().Name() == "GoyamlIface" {
			rv.Set(reflect.ValueOf(&gentypes.Goyaml{S: v.(string)}))
		} else {
			rv.Set(reflect.ValueOf(&gentypes.Yayamls{S: v.(string)}))
		}
	case "yamly":
		rv.Set(reflect.ValueOf(gentypes.Yamly{N: v.(int64)}))
	default:
		switch x := v.(type) {
		case string:
			rv.SetString(x)
		case bool:
			rv.SetBool(x)
		case int64:
			rv.SetInt(x)
		case uint64:
			rv.SetUint(x)
		case float64:
			rv.SetFloat(x)
		}
	}
}

// same compares a Go value with a predicted one; "" if they are the same.
func (o *one) same(t *Type, y *Value, rv reflect.Value, at string) string {
	want := reflect.New(rv.Type()).Elem()
	o.set(t, y, want)
	return diff(want, rv, at)
}

var timeType = reflect.TypeOf(time.Time{})

func diff(want, got reflect.Value, at string) string {
	if want.Type() == timeType {
		if w, g := want.Interface().(time.Time), got.Interface().(time.Time); !w.Equal(g) {
			return fmt.Sprintf("%s is %v instead of %v", at, g, w)
		}
		return ""
	}
	switch want.Kind() {
	case reflect.Pointer, reflect.Slice, reflect.Map, reflect.Interface:
		if want.IsNil() != got.IsNil() {
			return fmt.Sprintf("%s is %s instead of %s", at, show(got), show(want))
		}
		if want.IsNil() {
			return ""
		}
	}
	switch want.Kind() {
	case reflect.Interface:
		if !reflect.DeepEqual(want.Interface(), got.Interface()) {
			return fmt.Sprintf("%s is %#v instead of %#v", at, got.Interface(), want.Interface())
		}
		return ""
	case reflect.Pointer:
		return diff(want.Elem(), got.Elem(), at)
	case reflect.Slice, reflect.Array:
		if want.Len() != got.Len() {
			return fmt.Sprintf("%s is %s instead of %s", at, show(got), show(want))
		}
		for i := 0; i < want.Len(); i++ {
			if d := diff(want.Index(i), got.Index(i), fmt.Sprintf("%s[%d]", at, i)); d != "" {
				return d
			}
		}
		return ""
	case reflect.Map:
		if want.Len() != got.Len() {
			return fmt.Sprintf("%s is %s instead of %s", at, show(got), show(want))
		}
		for _, k := range want.MapKeys() {
			g := got.MapIndex(k)
			if !g.IsValid() {
				return fmt.Sprintf("%s is %s instead of %s", at, show(got), show(want))
			}
			if d := diff(want.MapIndex(k), g, fmt.Sprintf("%s[%v]", at, k)); d != "" {
				return d
			}
		}
		return ""
	case reflect.Struct:
		for i := 0; i < want.NumField(); i++ {
			if !want.Type().Field(i).IsExported() {
				if !got.Field(i).IsZero() {
					return fmt.Sprintf("%s.%s is not zero", at, want.Type().Field(i).Name)
				}
				continue
			}
			if d := diff(want.Field(i), got.Field(i), at+"."+want.Type().Field(i).Name); d != "" {
				return d
			}
		}
		return ""
	}
	if want.Interface() != got.Interface() {
		return fmt.Sprintf("%s is %s instead of %s", at, show(got), show(want))
	}
	return ""
}

func show(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Pointer, reflect.Slice, reflect.Map, reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
	}
	if v.Kind() == reflect.Pointer {
		return "&" + show(v.Elem())
	}
	return fmt.Sprintf("%#v", v.Interface())
}

// render writes a document, in flow style or block style.
func (o *one) render(t *Type, d *Doc, b *strings.Builder, indent int, flow bool) {
	if t != nil && t.K == "self" {
		t = o.t
	}
	for t != nil && t.K == "ptr" {
		t = t.E
		if t.K == "self" {
			t = o.t
		}
	}
	switch d.D {
	case "null":
		b.WriteString([]string{"null", "~"}[o.r.intn(2)])
	case "anchored":
		b.WriteString("&anc ")
		o.render(t, d.C[0], b, indent, flow)
	case "alias":
		b.WriteString("*anc")
	case "word":
		b.WriteString("word")
	case "bad":
		b.WriteString(o.misfit(d.K))
	case "s":
		b.WriteString(o.text(d.K, o.scalar(d.K, d.X)))
	case "l":
		var et *Type
		if t != nil && (t.K == "slice" || t.K == "array") {
			et = t.E
		}
		if flow || len(d.C) == 0 || o.r.intn(2) == 0 {
			b.WriteByte('[')
			for i, c := range d.C {
				if i > 0 {
					b.WriteString(", ")
				}
				o.render(et, c, b, 0, true)
			}
			b.WriteByte(']')
			return
		}
		for _, c := range d.C {
			b.WriteByte('\n')
			b.WriteString(strings.Repeat(" ", indent))
			b.WriteString("- ")
			o.render(et, c, b, indent+2, false)
		}
	case "m":
		key := func(e DocEntry) (string, *Type) {
			if t != nil && t.K == "map" {
				if e.N == "bad" {
					return o.misfit(t.Key), t.E
				}
				return o.text(t.Key, o.key(t.Key, e.N)), t.E
			}
			if t != nil && t.K == "struct" {
				if e.N == "first" {
					return "first", o.fieldType(t, o.anchored)
				}
				return o.quote(o.keyOf(t, e.N)), o.fieldType(t, e.N)
			}
			return o.keyOf(nil, e.N), nil
		}
		if flow || len(d.E) == 0 || o.r.intn(2) == 0 {
			b.WriteByte('{')
			for i, e := range d.E {
				if i > 0 {
					b.WriteString(", ")
				}
				k, et := key(e)
				b.WriteString(k + ": ")
				o.render(et, e.Y, b, 0, true)
			}
			b.WriteByte('}')
			return
		}
		for _, e := range d.E {
			b.WriteByte('\n')
			b.WriteString(strings.Repeat(" ", indent))
			k, et := key(e)
			b.WriteString(k + ": ")
			o.render(et, e.Y, b, indent+2, false)
		}
	}
}

// written compares a written document with the predicted one.
func (o *one) written(t *Type, d *Doc, n *yaml.Node, at string) string {
	if t.K == "self" {
		t = o.t
	}
	for t.K == "ptr" {
		t = t.E
		if t.K == "self" {
			t = o.t
		}
	}
	bad := func(what string) string {
		return fmt.Sprintf("%s is written as %s instead of %s", at, nodeText(n), what)
	}
	switch d.D {
	case "null":
		if n.Kind != yaml.ScalarNode || n.Tag != "!!null" {
			return bad("null")
		}
	case "s":
		want := o.scalar(d.K, d.X)
		if n.Kind != yaml.ScalarNode || n.Tag == "!!null" && want != nil {
			return bad(fmt.Sprintf("%#v", want))
		}
		if !sameScalar(d.K, want, n) {
			return bad(fmt.Sprintf("%#v", want))
		}
	case "l":
		if n.Kind != yaml.SequenceNode || len(n.Content) != len(d.C) {
			return bad(fmt.Sprintf("a sequence of %d", len(d.C)))
		}
		for i, c := range d.C {
			if m := o.written(t.E, c, n.Content[i], fmt.Sprintf("%s[%d]", at, i)); m != "" {
				return m
			}
		}
	case "m":
		if n.Kind != yaml.MappingNode || len(n.Content) != 2*len(d.E) {
			return bad(fmt.Sprintf("a mapping of %d", len(d.E)))
		}
		for _, e := range d.E {
			found := false
			for i := 0; i < len(n.Content); i += 2 {
				k := n.Content[i]
				et := t.E
				if t.K == "map" {
					if !sameScalar(t.Key, o.key(t.Key, e.N), k) {
						continue
					}
				} else {
					if k.Value != o.keyOf(t, e.N) || k.Tag != "!!str" {
						continue
					}
					et = o.fieldType(t, e.N)
				}
				found = true
				if m := o.written(et, e.Y, n.Content[i+1], at+"."+k.Value); m != "" {
					return m
				}
			}
			if !found {
				return bad("a mapping with " + e.N)
			}
		}
	}
	return ""
}

func nodeText(n *yaml.Node) string {
	b, err := yaml.Marshal(n)
	if err != nil {
		return err.Error()
	}
	return fmt.Sprintf("%q", b)
}

func sameScalar(kind string, want any, n *yaml.Node) bool {
	if n.Kind != yaml.ScalarNode {
		return false
	}
	switch w := want.(type) {
	case string:
		switch kind {
		case "text":
			w = "t:" + w
		case "textstruct":
			w = "s:" + w
		case "engine", "eiface":
			w = "e:" + w
		}
		return n.Value == w && n.Tag == "!!str"
	case bool:
		g, err := strconv.ParseBool(n.Value)
		return err == nil && g == w
	case int64:
		g, err := strconv.ParseInt(n.Value, 10, 64)
		return err == nil && g == w
	case uint64:
		g, err := strconv.ParseUint(n.Value, 10, 64)
		return err == nil && g == w
	case float64:
		var g float64
		if err := n.Decode(&g); err != nil {
			return false
		}
		if kind != "float64" {
			return float32(g) == float32(w)
		}
		return g == w || math.IsNaN(g) && math.IsNaN(w)
	case time.Time:
		var g time.Time
		return n.Decode(&g) == nil && g.Equal(w)
	}
	return false
}
