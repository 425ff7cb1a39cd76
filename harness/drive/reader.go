package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/KSpaceer/yamly"
)

func init() { kinds["reader"] = replayReader }

type specValue struct {
	K string          `json:"k"`
	V json.RawMessage `json:"v"`
}

type readerOp struct {
	Op     string    `json:"op"`
	Ret    specValue `json:"ret"`
	Fatal  string    `json:"fatal"`
	Denied int       `json:"denied"`
	Un     []string  `json:"un"`
}

type readerBehavior struct {
	Text  string     `json:"text"`
	Multi bool       `json:"multi"`
	Ops   []readerOp `json:"ops"`
}

func (v specValue) text() string {
	var s string
	if json.Unmarshal(v.V, &s) == nil {
		return s
	}
	return string(v.V)
}

// canonical form of a predicted value
func (v specValue) canon() string {
	switch v.K {
	case "seq":
		var items []specValue
		must(json.Unmarshal(v.V, &items))
		parts := make([]string, len(items))
		for i := range items {
			parts[i] = items[i].canon()
		}
		return "[" + strings.Join(parts, ",") + "]"
	case "map":
		var parts []string
		if string(v.V) != "[]" {
			var m map[string]specValue
			must(json.Unmarshal(v.V, &m))
			for k, x := range m {
				parts = append(parts, strconv.Quote(k)+":"+x.canon())
			}
		}
		sort.Strings(parts)
		return "{" + strings.Join(parts, ",") + "}"
	case "null":
		return "null"
	case "int":
		i, err := strconv.ParseInt(v.text(), 10, 64)
		must(err)
		return fmt.Sprintf("num(%d)", i)
	case "float":
		f, err := strconv.ParseFloat(v.text(), 64)
		must(err)
		return canonFloat(f)
	case "bool":
		return "bool(" + v.text() + ")"
	case "ts":
		t, err := time.Parse("2006-01-02", v.text())
		must(err)
		return "ts(" + t.Format(time.RFC3339Nano) + ")"
	case "str":
		return strconv.Quote(v.text())
	}
	must(fmt.Errorf("unexpected value kind %q", v.K))
	return ""
}

func canonFloat(f float64) string {
	if f == math.Trunc(f) && math.Abs(f) < 1e15 {
		return fmt.Sprintf("num(%d)", int64(f))
	}
	return fmt.Sprintf("num(%v)", f)
}

// canonAny is the canonical form of a dynamically typed value
func canonAny(v any) string {
	switch v := v.(type) {
	case nil:
		return "null"
	case string:
		return strconv.Quote(v)
	case bool:
		return fmt.Sprintf("bool(%v)", v)
	case time.Time:
		return "ts(" + v.UTC().Format(time.RFC3339Nano) + ")"
	case float32:
		return canonFloat(float64(v))
	case float64:
		return canonFloat(v)
	}
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprintf("num(%d)", rv.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return fmt.Sprintf("num(%d)", rv.Uint())
	case reflect.Slice:
		parts := make([]string, rv.Len())
		for i := range parts {
			parts[i] = canonAny(rv.Index(i).Interface())
		}
		return "[" + strings.Join(parts, ",") + "]"
	case reflect.Map:
		var parts []string
		for _, k := range rv.MapKeys() {
			key := k.Interface()
			ks, ok := key.(string)
			if !ok {
				if key == nil {
					ks = "null"
				} else {
					ks = fmt.Sprint(key)
				}
			}
			parts = append(parts, strconv.Quote(ks)+":"+canonAny(rv.MapIndex(k).Interface()))
		}
		sort.Strings(parts)
		return "{" + strings.Join(parts, ",") + "}"
	}
	return fmt.Sprintf("%T(%v)", v, v)
}

// read performs the read and returns the canonical form of its result
func read(d yamly.Decoder, op string) (got string, st yamly.CollectionState, raw []byte) {
	switch op {
	case "null":
		return fmt.Sprint(d.TryNull()), nil, nil
	case "int":
		return fmt.Sprint(d.Integer(64)), nil, nil
	case "uint":
		return fmt.Sprint(d.Unsigned(64)), nil, nil
	case "float":
		return fmt.Sprint(d.Float(64)), nil, nil
	case "bool":
		return fmt.Sprint(d.Boolean()), nil, nil
	case "ts":
		return d.Timestamp().Format("2006-01-02"), nil, nil
	case "str":
		return d.String(), nil, nil
	case "seq":
		s := d.Sequence()
		return fmt.Sprint(s.Size()), s, nil
	case "map":
		s := d.Mapping()
		return fmt.Sprint(s.Size()), s, nil
	case "any":
		return canonAny(d.Any()), nil, nil
	case "raw":
		b := d.Raw()
		return string(b), nil, b
	case "skip":
		d.Skip()
		return "", nil, nil
	}
	must(fmt.Errorf("unknown read %q", op))
	return "", nil, nil
}

var zeros = map[string]string{
	"null": "false", "int": "0", "uint": "0", "float": "0", "bool": "false", "ts": "0001-01-01",
	"str": "", "seq": "0", "map": "0", "any": "null", "raw": "", "skip": "",
}

func checkErr(err error, fatal string, denied int) string {
	if fatal == "" && denied == 0 {
		if err != nil {
			return fmt.Sprintf("unexpected error: %v", err)
		}
		return ""
	}
	if err == nil {
		return fmt.Sprintf("error is not reported (expected: fatal=%q, %d denials)", fatal, denied)
	}
	if denied > 0 && !errors.Is(err, yamly.ErrDenied) {
		return fmt.Sprintf("denial is not reported: %v", err)
	}
	ok := true
	switch fatal {
	case "denied":
		ok = errors.Is(err, yamly.ErrDenied)
	case "eof":
		ok = errors.Is(err, yamly.ErrEndOfStream)
	case "user":
		ok = errors.Is(err, errCaller)
	case "alias":
		ok = !errors.Is(err, yamly.ErrEndOfStream) && (denied > 0 || !errors.Is(err, yamly.ErrDenied))
	}
	if !ok {
		return fmt.Sprintf("expected error of class %q, got: %v", fatal, err)
	}
	return ""
}

func replayReader(line []byte, r *rng, _ int) (int, string) {
	var b readerBehavior
	must(json.Unmarshal(line, &b))
	obs := 0
	for _, e := range engines {
		o, m := replayReaderOn(e, &b)
		obs += o
		if m != "" {
			return obs, fmt.Sprintf("%s on %q: %s", e.name, b.Text, m)
		}
	}
	return obs, ""
}

func replayReaderOn(e engine, b *readerBehavior) (int, string) {
	obs := 0
	d, err := e.newReader(b.Text, b.Multi)
	if err != nil {
		return 1, fmt.Sprintf("document is not parsed: %v", err)
	}
	var (
		states []yamly.CollectionState
		path   []string
	)
	for _, op := range b.Ops {
		path = append(path, op.Op)
		at := "after " + strings.Join(path, " ") + ": "
		obs++
		switch op.Op {
		case "query":
			for i, u := range op.Un {
				if u == "?" {
					continue
				}
				if got := states[i].HasUnprocessedItems(); got != (u == "yes") {
					return obs, fmt.Sprintf("%scollection %d has unprocessed items: %v, expected %s", at, i+1, got, u)
				}
			}
			continue
		case "adderror":
			d.AddError(errCaller)
		case "addnil":
			d.AddError(nil)
		default:
			got, st, raw := read(d, op.Op)
			switch {
			case op.Ret.K == "zero" || op.Op == "null" && op.Ret.text() == "false":
				if got != zeros[op.Op] {
					return obs, fmt.Sprintf("%sfailed read returns %q", at, got)
				}
				if st != nil && st.HasUnprocessedItems() {
					return obs, at + "failed read returns a collection with items"
				}
			case op.Op == "raw":
				if m := rawMeans(raw, op.Ret.V); m != "" {
					return obs, at + m
				}
			case op.Op == "any":
				if want := op.Ret.canon(); got != want {
					return obs, fmt.Sprintf("%sread %s, expected %s", at, got, want)
				}
			default:
				if want := op.Ret.text(); got != want {
					return obs, fmt.Sprintf("%sread %q, expected %q", at, got, want)
				}
				if st != nil {
					states = append(states, st)
				}
			}
		}
		if m := checkErr(d.Error(), op.Fatal, op.Denied); m != "" {
			return obs, at + m
		}
	}
	return obs, ""
}

// treeNode is a node of the specification (a resolved tree).
type treeNode struct {
	K string     `json:"k"`
	V string     `json:"v"`
	A string     `json:"a"`
	C []treeNode `json:"c"`
}

func (n treeNode) val() *val {
	switch n.K {
	case "int":
		i, err := strconv.ParseInt(n.V, 10, 64)
		must(err)
		return intv(i)
	case "float":
		f, err := strconv.ParseFloat(n.V, 64)
		must(err)
		return &val{kind: "float", f: f}
	case "bool":
		return boolv(n.V == "true")
	case "null":
		return nullv()
	case "ts":
		t, err := time.Parse("2006-01-02", n.V)
		must(err)
		return &val{kind: "ts", t: t}
	case "str":
		return strv(n.V)
	case "seq", "map":
		v := &val{kind: n.K}
		for _, c := range n.C {
			v.c = append(v.c, c.val())
		}
		return v
	}
	must(fmt.Errorf("unexpected node kind %q", n.K))
	return nil
}

// rawMeans checks that raw data is a standalone document with the structure of the node.
func rawMeans(raw []byte, tree json.RawMessage) string {
	var n treeNode
	must(json.Unmarshal(tree, &n))
	v := n.val()
	for _, e := range engines {
		if m := meansFor(e, string(raw), v); m != "" {
			return "raw data: " + m
		}
	}
	if m := meansIndependently(string(raw), v); m != "" {
		return "raw data: " + m
	}
	return ""
}
