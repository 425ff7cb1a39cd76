package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
	"time"

	"github.com/KSpaceer/yamly"
)

func init() { kinds["scalar"] = replayScalar }

type scalarBehavior struct {
	Text   string   `json:"text"`
	Kind   string   `json:"kind"`
	Ints   []string `json:"ints"`
	Uints  []string `json:"uints"`
	AnyInt string   `json:"anyint"`
	Float  struct {
		C    string `json:"c"`
		Neg  bool   `json:"neg"`
		Int  string `json:"int"`
		Frac string `json:"frac"`
		ENeg bool   `json:"eneg"`
		Exp  string `json:"exp"`
	} `json:"float"`
	Bool string `json:"bool"`
	TS   struct {
		Y, Mo, D, H, Mi, S int
		Frac, Zone         string
	} `json:"ts"`
}

// float gives the correctly rounded value of the predicted decimal number.
func (b *scalarBehavior) float(bits int) (float64, bool) {
	f := b.Float
	switch f.C {
	case "inf":
		if f.Neg {
			return math.Inf(-1), true
		}
		return math.Inf(1), true
	case "nan":
		return math.NaN(), true
	}
	digits := f.Int + f.Frac
	m, ok := new(big.Int).SetString(digits, 10)
	if !ok {
		must(fmt.Errorf("bad digits %q", digits))
	}
	exp := 0
	if f.Exp != "" {
		var err error
		exp, err = strconv.Atoi(f.Exp)
		must(err)
	}
	if f.ENeg {
		exp = -exp
	}
	exp -= len(f.Frac)
	if exp > 100000 || exp < -100000 {
		must(fmt.Errorf("exponent %d", exp))
	}
	r := new(big.Rat).SetInt(m)
	p := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(abs(exp))), nil)
	if exp >= 0 {
		r.Mul(r, new(big.Rat).SetInt(p))
	} else {
		r.Quo(r, new(big.Rat).SetInt(p))
	}
	var v float64
	if bits == 32 {
		v32, _ := r.Float32()
		v = float64(v32)
	} else {
		v, _ = r.Float64()
	}
	if f.Neg {
		v = -v
	}
	return v, !math.IsInf(v, 0)
}

func abs(i int) int {
	if i < 0 {
		return -i
	}
	return i
}

func (b *scalarBehavior) time() time.Time {
	ns := 0
	if b.TS.Frac != "" {
		var err error
		ns, err = strconv.Atoi((b.TS.Frac + "000000000")[:9])
		must(err)
	}
	loc := time.UTC
	if z := b.TS.Zone; z != "" && z != "Z" {
		h, err := strconv.Atoi(z[1:3])
		must(err)
		m, err := strconv.Atoi(z[4:6])
		must(err)
		off := h*3600 + m*60
		if z[0] == '-' {
			off = -off
		}
		loc = time.FixedZone("", off)
	}
	return time.Date(b.TS.Y, time.Month(b.TS.Mo), b.TS.D, b.TS.H, b.TS.Mi, b.TS.S, ns, loc)
}

// place puts the scalar into a document. enter moves the decoder to it.
func place(r *rng, scalar string, plain bool, text string) (doc string, enter func(d yamly.Decoder)) {
	seq := func(d yamly.Decoder) { d.Sequence() }
	mp := func(d yamly.Decoder) { d.Mapping(); d.Skip() }
	key := func(d yamly.Decoder) { d.Mapping() }
	for {
		switch r.intn(8) {
		case 0:
			return "k: " + scalar + "\n", mp
		case 1:
			return "- " + scalar + "\n", seq
		case 2:
			if plain && (text == "" || strings.ContainsAny(text, ",")) {
				continue
			}
			return "[" + scalar + ", x]", seq
		case 3:
			if plain && strings.ContainsAny(text, ",") {
				continue
			}
			return "{k: " + scalar + "}", mp
		case 4:
			if plain && (text == "" || strings.HasPrefix(text, "---") || strings.HasPrefix(text, "...")) {
				continue
			}
			return scalar + "\n", func(yamly.Decoder) {}
		case 5:
			if plain && (text == "" || strings.HasPrefix(text, "---") || strings.HasPrefix(text, "...")) {
				continue
			}
			return scalar + ": v\n", key
		case 6:
			return "a:\n  - x\n  - b: " + scalar + " # c\n", func(d yamly.Decoder) {
				d.Mapping()
				d.Skip()
				d.Sequence()
				d.Skip()
				d.Mapping()
				d.Skip()
			}
		default:
			if plain && text == "" {
				continue
			}
			return "--- " + scalar + "\n...\n", func(yamly.Decoder) {}
		}
	}
}

func replayScalar(line []byte, r *rng, idx int) (int, string) {
	var b scalarBehavior
	must(json.Unmarshal(line, &b))
	obs := 0
	type form struct {
		text  string
		plain bool
	}
	forms := []form{{"'" + b.Text + "'", false}, {`"` + b.Text + `"`, false}}
	if b.Text != "-" {
		forms = append(forms, form{b.Text, true}, form{b.Text, true})
	}
	for _, f := range forms {
		doc, enter := place(r, f.text, f.plain, b.Text)
		for _, e := range engines {
			multi := r.intn(4) == 0
			at := func(op string) (yamly.Decoder, string) {
				obs++
				d, err := e.newReader(doc, multi)
				if err != nil {
					return nil, fmt.Sprintf("%s does not parse %q: %v", e.name, doc, err)
				}
				enter(d)
				if d.Error() != nil {
					return nil, fmt.Sprintf("%s on %q: %v", e.name, doc, d.Error())
				}
				return d, ""
			}
			if m := checkScalar(&b, f.plain, at); m != "" {
				return obs, fmt.Sprintf("%s on %q: %s", e.name, doc, m)
			}
		}
	}
	return obs, ""
}

var bitSizes = []int{8, 16, 32, 64}

func checkScalar(b *scalarBehavior, plain bool, at func(string) (yamly.Decoder, string)) string {
	// wanted: "deny", "range" or the value
	check := func(op, got, want, zero string, d yamly.Decoder) string {
		err := d.Error()
		switch want {
		case "?":
			return ""
		case "deny":
			if !errors.Is(err, yamly.ErrDenied) || got != zero {
				return fmt.Sprintf("%s gives %q (error: %v), expected to be denied", op, got, err)
			}
		case "range":
			if err == nil || got != zero {
				return fmt.Sprintf("%s gives %q (error: %v), expected to be refused", op, got, err)
			}
		default:
			if err != nil || got != want {
				return fmt.Sprintf("%s gives %q (error: %v), expected %q", op, got, err, want)
			}
		}
		return ""
	}
	// null
	d, m := at("null")
	if m != "" {
		return m
	}
	isNull := plain && b.Kind == "null"
	if got := d.TryNull(); got != isNull || d.Error() != nil {
		return fmt.Sprintf("TryNull gives %v (error: %v)", got, d.Error())
	}
	// text
	if d, m = at("string"); m != "" {
		return m
	}
	want := b.Text
	if isNull {
		want = "deny"
	}
	if m := check("String", d.String(), want, "", d); m != "" {
		return m
	}
	if !plain {
		return ""
	}
	for i, bits := range bitSizes {
		if d, m = at("int"); m != "" {
			return m
		}
		want := "deny"
		if b.Kind == "int" {
			want = b.Ints[i]
		}
		if m := check(fmt.Sprintf("Integer(%d)", bits), strconv.FormatInt(d.Integer(bits), 10), want, "0", d); m != "" {
			return m
		}
		if d, m = at("uint"); m != "" {
			return m
		}
		want = "deny"
		if b.Kind == "int" {
			want = b.Uints[i]
		}
		if m := check(fmt.Sprintf("Unsigned(%d)", bits), strconv.FormatUint(d.Unsigned(bits), 10), want, "0", d); m != "" {
			return m
		}
	}
	for _, bits := range []int{32, 64} {
		if d, m = at("float"); m != "" {
			return m
		}
		want := "deny"
		if b.Float.C != "no" {
			if f, ok := b.float(bits); ok {
				want = fmt.Sprint(f)
			} else {
				want = "range"
				if b.Float.C == "inf" {
					want = fmt.Sprint(f)
				}
			}
		}
		if m := check(fmt.Sprintf("Float(%d)", bits), fmt.Sprint(d.Float(bits)), want, "0", d); m != "" {
			return m
		}
	}
	if d, m = at("bool"); m != "" {
		return m
	}
	want = b.Bool
	if want == "no" {
		want = "deny"
	}
	if m := check("Boolean", fmt.Sprint(d.Boolean()), want, "false", d); m != "" {
		return m
	}
	if d, m = at("ts"); m != "" {
		return m
	}
	want = "deny"
	if b.Kind == "ts" {
		want = b.time().UTC().Format(time.RFC3339Nano)
	}
	if m := check("Timestamp", d.Timestamp().UTC().Format(time.RFC3339Nano), want, "0001-01-01T00:00:00Z", d); m != "" {
		return m
	}
	if d, m = at("any"); m != "" {
		return m
	}
	got := d.Any()
	switch b.Kind {
	case "null":
		want = "<nil>"
	case "int":
		want = b.AnyInt
		if want == "0" && strings.HasPrefix(b.Text, "-") {
			want = "?"
		}
	case "float":
		want = "range"
		if f, ok := b.float(64); ok {
			want = fmt.Sprint(f)
		}
	case "bool":
		want = b.Bool
	case "ts":
		want = b.time().UTC().Format(time.RFC3339Nano)
	default:
		want = b.Text
	}
	shown := fmt.Sprint(got)
	if t, ok := got.(time.Time); ok {
		shown = t.UTC().Format(time.RFC3339Nano)
	}
	if m := check("Any", shown, want, "<nil>", d); m != "" {
		return m
	}
	kind := ""
	switch got.(type) {
	case nil:
		kind = "null"
	case string:
		kind = "str"
	case bool:
		kind = "bool"
	case time.Time:
		kind = "ts"
	case float64, float32:
		kind = "float"
	default:
		kind = "int"
	}
	if want != "range" && want != "?" && kind != b.Kind {
		return fmt.Sprintf("Any gives %T, expected %s", got, b.Kind)
	}
	return ""
}
