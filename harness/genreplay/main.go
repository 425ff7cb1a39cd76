package genreplay

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"github.com/KSpaceer/yamly"
	goydec "github.com/KSpaceer/yamly/engines/goyaml/decode"
	goyenc "github.com/KSpaceer/yamly/engines/goyaml/encode"
	"github.com/KSpaceer/yamly/engines/yayamls"
	yaydec "github.com/KSpaceer/yamly/engines/yayamls/decode"
	yayenc "github.com/KSpaceer/yamly/engines/yayamls/encode"
	"gopkg.in/yaml.v3"
)

var created = map[string]map[int]func() any{}

// Add registers root types of a package.
func Add(engine string, roots map[int]func() any) {
	if created[engine] == nil {
		created[engine] = map[int]func() any{}
	}
	for k, v := range roots {
		created[engine][k] = v
	}
}

type violation struct {
	Index    int             `json:"index"`
	Message  string          `json:"message"`
	Behavior json.RawMessage `json:"behavior"`
	Seed     int64           `json:"seed"`
	Kind     string          `json:"kind"`
}

type result struct {
	Replayed     int             `json:"replayed"`
	Observations int             `json:"observations"`
	Violations   []violation     `json:"violations"`
	Violated     int             `json:"violated"`
	Sample       json.RawMessage `json:"sample,omitempty"`
}

// Main replays the behaviours.
func Main() {
	in := flag.String("in", "", "behaviours, one JSON per line")
	out := flag.String("out", "", "result file")
	seed := flag.Int64("seed", 1, "seed")
	rounds := flag.Int("rounds", 1, "rounds")
	flag.Parse()
	debug.SetMaxStack(256 << 20)
	keys, _ := Roots(*in)
	ids := map[string]int{}
	for i, k := range keys {
		ids[k] = i
	}
	var lines [][]byte
	Lines(*in, func(l []byte) { lines = append(lines, l) })
	var res result
	var mu sync.Mutex
	var wg sync.WaitGroup
	next := make(chan int, 64)
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				var b Behavior
				if err := json.Unmarshal(lines[i], &b); err != nil {
					Fail(err)
				}
				obs, msg := 0, ""
				for k := 0; k < *rounds && msg == ""; k++ {
					var n int
					r := &Rng{s: uint64(*seed)*1000003 + uint64(i)*7919 + uint64(k)*104729}
					n, msg = protect(func() (int, string) { return replay(&b, ids[Key(b.T, b.Fl)], r) })
					obs += n
				}
				mu.Lock()
				res.Replayed++
				res.Observations += obs
				if i == len(lines)/2 {
					res.Sample = lines[i]
				}
				if msg != "" {
					res.Violated++
					if len(res.Violations) < 25 {
						res.Violations = append(res.Violations, violation{i, msg, lines[i], *seed, "generated"})
					}
				}
				mu.Unlock()
			}
		}()
	}
	for i := range lines {
		next <- i
	}
	close(next)
	wg.Wait()
	b, err := json.Marshal(res)
	if err != nil {
		Fail(err)
	}
	if err := os.WriteFile(*out, b, 0o644); err != nil {
		Fail(err)
	}
}

func protect(f func() (int, string)) (n int, msg string) {
	timer := time.AfterFunc(60*time.Second, func() {
		fmt.Fprintln(os.Stderr, "replay does not end")
		os.Exit(70)
	})
	defer timer.Stop()
	defer func() {
		if x := recover(); x != nil {
			msg = fmt.Sprintf("panic: %v\n%s", x, firstLines(string(debug.Stack()), 24))
		}
	}()
	return f()
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

var engines = []string{"goyaml", "yayamls"}

func replay(b *Behavior, id int, r *Rng) (int, string) {
	if b.V != nil {
		return replayEncode(b, id, r)
	}
	return replayDecode(b, id, r)
}

func describe(b *Behavior, rv reflect.Value) string {
	return fmt.Sprintf("type %s (options %+v)", typeText(rv.Type()), b.Fl)
}

func typeText(t reflect.Type) string {
	if t.Kind() == reflect.Struct && t.Name() != "" {
		var fs []string
		for i := 0; i < t.NumField(); i++ {
			fs = append(fs, fmt.Sprintf("%s %s `%s`", t.Field(i).Name, t.Field(i).Type, t.Field(i).Tag))
		}
		return t.Name() + "{" + strings.Join(fs, "; ") + "}"
	}
	return t.String()
}

// decodings: the ways to decode a text into a root.
func decodings(engine, text string, root any) []func(root any) error {
	if engine == "goyaml" {
		ways := []func(any) error{func(root any) error {
			var n yaml.Node
			if err := yaml.Unmarshal([]byte(text), &n); err != nil {
				return err
			}
			d := goydec.NewASTReader(&n)
			root.(yamly.UnmarshalerYamly).UnmarshalYamly(d)
			return d.Error()
		}}
		if s := strings.TrimSpace(text); s != "null" && s != "~" { // yaml.v3 handles null by itself
			ways = append(ways, func(root any) error { return yaml.Unmarshal([]byte(text), root) })
		}
		return ways
	}
	return []func(any) error{
		func(root any) error { return root.(yayamls.Unmarshaler).UnmarshalYAML([]byte(text)) },
		func(root any) error {
			d, err := yaydec.NewASTReaderFromBytes([]byte(text))
			if err != nil {
				return err
			}
			root.(yamly.UnmarshalerYamly).UnmarshalYamly(d)
			return d.Error()
		},
	}
}

func replayDecode(b *Behavior, id int, r *Rng) (int, string) {
	obs := 0
	start := *r
	for _, e := range engines {
		own := start
		o := &one{conc: newConc(&own), t: b.T, fl: b.Fl, root: fmt.Sprintf("R%d", id)}
		var sb strings.Builder
		o.render(b.T, o.aliased(b.T, b.D), &sb, 0, false)
		text := strings.TrimPrefix(sb.String(), "\n") + "\n"
		for way, f := range decodings(e, text, nil) {
			root := created[e][id]()
			rv := reflect.ValueOf(root).Elem()
			o.set(b.T, b.P, rv)
			err := f(root)
			obs++
			where := fmt.Sprintf("%s, %s, %q (way %d)", e, describe(b, rv), text, way)
			if (err == nil) != b.Ok {
				if b.Ok {
					return obs, fmt.Sprintf("%s: not decoded: %v", where, err)
				}
				return obs, fmt.Sprintf("%s: decoded without error", where)
			}
			if b.Ok {
				if m := o.same(b.T, b.Y, rv, "value"); m != "" {
					return obs, where + ": " + m
				}
			} else if b.T.K == "struct" {
				// no wrong values
				for i := range b.T.F {
					f := &b.T.F[i]
					switch f.T.K {
					case "ptr", "slice", "array", "map", "struct", "self", "any", "text", "textstruct", "engine", "iface", "eiface":
						continue
					}
					if f.In == "hidden" {
						continue
					}
					fine := false
					for _, y := range []*Value{b.P.C[i], {V: "s", X: "zero"}, {V: "s", X: "a"}, {V: "s", X: "b"}, {V: "nil"}} {
						if y.V == "nil" && f.T.K != "bytes" {
							continue
						}
						fine = fine || o.same(f.T, y, rv.Field(i), "") == ""
					}
					if !fine {
						return obs, fmt.Sprintf("%s: after an error %s is %s", where, f.N, show(rv.Field(i)))
					}
				}
			}
		}
	}
	return obs, ""
}

func encodings(engine string, root any) []func() (string, error) {
	rv := reflect.ValueOf(root)
	val := func() any { // the value itself if its method has a value receiver
		v := rv.Elem().Interface()
		if _, ok := v.(yamly.MarshalerYamly); ok {
			return v
		}
		return root
	}
	if engine == "goyaml" {
		return []func() (string, error){
			func() (string, error) { b, err := yaml.Marshal(val()); return string(b), err },
			func() (string, error) {
				enc := yamly.NewEncoder(goyenc.NewASTBuilder(), &goyenc.ASTWriter{})
				val().(yamly.MarshalerYamly).MarshalYamly(enc)
				return enc.EncodeToString()
			},
		}
	}
	return []func() (string, error){
		func() (string, error) { b, err := val().(yayamls.Marshaler).MarshalYAML(); return string(b), err },
		func() (string, error) {
			enc := yamly.NewEncoder(yayenc.NewASTBuilder(), yayenc.NewASTWriter())
			val().(yamly.MarshalerYamly).MarshalYamly(enc)
			return enc.EncodeToString()
		},
	}
}

func replayEncode(b *Behavior, id int, r *Rng) (int, string) {
	obs := 0
	start := *r
	for _, e := range engines {
		own := start
		o := &one{conc: newConc(&own), t: b.T, fl: b.Fl, root: fmt.Sprintf("R%d", id)}
		root := created[e][id]()
		rv := reflect.ValueOf(root).Elem()
		o.set(b.T, b.V, rv)
		for way, f := range encodings(e, root) {
			text, err := f()
			obs++
			where := fmt.Sprintf("%s, %s, %s (way %d)", e, describe(b, rv), show(rv), way)
			if err != nil {
				return obs, fmt.Sprintf("%s: not encoded: %v", where, err)
			}
			where += fmt.Sprintf(": %q", text)
			if m := o.same(b.T, b.V, rv, "value"); m != "" {
				return obs, where + ": encoding has changed the value: " + m
			}
			var n yaml.Node
			if err := yaml.Unmarshal([]byte(text), &n); err != nil || len(n.Content) != 1 {
				return obs, fmt.Sprintf("%s: not YAML: %v", where, err)
			}
			if m := o.written(b.T, b.D, n.Content[0], "value"); m != "" {
				return obs, where + ": " + m
			}
			if b.Y.V == "nil" && b.T.K == "struct" {
				continue // not to be read back
			}
			for _, e2 := range engines {
				for way2, f2 := range decodings(e2, text, nil) {
					back := created[e2][id]()
					obs++
					if err := f2(back); err != nil {
						return obs, fmt.Sprintf("%s: not read back by %s (way %d): %v", where, e2, way2, err)
					}
					if m := o.same(b.T, b.Y, reflect.ValueOf(back).Elem(), "value"); m != "" {
						return obs, fmt.Sprintf("%s: read back by %s (way %d): %s", where, e2, way2, m)
					}
				}
			}
		}
	}
	return obs, ""
}
