package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sync"

	"github.com/KSpaceer/yamly"
	goyamldec "github.com/KSpaceer/yamly/engines/goyaml/decode"
	yaydec "github.com/KSpaceer/yamly/engines/yayamls/decode"
	yayenc "github.com/KSpaceer/yamly/engines/yayamls/encode"
	"github.com/KSpaceer/yamly/engines/yayamls/parser"
	"gopkg.in/yaml.v3"
)

// kind isolation: instances work in the order of the schedule, in one goroutine.
// kind parallel: the same instances work in goroutines of their own.
func init() {
	kinds["isolation"] = replayIsolation
	kinds["parallel"] = replayParallel
}

type isolationBehavior struct {
	N     int   `json:"n"`
	Sched []int `json:"sched"`
}

// journal keeps everything an instance has given to its caller.
type journal struct {
	seen  []string
	bytes [][]byte
	kept  [][]byte
}

func (j *journal) note(v any) { j.seen = append(j.seen, shown(v)) }

func (j *journal) keep(b []byte) {
	j.note(string(b))
	j.bytes = append(j.bytes, b)
	j.kept = append(j.kept, bytes.Clone(b))
}

func (j *journal) changed() string {
	for i := range j.bytes {
		if !bytes.Equal(j.bytes[i], j.kept[i]) {
			return fmt.Sprintf("given bytes %q have become %q", j.kept[i], j.bytes[i])
		}
	}
	return ""
}

// scribble: the caller may do with its bytes what it likes once the call is over.
func scribble(b []byte) {
	for i := range b {
		b[i] = '~'
	}
}

func randTree(r *rng, depth int) *val {
	if depth == 0 || r.intn(3) == 0 {
		return randScalar(r)
	}
	n := r.intn(4)
	if r.intn(2) == 0 {
		v := seqOf()
		for i := 0; i < n; i++ {
			v.c = append(v.c, randTree(r, depth-1))
		}
		return v
	}
	v := mapOf()
	for i := 0; i < n; i++ {
		v.c = append(v.c, strv(fmt.Sprintf("%s%d", poolStrings[r.intn(len(poolStrings))], i)), randTree(r, depth-1))
	}
	return v
}

func insertOps(in yamly.Inserter, v *val, r *rng, ops []func()) []func() {
	switch v.kind {
	case "seq":
		ops = append(ops, in.StartSequence)
		for _, c := range v.c {
			ops = insertOps(in, c, r, ops)
		}
		return append(ops, in.EndSequence)
	case "map":
		ops = append(ops, in.StartMapping)
		for _, c := range v.c {
			ops = insertOps(in, c, r, ops)
		}
		return append(ops, in.EndMapping)
	}
	if r.intn(6) == 0 {
		raw := poolRaws[r.intn(len(poolRaws))]
		return append(ops, func() {
			b := []byte(raw.text)
			in.InsertRaw(b, nil)
			scribble(b)
		})
	}
	own := *r
	r.next()
	return append(ops, func() { o := own; insertScalar(in, v, &o) })
}

func readOps(d func() yamly.Decoder, v *val, r *rng, j *journal, ops []func()) []func() {
	switch k := r.intn(8); {
	case k == 0:
		return append(ops, func() { j.note(d().Any()) })
	case k == 1:
		return append(ops, func() { j.keep(d().Raw()) })
	case k == 2:
		return append(ops, func() { d().Skip() })
	}
	switch v.kind {
	case "seq", "map":
		ops = append(ops, func() {
			if v.kind == "seq" {
				j.note(d().Sequence().Size())
			} else {
				j.note(d().Mapping().Size())
			}
		})
		for _, c := range v.c {
			ops = readOps(d, c, r, j, ops)
		}
		return ops
	}
	return append(ops, func() {
		switch v.kind {
		case "int":
			j.note(d().Integer(64))
		case "uint":
			j.note(d().Unsigned(64))
		case "bool":
			j.note(d().Boolean())
		case "float":
			j.note(d().Float(64))
		case "ts":
			j.note(d().Timestamp())
		case "null":
			j.note(d().TryNull())
		default:
			j.note(d().String())
		}
	})
}

// sharedDoc is read by several instances at once.
type sharedDoc struct {
	v    *val
	text string
	yay  func(opts ...yaydec.ReaderOption) *yaydec.ASTReader
	goy  func(opts ...goyamldec.ReaderOption) *goyamldec.ASTReader
}

func textOf(e engine, v *val, r *rng) string {
	enc := e.newEncoder()
	for _, op := range insertOps(enc, v, &rng{s: 1}, nil) {
		op()
	}
	s, err := enc.EncodeToString()
	must(err)
	return s
}

func newSharedDoc(r *rng) *sharedDoc {
	d := &sharedDoc{v: seqOf(randTree(r, 3), randTree(r, 2))}
	d.text = textOf(engines[r.intn(2)], d.v, r)
	tree, err := parser.ParseString(d.text, parser.WithOmitStream())
	must(err)
	var n yaml.Node
	must(yaml.Unmarshal([]byte(d.text), &n))
	d.yay = func(opts ...yaydec.ReaderOption) *yaydec.ASTReader { return yaydec.NewASTReader(tree, opts...) }
	d.goy = func(opts ...goyamldec.ReaderOption) *goyamldec.ASTReader { return goyamldec.NewASTReader(&n, opts...) }
	return d
}

// newScript gives the operations of an instance, split into n steps.
func newScript(r *rng, n int, shared *sharedDoc) ([]func(), *journal) {
	j := &journal{}
	var ops []func()
	switch kind := r.intn(8); kind {
	case 0, 1, 2:
		e := engines[kind%2]
		enc := e.newEncoder()
		for k := 0; k < 2+r.intn(2); k++ {
			ops = insertOps(enc, randTree(r, 3), r, ops)
			how := r.intn(4)
			ops = append(ops, func() {
				switch how {
				case 0:
					s, err := enc.EncodeToString()
					j.note(s)
					j.note(err)
				case 1:
					b, err := enc.EncodeToBytes()
					j.keep(b)
					j.note(err)
				case 2:
					b, err := enc.EncodeToBytes()
					j.note(string(b))
					j.note(err)
					scribble(b)
				default:
					var buf bytes.Buffer
					err := enc.EncodeTo(&buf)
					j.keep(buf.Bytes())
					j.note(err)
				}
			})
		}
	case 3, 4:
		e := engines[kind%2]
		v := seqOf(randTree(r, 3), randTree(r, 2))
		text := textOf(e, v, r)
		var d yamly.Decoder
		multi := r.intn(2) == 0
		fromBytes := e.name == "yayamls" && r.intn(2) == 0
		ops = append(ops, func() {
			var err error
			if b := []byte(text); fromBytes {
				d, err = yaydec.NewASTReaderFromBytes(b)
				if string(b) != text {
					j.note("the input has been changed")
				}
				scribble(b)
			} else {
				d, err = e.newReader(text, multi)
			}
			must(err)
		})
		ops = readOps(func() yamly.Decoder { return d }, v, r, j, ops)
		ops = append(ops, func() { j.note(fmt.Sprint(d.Error())) })
	case 5:
		var d yamly.Decoder
		ops = append(ops, func() { d = shared.yay() })
		ops = readOps(func() yamly.Decoder { return d }, shared.v, r, j, ops)
		ops = append(ops, func() { j.note(fmt.Sprint(d.Error())) })
	case 6:
		var d yamly.Decoder
		ops = append(ops, func() { d = shared.goy() })
		ops = readOps(func() yamly.Decoder { return d }, shared.v, r, j, ops)
		ops = append(ops, func() { j.note(fmt.Sprint(d.Error())) })
	default:
		w := yayenc.NewASTWriter()
		for k := 0; k < 4; k++ {
			text := textOf(engines[r.intn(2)], randTree(r, 3), r)
			ops = append(ops, func() {
				src := []byte(text)
				tree, err := parser.ParseBytes(src)
				must(err)
				scribble(src)
				b, err := w.WriteBytes(tree)
				j.keep(b)
				j.note(err)
			})
		}
	}
	steps := make([]func(), n)
	for i := range steps {
		part := ops[len(ops)*i/n : len(ops)*(i+1)/n]
		steps[i] = func() {
			for _, op := range part {
				op()
			}
		}
	}
	return steps, j
}

// instances creates the same instances every time it is called for the same generator state.
func instances(r rng, procs, n int) ([][]func(), []*journal) {
	shared := newSharedDoc(&r)
	var all [][]func()
	var js []*journal
	for p := 0; p < procs; p++ {
		steps, j := newScript(&r, n, shared)
		all, js = append(all, steps), append(js, j)
	}
	return all, js
}

func procsOf(b *isolationBehavior) int {
	max := 0
	for _, p := range b.Sched {
		if p > max {
			max = p
		}
	}
	return max
}

func runAlone(r rng, procs, n int) []*journal {
	all, js := instances(r, procs, n)
	for _, steps := range all {
		for _, s := range steps {
			s()
		}
	}
	return js
}

func sameJournals(alone, js []*journal, how string) (int, string) {
	obs := 0
	for p := range js {
		if m := js[p].changed(); m != "" {
			return obs, fmt.Sprintf("instance %d, %s: %s", p+1, how, m)
		}
		if len(js[p].seen) != len(alone[p].seen) {
			return obs, fmt.Sprintf("instance %d, %s: %q instead of %q", p+1, how, js[p].seen, alone[p].seen)
		}
		for i := range js[p].seen {
			obs++
			if js[p].seen[i] != alone[p].seen[i] {
				return obs, fmt.Sprintf("instance %d, %s: result %d is %q instead of %q", p+1, how, i+1, js[p].seen[i], alone[p].seen[i])
			}
		}
	}
	return obs, ""
}

func replayIsolation(line []byte, r *rng, _ int) (int, string) {
	var b isolationBehavior
	must(json.Unmarshal(line, &b))
	procs := procsOf(&b)
	alone := runAlone(*r, procs, b.N)
	all, js := instances(*r, procs, b.N)
	next := make([]int, procs)
	for _, p := range b.Sched {
		all[p-1][next[p-1]]()
		next[p-1]++
	}
	return sameJournals(alone, js, fmt.Sprintf("interleaved as %v", b.Sched))
}

func replayParallel(line []byte, r *rng, _ int) (int, string) {
	var b isolationBehavior
	must(json.Unmarshal(line, &b))
	procs := 2 * procsOf(&b)
	alone := runAlone(*r, procs, b.N)
	all, js := instances(*r, procs, b.N)
	var wg sync.WaitGroup
	var mu sync.Mutex
	failed := ""
	start := make(chan struct{})
	for p := range all {
		p := p
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					mu.Lock()
					failed = fmt.Sprintf("panic in instance %d: %v", p+1, x)
					mu.Unlock()
				}
			}()
			<-start
			for _, s := range all[p] {
				s()
			}
		}()
	}
	close(start)
	wg.Wait()
	if failed != "" {
		return 1, failed
	}
	return sameJournals(alone, js, "in parallel")
}
