package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/KSpaceer/yamly/engines/yayamls/pkg/cpaccessor"
)

func init() { kinds["accessor"] = replayAccessor }

type countingStream struct{ base, n int }

func (s *countingStream) Next() int {
	s.n++
	return s.base + s.n
}

func replayAccessor(line []byte, r *rng, _ int) (int, string) {
	var b struct {
		Ops []struct {
			Op     string `json:"op"`
			El     int    `json:"el"`
			Pos    int    `json:"pos"`
			Pulled int    `json:"pulled"`
		} `json:"ops"`
	}
	must(json.Unmarshal(line, &b))
	// one step of the specification stands for a run of elements of the stream
	k := []int{1, 1, 1, 3, 17, 33, 400}[r.intn(7)]
	s := &countingStream{base: 100}
	a := cpaccessor.NewCheckpointingAccessor[int]()
	a.SetStream(s)
	var path []string
	obs := 0
	// elements are numbered from the base of the stream; nothing precedes the first one
	want := func(el int) int {
		if el == 0 {
			return 0
		}
		return s.base + el*k
	}
	next := func() int {
		for i := 1; i < k; i++ {
			a.Next()
		}
		return a.Next()
	}
	for i, op := range b.Ops {
		path = append(path, op.Op)
		obs++
		switch op.Op {
		case "next":
			if g := next(); g != want(op.El) {
				return obs, fmt.Sprintf("after %s: got element %d, expected %d", strings.Join(path, " "), g, want(op.El))
			}
		case "set":
			a.SetCheckpoint()
		case "commit":
			a.Commit()
		case "rollback":
			if g := a.Rollback(); g != want(op.El) {
				return obs, fmt.Sprintf("after %s: got element %d, expected %d", strings.Join(path, " "), g, want(op.El))
			}
		case "restart":
			s = &countingStream{base: 100000 * (i + 2)}
			a.SetStream(s)
		}
		if s.n != op.Pulled*k {
			return obs, fmt.Sprintf("after %s: %d elements are taken from the stream, expected %d", strings.Join(path, " "), s.n, op.Pulled*k)
		}
	}
	// the rest of the stream is delivered in order
	if n := len(b.Ops); n > 0 {
		for pos := b.Ops[n-1].Pos + 1; pos < b.Ops[n-1].Pos+6; pos++ {
			obs++
			if g := next(); g != want(pos) {
				return obs, fmt.Sprintf("after %s: then element %d instead of %d", strings.Join(path, " "), g, want(pos))
			}
		}
	}
	return obs, ""
}
