package main

import (
	"encoding/json"
	"errors"
	"fmt"

	"github.com/KSpaceer/yamly"
)

func init() { kinds["builder"] = replayBuilder }

type specNode struct {
	K  string      `json:"k"`
	ID int         `json:"id"`
	C  []*specNode `json:"c"`
}

type builderOp struct {
	Op   string    `json:"op"`
	Res  string    `json:"res"`
	Tree *specNode `json:"tree"`
}

func concretise(n *specNode, leaves map[int]*val) *val {
	if n.K == "leaf" {
		return leaves[n.ID]
	}
	v := &val{kind: n.K}
	for _, c := range n.C {
		v.c = append(v.c, concretise(c, leaves))
	}
	return v
}

var errCaller = errors.New("error of the caller")

func replayBuilder(line []byte, r *rng, _ int) (int, string) {
	var ops []builderOp
	must(json.Unmarshal(line, &ops))

	obs := 0
	saved := *r
	for _, e := range engines {
		*r = saved
		enc := e.newEncoder()
		leaves := map[int]*val{}
		for i, op := range ops {
			switch op.Op {
			case "scalar":
				v := randScalar(r)
				leaves[i+1] = v
				insertScalar(enc, v, r)
			case "raw":
				raw := poolRaws[r.intn(len(poolRaws))]
				leaves[i+1] = raw.v
				enc.InsertRaw([]byte(raw.text), nil)
			case "badraw":
				insertBad(enc, r)
			case "startseq":
				enc.StartSequence()
			case "endseq":
				enc.EndSequence()
			case "startmap":
				enc.StartMapping()
			case "endmap":
				enc.EndMapping()
			case "result":
				obs++
				text, empty, err := encodeBy(enc, r)
				switch op.Res {
				case "error":
					if err == nil {
						return obs, fmt.Sprintf("%s: misuse up to call %d is not reported, got %q", e.name, i+1, text)
					}
					if !empty {
						return obs, fmt.Sprintf("%s: output %q is produced together with error %v", e.name, text, err)
					}
				case "tree":
					want := concretise(op.Tree, leaves)
					if err != nil {
						return obs, fmt.Sprintf("%s: document %s is not encoded: %v", e.name, want, err)
					}
					if m := meansFor(e, text, want); m != "" {
						return obs, "encoded document changed: " + m
					}
					if m := meansIndependently(text, want); m != "" {
						return obs, e.name + ": encoded document changed: " + m
					}
				default:
					must(fmt.Errorf("unexpected result %q", op.Res))
				}
			default:
				must(fmt.Errorf("unknown op %q", op.Op))
			}
		}
	}
	return obs, ""
}

func insertBad(enc yamly.Inserter, r *rng) {
	switch r.intn(3) {
	case 0:
		enc.InsertRaw([]byte(poolBadRaws[r.intn(len(poolBadRaws))]), nil)
	case 1:
		enc.InsertRaw([]byte("a: b"), errCaller)
	default:
		enc.InsertRawText([]byte("text"), errCaller)
	}
}
