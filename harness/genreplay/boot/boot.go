// Package boot runs the generator of the working tree for the types of behaviours.
package boot

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/format"
	"os"
	"path/filepath"
	"reflect"

	"github.com/KSpaceer/yamly/generator"
)

type failure struct {
	Engine string `json:"engine"`
	Root   string `json:"root"`
	Err    string `json:"err"`
}

var failures = []failure{}

// Generate writes code for the type of v.
func Generate(engine string, pkg int, eg generator.EngineGenerator, v any, omit, strict, ptr, inline bool) {
	t := reflect.TypeOf(v).Elem()
	file := fmt.Sprintf("%s_yamly.go", t.Name())
	var first []byte
	for i := 0; i < 2; i++ {
		data, err := generate(file, engine, pkg, eg, v, omit, strict, ptr, inline)
		if err == nil && i == 1 && !bytes.Equal(first, data) {
			err = fmt.Errorf("a second run generates other code")
		}
		if err != nil {
			failures = append(failures, failure{engine, t.Name(), err.Error()})
			return
		}
		first = data
	}
	path := filepath.Join("gen", engine, fmt.Sprintf("p%d", pkg), file)
	if err := os.WriteFile(path, first, 0o644); err != nil {
		panic(err)
	}
}

func generate(file, engine string, pkg int, eg generator.EngineGenerator, v any, omit, strict, ptr, inline bool) (data []byte, err error) {
	defer func() {
		if x := recover(); x != nil {
			err = fmt.Errorf("panic: %v", x)
		}
	}()
	g := generator.New(file)
	g.SetPkgName(fmt.Sprintf("p%d", pkg))
	g.SetPkgPath(fmt.Sprintf("verif/gen/%s/p%d", engine, pkg))
	g.SetEngineGenerator(eg)
	g.SetOmitempty(omit)
	g.SetDisallowUnknownFields(strict)
	g.SetEncodePointerReceiver(ptr)
	g.SetInlineEmbedded(inline)
	g.AddType(v)
	var buf bytes.Buffer
	if err := g.Generate(&buf); err != nil {
		return nil, err
	}
	return format.Source(buf.Bytes())
}

// Done prints what has failed.
func Done() {
	if err := json.NewEncoder(os.Stdout).Encode(failures); err != nil {
		panic(err)
	}
}
