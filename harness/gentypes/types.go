// Package gentypes has types for fields of generated structs.
package gentypes

import (
	"errors"
	"strings"

	"github.com/KSpaceer/yamly"
	"github.com/KSpaceer/yamly/engines/yayamls"
	"github.com/KSpaceer/yamly/engines/yayamls/decode"
	"gopkg.in/yaml.v3"
)

type (
	NInt8    int8
	NUint    uint
	NString  string
	NBool    bool
	NFloat32 float32
)

var errBad = errors.New("bad text")

// Text goes as text, with a prefix.
type Text string

func (t Text) MarshalText() ([]byte, error) { return []byte("t:" + string(t)), nil }

func (t *Text) UnmarshalText(b []byte) error {
	s, ok := strings.CutPrefix(string(b), "t:")
	if !ok {
		return errBad
	}
	*t = Text(s)
	return nil
}

// TextStruct is a struct going as text.
type TextStruct struct{ S string }

func (t TextStruct) MarshalText() ([]byte, error) { return []byte("s:" + t.S), nil }

func (t *TextStruct) UnmarshalText(b []byte) error {
	s, ok := strings.CutPrefix(string(b), "s:")
	if !ok {
		return errBad
	}
	t.S = s
	return nil
}

// Yamly supports interfaces of yamly by itself.
type Yamly struct{ N int64 }

func (y Yamly) MarshalYamly(out yamly.Inserter) { out.InsertInteger(y.N) }

func (y *Yamly) UnmarshalYamly(in yamly.Decoder) { y.N = in.Integer(64) }

// Iface has the methods of yamly.
type Iface interface {
	yamly.MarshalerYamly
	yamly.UnmarshalerYamly
}

// GoyamlIface has the methods of yaml.v3.
type GoyamlIface interface {
	yaml.Marshaler
	yaml.Unmarshaler
}

// YayamlsIface has the methods of yayamls.
type YayamlsIface interface {
	yayamls.Marshaler
	yayamls.Unmarshaler
}

// Pair is a struct of another package.
type Pair struct {
	X int    `yaml:"x"`
	Y string `yaml:"y,omitempty"`
}

// Goyaml supports interfaces of yaml.v3 by itself.
type Goyaml struct{ S string }

func (g Goyaml) MarshalYAML() (any, error) { return "e:" + g.S, nil }

func (g *Goyaml) UnmarshalYAML(n *yaml.Node) error {
	var s string
	if err := n.Decode(&s); err != nil {
		return err
	}
	s, ok := strings.CutPrefix(s, "e:")
	if !ok {
		return errBad
	}
	g.S = s
	return nil
}

// Yayamls supports interfaces of yayamls by itself.
type Yayamls struct{ S string }

func (y Yayamls) MarshalYAML() ([]byte, error) { return yaml.Marshal("e:" + y.S) }

func (y *Yayamls) UnmarshalYAML(b []byte) error {
	d, err := decode.NewASTReaderFromBytes(b)
	if err != nil {
		return err
	}
	s, ok := strings.CutPrefix(d.String(), "e:")
	if d.Error() != nil {
		return d.Error()
	}
	if !ok {
		return errBad
	}
	y.S = s
	return nil
}
