// Package genreplay replays behaviours of Generated.tla against generated code.
package genreplay

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"sort"
)

type Type struct {
	K   string  `json:"k"`
	E   *Type   `json:"e"`
	Key string  `json:"key"`
	N   int     `json:"n"`
	Nm  string  `json:"nm"`
	F   []Field `json:"f"`
}

type Field struct {
	N  string `json:"n"`
	T  *Type  `json:"t"`
	Om bool   `json:"om"`
	In string `json:"in"`
}

type Flags struct {
	Omit   bool `json:"omit"`
	Strict bool `json:"strict"`
	Ptr    bool `json:"ptr"`
	Inline bool `json:"inline"`
}

type Value struct {
	V  string       `json:"v"`
	X  string       `json:"x"`
	To *Value       `json:"to"`
	C  []*Value     `json:"c"`
	E  []ValueEntry `json:"e"`
}

type ValueEntry struct {
	N string `json:"n"`
	Y *Value `json:"y"`
}

type Doc struct {
	D string     `json:"d"`
	K string     `json:"k"`
	X string     `json:"x"`
	C []*Doc     `json:"c"`
	E []DocEntry `json:"e"`
}

type DocEntry struct {
	N string `json:"n"`
	Y *Doc   `json:"y"`
}

// Behavior of Generated.tla: decoding has p (prior value) and ok, encoding has v.
type Behavior struct {
	T  *Type  `json:"t"`
	Fl Flags  `json:"fl"`
	P  *Value `json:"p"`
	D  *Doc   `json:"d"`
	Ok bool   `json:"ok"`
	Y  *Value `json:"y"`
	V  *Value `json:"v"`
}

// Root is a type to generate code for.
type Root struct {
	T  *Type
	Fl Flags
}

// Key identifies a root.
func Key(t *Type, fl Flags) string {
	b, err := json.Marshal([]any{t, fl})
	if err != nil {
		panic(err)
	}
	return string(b)
}

// Lines calls f for every behaviour of the file.
func Lines(path string, f func(line []byte)) {
	file, err := os.Open(path)
	if err != nil {
		Fail(err)
	}
	defer file.Close()
	sc := bufio.NewScanner(file)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		if len(bytes.TrimSpace(sc.Bytes())) > 0 {
			f(append([]byte(nil), sc.Bytes()...))
		}
	}
	if err := sc.Err(); err != nil {
		Fail(err)
	}
}

// Roots of the behaviours, sorted by key.
func Roots(path string) (keys []string, roots map[string]Root) {
	roots = map[string]Root{}
	Lines(path, func(line []byte) {
		var b Behavior
		if err := json.Unmarshal(line, &b); err != nil {
			Fail(err)
		}
		k := Key(b.T, b.Fl)
		if _, ok := roots[k]; !ok {
			roots[k] = Root{b.T, b.Fl}
			keys = append(keys, k)
		}
	})
	sort.Strings(keys)
	return keys, roots
}

// Fail ends the program: the harness itself does not work.
func Fail(err any) {
	fmt.Fprintln(os.Stderr, "drive:", err)
	os.Exit(3)
}
