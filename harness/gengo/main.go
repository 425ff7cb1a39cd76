// Command gengo writes Go packages with the types of behaviours of Generated.tla and
// a program generating code for them with the generator of the working tree.
package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"verif/genreplay"
)

const perPackage = 40

var engines = []string{"goyaml", "yayamls"}

var goNames = map[string]string{
	"time": "time.Time", "bytes": "[]byte", "bytes4": "[4]byte", "any": "any",
	"nint8": "gentypes.NInt8", "nuint": "gentypes.NUint", "nstring": "gentypes.NString", "nbool": "gentypes.NBool",
	"nfloat32": "gentypes.NFloat32", "text": "gentypes.Text", "textstruct": "gentypes.TextStruct", "yamly": "gentypes.Yamly", "iface": "gentypes.Iface",
}

type writer struct {
	engine string
	root   string
	n      int
	decls  []string
}

func scalar(k string) string {
	if n := goNames[k]; n != "" {
		return n
	}
	return k
}

func (w *writer) fields(t *genreplay.Type) string {
	var b strings.Builder
	for _, f := range t.F {
		goName := strings.ToUpper(f.N[:1]) + f.N[1:]
		tag := f.N
		if f.Om {
			tag += ",omitempty"
		}
		switch f.In {
		case "embed":
			// the name of an embedded field is the name of its type
			fmt.Fprintf(&b, "\t%s\n", w.goType(f.T, genreplay.EmbeddedName(w.root, f.N)))
			continue
		case "tagged":
			fmt.Fprintf(&b, "\t%s `yaml:%q`\n", w.goType(f.T, genreplay.EmbeddedName(w.root, f.N)), tag)
			continue
		case "odd":
			tag = genreplay.OddName(f.N) + ","
			if f.Om {
				tag += "omitempty"
			}
		case "inline":
			tag = ",inline"
		case "skip":
			tag = "-"
		case "plain":
			tag = strings.TrimPrefix(tag, f.N)
		case "hidden":
			goName = f.N
		}
		if tag == "" {
			fmt.Fprintf(&b, "\t%s %s\n", goName, w.goType(f.T, ""))
			continue
		}
		fmt.Fprintf(&b, "\t%s %s `yaml:%q`\n", goName, w.goType(f.T, ""), tag)
	}
	return b.String()
}

func (w *writer) goType(t *genreplay.Type, name string) string {
	switch t.K {
	case "self":
		return w.root
	case "ptr":
		return "*" + w.goType(t.E, name)
	case "slice":
		return "[]" + w.goType(t.E, "")
	case "array":
		return fmt.Sprintf("[%d]%s", t.N, w.goType(t.E, ""))
	case "map":
		return "map[" + scalar(t.Key) + "]" + w.goType(t.E, "")
	case "struct":
		if t.Nm == "ext" {
			return "gentypes.Pair"
		}
		if t.Nm == "anon" {
			return "struct {\n" + w.fields(t) + "}"
		}
		if name == "" {
			w.n++
			name = fmt.Sprintf("%sSub%d", w.root, w.n)
		}
		w.decls = append(w.decls, "type "+name+" struct {\n"+w.fields(t)+"}\n")
		return name
	}
	if t.K == "eiface" {
		return "gentypes." + strings.ToUpper(w.engine[:1]) + w.engine[1:] + "Iface"
	}
	if t.K == "engine" {
		return "gentypes." + strings.ToUpper(w.engine[:1]) + w.engine[1:]
	}
	return scalar(t.K)
}

func write(path, text string) {
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		genreplay.Fail(err)
	}
	if err := os.WriteFile(path, []byte(text), 0o644); err != nil {
		genreplay.Fail(err)
	}
}

func main() {
	in := flag.String("in", "", "behaviours")
	dir := flag.String("dir", "", "directory of the module, packages go to gen/")
	flag.Parse()
	keys, roots := genreplay.Roots(*in)

	var boot, imports, calls, rootsGo strings.Builder
	for p := 0; p*perPackage < len(keys); p++ {
		for _, e := range engines {
			var types strings.Builder
			fmt.Fprintf(&types, "package p%d\n\nimport (\n\t\"time\"\n\n\t\"verif/gentypes\"\n)\n\nvar (\n\t_ time.Time\n\t_ gentypes.NInt8\n)\n\n", p)
			types.WriteString("// Roots are pointers to zero values of root types.\nvar Roots = map[int]func() any{}\n\n")
			for i := p * perPackage; i < len(keys) && i < (p+1)*perPackage; i++ {
				w := &writer{engine: e, root: fmt.Sprintf("R%d", i)}
				t := roots[keys[i]].T
				if t.K == "struct" && t.Nm == "named" {
					w.decls = append(w.decls, "type "+w.root+" struct {\n"+w.fields(t)+"}\n")
				} else {
					w.decls = append(w.decls, "type "+w.root+" "+w.goType(t, "")+"\n")
				}
				types.WriteString(strings.Join(w.decls, "\n"))
				fmt.Fprintf(&types, "\nfunc init() { Roots[%d] = func() any { return new(%s) } }\n\n", i, w.root)
				fl := roots[keys[i]].Fl
				fmt.Fprintf(&calls, "\tgenerate(%q, %d, %s.Generator, (*%sp%d.R%d)(nil), %t, %t, %t, %t)\n",
					e, p, e, e, p, i, fl.Omit, fl.Strict, fl.Ptr, fl.Inline)
			}
			write(filepath.Join(*dir, "gen", e, fmt.Sprintf("p%d", p), "types.go"), types.String())
			fmt.Fprintf(&imports, "\t%sp%d \"verif/gen/%s/p%d\"\n", e, p, e, p)
			fmt.Fprintf(&rootsGo, "\tadd(%q, %sp%d.Roots)\n", e, e, p)
		}
	}
	boot.WriteString("package main\n\nimport (\n\t\"verif/genreplay/boot\"\n\n\t\"github.com/KSpaceer/yamly/engines/goyaml\"\n\t\"github.com/KSpaceer/yamly/engines/yayamls\"\n\n")
	boot.WriteString(imports.String())
	boot.WriteString(")\n\nvar generate = boot.Generate\n\nfunc main() {\n")
	boot.WriteString(calls.String())
	boot.WriteString("\tboot.Done()\n}\n")
	write(filepath.Join(*dir, "gen", "boot", "main.go"), boot.String())

	write(filepath.Join(*dir, "gen", "replay", "main.go"), "package main\n\nimport (\n\t\"verif/genreplay\"\n\n"+imports.String()+
		")\n\nvar add = genreplay.Add\n\nfunc main() {\n"+rootsGo.String()+"\tgenreplay.Main()\n}\n")
	fmt.Println(len(keys))
}
