package main

import (
	"encoding/json"
	"fmt"
	"strings"
)

// kind props: tags, anchors and directives, well-formed or not.
func init() { kinds["props"] = replayProps }

type propsBehavior struct {
	What string   `json:"what"`
	Text []string `json:"text"`
	OK   bool     `json:"ok"`
	St   string   `json:"st"`
}

func replayProps(line []byte, r *rng, _ int) (int, string) {
	var b propsBehavior
	must(json.Unmarshal(line, &b))
	pools := map[string][]string{
		"w": {"a", "Z", "tag", "x", "-", "a-b"}, "9": {"0", "7", "12", "3"}, "%xx": {"%41", "%c3%a9", "%2F"}, "%": {"%z", "%4z", "%-"},
		"u": {"ü", "世", "é"}, "/": {"/", ":y", "#y", ".", "~", "_", "@", "$", "=", ";", "?", "&", "+", "*", "'", "(", ")"}, "[": {"[", "]", "{", "}", ","},
		"'": {"'", `"`, "|", ">", "@"},
	}
	if b.What == "anchor" || b.What == "prefix" {
		pools["/"] = []string{"/", "x:y", ".", "_", "~", "?", "(", "="}
	}
	if b.What == "version" {
		pools["9"] = []string{"1", "2", "12", "0"}
		pools["w"] = []string{"x", "-", ",", "v"}
		pools[" "] = []string{" ", "  ", "\t"}
	}
	var sb strings.Builder
	for _, c := range b.Text {
		if p := pools[c]; p != nil {
			c = p[r.intn(len(p))]
		}
		sb.WriteString(c)
	}
	text := sb.String()
	obs := 0
	check := func(doc string, want *val) string {
		obs++
		if !b.OK {
			if d, err := engines[0].newReader(doc, false); err == nil {
				v := d.Any()
				if d.Error() == nil {
					return fmt.Sprintf("%s accepts the malformed %q as %#v", engines[0].name, doc, v)
				}
			}
			return ""
		}
		return meansFor(engines[0], doc, want)
	}
	v := strv("val")
	var docs []string
	var wants []*val
	add := func(doc string, want *val) { docs, wants = append(docs, doc), append(wants, want) }
	switch b.What {
	case "tag":
		pre := ""
		if b.St == "named" || b.St == "named0" {
			i := strings.Index(text, "!")
			pre = "%TAG !" + text[:i+1] + " tag:example.com,2000:\n---\n"
		}
		add(pre+"!"+text+" val\n", v)
		add(pre+"- !"+text+" val\n", seqOf(v))
		add(pre+"k: !"+text+"\n  - val\n", mapOf(strv("k"), seqOf(v)))
		add(pre+"[!"+text+" val]\n", seqOf(v))
		add(pre+"{!"+text+" k: val}\n", mapOf(strv("k"), v))
		add(pre+"!"+text+" k: val\n", mapOf(strv("k"), v))
	case "anchor":
		add("- &"+text+" val\n- *"+text+"\n", seqOf(v, v))
		add("k: &"+text+"\n  - val\nl: *"+text+"\n", mapOf(strv("k"), seqOf(v), strv("l"), seqOf(v)))
		if b.OK {
			add("[&"+text+" val, *"+text+" ]\n", seqOf(v, v))
		}
	case "version":
		add("%YAML "+text+"\n---\nval\n", v)
		add("%YAML "+text+"\n--- val\n", v)
		add("# c\n%YAML "+text+"\n---\n- val\n", seqOf(v))
	case "prefix":
		add("%TAG "+text+"\n---\nval\n", v)
		add("%YAML 1.2\n%TAG "+text+"\n---\n- val\n", seqOf(v))
	}
	for i := range docs {
		if m := check(docs[i], wants[i]); m != "" {
			return obs, m
		}
	}
	return obs, ""
}
