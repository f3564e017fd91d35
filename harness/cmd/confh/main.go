// confh writes configurations as JSON and YAML in many styles and loads them.
package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/HannesKimara/cddlc/config"

	"verif/harness/internal/sup"
)

type entry struct {
	Key   string          `json:"key"`
	Value json.RawMessage `json:"value"`
}

type buildV struct {
	Package string `json:"package"`
	Src     string `json:"src"`
	Output  string `json:"output"`
}

type pluginV struct {
	Name string `json:"name"`
	URL  string `json:"url"`
	Path string `json:"path"`
}

type confCase struct {
	Result string  `json:"result"`
	Base   string  `json:"base"`
	Style  string  `json:"style"`
	Fault  string  `json:"fault"`
	Doc    []entry `json:"doc"`
}

// the strings of the specification
var texts = map[string][]string{
	"plain":   {"1", "dist", "src", "proto", "a"},
	"path":    {"./x/y", "../a b", "/tmp/é/z", "C:\\dir", "a//b/", "~/.x", "."},
	"tricky":  {"true", "null", "~", "12", "1.5", "yes", "# not a comment", "- x", "a: b", "{x}", "[y]", "'q'", "\"dq\"", "%d", "${HOME}", "*a", "&b", "!c", "|", ">", "@at", "`", "0x1f", "1e3", "2001-01-01", "<<", "=", "?"},
	"control": {"two\nlines", "tab\there", "\u00e9\u4e2d\U0001F600", "ends in newline\n", " spaces ", "nul\u0000", "\u2028", "back\\slash\"", strings.Repeat("long ", 3000)},
	"empty":   {""},
}

// the options of the specification, as JSON
var options = map[string][]string{
	"none":   {"{}"},
	"flat":   {`{"a": 1, "b": true, "c": "x", "d": null}`, `{"level": 2.5}`, `{"k": -3}`, `{"z": "true"}`},
	"nested": {`{"a": {"b": {"c": [1, 2, {"d": false}]}}, "e": []}`, `{"list": ["x", 1, null, true, 1.25]}`, `{"m": {}, "n": {"o": "p"}}`},
}

type writer struct{ h uint64 }

func (w *writer) pick(what string, n int) int {
	f := fnv.New64a()
	f.Write([]byte(what))
	return int((f.Sum64() ^ w.h) * 0x9E3779B97F4A7C15 >> 20 % uint64(n))
}

func (w *writer) text(kind, where string) string {
	l := texts[kind]
	return l[w.pick("text"+where, len(l))]
}

func jstr(s string) string {
	var b strings.Builder
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	e.Encode(s)
	return strings.TrimSuffix(b.String(), "\n")
}

func printable(s string) bool {
	for _, r := range s {
		if r < 0x20 || r == 0x2028 || r == 0x85 || r == 0x2029 {
			return false
		}
	}
	return true
}

func simple(s string) bool {
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r == '/') {
			return false
		}
	}
	return s != "" && s != "true" && s != "null" && s != "yes" && s != "y" && s != "n"
}

// str writes a string.
func (w *writer) str(s, where string, yaml bool) string {
	if yaml {
		switch w.pick("quote"+where, 3) {
		case 0:
			if printable(s) && len(s) < 200 {
				return "'" + strings.ReplaceAll(s, "'", "''") + "'"
			}
		case 1:
			if simple(s) {
				return s
			}
		}
	}
	return jstr(s)
}

// pairs writes a mapping in one line.
func (w *writer) pairs(kv [][2]string, where string, yaml bool) string {
	if n := len(kv); n > 1 {
		k := w.pick("rot"+where, n)
		kv = append(append([][2]string{}, kv[k:]...), kv[:k]...)
	}
	var out []string
	for _, x := range kv {
		k := x[0]
		if !yaml || w.pick("quotekey"+where, 3) == 0 {
			k = jstr(k)
		}
		out = append(out, k+": "+x[1])
	}
	sep := []string{", ", ",\n      ", " , "}[w.pick("sep"+where, 3)]
	return "{" + strings.Join(out, sep) + "}"
}

func (w *writer) optionsYAML(o string) string { return o }

func faultValue(fault string, yaml bool) (key, val string) {
	switch fault {
	case "nullbuild":
		return "builds", `[{"package": "p", "src": "s", "output": "o"}, null]`
	case "buildslist":
		return "builds", `[["package"]]`
	case "buildscalar":
		return "builds", `"src"`
	case "buildtype":
		return "builds", `[{"package": {"a": "b"}, "src": "s", "output": "o"}]`
	case "buildlisttype":
		return "builds", `[{"package": "p", "src": ["s"], "output": "o"}]`
	case "versiontype":
		return "version", `["1"]`
	case "plugintype":
		return "plugins", `[{"name": "n", "local": "path"}]`
	case "optionstype":
		return "options", `[1, 2]`
	}
	return "", ""
}

// document writes the settings.
func (w *writer) document(c *confCase, yaml bool, exp *config.Config) string {
	block := yaml && c.Style == "block"
	var keys, vals []string
	for i, e := range c.Doc {
		where := fmt.Sprint(i)
		var v string
		fk, fv := faultValue(c.Fault, yaml)
		switch e.Key {
		case "version":
			var kind string
			json.Unmarshal(e.Value, &kind)
			exp.Version = w.text(kind, where)
			v = w.str(exp.Version, where, yaml)
		case "unknown":
			v = []string{`"x"`, `[1, 2]`, `{"a": null}`, `null`}[w.pick("unknown", 4)]
		case "options":
			var kind string
			json.Unmarshal(e.Value, &kind)
			v = options[kind][w.pick("options", len(options[kind]))]
			json.Unmarshal([]byte(v), &exp.Options)
		case "builds":
			var bs []buildV
			json.Unmarshal(e.Value, &bs)
			var parts []string
			for j, b := range bs {
				wh := fmt.Sprint(where, ".", j)
				x := &config.BuildConfig{Package: w.text(b.Package, wh+"p"), SourceDir: w.text(b.Src, wh+"s"), OutDir: w.text(b.Output, wh+"o")}
				exp.Builds = append(exp.Builds, x)
				kv := [][2]string{{"package", w.str(x.Package, wh+"p", yaml)}, {"src", w.str(x.SourceDir, wh+"s", yaml)}, {"output", w.str(x.OutDir, wh+"o", yaml)}}
				if block {
					k := w.pick("rot"+wh, 3)
					kv = append(append([][2]string{}, kv[k:]...), kv[:k]...)
					parts = append(parts, fmt.Sprintf("  - %s: %s\n    %s: %s\n    %s: %s", kv[0][0], kv[0][1], kv[1][0], kv[1][1], kv[2][0], kv[2][1]))
				} else {
					parts = append(parts, w.pairs(kv, wh, yaml))
				}
			}
			v = "[" + strings.Join(parts, ", ") + "]"
			if block && len(parts) > 0 {
				v = "\n" + strings.Join(parts, "\n")
			}
		case "plugins":
			var ps []pluginV
			json.Unmarshal(e.Value, &ps)
			var parts []string
			for j, p := range ps {
				wh := fmt.Sprint(where, ".", j)
				x := &config.Plugin{Name: w.text(p.Name, wh+"n"), Remote: config.PluginRemote{URL: w.text(p.URL, wh+"u")}, Local: config.PluginLocal{Path: w.text(p.Path, wh+"l")}}
				exp.Plugins = append(exp.Plugins, x)
				parts = append(parts, w.pairs([][2]string{{"name", w.str(x.Name, wh+"n", yaml)}, {"remote", w.pairs([][2]string{{"url", w.str(x.Remote.URL, wh+"u", yaml)}}, wh+"r", yaml)},
					{"local", w.pairs([][2]string{{"path", w.str(x.Local.Path, wh+"l", yaml)}}, wh+"lo", yaml)}}, wh, yaml))
			}
			v = "[" + strings.Join(parts, ", ") + "]"
			if block && len(parts) > 0 {
				v = "\n- " + strings.Join(parts, "\n- ")
			}
		}
		if fk == e.Key {
			v = fv
		}
		keys, vals = append(keys, e.Key), append(vals, v)
	}
	var b strings.Builder
	if block {
		if w.pick("start", 4) == 0 {
			b.WriteString("---\n")
		}
		if w.pick("comment", 3) == 0 {
			b.WriteString("# settings of the project\n\n")
		}
		for i := range keys {
			if strings.HasPrefix(vals[i], "\n") {
				fmt.Fprintf(&b, "%s:%s\n", keys[i], vals[i])
			} else {
				fmt.Fprintf(&b, "%s: %s\n", keys[i], vals[i])
			}
		}
		if len(keys) == 0 {
			return "{}\n"
		}
	} else {
		kv := [][2]string{}
		for i := range keys {
			kv = append(kv, [2]string{keys[i], vals[i]})
		}
		var out []string
		for _, x := range kv {
			out = append(out, jstr(x[0])+": "+x[1])
		}
		sep := map[string]string{"compact": ", ", "lines": ",\n  ", "block": ",\n\n"}[c.Style]
		b.WriteString("{" + strings.Join(out, sep) + "}" + []string{"", "\n", "\n\n"}[w.pick("end", 3)])
	}
	return b.String()
}

func normal(v any) any {
	switch v := v.(type) {
	case map[interface{}]interface{}:
		m := map[string]any{}
		for k, x := range v {
			m[fmt.Sprint(k)] = normal(x)
		}
		return m
	case map[string]interface{}:
		m := map[string]any{}
		for k, x := range v {
			m[k] = normal(x)
		}
		return m
	case []interface{}:
		l := []any{}
		for _, x := range v {
			l = append(l, normal(x))
		}
		return l
	case int:
		return float64(v)
	case int64:
		return float64(v)
	case uint64:
		return float64(v)
	}
	return v
}

func show(c *config.Config) string {
	if c == nil {
		return "none"
	}
	b, _ := json.Marshal(map[string]any{"version": c.Version, "plugins": c.Plugins, "builds": c.Builds, "options": normal(c.Options)})
	return string(b)
}

// same compares configurations; lists and maps without elements are the same as none.
func same(a, b *config.Config) bool {
	if a.Version != b.Version || len(a.Plugins) != len(b.Plugins) || len(a.Builds) != len(b.Builds) || len(a.Options) != len(b.Options) {
		return false
	}
	for i := range a.Plugins {
		if a.Plugins[i] == nil || b.Plugins[i] == nil || *a.Plugins[i] != *b.Plugins[i] {
			return false
		}
	}
	for i := range a.Builds {
		if a.Builds[i] == nil || b.Builds[i] == nil || *a.Builds[i] != *b.Builds[i] {
			return false
		}
	}
	return len(a.Options) == 0 || reflect.DeepEqual(normal(a.Options), normal(b.Options))
}

func replay(raw json.RawMessage) (out sup.Outcome) {
	var c confCase
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	f := fnv.New64a()
	f.Write(raw)
	f.Write([]byte(os.Getenv("VERIF_SEED")))
	w := &writer{h: f.Sum64()}
	dir, err := os.MkdirTemp(os.Getenv("CLI_SCRATCH"), "conf-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	if k := w.pick("dir", 4); k > 0 {
		dir = filepath.Join(dir, []string{"cddlc.json", "a b", "cddlc.yaml"}[k-1])
		os.Mkdir(dir, 0755)
	}
	yaml := strings.HasSuffix(c.Base, "yaml") || strings.HasSuffix(c.Base, "yml")
	exp := &config.Config{}
	text := w.document(&c, yaml, exp)
	switch c.Fault {
	case "truncated":
		if !yaml || c.Style != "block" {
			text = strings.TrimRight(text, " \n")
			text = text[:len(text)-1]
		} else {
			text += "more: \"open\nx: y\n"
		}
	case "trailing":
		text = strings.TrimRight(text, " \n") + []string{" {}", " x", "\n]", "}", " \"a\""}[w.pick("trailing", 5)]
		if yaml {
			text = text + "\n}\n"
		}
	case "empty":
		text = []string{"", "\n", "  \n"}[w.pick("empty", 3)]
	case "scalar":
		text = []string{"7", "\"cddlc\"", "true"}[w.pick("scalar", 3)]
	case "list":
		text = "[" + strings.TrimRight(w.document(&confCase{Style: "compact"}, false, &config.Config{}), "\n") + "]"
	case "otherformat":
		if yaml {
			text = "version = \"1\"\n[builds]\nsrc = \".\"\n"
		} else {
			text = "version: \"1\"\nbuilds: []\n"
		}
	case "tabs":
		if yaml {
			text = "version: \"1\"\nbuilds:\n\t- package: p\n\t  src: s\n"
		} else {
			text = strings.Replace(text, "{", "{,", 1)
		}
	}
	path := filepath.Join(dir, c.Base)
	if err := os.WriteFile(path, []byte(text), 0644); err != nil {
		panic(err)
	}
	got, err := config.LoadConfig(path)
	report := func(f string, a ...any) {
		out.Findings = append(out.Findings, sup.Finding{Prop: "C18", Detail: fmt.Sprintf("%s holding %.1500q: ", c.Base, text) + fmt.Sprintf(f, a...)})
	}
	switch {
	case c.Result == "ok" && err != nil:
		report("does not load: %v", err)
	case c.Result == "ok" && got == nil:
		report("loads nothing")
	case c.Result == "ok" && !same(got, exp):
		report("loads %.1500s, written was %.1500s", show(got), show(exp))
	case c.Result == "error" && err == nil:
		report("loads %.1500s, it is no configuration", show(got))
	}
	if b, rerr := os.ReadFile(path); rerr != nil || string(b) != text {
		report("loading changes the file to %.300q", b)
	}
	out.Key = c.Base + c.Fault + c.Style + fmt.Sprint(c.Doc)
	return out
}

func main() { sup.Main(replay, os.Args[1:]...) }
