// clih runs the command line in scratch directories, as an ordinary user, and compares what it
// leaves behind with the specification, or records it for trace validation.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/HannesKimara/cddlc/lexer"
	"github.com/HannesKimara/cddlc/parser"
	gogen "github.com/HannesKimara/cddlc/transforms/codegen/golang"

	"verif/harness/internal/sup"
)

type node struct {
	K    string `json:"k"`
	Of   string `json:"of"`
	Pkg  string `json:"pkg"`
	Mode string `json:"mode"`
}

type item struct {
	path []string
	node node
}

func (it *item) UnmarshalJSON(b []byte) error {
	var raw []json.RawMessage
	if err := json.Unmarshal(b, &raw); err != nil || len(raw) != 2 {
		return fmt.Errorf("bad item %s", b)
	}
	if err := json.Unmarshal(raw[0], &it.path); err != nil {
		return err
	}
	return json.Unmarshal(raw[1], &it.node)
}

func (it item) MarshalJSON() ([]byte, error) {
	p := it.path
	if p == nil {
		p = []string{}
	}
	return json.Marshal([]any{p, it.node})
}

type build struct {
	Src []string `json:"src"`
	Out []string `json:"out"`
	Pkg string   `json:"pkg"`
}

type runCase struct {
	Result string   `json:"result"`
	Notice bool     `json:"notice"`
	After  []item   `json:"after"`
	Path   []string `json:"path"` // what changes before the next run
	Node   node     `json:"node"`
}

type genCase struct {
	First   []item             `json:"first"`
	Configs map[string][]build `json:"configs"`
	Runs    []runCase          `json:"runs"`
	// recorded runs: no expectation, the qualities are by content
	Quality map[string]string `json:"quality"`
	Family  string            `json:"family"`
}

type pools struct {
	Good        []string `json:"good"`
	Diagnosed   []string `json:"diagnosed"`
	Lexical     []string `json:"lexical"`
	Undef       []string `json:"undef"`
	Unsupported []string `json:"unsupported"`
}

var (
	pool     pools
	binary   = os.Getenv("CLI_BIN")
	scratch  = os.Getenv("CLI_SCRATCH")
	family   = os.Getenv("CLI_FAMILY")
	asNobody = os.Getenv("CLI_ROOT") == ""
	seed     = os.Getenv("VERIF_SEED")
)

const nobody = 65534

// scene is the concrete form of a case.
type scene struct {
	h     uint64
	root  string // scratch of the case
	wd    string
	store string
	c     *genCase
	files map[string][]byte // what is in each file that was put there, by path
}

func hash(s string) uint64 {
	f := fnv.New64a()
	f.Write([]byte(s))
	return f.Sum64()
}

// pick makes a choice that depends on the case and on what is chosen.
func (s *scene) pick(what string, n int) int {
	return int((hash(what+seed) ^ s.h*0x9E3779B97F4A7C15) >> 17 % uint64(n))
}

var wdNames = []string{"wd", "w d", "[a-z]*", "cddlc.json", "cddlc.yaml", "x.cddl", "?", "wd.é", "-wd", "{a,b}", "*"}

func pathOf(p []string) string { return strings.Join(p, "/") }

func nth(l []string, n int) string { return l[n%len(l)] }

// definition is the text of a definition file.
func (s *scene) definition(of string) string {
	n := s.pick(of, 1<<20)
	kind := of
	if q, ok := s.c.Quality[of]; ok {
		kind = q
	}
	switch kind {
	case "g1", "g2", "g3":
		// different for the three
		return nth(pool.Good, n-n%3+int(of[1]-'1'))
	case "good": // different for each content
		return nth(pool.Good, n) + "\nrule-" + of + " = int\n"
	case "big":
		var b strings.Builder
		for i := 0; i < 300; i++ {
			fmt.Fprintf(&b, "big-rule%d = ( a%d: tstr, b: uint, c: ( d: bytes, e: [ 1: float ] ) ) ; %d\n", i, i, i)
		}
		return b.String()
	case "empty":
		return nth([]string{"", "\n\n", "; only a comment", "  \t\n", "; a\n; b\n"}, n)
	case "lexical":
		return nth(pool.Lexical, n)
	case "syntax":
		return nth(pool.Diagnosed, n)
	case "undef":
		return nth(pool.Undef, n)
	case "unsup", "unsupported":
		return nth(pool.Unsupported, n)
	case "diagnosed":
		switch n % 3 {
		case 0:
			return nth(pool.Lexical, n)
		case 1:
			return nth(pool.Undef, n)
		}
		return nth(pool.Diagnosed, n)
	}
	return ""
}

// content of a file.
func (s *scene) content(p []string, n node) []byte {
	base := p[len(p)-1]
	switch {
	case n.Of == "old":
		return []byte("package old\n\n// " + pathOf(p) + " as it was\n")
	case n.Of == "long":
		return []byte("package old\n\n" + strings.Repeat("// a long file that was there before\n", 12000))
	case len(p) == 1 && (base == "cddlc.json" || base == "cddlc.yaml") || s.c.Configs[n.Of] != nil || strings.HasPrefix(n.Of, "bad:"):
		return []byte(s.config(n.Of, strings.HasSuffix(strings.ToLower(base), "yaml") || strings.HasSuffix(base, "yml")))
	}
	return []byte(s.definition(n.Of))
}

// spell writes a path of a configuration in one of several ways.
func (s *scene) spell(p []string, what string) string {
	if len(p) == 0 {
		return []string{".", "./", s.wd, "./.", "../" + filepath.Base(s.wd)}[s.pick(what, 5)]
	}
	x := pathOf(p)
	return []string{x, "./" + x, x + "/", filepath.Join(s.wd, x), strings.ReplaceAll(x, "/", "//"), "././" + x + "/."}[s.pick(what, 6)]
}

func quoteJSON(x string) string { b, _ := json.Marshal(x); return string(b) }

func (s *scene) config(id string, yaml bool) string {
	blds := s.c.Configs[id]
	var parts []string
	for i, b := range blds {
		k := fmt.Sprint(id, i)
		f := [][2]string{{"package", quoteJSON(b.Pkg)}, {"src", quoteJSON(s.spell(b.Src, "s"+k))}, {"output", quoteJSON(s.spell(b.Out, "o"+k))}}
		if s.pick("order"+k, 2) == 1 {
			f[0], f[2] = f[2], f[0]
		}
		if s.pick("unknown"+k, 4) == 1 {
			f = append(f, [2]string{"comment", `"about this build"`})
		}
		var fs []string
		for _, kv := range f {
			if yaml {
				fs = append(fs, kv[0]+": "+kv[1])
			} else {
				fs = append(fs, quoteJSON(kv[0])+": "+kv[1])
			}
		}
		if yaml && s.pick("flow"+id, 2) == 0 {
			parts = append(parts, "  - "+strings.Join(fs, "\n    "))
		} else {
			parts = append(parts, "{"+strings.Join(fs, ", ")+"}")
		}
	}
	block := yaml && s.pick("flow"+id, 2) == 0
	builds := "[" + strings.Join(parts, ",\n ") + "]"
	if block && len(parts) > 0 {
		builds = "\n" + strings.Join(parts, "\n")
	}
	var top []string
	key := func(k, v string) {
		if yaml {
			top = append(top, k+": "+v)
		} else {
			top = append(top, quoteJSON(k)+": "+v)
		}
	}
	key("version", `"1"`)
	if s.pick("plugins"+id, 2) == 0 {
		key("plugins", "[]")
	}
	key("builds", builds)
	if s.pick("options"+id, 3) == 0 {
		key("options", `{"a": 1, "b": [true, "x"]}`)
	}
	if s.pick("first"+id, 2) == 0 {
		top[0], top[len(top)-1] = top[len(top)-1], top[0]
	}
	text := strings.Join(top, "\n") + "\n"
	if !yaml {
		text = "{" + strings.Join(top, ",\n\t") + "}" + []string{"", "\n", "\n\n  "}[s.pick("end"+id, 3)]
	}
	if strings.HasPrefix(id, "bad:") {
		return s.badConfig(strings.TrimPrefix(id, "bad:"), yaml)
	}
	return text
}

// badConfig is something else in place of a configuration.
func (s *scene) badConfig(kind string, yaml bool) string {
	j := map[string][]string{
		"truncated": {`{"version": "1", "builds": [{"package": "px", "src": "src", "output": "out"}]`, `{`, `{"builds": [`, `{"version": "1`},
		"type":      {`{"version": "1", "builds": [{"package": 7, "src": "src", "output": "out"}]}`, `{"version": ["1"], "builds": []}`, `{"builds": [{"src": {"a": "b"}}]}`, `{"plugins": {"a": 1}}`, `{"version": true}`},
		"trailing":  {`{"version": "1", "builds": [{"package": "px", "src": "src", "output": "out"}]} {`, `{"builds": []}]`, `{"builds": []}{"builds": []}`, `{"builds": []} x`},
		"empty":     {"", "\n", "   \t\n"},
		"nullbuild": {`{"version": "1", "builds": [null]}`, `{"builds": [{"package": "px", "src": "src", "output": "out"}, null]}`},
		"list":      {`["version"]`, `"cddlc"`, `7`, `builds`, `[{"builds": []}]`},
		"builds":    {`{"builds": "src"}`, `{"builds": {"package": "px"}}`, `{"builds": 1}`, `{"builds": ["src"]}`},
	}
	y := map[string][]string{
		"truncated": {"version: \"1\nbuilds:\n", "builds: [{package: px, src: src", "version: '1\n", "builds:\n  - {package: px\n"},
		"type":      {"builds:\n  - package: [a]\n", "version: [1]\n", "builds:\n  - src: {a: b}\n", "plugins: {a: 1}\n"},
		"trailing":  {"version: \"1\"\nbuilds: []\n]\n", "builds: []\n\t- x\n", "builds: [] x\n", "version: \"1\" \"2\"\n"},
		"empty":     {"", "\n", "   \n"},
		"nullbuild": {"builds:\n  -\n", "builds: [null]\n", "builds:\n  - ~\n"},
		"list":      {"- version\n", "cddlc\n", "[builds]\n", "7\n"},
		"builds":    {"builds: src\n", "builds: {package: px}\n", "builds: 1\n", "builds:\n  - src\n"},
	}
	m := j
	if yaml {
		m = y
	}
	return nth(m[kind], s.pick("bad"+kind, 1000))
}

func must(err error) {
	if err != nil {
		panic(fmt.Sprint("harness: ", err))
	}
}

// put makes what is to be at a path, parents first; modes of directories are set by seal.
func (s *scene) put(p []string, n node) {
	full := filepath.Join(s.wd, pathOf(p))
	linked := len(p) > 0 && s.pick("link"+pathOf(p), 9) == 0 && (n.K == "dir" || n.K == "file" && n.Mode == "rw")
	real := full
	if linked {
		real = filepath.Join(s.store, fmt.Sprint(len(p), "-", strings.ReplaceAll(pathOf(p), "/", "-")))
		os.RemoveAll(real)
	}
	switch n.K {
	case "dir", "sealed", "closed":
		if len(p) == 0 {
			return
		}
		must(os.Mkdir(real, 0755))
	case "file":
		b := s.content(p, n)
		s.files[pathOf(p)] = b
		must(os.WriteFile(real, b, 0644))
		must(os.Chmod(real, map[string]os.FileMode{"rw": 0644, "ro": 0444, "no": 0}[n.Mode]))
	case "dangling":
		must(os.Symlink([]string{"nowhere/x", filepath.Join(s.store, "none", "x"), filepath.Join(s.root, "gone", "y")}[s.pick("dangling", 3)], full))
	case "full":
		must(os.Symlink("/dev/full", full))
	default:
		panic("harness: node " + n.K)
	}
	if linked {
		must(os.Symlink(real, full))
	}
}

// seal gives directories and files to the user and sets the modes of directories, deepest first.
func (s *scene) seal(items []item) {
	if asNobody {
		for _, d := range []string{s.wd, s.store} {
			must(filepath.Walk(d, func(p string, fi os.FileInfo, err error) error {
				if err != nil {
					return err
				}
				return os.Lchown(p, nobody, nobody)
			}))
		}
	}
	sort.Slice(items, func(i, j int) bool { return len(items[i].path) > len(items[j].path) })
	for _, it := range items {
		full := filepath.Join(s.wd, pathOf(it.path))
		switch it.node.K {
		case "dir":
			must(os.Chmod(full, 0755))
		case "sealed":
			must(os.Chmod(full, 0555))
		case "closed":
			must(os.Chmod(full, 0))
		}
	}
}

func sorted(items []item) []item {
	out := append([]item{}, items...)
	sort.SliceStable(out, func(i, j int) bool { return len(out[i].path) < len(out[j].path) })
	return out
}

type outcome struct {
	exit           int
	stdout, stderr string
	hung           bool
}

func execute(bin, wd string, stdin string, args ...string) outcome {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = wd
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=/nonexistent", "PWD=" + wd, "GOTRACEBACK=single", "GOMAXPROCS=2"}
	cmd.Stdin = strings.NewReader(stdin)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if asNobody {
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}}
	}
	err := cmd.Run()
	o := outcome{stdout: so.String(), stderr: se.String()}
	var ee *exec.ExitError
	switch {
	case ctx.Err() != nil:
		o.hung = true
	case errors.As(err, &ee):
		o.exit = ee.ExitCode()
	case err != nil:
		panic(fmt.Sprint("harness: cannot run: ", err))
	}
	return o
}

func crashed(o outcome) bool {
	return o.hung || o.exit < 0 || strings.Contains(o.stderr, "goroutine ") || strings.Contains(o.stderr, "panic: ")
}

var codes = map[string]string{}

// code is what the generator gives for a source.
func code(src, pkg string) (text string, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	key := pkg + "\x00" + src
	if c, ok := codes[key]; ok {
		return c, nil
	}
	cddl, errs := parser.NewParser(lexer.NewLexer([]byte(src))).ParseFile()
	if len(errs) > 0 {
		return "", fmt.Errorf("%s", errs.String())
	}
	g := gogen.NewGenerator(pkg)
	g.Visit(cddl)
	var buf bytes.Buffer
	if err := g.String(&buf); err != nil {
		return "", err
	}
	if len(codes) > 2000 {
		codes = map[string]string{}
	}
	codes[key] = buf.String()
	return codes[key], nil
}

// isCode says why a file is not the header and the code for a source.
func (s *scene) isCode(b []byte, of, pkg string, args []string) string {
	want, err := code(s.definition(of), pkg)
	if err != nil {
		return fmt.Sprintf("the generator fails alone: %v", err)
	}
	text := string(b)
	end := strings.Index(text, "*/")
	if !strings.HasPrefix(text, "/*") || end < 0 {
		return fmt.Sprintf("no header: %.200q", text)
	}
	header, rest := text[:end], strings.TrimLeft(text[end+2:], "\n")
	if !strings.Contains(header, "DO NOT EDIT") || !strings.Contains(header, strings.Join(args, " ")) {
		return fmt.Sprintf("header %q", header)
	}
	if rest != strings.TrimLeft(want, "\n") {
		return fmt.Sprintf("after the header %.300q, the code is %.300q (%d and %d bytes)", rest, want, len(rest), len(want))
	}
	return ""
}

func prefixOf(p, q string) bool { return q == p || strings.HasPrefix(q, p+"/") }

// setup makes the scene of a case.
func setup(c *genCase, raw string) *scene {
	s := &scene{h: hash(raw + seed), c: c, files: map[string][]byte{}}
	root, err := os.MkdirTemp(scratch, "case-")
	must(err)
	must(os.Chmod(root, 0755))
	s.root = root
	s.wd, s.store = filepath.Join(root, wdNames[s.pick("wd", len(wdNames))]), filepath.Join(root, "store")
	must(os.Mkdir(s.wd, 0755))
	must(os.Mkdir(s.store, 0755))
	for _, it := range sorted(c.First) {
		s.put(it.path, it.node)
	}
	s.seal(append([]item{}, c.First...))
	return s
}

func (s *scene) clear() {
	if !strings.HasPrefix(s.root, scratch+"/case-") {
		panic("harness: scratch")
	}
	filepath.Walk(s.root, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.IsDir() {
			os.Chmod(p, 0755)
		}
		return nil
	})
	os.RemoveAll(s.root)
}

// change is what happens between two runs.
func (s *scene) change(p []string, n node) {
	full := filepath.Join(s.wd, pathOf(p))
	if _, err := os.Lstat(full); err == nil {
		must(os.Remove(full))
		delete(s.files, pathOf(p))
	}
	if n.K == "none" {
		return
	}
	parent := filepath.Dir(full)
	fi, err := os.Stat(parent)
	must(err)
	os.Chmod(parent, 0755)
	s.put(p, n)
	must(os.Chmod(parent, fi.Mode().Perm()))
	if asNobody {
		filepath.Walk(s.store, func(q string, fi os.FileInfo, err error) error {
			if err == nil {
				os.Lchown(q, nobody, nobody)
			}
			return nil
		})
		must(os.Lchown(full, nobody, nobody))
	}
}

// entries are the paths below the working directory.
func (s *scene) entries() []string {
	var out []string
	var walk func(dir, rel string)
	walk = func(dir, rel string) {
		es, err := os.ReadDir(dir)
		must(err)
		for _, e := range es {
			p := e.Name()
			if rel != "" {
				p = rel + "/" + p
			}
			out = append(out, p)
			if fi, err := os.Stat(filepath.Join(dir, e.Name())); err == nil && fi.IsDir() {
				walk(filepath.Join(dir, e.Name()), p)
			}
		}
	}
	walk(s.wd, "")
	sort.Strings(out)
	return out
}

// compare says how the directory differs from what is expected.
func (s *scene) compare(before map[string]node, want []item, failed bool, args []string) []string {
	var bad []string
	exp := map[string]node{}
	for _, it := range want {
		exp[pathOf(it.path)] = it.node
	}
	outDir := func(p string) bool { // an output directory, or on the way to one
		for _, bs := range append([][]build{{{Out: []string{"dist"}}}}, values(s.c.Configs)...) {
			for _, b := range bs {
				if prefixOf(p, pathOf(b.Out)) {
					return true
				}
			}
		}
		return false
	}
	have := map[string]bool{}
	for _, p := range s.entries() {
		have[p] = true
		full := filepath.Join(s.wd, p)
		n, ok := exp[p]
		fi, err := os.Stat(full)
		if !ok {
			if err == nil && fi.IsDir() && outDir(p) {
				continue // when the directory is made does not matter
			}
			bad = append(bad, "there is a new "+p)
			continue
		}
		was, before := before[p]
		switch n.K {
		case "dir", "sealed", "closed":
			if err != nil || !fi.IsDir() {
				bad = append(bad, p+" is no directory any more")
			} else if before && fi.Mode().Perm() != map[string]os.FileMode{"dir": 0755, "sealed": 0555, "closed": 0}[n.K] {
				bad = append(bad, fmt.Sprintf("%s has mode %v", p, fi.Mode()))
			}
		case "dangling", "full":
			li, err := os.Lstat(full)
			if err != nil || li.Mode()&os.ModeSymlink == 0 {
				bad = append(bad, p+" is no link any more")
			} else if _, err := os.Stat(full); n.K == "dangling" && err == nil {
				bad = append(bad, p+" links to something now")
			}
		case "file", "code":
			b, rerr := os.ReadFile(full)
			if rerr != nil {
				bad = append(bad, fmt.Sprintf("%s: %v", p, rerr))
				continue
			}
			if n.K == "code" {
				if why := s.isCode(b, n.Of, n.Pkg, args); why != "" {
					bad = append(bad, p+" is not the code for "+n.Of+" in package "+n.Pkg+": "+why)
				}
				if before && was.K == "file" && fi.Mode().Perm() != 0644 || !before && fi.Mode().Perm()&0600 != 0600 {
					bad = append(bad, fmt.Sprintf("%s has mode %v", p, fi.Mode()))
				}
				continue
			}
			if !bytes.Equal(b, s.files[p]) {
				bad = append(bad, fmt.Sprintf("%s has changed: %.200q (%d bytes), it was %.200q (%d bytes)", p, b, len(b), s.files[p], len(s.files[p])))
			}
			if m := fi.Mode().Perm(); m != map[string]os.FileMode{"rw": 0644, "ro": 0444, "no": 0}[n.Mode] {
				bad = append(bad, fmt.Sprintf("%s has mode %v", p, fi.Mode()))
			}
		}
	}
	for p, n := range exp {
		if p == "" || have[p] {
			continue
		}
		if _, was := before[p]; !was && n.K == "dir" && failed && outDir(p) {
			continue
		}
		bad = append(bad, "there is no "+p)
	}
	sort.Strings(bad)
	return bad
}

func values(m map[string][]build) [][]build {
	var out [][]build
	for _, v := range m {
		out = append(out, v)
	}
	return out
}

func needsUser(items []item) bool {
	for _, it := range items {
		if it.node.Mode == "ro" || it.node.Mode == "no" || it.node.K == "sealed" || it.node.K == "closed" {
			return true
		}
	}
	return false
}

func (s *scene) args() []string {
	return [][]string{{"generate"}, {"gen"}, {"generate", "again"}}[s.pick("args", 7)%3]
}

func describe(c *genCase, s *scene) string {
	b, _ := json.Marshal(c.First)
	var texts []string
	for p, b := range s.files {
		if len(b) < 400 {
			texts = append(texts, fmt.Sprintf("%s=%q", p, b))
		}
	}
	sort.Strings(texts)
	return fmt.Sprintf("in %s with %s\n files: %s", filepath.Base(s.wd), b, strings.Join(texts, " "))
}

func replayGenerate(raw json.RawMessage) (out sup.Outcome) {
	var c genCase
	must(json.Unmarshal(raw, &c))
	if !asNobody && needsUser(c.First) {
		return sup.Outcome{Skip: true}
	}
	s := setup(&c, string(raw))
	defer s.clear()
	before := map[string]node{}
	for _, it := range c.First {
		before[pathOf(it.path)] = it.node
	}
	args := s.args()
	for i, r := range c.Runs {
		prop := "C16"
		if r.Result == "fail" {
			prop = "C17"
		}
		if family == "config" {
			prop = "C18"
		}
		report := func(p, f string, a ...any) {
			out.Findings = append(out.Findings, sup.Finding{Prop: p, Detail: fmt.Sprintf("run %d of `%s`: ", i+1, strings.Join(args, " ")) + fmt.Sprintf(f, a...) + "\n " + describe(&c, s)})
		}
		o := execute(binary, s.wd, "", args...)
		bad := s.compare(before, r.After, r.Result == "fail", args)
		switch {
		case crashed(o):
			report(prop, "crashes or does not end (%d): %.1500s", o.exit, o.stderr)
		case r.Result == "ok" && o.exit != 0:
			report(prop, "fails (%d) but has to succeed: %.500s", o.exit, o.stderr)
		case r.Result == "fail" && o.exit == 0:
			report(prop, "succeeds but has to fail: %.500s", o.stderr)
		case r.Result == "fail" && strings.TrimSpace(o.stderr+o.stdout) == "":
			report(prop, "fails without a message")
		}
		if said := strings.Contains(o.stdout+o.stderr, "default config"); said != r.Notice && !crashed(o) {
			report("C18", "notice of the default configuration: %v, expected %v", said, r.Notice)
		}
		if len(bad) > 0 {
			report(prop, "%s", strings.Join(bad, "; "))
		}
		if len(out.Findings) > 0 {
			return out
		}
		before = map[string]node{}
		for _, it := range r.After {
			before[pathOf(it.path)] = it.node
		}
		if i+1 < len(c.Runs) {
			s.change(r.Path, r.Node)
			delete(before, pathOf(r.Path))
			if r.Node.K != "none" {
				before[pathOf(r.Path)] = r.Node
			}
			for p := range before { // an output that was there is written text now
				if before[p].K == "code" {
					if b, err := os.ReadFile(filepath.Join(s.wd, p)); err == nil {
						s.files[p] = b
					}
				}
			}
		}
	}
	out.Key = fmt.Sprintf("%v %v", len(c.First), c.Runs[len(c.Runs)-1].Result) + fmt.Sprint(hash(string(raw)))
	return out
}

// recordGenerate runs a scenario and records what is there afterwards.
func recordGenerate(raw json.RawMessage) (out sup.Outcome) {
	var c genCase
	must(json.Unmarshal(raw, &c))
	if !asNobody && needsUser(c.First) {
		return sup.Outcome{Skip: true}
	}
	s := setup(&c, string(raw))
	defer s.clear()
	before := map[string]node{}
	for _, it := range c.First {
		before[pathOf(it.path)] = it.node
	}
	args := s.args()
	o := execute(binary, s.wd, "", args...)
	if crashed(o) || o.exit != 0 && strings.TrimSpace(o.stderr+o.stdout) == "" {
		out.Findings = append(out.Findings, sup.Finding{Prop: "C17", Detail: fmt.Sprintf("%v crashes or says nothing (%d): %.1500s\n %s", args, o.exit, o.stderr, describe(&c, s))})
		return out
	}
	after := []item{{node: before[""]}}
	pkgs := map[string]bool{"dist": true}
	for _, bs := range c.Configs {
		for _, b := range bs {
			pkgs[b.Pkg] = true
		}
	}
	var notes []string
	for _, p := range s.entries() {
		full := filepath.Join(s.wd, p)
		n, was := before[p]
		fi, err := os.Stat(full)
		it := item{path: strings.Split(p, "/"), node: n}
		switch {
		case was && (n.K == "dangling" || n.K == "full"):
			if li, lerr := os.Lstat(full); lerr != nil || li.Mode()&os.ModeSymlink == 0 || n.K == "dangling" && err == nil {
				it.node = node{K: "garbage"}
			}
		case err == nil && fi.IsDir():
			it.node = node{K: map[os.FileMode]string{0755: "dir", 0555: "sealed", 0: "closed"}[fi.Mode().Perm()]}
		case err != nil:
			it.node = node{K: "garbage"}
		default:
			b, rerr := os.ReadFile(full)
			must(rerr)
			if was && bytes.Equal(b, s.files[p]) && fi.Mode().Perm() == map[string]os.FileMode{"rw": 0644, "ro": 0444, "no": 0}[n.Mode] {
				break
			}
			it.node = node{K: "garbage"}
			for of, q := range c.Quality {
				for pkg := range pkgs {
					if q != "good" || it.node.K == "code" || !strings.Contains(string(b), "rule-"+of+"\n") {
						continue
					}
					if why := s.isCode(b, of, pkg, args); why == "" && fi.Mode().Perm()&0600 == 0600 {
						it.node = node{K: "code", Of: of, Pkg: pkg, Mode: "rw"}
					} else {
						notes = append(notes, p+": "+why)
					}
				}
			}
		}
		after = append(after, it)
	}
	rec := map[string]any{"first": c.First, "quality": c.Quality, "after": after, "result": "ok", "notice": strings.Contains(o.stdout+o.stderr, "default config")}
	if o.exit != 0 {
		rec["result"] = "fail"
	}
	confs := []any{}
	for id, bs := range c.Configs {
		confs = append(confs, []any{id, bs})
	}
	rec["configs"] = confs
	rec["stderr"] = fmt.Sprintf("%.300s", o.stderr)
	rec["notes"] = fmt.Sprintf("%.600s", strings.Join(notes, "; "))
	out.Record = rec
	out.Key = fmt.Sprint(hash(string(raw)))
	return out
}

func main() {
	log.SetOutput(io.Discard)
	must(syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 4 << 30, Max: 4 << 30})) // for the programs it runs
	if p := os.Getenv("CLI_POOL"); p != "" {
		b, err := os.ReadFile(p)
		must(err)
		must(json.Unmarshal(b, &pool))
	}
	if len(os.Args) < 2 {
		os.Exit(2)
	}
	switch os.Args[1] {
	case "can": // whether programs can be run as an ordinary user
		must(os.WriteFile(filepath.Join(scratch, "probe"), []byte("x"), 0))
		defer os.Remove(filepath.Join(scratch, "probe"))
		func() {
			defer func() {
				if r := recover(); r != nil {
					fmt.Println("no", r)
				}
			}()
			if o := execute("/bin/cat", scratch, "", filepath.Join(scratch, "probe")); o.exit == 0 {
				fmt.Println("no", "modes do not matter")
			} else if o := execute(binary, scratch, "", "doctor"); o.exit != 0 {
				fmt.Println("no", o.exit, o.stderr)
			} else {
				fmt.Println("yes")
			}
		}()
	case "pool": // the sources the generator takes
		var keep []string
		seen := map[string]bool{}
		for _, g := range pool.Good {
			if _, err := code(g, "p"); err == nil && !seen[g] {
				keep = append(keep, g)
			}
			seen[g] = true
		}
		pool.Good = keep
		json.NewEncoder(os.Stdout).Encode(pool)
	case "canhold": // whether the steps of a process can be held back
		o := execute("/usr/bin/strace", scratch, "", "-f", "-qq", "-o", "/dev/null", "-P", "/nowhere", "-e", "trace=openat", "-e", "inject=openat:delay_enter=1000", binary, "doctor")
		fmt.Println(map[bool]string{true: "yes", false: "no"}[o.exit == 0])
	case "init":
		sup.Main(replayInit, os.Args[1:]...)
	case "repl":
		sup.Main(replayRepl, os.Args[1:]...)
	case "export":
		sup.Main(replayExport, os.Args[1:]...)
	case "recordrepl":
		sup.Main(recordRepl, os.Args[1:]...)
	case "record":
		sup.Main(recordGenerate, os.Args[1:]...)
	case "generate":
		sup.Main(replayGenerate, os.Args[1:]...)
	default:
		os.Exit(2)
	}
}
