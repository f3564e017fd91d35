// symh replays histories of symbol tables, or makes random ones and records the answers.
package main

import (
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"reflect"
	"strings"

	"github.com/HannesKimara/cddlc/ast"
	env "github.com/HannesKimara/cddlc/environment"

	"verif/harness/internal/sup"
)

// names that are easily taken for one another
var alike = [][]string{
	{"a", "b", "c"}, {"a", "A", "á"}, {"x-y", "x_y", "x.y"}, {"$s", "$$s", "s"}, {"", " ", "\x00"}, {"int", "tstr", "undefined"}, {"name", "name ", " name"},
	{"\u00e9", "e\u0301", "e"}, {strings.Repeat("n", 300) + "1", strings.Repeat("n", 300) + "2", strings.Repeat("n", 300)}, {"1", "01", "0x1"}, {"K", "\u212a", "k"},
	{"\xff", "\xfe", "\ufffd"}, {"a\n", "a\r\n", "a"}, {"%d", "%s", "%%"}, {"self", "rule", "nil"},
}

type tables struct {
	envs  []*env.Environment
	nodes []ast.Node // by number
}

func setup(tabs, values int, pick int) tables {
	t := tables{nodes: []ast.Node{nil}}
	for i := 0; i < tabs; i++ {
		t.envs = append(t.envs, env.NewEnvironment())
	}
	for i := 0; i < values; i++ {
		t.nodes = append(t.nodes, []ast.Node{&ast.Identifier{Name: fmt.Sprint(i)}, &ast.Group{}, &ast.IntegerLiteral{Literal: 7}, &ast.Map{}, &ast.TextLiteral{Literal: "t"}, &ast.Array{},
			&ast.TypeChoice{}, &ast.Rule{}}[(i+pick)%8])
	}
	return t
}

// number of the node found, 0 for none.
func (t tables) number(n ast.Node) int {
	if n == nil || reflect.ValueOf(n).IsNil() {
		return 0
	}
	for i, m := range t.nodes {
		if m == n {
			return i
		}
	}
	return -1
}

func (t tables) add(tab int, x string, v int) string {
	switch err := t.envs[tab-1].Add(x, t.nodes[v]); {
	case err == nil:
		return "ok"
	case errors.Is(err, env.ErrSymbolExists):
		return "exists"
	default:
		return err.Error()
	}
}

func yes(b bool) string {
	if b {
		return "yes"
	}
	return "no"
}

type symCase struct {
	Tables int `json:"tables"`
	Ops    []struct {
		T, X, V int
		R       string
		See     [][][2]int
	} `json:"ops"`
}

func replay(raw json.RawMessage) (out sup.Outcome) {
	var c symCase
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	h := fnv.New32a()
	h.Write(raw)
	pick := int(h.Sum32())
	names := alike[pick%len(alike)]
	t := setup(c.Tables, 8, pick/64%8)
	report := func(f string, a ...any) {
		if len(out.Findings) == 0 {
			out.Findings = append(out.Findings, sup.Finding{Prop: "C25", Detail: fmt.Sprintf("names %q: ", names) + fmt.Sprintf(f, a...) + "\n" + string(raw)})
		}
	}
	for i, op := range c.Ops {
		if r := t.add(op.T, names[op.X-1], op.V); r != op.R {
			report("operation %d: adding answers %s", i+1, r)
		}
		for u := range op.See {
			for y, want := range op.See[u] {
				// looking in either order
				look := func() {
					if got := t.number(t.envs[u].Get(names[y])); got != want[1] {
						report("after operation %d: name %d of table %d is node %d, expected %d", i+1, y+1, u+1, got, want[1])
					}
				}
				if pick&1 == 0 {
					look()
				}
				if t.envs[u].Exists(names[y]) != (want[0] != 0) {
					report("after operation %d: whether name %d of table %d exists", i+1, y+1, u+1)
				}
				if pick&1 != 0 {
					look()
				}
			}
		}
	}
	out.Key = string(raw)
	out.Trivial = len(c.Ops) < 2
	return out
}

type given struct {
	Seed   int64 `json:"seed"`
	Tables int   `json:"tables"`
	Ops    int   `json:"ops"`
	Pool   int   `json:"pool"`
	Large  int   `json:"large"`
}

func name(r *rand.Rand) string {
	var b []byte
	for n := r.Intn(6); n >= 0; n-- {
		if r.Intn(3) == 0 {
			b = append(b, byte(r.Intn(256)))
		} else {
			b = append(b, "abAB-_.@$019 "[r.Intn(13)])
		}
	}
	return string(b)
}

func record(raw json.RawMessage) (out sup.Outcome) {
	var g given
	if err := json.Unmarshal(raw, &g); err != nil {
		panic(err)
	}
	r := rand.New(rand.NewSource(g.Seed))
	if g.Large > 0 {
		return large(g.Large, r)
	}
	t := setup(g.Tables, 8, int(uint32(g.Seed)%8))
	var pool []string
	for i := 0; i < g.Pool; i++ {
		if r.Intn(4) == 0 {
			pool = append(pool, alike[r.Intn(len(alike))]...)
		}
		pool = append(pool, name(r))
	}
	ops := []any{}
	for i := 0; i < g.Ops; i++ {
		tab, x, v := r.Intn(g.Tables)+1, pool[r.Intn(len(pool))], r.Intn(9)
		op := map[string]any{"t": tab, "x": hex.EncodeToString([]byte(x)), "v": v, "r": ""}
		switch r.Intn(5) {
		case 0, 1:
			op["op"], op["r"] = "add", t.add(tab, x, v)
		case 2, 3:
			op["op"], op["v"] = "get", t.number(t.envs[tab-1].Get(x))
		default:
			op["op"], op["r"] = "exists", yes(t.envs[tab-1].Exists(x))
		}
		ops = append(ops, op)
	}
	out.Record = map[string]any{"tables": g.Tables, "ops": ops}
	out.Key = fmt.Sprint(g)
	return out
}

// large fills two tables with different names: every answer is known from the number of the name.
func large(n int, r *rand.Rand) (out sup.Outcome) {
	t := setup(2, 8, 0)
	x := func(i int) string { return fmt.Sprintf("%s%d", []string{"n", "name-", "$", "N"}[i%4], i) }
	report := func(f string, a ...any) {
		if len(out.Findings) == 0 {
			out.Findings = append(out.Findings, sup.Finding{Prop: "C25", Detail: fmt.Sprintf("%d names: ", n) + fmt.Sprintf(f, a...)})
		}
	}
	for i := 0; i < n; i++ {
		if got := t.add(i%2+1, x(i), i%8+1); got != "ok" {
			report("adding %q answers %s", x(i), got)
		}
		j := r.Intn(i + 1)
		if t.number(t.envs[j%2].Get(x(j))) != j%8+1 || t.envs[1-j%2].Exists(x(j)) || t.add(j%2+1, x(j), 8) != "exists" {
			report("after %d additions %q is not what it was", i, x(j))
		}
	}
	for i := 0; i < n; i++ {
		if !t.envs[i%2].Exists(x(i)) || t.number(t.envs[i%2].Get(x(i))) != i%8+1 || t.envs[1-i%2].Get(x(i)) != nil {
			report("in the end %q is not what it was", x(i))
		}
	}
	out.Key = fmt.Sprint("large ", n)
	return out
}

func main() {
	if len(os.Args) < 2 {
		os.Exit(2)
	}
	switch os.Args[1] {
	case "replay":
		sup.Main(replay, "replay")
	case "record":
		sup.Main(record, "record")
	default:
		os.Exit(2)
	}
}
