// rangeh evaluates the runtime checks of intervals and limits on values of every integer and float
// type and compares them with the table of the specification.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"os"
	"strconv"
	"strings"

	"github.com/HannesKimara/cddlc/runtime/validators"
)

type row struct {
	Check     string `json:"check"`
	V, Lo, Hi int
	Ok        bool
}

type key struct {
	check     string
	v, lo, hi int
}

var (
	table    = map[key]bool{}
	cases    int
	nontriv  = map[string]bool{}
	findings []string
)

type myInt int64
type myFloat float32
type myByte uint8

// exact is the value of a number, nil for no number.
func exact[T validators.NumericOrdered](x T) *big.Float {
	switch v := any(x).(type) {
	case int64:
		return new(big.Float).SetPrec(2000).SetInt64(v)
	case uint64:
		return new(big.Float).SetPrec(2000).SetUint64(v)
	case float64:
		if math.IsNaN(v) {
			return nil
		}
		return new(big.Float).SetPrec(2000).SetFloat64(v)
	}
	// through fmt, whatever the name of the type
	s := fmt.Sprintf("%v", x)
	switch {
	case s == "NaN":
		return nil
	case strings.HasSuffix(s, "Inf"):
		return new(big.Float).SetInf(s[0] == '-')
	}
	if f, ok := any(x).(float32); ok {
		return exact(float64(f))
	}
	if f, ok := any(x).(myFloat); ok {
		return exact(float64(f))
	}
	b, _, err := big.ParseFloat(s, 10, 2000, big.ToNearestEven)
	if err != nil {
		panic(err)
	}
	return b
}

// ranks places three numbers among each other.
func ranks(x [3]*big.Float) (r [3]int) {
	for i := range x {
		if x[i] == nil {
			continue
		}
		less := map[string]bool{}
		for j := range x {
			if x[j] != nil && x[j].Cmp(x[i]) < 0 {
				less[x[j].Text('p', 0)] = true
			}
		}
		r[i] = 1 + len(less)
	}
	return r
}

func one[T validators.NumericOrdered](name string, v, lo, hi T, ev, elo, ehi *big.Float) {
	r := ranks([3]*big.Float{ev, elo, ehi})
	for check, got := range map[string]bool{
		"inclusive": validators.InInclusiveRange(v, lo, hi), "exclusive": validators.InExclusiveRange(v, lo, hi),
		"less": validators.IsLessThan(v, hi), "greater": validators.IsGreaterThan(v, lo),
	} {
		want, ok := table[key{check, r[0], r[1], r[2]}]
		if !ok {
			panic(fmt.Sprint("no row for ", check, r))
		}
		cases++
		nontriv[fmt.Sprint(name, check, r)] = true
		if got != want && len(findings) < 20 {
			findings = append(findings, fmt.Sprintf("%s of %s %v with limits %v and %v is %v, want %v", check, name, v, lo, hi, got, want))
		}
	}
}

func some[T validators.NumericOrdered](name string, r *rand.Rand, n int, vals []T) {
	ex := make([]*big.Float, len(vals))
	for i, v := range vals {
		ex[i] = exact(v)
	}
	do := func(i, j, k int) { one(name, vals[i], vals[j], vals[k], ex[i], ex[j], ex[k]) }
	if len(vals)*len(vals)*len(vals) <= n {
		for i := range vals {
			for j := range vals {
				for k := range vals {
					do(i, j, k)
				}
			}
		}
		return
	}
	for ; n > 0; n-- {
		i, j, k := r.Intn(len(vals)), r.Intn(len(vals)), r.Intn(len(vals))
		switch r.Intn(4) { // neighbours and equals are the interesting ones
		case 0:
			j = i
		case 1:
			k = i
		case 2:
			j, k = max(0, i-1), min(len(vals)-1, i+1)
		}
		do(i, j, k)
	}
}

// bytes8 runs all triples of an 8 bit type against the order of int.
func bytes8[T validators.NumericOrdered](name string, from int, conv func(int) T) {
	rank := func(a, b, c int) (r int) {
		r = 1
		if b < a {
			r++
		}
		if c < a && c != b {
			r++
		}
		return r
	}
	names := [4]string{"inclusive", "exclusive", "less", "greater"}
	var flat [4][4][4][4]bool
	for k, ok := range table {
		for n := range names {
			if names[n] == k.check {
				flat[n][k.v][k.lo][k.hi] = ok
			}
		}
	}
	for v := from; v < from+256; v++ {
		for lo := from; lo < from+256; lo++ {
			for hi := from; hi < from+256; hi++ {
				rv, rl, rh := rank(v, lo, hi), rank(lo, v, hi), rank(hi, v, lo)
				a, b, c := conv(v), conv(lo), conv(hi)
				got := [4]bool{validators.InInclusiveRange(a, b, c), validators.InExclusiveRange(a, b, c), validators.IsLessThan(a, c), validators.IsGreaterThan(a, b)}
				for n := range names {
					if got[n] != flat[n][rv][rl][rh] && len(findings) < 20 {
						findings = append(findings, fmt.Sprintf("%s of %s %v with limits %v and %v is %v", names[n], name, a, b, c, got[n]))
					}
				}
			}
		}
	}
	cases += 4 << 24
}

func ints[T validators.NumericOrdered](name string, bits int, signed bool, r *rand.Rand, n int) {
	set := map[string]T{}
	add := func(b *big.Int) {
		lo, hi := big.NewInt(0), new(big.Int).Lsh(big.NewInt(1), uint(bits))
		if signed {
			hi.Rsh(hi, 1)
			lo.Neg(hi)
		}
		if b.Cmp(lo) < 0 || b.Cmp(hi) >= 0 {
			return
		}
		var x T
		if signed {
			x = T(b.Int64())
		} else {
			x = T(b.Uint64())
		}
		set[b.String()] = x
	}
	for k := 0; k <= bits; k++ {
		p := new(big.Int).Lsh(big.NewInt(1), uint(k))
		for d := int64(-2); d <= 2; d++ {
			q := new(big.Int).Add(p, big.NewInt(d))
			add(q)
			add(new(big.Int).Neg(q))
		}
	}
	for i := 0; i < 30; i++ {
		q := new(big.Int).Rand(r, new(big.Int).Lsh(big.NewInt(1), uint(bits)))
		add(q)
		add(q.Neg(q))
	}
	var vals []T
	var keys []string
	for k := range set {
		keys = append(keys, k)
	}
	// in order, so that neighbours are neighbours
	big_ := func(s string) *big.Int { b, _ := new(big.Int).SetString(s, 10); return b }
	for i := range keys {
		for j := i; j > 0 && big_(keys[j]).Cmp(big_(keys[j-1])) < 0; j-- {
			keys[j], keys[j-1] = keys[j-1], keys[j]
		}
	}
	for _, k := range keys {
		vals = append(vals, set[k])
	}
	some(name, r, n, vals)
}

func floats[T validators.NumericOrdered](name string, bits int, r *rand.Rand, n int) {
	base := []float64{math.Inf(-1), -math.MaxFloat64, -math.MaxFloat32, -1e10, -16777217, -16777216, -2, -1.5, -1, -0.5, -0.1, -math.SmallestNonzeroFloat32,
		-math.SmallestNonzeroFloat64, math.Copysign(0, -1), 0, math.SmallestNonzeroFloat64, math.SmallestNonzeroFloat32, 1e-300, 1e-40, 0.1, 0.5, 1, 1.5, 2, 3,
		16777216, 16777217, 4294967296, 9007199254740991, 9007199254740992, 9007199254740994, 1e10, math.MaxFloat32, math.MaxFloat64, math.Inf(1), math.NaN(),
		math.Float64frombits(0xfff8000000000001)}
	var vals []T
	for _, b := range base {
		for _, x := range []float64{math.Nextafter(b, math.Inf(-1)), b, math.Nextafter(b, math.Inf(1))} {
			if bits == 32 {
				f := float32(b)
				for _, y := range []float32{math.Nextafter32(f, float32(math.Inf(-1))), f, math.Nextafter32(f, float32(math.Inf(1)))} {
					vals = append(vals, T(y))
				}
				break
			}
			vals = append(vals, T(x))
		}
	}
	for i := 0; i < 20; i++ {
		vals = append(vals, T(r.NormFloat64()*math.Pow(10, float64(r.Intn(30)-15))))
	}
	some(name, r, n, vals)
}

func main() {
	n, seed := 20000, int64(1)
	if s := os.Getenv("RANGE_N"); s != "" {
		n, _ = strconv.Atoi(s)
	}
	if s := os.Getenv("VERIF_SEED"); s != "" {
		seed, _ = strconv.ParseInt(s, 10, 64)
	}
	in := bufio.NewScanner(os.Stdin)
	for in.Scan() {
		l := in.Text()
		if !strings.HasPrefix(l, `"CASE `) {
			continue
		}
		s, err := strconv.Unquote(l)
		if err != nil {
			panic(err)
		}
		var r row
		if err := json.Unmarshal([]byte(s[5:]), &r); err != nil {
			panic(err)
		}
		table[key{r.Check, r.V, r.Lo, r.Hi}] = r.Ok
	}
	r := rand.New(rand.NewSource(seed))
	bytes8("int8", -128, func(i int) int8 { return int8(i) })
	bytes8("uint8", 0, func(i int) uint8 { return uint8(i) })
	ints[int]("int", 64, true, r, n)
	ints[int16]("int16", 16, true, r, n)
	ints[int32]("int32", 32, true, r, n)
	ints[int64]("int64", 64, true, r, n)
	ints[uint]("uint", 64, false, r, n)
	ints[uint16]("uint16", 16, false, r, n)
	ints[uint32]("uint32", 32, false, r, n)
	ints[uint64]("uint64", 64, false, r, n)
	ints[uintptr]("uintptr", 64, false, r, n)
	ints[myInt]("a named int64", 64, true, r, n)
	ints[myByte]("a named uint8", 8, false, r, n)
	floats[float32]("float32", 32, r, n)
	floats[float64]("float64", 64, r, n)
	floats[myFloat]("a named float32", 32, r, n)
	json.NewEncoder(os.Stdout).Encode(map[string]any{"cases": cases, "distinct": len(nontriv), "rows": len(table), "findings": findings})
}
