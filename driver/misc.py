"""C14: walks; C21: the runtime checks; C04: isolation."""
import concurrent.futures, json, os, re, subprocess
import cddlgen, gen, lex
from lib import CheckError, tlc_lines

PARSED = "the parser reads the source as C07 and C08 say: trees that differ are skipped here and reported there"


def walk(run):
    T = run.thorough
    h = run.build("walkh")

    def explore(name, leafs, wraps, declines, comments=False, lists=0, simulate=None, mingrow=0):
        def go():
            out = run.tlc("WalkExplore", [f"MaxWrap = {wraps}", f"Leafs <- {leafs}", f"Wrapping = {'FALSE' if lists else 'TRUE'}", f"MaxList = {lists}",
                                          f"MaxDeclines = {declines}", f"Comments = {'TRUE' if comments else 'FALSE'}", f"MinGrow = {mingrow}"],
                          ["Inv_Lawful", "Inv_NoEnd", "EmittedWalk"], spec="WSpec", name=name, workers=3, timeout=820 if T else 300,
                          heap="6g" if T else "3g", simulate=simulate, depth=2000 if simulate else None,
                          exhaustive=None if simulate else f"all walks with up to {declines} nodes declined over all trees of " +
                          (f"lists of up to {lists} members" if lists else f"up to {wraps} constructs around {leafs}") + (", a comment in every gap" if comments else ""))
            f, s = run.harness(h, ["replay"], [out], workers=4)
            run.traces += s["cases"] - s["skipped"]
            run.notes.setdefault("skipped", {})[name] = s["skipped"]
            run.take(f, {"C14"})
            os.remove(out)
        return go

    def recorded():
        srcs = lex.repo_sources() + cddlgen.sources(run.rng, 60000 if T else 12000)
        cases = [{"hex": s.hex(), "declines": run.rng.choice([0, 0, 2, 5, 20])} for s in srcs]
        rec = run.path("rec.jsonl")
        f, s = run.harness(h, ["record"], [run.write_cases("in.jsonl", cases)], records=rec, workers=4)
        run.take(f, {"C14"})
        recs = open(rec).read().split("\n")[:-1]
        run.notes["recorded"] = len(recs)
        out = run.tlc("WalkTrace", [], ["Judged"], name="trace", env={"TRACE": rec}, workers=3, timeout=800)
        run.traces += len(tlc_lines(out, "ACCEPT"))
        for line in tlc_lines(out, "REJECT"):
            p, i, why = line.split(" ", 2)
            run.violation(f"recorded walk rejected {why}: {recs[int(i) - 1][:2000]}", json.loads(recs[int(i) - 1]))

    def large():
        cases = []
        for unit, mid, close in [("(", "", ")"), ("[", "", "]"), ("{", "", "}"), ("~", "$a", ""), ("& ", "$a", ""), ("? ", "int", ""), ("* ", "int", ""),
                                 ("a: ", "int", ""), ("int / ", "int", ""), ("$a // ", "$a", ""), ("#6(", "int", ")"), ("a: [", "", "]"), ("#6.1(", "int", ")")]:
            for n in (300, 9000):
                cases.append({"repeat": [{"s": "r = ", "n": 1}, {"s": unit, "n": n}, {"s": mid, "n": 1}, {"s": close, "n": n}]})
        for unit, o, c in [("int, ", "[", "]"), ("a: int ; c\n", "(", ")"), ("? 1: 2, ", "{", "}"), ("1*2 int ", "[", "]"), ("; c\n", "", ""),
                           ("$a //= int ; x\n", "", ""), ("$a = 1..2\n", "", "")]:
            for n in (300, 20000):
                cases.append({"repeat": [{"s": ("r = " if o else "") + o, "n": 1}, {"s": unit, "n": n}, {"s": c, "n": 1}]})
        f, s = run.harness(h, ["record"], [run.write_cases("large.jsonl", cases)], workers=4)
        run.take(f, {"C14"})

    jobs = [explore("all", "L_All", 2 if T else 1, 1), explore("twice", "L_Few" if T else "L_Tiny", 1, 3 if T else 2), explore("lists", "L_All", 0, 1, lists=2 if T else 1),
            explore("comments", "L_Few" if T else "L_Tiny", 1, 1, comments=True), explore("listcomments", "L_All", 0, 1 if T else 0, comments=True, lists=2 if T else 1),
            explore("long", "L_Few", 14, 1000, comments=True, simulate=2000 if T else 150, mingrow=8),
            explore("longlists", "L_Few", 30, 1000, comments=True, lists=30, simulate=400 if T else 40, mingrow=20), recorded, large]
    run.parallel(jobs, 3)
    return run.finish([PARSED, "exhaustive only over the stated trees and numbers of declined nodes; larger trees are sampled",
                       "what the nodes of a tree are is read from the fields of the syntax tree by harness/internal/tree"],
                      rule="walks printed by TLC replayed into Walk, recorded walks validated; non-trivial: at least four calls; distinct: different sequences of calls")


FIXED = ["", " ", "a", "a = int", "person = ( name: tstr, age: uint, )\n", "a = b", "a = 1..x\nx = 2.5", "a = ( ; c\n b: int ; d\n)", 'x = "open', 'a = "t" ; end',
         "a = [ 1: bytes, 2: ( c: float32 ) ] ; r\n; s", "v = 12\nw = 1.5\nt = true\ns = \"x y\"", "a = tstr .size 4 b = &( c: 1 ) d = ~e e = #6.1(int)",
         "a = int a = bool b = a c = undefined1 d = undefined2 / undefined3", "a = )", "\xff\xfe = !", "n = null m = nil o = [] p = ()", "k = .foo .size ..1", "int = 3"]


WORD = re.compile(rb"[A-Za-z][A-Za-z0-9_-]*")
KEPT = {b"int", b"uint", b"nint", b"float", b"float16", b"float32", b"float64", b"tstr", b"text", b"bytes", b"bstr", b"bool", b"null", b"nil", b"true", b"false", b"any",
        b"size", b"bits", b"regexp", b"lt", b"le", b"gt", b"ge", b"eq", b"ne", b"and", b"within", b"default", b"cbor", b"cborseq"}


def twins(r, s, n):
    """Sources that differ from s in one respect: the case of names, what joins their words, numbers,
    the order of the lines, blanks, a longer end."""
    def names(f):
        return WORD.sub(lambda m: m[0] if m[0] in KEPT else f(m[0]), s)
    ways = [lambda: names(lambda w: w.swapcase()), lambda: names(lambda w: w.upper()), lambda: names(lambda w: w[:1].swapcase() + w[1:]),
            lambda: names(lambda w: w[:-1] + w[-1:].swapcase()), lambda: names(lambda w: w.swapcase() if r.random() < .5 else w),
            lambda: names(lambda w: w.replace(b"-", b"_") if b"-" in w else w[:1] + b"-" + w[1:]), lambda: names(lambda w: w.replace(b"_", b"-")),
            lambda: names(lambda w: w + b"1"), lambda: names(lambda w: w[::-1] if w[-1:].isalpha() else w),
            lambda: re.sub(rb"\d", lambda m: bytes([m[0][0] ^ 1]), s), lambda: b"\n".join(reversed(s.split(b"\n"))),
            lambda: b"\n" + s, lambda: b" " + s, lambda: s + b"\nzz = zz-\n", lambda: s + b" ; " + s.replace(b"\n", b" ")[:40], lambda: s.replace(b" ", b"\t"),
            lambda: re.sub(rb"\b(u?int|tstr|bool)\b", lambda m: {b"int": b"uint", b"uint": b"int", b"tstr": b"bool", b"bool": b"tstr"}[m[0]], s)]
    out = []
    for f in r.sample(ways, min(n, len(ways))):
        t = f()
        if t != s and t not in out:
            out.append(t)
    return out


def isolation(run):
    T = run.thorough
    h = run.build("isoh")
    race = run.build("isoh", race=True)
    r = run.rng
    pool = [s.encode() if s.isascii() and "\xff" not in s else s.encode("latin1") for s in FIXED]
    pool += cddlgen.sources(r, 30 if T else 14) + [s.encode() for s in gen.sources(r, 16 if T else 8)] + lex.repo_sources()[:4]
    pool = [s for s in pool if len(s) < 3000]
    for s in list(pool)[:16]:
        if len(s) > 6:
            pool.append(s[:r.randrange(1, len(s))])
    # sources that are nearly the same: what is remembered of one is easily taken for the other's
    group = {}
    for g, s in enumerate(list(pool)):
        group.setdefault(s, g)
        if r.random() < (.9 if T else .5):
            for t in twins(r, s, 5 if T else 3):
                if t not in group:
                    group[t] = g
                    pool.append(t)
    # through JSON text: only what decodes
    pool = [s for s in dict.fromkeys(pool) if s.isascii() or _utf8(s)]

    def alone(s, kind):
        p = subprocess.run([h, "alone", kind], input=s, capture_output=True, timeout=60)
        if p.returncode:
            raise CheckError(f"alone: {p.stderr[-500:]}")
        return json.loads(p.stdout)
    kinds = ["scanner", "parser", "sharing", "generator"]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda sk: alone(*sk), [(s, k) for s in pool for k in kinds]))
    ref = run.path("ref.json")
    with open(ref, "w") as f:
        json.dump({"sources": [s.decode() for s in pool], "groups": [group[s] for s in pool],
                   "alone": [dict(zip(kinds, res[i * 4:i * 4 + 4])) for i in range(len(pool))]}, f)
    run.notes["sources"] = len(pool)
    # repeating a run gives the same result
    for i in range(0, len(res), 3):
        if alone(pool[i // 4], kinds[i % 4]) != res[i]:
            run.violation(f"two runs of a {kinds[i % 4]} alone on {pool[i // 4]!r} differ")

    def schedules(name, ks, n, layouts, simulate=None):
        def go():
            out = run.tlc("Isolation", ["Kinds = {%s}" % ", ".join(f'"{k}"' for k in ks), f"Instances = {n}", "Layouts = {%s}" % ", ".join(f'"{l}"' for l in layouts)],
                          ["Inv_Memory", "Inv_Alone", "Emitted"], name=name, workers=3, simulate=simulate, depth=60, timeout=820, heap="6g" if T else "3g",
                          exhaustive=None if simulate else f"all interleavings of {n} of {ks} with sources {layouts}")
            f, s = run.harness(h, ["replay"], [out], workers=4, env={"ISO_REF": ref, "VERIF_SEED": str(run.seed)})
            run.traces += s["cases"]
            run.take(f, {"C04"})
            os.remove(out)
        return go

    def stress(rounds, width, times):
        def go():
            n = 0
            for k in range(times):
                p = subprocess.run([race, "stress", str(rounds), str(width), str(run.seed * 1000 + k)], capture_output=True, text=True, timeout=800,
                                   env=dict(os.environ, ISO_REF=ref, GORACE="halt_on_error=0 exitcode=66"))
                if "DATA RACE" in p.stderr:
                    run.violation("data race between instances:\n" + p.stderr[:2500], {"stderr": p.stderr[:6000]})
                    return
                if p.returncode:
                    run.violation(f"instances at the same time: exit {p.returncode}: {p.stderr[:2500]}")
                    return
                d = json.loads(p.stdout)
                n += d["runs"]
                for f in d["findings"]:
                    run.violation(f, {"finding": f})
            run.notes["concurrent_runs"] = run.notes.get("concurrent_runs", 0) + n
            run.cases += n
        return go
    every = ["apart", "adjacent", "same", "inside"]
    jobs = [schedules("two", kinds, 2, every), schedules("three", ["parser", "generator"], 3, ["adjacent", "same"]) if T else
            schedules("three", ["parser"], 3, ["adjacent", "same"]), schedules("mixed", kinds, 3, every, simulate=20000 if T else 3000),
            stress(400 if T else 60, 16, 4 if T else 2), stress(2, 24, 60 if T else 12)]
    run.parallel(jobs, 3)
    return run.finish(["a result alone is what a process of its own returns for the source", "operations are interleaved whole; within operations the race detector watches "
                       "the schedules that happen to run", "sources are sampled"],
                      rule="interleavings printed by TLC replayed on sources in shared memory, and simultaneous runs under the race detector; distinct: kinds, layout and sources")


def _utf8(s):
    try:
        s.decode()
        return True
    except UnicodeDecodeError:
        return False


def intervals(run):
    h = run.build("rangeh")
    out = run.tlc("Intervals", [], ["Inv_Interval", "Inv_NaN", "Inv_Empty", "Emitted"], workers=1, exhaustive="all orders of a value and two limits, with and without NaN")
    rows = len(tlc_lines(out, "CASE "))
    with open(out) as f:
        p = subprocess.run([h], stdin=f, capture_output=True, text=True, timeout=800,
                           env=dict(os.environ, VERIF_SEED=str(run.seed), RANGE_N="2000000" if run.thorough else "60000"))
    if p.returncode:
        run.violation(f"the runtime checks fail: {p.stderr[-2000:]}")
    else:
        d = json.loads(p.stdout)
        if d["rows"] != rows or rows == 0:
            raise CheckError("the table was not read")
        run.cases, run.distinct, run.traces = d["cases"], d["distinct"], rows
        run.samples = [json.loads(l) for l in tlc_lines(out, "CASE ")[:3]]
        for f in d["findings"] or []:
            run.violation(f, {"finding": f})
    return run.finish(["the answers depend only on the order of the arguments, which is what the table ranges over",
                       "all triples of the 8 bit types; edge and random values of the others"],
                      rule="evaluations of the four checks on values of 16 types; distinct: type, check and order of the arguments")


def printed(run):
    """C24: the printed form of trees."""
    T = run.thorough
    h = run.build("printh")

    def explore(name, leafs, wraps, lists=0, pumped=0):
        def go():
            out = run.tlc("PrintExplore", [f"MaxWrap = {wraps}", f"Leafs <- {leafs}", f"Wrapping = {'FALSE' if lists else 'TRUE'}", f"MaxList = {lists}"],
                          ["Inv_Told", "Inv_Ends", "Inv_Placed", "EmittedPrint"], spec="PSpec", name=name, workers=3, timeout=820 if T else 300, heap="6g" if T else "3g",
                          exhaustive="the printed forms of all trees of " + (f"lists of up to {lists} members" if lists else f"up to {wraps} constructs around {leafs}"))
            f, s = run.harness(h, ["replay"], [out], workers=4)
            run.traces += s["cases"] - s["skipped"]
            run.notes.setdefault("skipped", {})[name] = s["skipped"]
            run.take(f, {"C24"})
            os.remove(out)
        return go

    def recorded():
        srcs = lex.repo_sources() + cddlgen.sources(run.rng, 40000 if T else 4000) + cddlgen.good(run.rng, 20000 if T else 2000)
        cases = [{"hex": s.hex()} for s in srcs]
        for a, mid, b in [("int / ", "1", ""), ("1 / ", "( a: int )", ""), ("$a // ", "2.5", ""), ("& ", "( a: int )", ""), ("& ", "$a", ""), ("", "1", " / x"), ("& ( a: int ) / ", "7", ""), ("( a: int ) // ", "[ 1 ]", ""),
                          ("(", "", ")"), ("[", "", "]"), ("~ ", "$a", "")]:
            for n in [1, 2, 3, 10, 60, 99, 100, 101, 102, 300, 2500] + ([9000] if T else []):
                cases.append({"repeat": [{"s": "x = ", "n": 1}, {"s": a, "n": n}, {"s": mid, "n": 1}, {"s": b, "n": n}]})
        for n in (1, 100, 30000):
            cases.append({"repeat": [{"s": "x = (", "n": 1}, {"s": "a: int,", "n": n}, {"s": ")", "n": 1}]})
        rec = run.path("rec.jsonl")
        f, s = run.harness(h, ["record"], [run.write_cases("in.jsonl", cases)], records=rec, workers=4)
        run.take(f, {"C24"})
        recs = [json.dumps(d) for l in open(rec).read().split("\n")[:-1] for d in json.loads(l)]
        with open(rec, "w") as o:
            o.write("".join(r + "\n" for r in recs))
        run.notes["recorded"] = len(recs)
        out = run.tlc("PrintTrace", [], ["Judged"], name="trace", env={"TRACE": rec}, workers=3, timeout=800, heap="4g")
        ok, bad = tlc_lines(out, "ACCEPT"), tlc_lines(out, "REJECT")
        run.traces += len(ok)
        if len(set(ok)) + len({b.split()[1] for b in bad}) != len(recs):
            raise CheckError("not every recorded printed form was judged")
        for line in bad:
            _, i, why = line.split(" ", 2)
            run.violation(f"printed form rejected: {why}: {recs[int(i) - 1][:2000]}", json.loads(recs[int(i) - 1]))

    run.parallel([explore("all", "L_All", 2 if T else 1), explore("few", "L_Few", 3 if T else 2), explore("values", "L_Values", 0), explore("lists", "L_All", 0, lists=3 if T else 2), recorded], 3)
    return run.finish([PARSED, "the wording between the facts of a printed form is not judged, the words for the kinds of nodes are"],
                      rule="printed forms of the trees of the specification and of recorded sources; non-trivial: at least two facts; distinct: different printed forms")


def symbols(run):
    """C25: symbol tables."""
    T = run.thorough
    h = run.build("symh")

    def explore(name, tables, names, values, ops):
        def go():
            out = run.tlc("SymbolExplore", [f"Tables = {tables}", f"Names = {names}", f"Values = {values}", f"MaxOps = {ops}"], ["Inv_First", "Inv_Once", "Emitted"], props=["Kept"],
                          name=name, workers=3, timeout=820 if T else 300, heap="6g" if T else "3g",
                          exhaustive=f"all histories of {ops} additions of {names} names and {values} nodes to {tables} tables, everything looked up after each")
            f, s = run.harness(h, ["replay"], [out], workers=4)
            run.traces += s["cases"]
            run.take(f, {"C25"})
            os.remove(out)
        return go

    def recorded():
        r = run.rng
        cases = [{"seed": r.getrandbits(60), "tables": r.choice([1, 1, 2, 3]), "ops": r.choice([5, 20, 60, 60, 300]), "pool": r.choice([1, 3, 10, 40, 200])} for _ in range(4000 if T else 400)]
        cases += [{"seed": n, "large": n} for n in (100, 5000, 70000, *([2000000] if T else [300000]))]
        rec = run.path("rec.jsonl")
        f, s = run.harness(h, ["record"], [run.write_cases("in.jsonl", cases)], records=rec, workers=4)
        run.take(f, {"C25"})
        recs = open(rec).read().split("\n")[:-1]
        out = run.tlc("SymbolTrace", [], ["Judged"], name="trace", env={"TRACE": rec}, workers=3, timeout=800)
        ok, bad = tlc_lines(out, "ACCEPT"), tlc_lines(out, "REJECT")
        run.traces += len(ok)
        if len(ok) + len(bad) != len(recs):
            raise CheckError("not every recorded history was judged")
        for line in bad:
            i, why = line.split(" ", 1)
            run.violation(f"recorded history rejected: {why}: {recs[int(i) - 1][:2000]}", json.loads(recs[int(i) - 1]))
    run.parallel([explore("two", 2, 3, 2, 5 if T else 4), explore("one", 1, 3, 3, 5), explore("names", 1, 3, 1, 7), recorded], 3)
    return run.finish(["a node added is not changed afterwards; tables are used by one goroutine at a time"],
                      rule="histories printed by TLC, replayed with names that are easily confused, and recorded ones; non-trivial: at least two operations; distinct: different histories")


CHECKS = {"C25": (symbols, "model_checking"), "C24": (printed, "model_checking"), "C14": (walk, "model_checking"), "C04": (isolation, "model_checking"), "C21": (intervals, "model_checking")}
