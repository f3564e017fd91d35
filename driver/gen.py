"""C15: the code generator against CddlGen."""
import json, os
from lib import tlc_lines

ASSUME = ["the parser reads the source as C07 and C08 say", "go/parser and go/types decide what valid, type-correct Go is",
          "exhaustive only up to the stated number of rules, members and nesting; larger sources are sampled",
          "spec/CddlGen.tla states the mapping the property describes"]

TYPES = ["text", "tstr", "bool", "uint", "int", "nint", "bytes", "bstr", "float", "float16", "float32", "float64", "null", "nil"]
LITS = ["0", "42", "0x1f", "0b11", "0o17", "017", "9223372036854775807", "1.5", "0.0", "123456789012345678901234567890.25", "0.1", "true", "false",
        '""', '"x y"', '"a\\b"', '"100%"', '"é;"', '"`"']
CHARS = "abcXYZ019-_.@"


def name(r):
    k = r.randrange(4)
    if k == 0:
        return r.choice(["person", "my-name", "a.b.c", "snake_case_name", "camelName", "URLpath", "x1y2", "v2-beta", "type", "range", "string", "map9", "func"])
    return r.choice("abcdefgXYZ@_") + "".join(r.choice(CHARS) for _ in range(r.randrange(0, 9) if r.random() < .97 else r.randrange(9, 200)))


def literal(r):
    k = r.randrange(6)
    n = r.getrandbits(r.choice([1, 4, 8, 16, 31, 32, 33, 53, 54, 62, 63]))
    if k < 2:
        return [str(n), hex(n), oct(n), bin(n)][r.randrange(4)]
    if k == 2:
        return f"{n}." + "".join(r.choice("0123456789") for _ in range(r.choice([1, 2, 3, 8, 17, 22])))
    if k == 3:
        return '"' + "".join(r.choice("abc \t.%{}$;:'`<>/\\éß☃0") for _ in range(r.choice([0, 1, 3, 8, 90]))) + '"'
    return r.choice(LITS)


def typ(r, names, d, wide=5):
    k = r.randrange(6 if d > 0 else 3)
    if k <= 1 or (k == 2 and not names):
        return r.choice(TYPES)
    if k == 2:
        return r.choice(names)
    o, c = r.choice(["()", "[]"])
    sep = r.choice([", ", ",\n ", " "])
    ms = [f"{r.choice([name(r), name(r), str(r.randrange(40)), str(r.getrandbits(r.choice([8, 16, 32, 60])))] if r.random() < .2 else [name(r)])}{r.choice([': ', ' : ', ':'])}{typ(r, names, d - 1, min(wide, 5))}" for _ in range(r.randrange(0, wide))]
    if d > 3:  # narrow, deep
        ms = ms[:1] + [f"{name(r)}: {typ(r, names, d - 1)}"]
    return o + sep.join(ms) + c


def sources(r, n):
    out = []
    for _ in range(n):
        rules, names = [], []
        for _ in range(r.randrange(1, 7) if r.random() < .97 else r.randrange(7, 45)):
            x = name(r)
            if r.random() < .25:
                v = literal(r)
                rules.append(f"{x} = {v}")
            else:
                rules.append(f"{x} {r.choice(['=', '=', '=', '/=', '//='])} {typ(r, names, r.randrange(0, 4) if r.random() < .98 else r.randrange(5, 14), 5 if r.random() < .95 else 50)}")
                names.append(x)
            if r.random() < .2:
                rules[-1] += " ; remark"
        r.shuffle(rules)
        if r.random() < .2:
            rules.insert(0, "; about this")
        out.append("\n".join(rules))
    return out


def check(run):
    T = run.thorough
    h = run.build("genh")

    def explore(name, mode, rules, grow, leafs, n=0):
        def go():
            out = run.tlc("GenExplore", [f'Mode = "{mode}"', f"MaxRules = {rules}", f"MaxGrow = {grow}", f"Leafs <- {leafs}", "NameChars <- NC_All",
                                         f"MaxName = {n}"], ["Inv_Camel" if mode == "names" else "Inv_Decls", "Emitted"], name=name, workers=3,
                          timeout=820 if T else 300, heap="6g" if T else "3g",
                          exhaustive=f"all names of up to {n} characters over NC_All" if mode == "names" else
                          f"all sources of up to {rules} rules over {leafs} with up to {grow} members or nestings added")
            f, s = run.harness(h, ["replay"], [out], workers=4)
            run.traces += s["cases"]
            run.take(f, {"C15"})
            os.remove(out)
        return go

    def recorded():
        cases = run.write_cases("in.jsonl", [{"hex": s.encode().hex()} for s in sources(run.rng, 20000 if T else 2500)])
        rec = run.path("rec.jsonl")
        f, s = run.harness(h, ["record"], [cases], records=rec, workers=4)
        run.take(f, {"C15"})
        recs = open(rec).read().split("\n")[:-1]
        out = run.tlc("GenTrace", [], ["Judged"], name="trace", env={"TRACE": rec}, workers=1, timeout=800)
        run.traces += len(tlc_lines(out, "ACCEPT"))
        run.notes["recorded"] = {"judged": len(tlc_lines(out, "ACCEPT")) + len(tlc_lines(out, "REJECT")), "outside": len(tlc_lines(out, "OUTSIDE"))}
        for line in tlc_lines(out, "REJECT"):
            p, i, why = line.split(" ", 2)
            run.violation(f"recorded generation rejected: {why}: {recs[int(i) - 1][:2000]}", json.loads(recs[int(i) - 1]))

    run.parallel([explore("all", "rules", 2, 2 if T else 1, "G_All"), explore("few", "rules", 4 if T else 3, 3, "G_Few" if T else "G_Tiny"),
                  explore("deep", "rules", 2 if T else 1, 7 if T else 6, "G_Tiny"), explore("names", "names", 0, 0, "G_Tiny", 5 if T else 4), recorded], 3)
    return run.finish(ASSUME, rule="sources printed by TLC with the declarations specified, in several layouts and packages, and recorded generations of "
                      "random sources; non-trivial: at least one rule; distinct: different declaration lists")


CHECKS = {"C15": (check, "model_checking")}
