"""C05-C13, C22: the parser against CddlParse and CddlGrammar."""
import json, os, re, subprocess
import cddlgen, lex
from lib import CheckError, tlc_lines

ASSUME = ["the scanner tokenises as CddlLex says (C01-C03 check that)",
          "exhaustive only over the stated alphabets, lengths and nesting; other sources are sampled",
          "spec/CddlParse.tla and spec/CddlGrammar.tla state the parser's language, the README's list of supported constructs taken "
          "as the definition of well-formed"]

INV_EXPLORE = ["Inv_Ends", "Inv_Complete", "Inv_Faults", "Inv_Places", "Inv_Recovers"]
INV_NAMES = ["Inv_Undefined", "Inv_Order", "Inv_Spelling", "Inv_FirstWins", "Inv_Ranges", "Inv_Prefix", "Inv_Resumes", "Inv_EveryFault", "Emitted"]


class Parse:
    def __init__(self, run):
        self.run, self.T = run, run.thorough
        self.h = run.build("parseh")
        self.props = {run.prop}

    def replay(self, out, workers=4, spellings=0):
        f, s = self.run.harness(self.h, ["replay"], [out], workers=workers, env={"SPELLINGS": str(spellings)})
        self.run.traces += s["cases"]
        self.run.take(f, self.props)
        os.remove(out)

    def explore(self, name, alphabet, maxlen, depth, starts="S_Empty", valid=False, inv=(), all_sequences=False, workers=3):
        """One case per transition of the parser machine, or every sequence."""
        def go():
            run = self.run
            out = run.tlc("ParseExplore", [f"Alphabet <- {alphabet}", f"MaxLen = {maxlen}", f"MaxDepth = {depth}", f"Starts <- {starts}",
                                           f"Valid = {'TRUE' if valid else 'FALSE'}"], list(inv),
                          spec="SpecEmit", view=None if all_sequences else "Control", name=name, workers=workers, heap="6g" if self.T else "3g",
                          timeout=820 if self.T else 300,
                          exhaustive=(f"every sequence of up to {maxlen} tokens" if all_sequences else f"every transition of the parser machine up to {maxlen} "
                                      f"tokens and {depth} waiting operators") + f" over {alphabet} after {starts}" + (", well-formed" if valid else ""))
            self.replay(out)
        return go

    def simulate(self, name, alphabet, length, num, depth=6, valid=True):
        """Long random behaviours of the parser machine."""
        def go():
            run = self.run
            out = run.tlc("ParseExplore", [f"Alphabet <- {alphabet}", f"MaxLen = {length}", f"MaxDepth = {depth}", "Starts <- S_Empty",
                                           f"Valid = {'TRUE' if valid else 'FALSE'}"], ["EmittedLong"],
                          name=name, workers=2, simulate=num, depth=length + 1, timeout=800)
            self.replay(out)
        return go

    def grammar(self, name, leafs, wraps, comments=False, lists=0, inv=True, workers=3):
        """Every tree of the grammar up to a number of wrappings, or every list of members."""
        def go():
            run = self.run
            out = run.tlc("CddlGrammar", [f"MaxWrap = {lists or wraps}", f"Leafs <- {leafs}", f"Wrapping = {'FALSE' if lists else 'TRUE'}",
                                          f"MaxList = {lists}"],
                          (["Inv_RoundTrip"] if inv else []) + ["EmittedComments" if comments else "Emitted"],
                          name=name, workers=workers, heap="6g" if self.T else "3g", timeout=820 if self.T else 300,
                          exhaustive=(f"all lists of up to {lists} members of every form" if lists else f"all trees of up to {wraps} constructs around {leafs}")
                          + (", a comment in every gap" if comments else ""))
            self.replay(out)
        return go

    def deep_grammar(self, name, leafs, wraps, num):
        """Random trees of many constructs."""
        def go():
            out = self.run.tlc("CddlGrammar", [f"MaxWrap = {wraps}", f"Leafs <- {leafs}", "Wrapping = TRUE", "MaxList = 0"], ["EmittedLast"],
                               name=name, workers=2, simulate=num, depth=wraps + 1, timeout=800)
            self.replay(out)
        return go

    def nested(self, name, wraps, deep):
        """Every construct, or construct in a construct, put into itself many times."""
        def go():
            run = self.run
            out = run.tlc("CddlGrammar", [f"MaxWrap = {wraps}", "Leafs <- L_Hole", "Wrapping = TRUE", "MaxList = 0"], ["EmittedPump"],
                          name=name, workers=3, timeout=820, exhaustive=f"every {wraps} constructs that can be put into themselves, nested "
                          + ("up to 9000" if deep else "up to 150") + " times")
            f, s = run.harness(self.h, ["nested"], [out], workers=4, env={"DEEP": "1"} if deep else None)
            run.traces += s["cases"]
            run.take(f, self.props)
            os.remove(out)
        return go

    def names(self, chunks, rules, lines, workers=3):
        """All sessions of a number of rules in a number of sources."""
        def go():
            run = self.run
            out = run.tlc("ParseNames", [f"Chunks <- {chunks}", f"MaxRules = {rules}", f"MaxLines = {lines}"], INV_NAMES,
                          name=f"{chunks}-{rules}-{lines}", workers=workers, timeout=820 if self.T else 300, heap="6g" if self.T else "3g",
                          exhaustive=f"all sessions of up to {rules} rules of {chunks} in up to {lines} sources")
            self.replay(out, spellings=20 if self.T else 5)
        return go

    def pumped(self, mode, module, conf, inv, exhaustive, deep=False):
        """Behaviours that are the same at any length, at great lengths."""
        def go():
            run = self.run
            out = run.tlc(module, conf, inv, name=mode + conf[0].split()[-1], workers=3, timeout=820 if self.T else 300, exhaustive=exhaustive)
            f, s = run.harness(self.h, [mode], [out], workers=4, env={"DEEP": "1"} if deep else None)
            run.traces += s["cases"]
            run.take(f, self.props)
            os.remove(out)
        return go

    def repeated(self, chunks, rules, deep=False):
        return self.pumped("repeated", "ParseRepeat", [f"Chunks <- {chunks}", f"MaxRules = {rules}", "MaxLines = 1"], ["Inv_Periodic", "Inv_Last", "REmitted"],
                           f"every {rules} rules of {chunks}, " + ("12000" if deep else "1500") + " times", deep)

    def wide(self, members, deep=False):
        return self.pumped("wide", "ParseWide", [f"MaxMembers = {members}"], ["Inv_Wide", "WEmitted"],
                           f"groups, arrays and maps of every {members} members of ParseWide, " + ("70000" if deep else "5000") + " times", deep)

    def chains(self, deep=False):
        return self.pumped("chains", "AliasChain", [f"MaxChain = {4 if self.T else 3}"], ["Inv_Chains", "Emitted"],
                           "ranges with either end of any kind, reached through up to " + ("3000" if deep else "300") + " names in five orders", deep)

    def recorded(self, n):
        """Parses of random and repository sources, recorded and validated."""
        def go():
            run = self.run
            srcs = lex.repo_sources() + cddlgen.sources(run.rng, n) + lex.sources(run.rng, n // 4)
            if run.prop in ("C06", "C13", "C22"):
                srcs += cddlgen.faulty(run.rng, 2 * n)
            elif run.prop in ("C07", "C08"):
                srcs += cddlgen.good(run.rng, n // 2)
            cases = run.write_cases("in.jsonl", [{"hex": s.hex()} for s in srcs])
            rec = run.path("rec.jsonl")
            f, s = run.harness(self.h, ["record"], [cases], records=rec, workers=4)
            run.take(f, self.props)
            recs = open(rec).read().split("\n")[:-1]
            if not recs:
                return
            out = run.tlc("ParseTrace", name="trace", env={"TRACE": rec}, workers=4, heap="3g", timeout=800)
            run.traces += len(tlc_lines(out, "ACCEPT"))
            for line in tlc_lines(out, "REJECT"):
                p, i, why = line.split(" ", 2)
                if p == run.prop:
                    run.violation(f"recorded parse rejected: {why}: {recs[int(i) - 1][:2000]}", json.loads(recs[int(i) - 1]))
        return go

    def monitor(self, name, cases):
        def go():
            run = self.run
            p = run.write_cases(name + ".jsonl", cases)
            f, s = run.harness(self.h, ["monitor"], [p], workers=5)
            run.take(f, self.props)
        return go


def hexs(s):
    return (s if isinstance(s, bytes) else s.encode()).hex()


def deep(T):
    """Deep and long sources."""
    out = []
    units = [("(", "", ")"), ("[", "", "]"), ("{", "", "}"), ("~", "a", ""), ("& ", "a", ""), ("? ", "a", ""), ("* ", "a", ""), ("a: ", "a", ""),
             ("int / ", "int", ""), ("a // ", "a", ""), ("#6(", "a", ")"), ("int .size (", "1", ")"), ("uint .lt (", "1", ")"), ("a: [", "", "]"),
             ("+ ", "a", ""), ("a => ", "a", ""), ("1*2 ", "a", ""), ("{a: ", "a", "}"), ("(int, ", "", ")"), ("#(", "a", ")")]
    for unit, mid, close in units:
        for n in (1000, 9990, 99990, 110000) + ((1000000, 3000000) if T else ()):
            for start in ("a = ", ""):
                if start == "" and n not in (9990, 1000000):
                    continue
                for c in {"", close}:
                    if c and n > 200000 and not T:
                        continue
                    out.append({"repeat": [{"s": start, "n": 1}, {"s": unit, "n": n}, {"s": mid, "n": 1}, {"s": c, "n": n}]})
    for u in ("a", " a = b", "a = int\n", "1..", "a=1..", "x ", "= ", "a = [", "; c\n", ", ", "\"", "a = a\n", "a = b..c b=d c=d\n", "a /= int\n",
              "a = \"x\n", ".foo ", "\xff", "a = ( ; c\n", "a = int ; c\n"):
        out.append({"repeat": [{"s": u, "n": 30000 if not T else 300000}]})
    # a chain of names
    n = 20000 if T else 3000
    chain = "".join(f"n{i} = n{i + 1}\n" for i in range(n)) + f"n{n} = 1\nr = n0 .. 2.5\n"
    out.append({"hex": hexs(chain)})
    return out


def odd(r, n):
    """Random bytes and tokens in all kinds of environments."""
    srcs = cddlgen.sources(r, n) + lex.sources(r, n)
    fixed = ["a = x .. 5 b = [x, y..x] c = x", "a = 1 .. x", "d = a...b e = b..a", "a = tstr .size x", ""]
    pres = ["a = b", "b = a", "a = a", "x = y y = z", "a = 1..b", "b = 1.5", "a = [", "x = 7", "a = ( a: int"]
    out = []
    for s in [f.encode() for f in fixed] * 4 + srcs:
        c = {"hex": hexs(s)}
        if r.random() < .4:
            c["before"] = [hexs(r.choice(pres)) for _ in range(r.randrange(1, 4))]
        if r.random() < .2:
            c["nil"] = r.sample(["a", "b", "x", "y", "k"], 2)
        out.append(c)
    return out


def check(run):
    P, T = Parse(run), run.thorough
    prop = run.prop
    jobs = []
    if prop == "C05":
        jobs = [P.monitor("deep", deep(T)), P.monitor("odd", odd(run.rng, 40000 if T else 6000)),
                P.explore("all", "A_All", 9 if T else 6, 3 if T else 1, inv=["Inv_Ends", "Inv_Places"]),
                P.names("C_Kinds", 3 if T else 2, 2), P.repeated("C_Deep", 2)]
    elif prop == "C06":
        jobs = [P.explore("all", "A_All", 9 if T else 7, 3 if T else 2, inv=INV_EXPLORE if T else ["Inv_Faults", "Inv_Places"]),
                P.explore("types", "A_AllTypes", 6, 1, inv=["Inv_Faults"]),
                P.explore("group", "A_All", 10, 2, "S_Group") if T else P.explore("small", "A_Small", 5, 4, "S_Rule", all_sequences=True, inv=["Inv_Faults"]),
                P.names("C_Faulty", 3, 2 if T else 1), P.repeated("C_Faulty", 2, T), P.repeated("C_Deep", 2), P.recorded(5000 if T else 500)]
        if T:
            jobs.append(P.explore("small", "A_Small", 6, 5, "S_Rule", all_sequences=True, inv=["Inv_Faults"]))
    elif prop == "C07":
        jobs = [P.grammar("trees", "L_All", 2), P.grammar("few", "L_Few" if T else "L_One", 3), P.grammar("lists", "L_All", 0, lists=3 if T else 2),
                P.grammar("values", "L_Values", 0), P.nested("nested1", 1, True), P.nested("nested2", 2, T), P.deep_grammar("deep", "L_Few", 24, 600 if T else 60),
                P.simulate("long", "A_GoodComments", 60, 4000 if T else 120), P.wide(2 if T else 1, T), P.repeated("C_Extends", 2, T), P.recorded(5000 if T else 500)]
    elif prop == "C08":
        jobs = [P.grammar("trees", "L_All", 2), P.grammar("few", "L_Few" if T else "L_One", 3), P.grammar("lists", "L_All", 0, lists=3 if T else 2),
                P.grammar("values", "L_Values", 0), P.nested("nested1", 1, True), P.nested("nested2", 2, T), P.deep_grammar("deep", "L_Few", 24, 600 if T else 60),
                P.explore("valid", "A_Good", 9 if T else 7, 3 if T else 2, valid=True, inv=["Inv_Complete"]),
                P.simulate("long", "A_Good", 60, 4000 if T else 120), P.wide(2 if T else 1, T), P.repeated("C_Extends", 2, T), P.recorded(5000 if T else 500)]
    elif prop == "C09":
        jobs = [P.grammar("comments", "L_All" if T else "L_Few", 1, comments=True), P.grammar("listcomments", "L_All", 0, lists=2, comments=True, inv=False),
                P.explore("valid", "A_GoodComments", 9 if T else 7, 3 if T else 1, valid=True, inv=["Inv_Comments", "Inv_CommentOrder"]),
                P.explore("rules", "A_Rules", 7 if T else 5, 3, all_sequences=True, inv=["Inv_Comments", "Inv_CommentOrder"] if T else ["Inv_CommentOrder"]),
                P.explore("all", "A_All", 8 if T else 6, 2 if T else 1, inv=["Inv_Comments", "Inv_CommentOrder"] if T else []),
                P.recorded(5000 if T else 500)]
        if T:
            jobs.append(P.grammar("comments2", "L_Tiny", 2, comments=True, inv=False))
    elif prop == "C10":
        jobs = [P.names("C_Names", 4 if T else 3, 2), P.names("C_Uses", 3 if T else 2, 2), P.names("C_RangesFew", 4 if T else 3, 2),
                P.explore("valid", "A_Good", 9 if T else 7, 3 if T else 2, valid=True), P.repeated("C_Uses", 2, T), P.chains(), P.recorded(5000 if T else 500)]
    elif prop == "C11":
        jobs = [P.names("C_Names", 4 if T else 3, 3), P.names("C_Uses", 3 if T else 2, 2), P.names("C_Kinds", 3 if T else 2, 2),
                P.names("C_Faulty", 4 if T else 3, 2), P.repeated("C_Names", 2, T), P.repeated("C_Deep", 1), P.recorded(5000 if T else 500)]
    elif prop == "C12":
        jobs = [P.names("C_Ranges", 4 if T else 3, 2), P.names("C_RangesFew", 5 if T else 4, 2 if T else 1), P.names("C_Kinds", 3, 2 if T else 1),
                P.names("C_RangeValues", 2, 1), P.names("C_RangeEnds", 4 if T else 3, 1),
                P.explore("valid", "A_Good", 9 if T else 7, 3 if T else 2, valid=True), P.chains(T), P.repeated("C_Ranges" if T else "C_RangesFew", 2, T), P.recorded(5000 if T else 500)]
    elif prop == "C13":
        jobs = [P.grammar("lists", "L_All", 0, lists=2, inv=False), P.grammar("values", "L_Values", 0, inv=False), P.explore("valid", "A_GoodComments", 9 if T else 7, 3 if T else 2, valid=True),
                P.explore("all", "A_All", 8 if T else 6, 2 if T else 1, inv=["Inv_Places"]), P.names("C_Faulty", 3, 2), P.repeated("C_Faulty", 2, T), P.repeated("C_Deep", 2),
                P.simulate("long", "A_GoodComments", 60, 4000 if T else 100), P.wide(1, T), P.recorded(5000 if T else 500), quoting(P)]
    elif prop == "C22":
        jobs = [P.names("C_Faulty", 4 if T else 3, 2), P.names("C_FaultyFew", 5 if T else 4, 2), P.explore("all", "A_All", 8 if T else 7, 2, inv=["Inv_Recovers"]),
                P.explore("rules", "A_Rules", 7 if T else 5, 3, all_sequences=True), P.repeated("C_Faulty", 2, T), P.repeated("C_Deep", 2), P.recorded(5000 if T else 500)]
    run.parallel(jobs, 3)
    return run.finish(ASSUME, rule="sources printed by TLC with their tree, diagnostics and definitions, in several layouts, and recorded parses of "
                      "random and repository sources; non-trivial: more than one token; distinct: different sequences of token kinds")


def render(toks, r):
    """Tokens as text, with the line of each."""
    out, line, lines = "", 1, []
    for i, t in enumerate(toks):
        if i:
            prev = toks[i - 1]
            if prev["k"] == "COMMENT" or "open" in prev.get("ok", []):
                sep = "\n"
            elif t["k"] == "COMMENT":
                sep = " " if t["sl"] else "\n"
            else:
                sep = r.choice([" ", " ", "\n", "\n\n ", "\t", "\r\n"])
            out += sep
            line += sep.count("\n")
        lines.append(line)
        opened = "open" in t.get("ok", [])
        out += {"TEXT": '"' + t["v"] + ("" if opened else '"'), "COMMENT": ";" + t["v"]}.get(t["k"], t["v"] if t["k"] in ("IDENT", "INT", "FLOAT", "ILLEGAL") else t["k"])
    end = r.choice(["", "\n"]) if not (toks and "open" in toks[-1].get("ok", [])) else ""
    lines.append(line + end.count("\n"))
    return out + end, lines


def quoting(P):
    """The commands that print diagnostics quote the source line each is on."""
    run = P.run

    def go():
        cli = run.build_cli()
        out = run.tlc("ParseExplore", ["Alphabet <- A_All", "MaxLen = 5", "MaxDepth = 1", "Starts <- S_Group", "Valid = FALSE"], [],
                      spec="SpecEmit", view="Control", name="quoting", workers=2)
        cases = []
        for l in tlc_lines(out, "CASE "):
            c = json.loads(l)["s"][0]
            if c["diags"]:
                cases.append(c)
        os.remove(out)
        run.rng.shuffle(cases)
        n = 0
        for c in cases[:400 if P.T else 60]:
            src, lines = render(c["toks"], run.rng)
            text = src.split("\n")
            wd = run.path(f"quote{n}")
            os.makedirs(wd)
            n += 1
            with open(os.path.join(wd, "x.cddl"), "w", newline="") as f:
                f.write(src)
            want = [lines[min(d[0], len(lines)) - 1] for d in c["diags"]]
            for args in (["parse", "x.cddl"], ["generate"]):
                p = subprocess.run([cli] + args, cwd=wd, capture_output=True, timeout=60)
                err = p.stderr.decode("utf-8", "replace").split("\n")
                for w in set(want):
                    quoted = [e for e in err if re.search(r"(?<!\d)%d(?!\d)" % w, e) and e.endswith(text[w - 1]) ]
                    if len(quoted) < want.count(w):
                        run.violation(f"{args[0]} of {src!r} does not quote line {w} {text[w - 1]!r} for each diagnostic on it: {p.stderr.decode('utf-8', 'replace')[:1500]}",
                                      {"src": src, "args": args, "lines": want})
            run.cases += 1
        return
    return go


CHECKS = {p: (check, "model_checking") for p in ("C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C22")}
