"""C16-C18: generate and its configuration; C19: init; C20: the interactive shell; C23: the lex and parse commands."""
import base64, json, os, subprocess
import cddlgen, gen, lex
from lib import CheckError, tlc_lines

GOOD = ["person = ( name: tstr, age: uint )", "a = int\nb = a ; c\n", "v = 12\nw = 1.5\nt = true\ns = \"x y\"", "; header\n\nx = [ 1: bytes, 2: ( c: float32 ) ]\n",
        "reputon = ( rater: text, rating: float16 )\r\nother-one = null\r\n", "my-name.x = uint", "at@home = bstr", "o = ()\np = []",
        "$s = tstr", "a /= int", "a //= (b: bool)", "deep = (a: (b: (c: (d: [e: float64]))))", "n = nint\nf = float", "a=int b=tstr c=(d:a e:b)"]
SYNTAX = ["a = ", "a = )", "a = (int", "= int", "a int", "a = int\nb = [1\nc = tstr", "(", "a = {b: int]", "a = #6.(int)", "a = tstr .size", "a = 1..", "a = ? ", "int", "a = b: ",
          "a = int\n\n\n)", "a = & int .lt", "a = 1 .. \"x\"", "a = int .regexp \"x\"", "a = tstr .lt 3"]
LEXICAL = ["a = \"open", "a = !", "a = int\nb = \"open\nc = int", "\xff", "a = int .foo 3", "a = int %", "a = 'x'", "a = int\n`", "x = int \\ y"]
UNDEF = ["a = b", "a = int\na = tstr", "a = (x: nope)", "a = 1..2.5", "a = 1..b b = 1.5", "a = ~gone", "a = [* gone]", "x = int\nx = int\nx = int"]
UNSUPPORTED = ["a = int / tstr", "a = { b: int }", "a = #6.1(int)", "a = &(b: 1)", "a = 1..2", "a = 1.5...2.5", "b = int a = ~b", "a = int .lt 3", "a = tstr .regexp \"x\"",
               "a = (b: int // c: int)", "a = (b: int / tstr)", "a = [+ int]", "a = (int)", "a = [tstr]", "a = (k: true)", "a = (k: \"x\")", "a = (k: 3)", "a = ((b: int))",
               "ok = int\nalso = (x: ok)\nno = { y: tstr }", "a = bytes .bits b b = &(c: 1)", "a = (k: #6.1(int))", "a = (k: {l: int})", "a = (b: int, [c: int])", "a = ? int",
               "fine = (x: int)\nrange = 1..10\nfine2 = tstr", "a = (k: (l: 1..2))", "a = (? int)"]


def prepare(run):
    """The binaries, the scratch directory and the sources."""
    h, b = run.build("clih"), run.build_cli()
    os.chmod(run.dir, 0o711)
    scratch = run.path("scratch")
    os.makedirs(scratch, exist_ok=True)
    os.chmod(scratch, 0o711)
    env = {"CLI_BIN": b, "CLI_SCRATCH": scratch, "VERIF_SEED": str(run.seed)}
    can = subprocess.run([h, "can"], env=dict(os.environ, **env), capture_output=True, text=True, timeout=60)
    run.notes["ordinary_user"] = can.stdout.strip()
    if can.stdout.strip() != "yes":
        env["CLI_ROOT"] = "1"
    long = ["; " + "long " * 20000 + "\na = int", "\n" * 70000 + "a = tstr", "\n".join(f"name{i} = ( a: int, b{i}: tstr ) ; {i}" for i in range(4000)),
            "a = [ " + ", ".join(f"k{i}: uint" for i in range(6000)) + " ]", "t = \"" + "text " * 16000 + '"']
    pool = {"good": GOOD + gen.sources(run.rng, 60) + long, "diagnosed": SYNTAX, "lexical": LEXICAL, "undef": UNDEF, "unsupported": UNSUPPORTED}
    p = run.path("pool.json")
    json.dump(pool, open(p, "w"))
    env["CLI_POOL"] = p
    out = subprocess.run([h, "pool"], env=dict(os.environ, **env), capture_output=True, text=True, timeout=60).stdout
    pool = json.loads(out)
    if len(pool["good"]) < 12:
        raise CheckError("the generator takes almost none of the sources (C15)")
    json.dump(pool, open(p, "w"))
    return h, env


def scenario(r):
    """A directory of some depth with definition files, outputs and configurations; mostly fine, sometimes with a fault."""
    fs = {(): "sealed" if r.random() < .04 else "dir"}
    nodes, quality, n = {}, {}, [0]
    faulty = r.random() < .6
    odd = lambda p: faulty and r.random() < p  # noqa

    def mkdirs(parent, depth):
        for name in r.sample(["src", "defs", "a", "B", "out", "gen", "x.cddl", "dist", "my dir", "v1.2", "sub"], r.randrange(0, 4) + (depth == 0)):
            p = parent + (name,)
            k = r.choice(["sealed", "closed", "dangling"]) if odd(.06) else "dir"
            if name.endswith(".cddl") and not odd(.5):
                continue
            fs[p] = k
            if k in ("dir", "sealed", "closed") and depth < 2:
                mkdirs(p, depth + 1)
    mkdirs((), 0)
    dirs = [p for p in fs if fs[p] in ("dir", "sealed", "closed")]
    names = ["a", "b", "person", "x.y", "Z", "", "long-name", "0", "a b", "_", "~c", "cddl", "e", "b_test", "c_linux", "m_windows_amd64", "main", "go", "doc",
             "_x", ".h", "a.cddl", "x.go", "é", "100%", "-v", "a'b", "#1", "{}", "$HOME", "a;b", "con", "README", "a.b.c", "test", "n" * 120, "*", "[a]", "go.mod", "vendor", "internal"]
    for d in dirs:
        for name in (r.sample(names, r.choice([0, 0, 1, 2, 4, 7])) if r.random() < .99 else [f"f{i:03}" for i in range(r.randrange(20, 90))]):
            ext = r.choice([".cddl", ".cddl", ".cddl", ".go", ".go", ".txt", ".CDDL", ".cddl.go", ".cddl~", ""])
            if d + (name + ext,) in fs or name + ext == "":
                continue
            if (name + ext).endswith(".cddl"):
                if odd(.06):
                    nodes[d + (name + ext,)] = r.choice([("dir", "", ""), ("dangling", "", ""), None])
                if nodes.get(d + (name + ext,)) is None:
                    n[0] += 1
                    of = f"{n[0]}q{r.randrange(1000)}"
                    quality[of] = r.choice(["diagnosed", "unsupported"]) if odd(.1) else "good"
                    nodes[d + (name + ext,)] = ("file", of, r.choice(["ro", "no"]) if odd(.05) else r.choice(["rw", "rw", "ro"]))
            else:
                nodes[d + (name + ext,)] = r.choice([("full", "", ""), ("dir", "", ""), ("file", "old", "ro"), ("file", "old", "no")]) if odd(.05) else ("file", r.choice(["old", "long"]), "rw")
    configs = {}
    places = [p for p in fs] + [p + ("new",) for p in dirs] + [("fresh",), ("new", "er"), ("q", "w", "e")]
    files = [p for p in nodes]
    for c in ("J", "Y", "K"):
        configs[c] = [{"src": list(r.choice([p for p in places if p in dirs] if not odd(.05) else places + files)),
                       "out": list(r.choice(places if not odd(.05) else places + files)), "pkg": r.choice(["main", "p1", "p2", "pkg_x"])} for _ in range(r.choice([0, 1, 1, 2, 3, 5]) if r.random() < .98 else r.randrange(6, 40))]
    for name, p in (("cddlc.json", .7), ("cddlc.yaml", .4)):
        if r.random() < p:
            fs[(name,)] = "config"
            nodes[(name,)] = r.choice([("dir", "", ""), ("dangling", "", ""), ("file", "J", "no"), ("file", r.choice(["bad:truncated", "bad:type", "bad:nullbuild"]), "rw")]) if odd(.08) else \
                ("file", r.choice(["J", "K", "Y"]), r.choice(["rw", "ro"]))
    first = [[list(p), {"k": k, "of": "", "pkg": "", "mode": ""}] for p, k in fs.items() if k != "config"]
    first += [[list(p), {"k": v[0], "of": v[1], "pkg": "", "mode": v[2]}] for p, v in nodes.items()]
    quality.setdefault("none", "good")
    return {"first": first, "configs": configs, "quality": quality}


FAULTS = ["truncated", "trailing", "empty", "scalar", "list", "otherformat", "tabs", "nullbuild", "buildslist", "buildscalar", "buildtype", "buildlisttype",
          "versiontype", "plugintype", "optionstype"]
NAMES = ["cddlc.yml", "CDDLC.JSON", "cddlc.json.bak", "xcddlc.json", "cddlc.JSON", "config.json", "cddlc", ".json", "cddlc.toml", "cddlc.jsonc", "cddlc.yaml~", "cddl.json", "cddlc..yaml", "cddlc.json.yaml"]
INVS = ["Inv_Complete", "Inv_Failure", "Inv_Fails", "Inv_Config", "Inv_BadConfig", "Inv_Sources", "Emitted"]


def generate(prop):
    def check(run):
        T = run.thorough
        h, env = prepare(run)

        def explore(family, runs=1, builds=0, simulate=None, text=""):
            def go():
                want = {"C16": "ok", "C17": "fail"}.get(prop, "")
                out = run.tlc("GenerateExplore", [f'Family = "{family}"', f"MaxRuns = {runs}", f"MaxBuilds = {builds}", f'Want = "{want}"'], INVS if not simulate else [i for i in INVS if i != "Inv_Sources"], spec="GSpec",
                              name=family + str(runs) + str(builds), workers=3, timeout=820 if T else 400, heap="6g" if T else "3g",
                              simulate=simulate, depth=400 if simulate else None, exhaustive=None if simulate else text)
                f, s = run.harness(h, ["generate"], [out], workers=8, env=dict(env, CLI_FAMILY="config" if prop == "C18" else family))
                run.traces += s["cases"]
                run.notes.setdefault("skipped", {})[family] = s["skipped"]
                run.take(f, {prop})
                os.remove(out)
            return go
        def recorded():
            rec = run.path("rec.jsonl")
            f, s = run.harness(h, ["record"], [run.write_cases("in.jsonl", [scenario(run.rng) for _ in range(12000 if T else 1500)])], records=rec, workers=8, env=env)
            run.take(f, {prop})
            recs = open(rec).read().split("\n")[:-1]
            out = run.tlc("GenerateTrace", [], ["Judged"], spec="TSpec", name="trace", env={"TRACE": rec}, workers=1, timeout=820)
            judged = {"ok": 0, "fail": 0}
            for d in map(json.loads, recs):
                judged[d["result"]] += 1
            run.notes["recorded"] = judged
            run.traces += len(tlc_lines(out, "ACCEPT"))
            if len(tlc_lines(out, "ACCEPT")) + len(tlc_lines(out, "REJECT")) != len(recs):
                raise CheckError("not every recorded run was judged")
            for line in tlc_lines(out, "REJECT"):
                want, i, why = line.split(" ", 2)
                if {"ok": "C16", "fail": "C17"}[want] == prop:
                    run.violation(f"recorded run rejected: {why[:2000]}\n recorded {recs[int(i) - 1][:3000]}", json.loads(recs[int(i) - 1]))
        def values(name, bases, styles, faults, strings, builds, plugins, keys, opts, simulate=None):
            def go():
                s = lambda l: "{" + ", ".join(json.dumps(x) for x in l) + "}"  # noqa
                out = run.tlc("ConfigLoad", [f"Bases = {s(bases)}", f"Styles = {s(styles)}", f"Faults = {s(faults)}", f"Strings = {s(strings)}",
                                             f"MaxBuilds = {builds}", f"MaxPlugins = {plugins}", f"MaxKeys = {keys}", f"Opts = {s(opts)}", f"MinSteps = {40 if simulate else 0}"],
                              ["Inv_Values", "Inv_Error", "Emitted"], name="conf-" + name, workers=3, timeout=800, heap="6g" if T else "3g",
                              simulate=simulate, depth=builds + plugins + 20 if simulate else None, exhaustive=None if simulate else f"all documents of up to {keys} settings in any order with up to {builds} builds and {plugins} plugins, texts {strings}, faults {faults}, named {bases}")
                f, d = run.harness(conf, [], [out], workers=8, env=env)
                run.traces += d["cases"]
                run.take(f, {"C18"})
                os.remove(out)
            return go

        conf = run.build("confh") if prop == "C18" else None
        files = explore("files", text="every kind of source a.cddl, source b.cddl, output directory and previous output")
        builds = explore("builds", builds=3 if T else 2, text="all lists of builds over three source and five output directories, with missing, unsupported and undefined sources")
        anything = explore("any", runs=3 if T else 2, builds=4 if T else 3, simulate=12000 if T else 800)
        names = explore("allnames" if T else "names", text="all sets of entries with odd names in the source directory")
        dirs = explore("dirs", text="every kind of working, source and output directory and of its parent")
        again = explore("again", runs=4 if T else 3, text="all changes between runs")
        jobs = {"C16": [files, builds, names, again, anything, recorded],
                "C17": [files, dirs, builds, anything, recorded],
                "C18": [explore("config", text="every kind of both configuration files, next to similarly named ones"),
                        values("settings", ["cddlc.json", "cddlc.yaml"], ["compact", "lines", "block"], ["none"], ["plain", "tricky"], 1, 1, 5 if T else 3, ["flat", "nested"]),
                        values("texts", ["cddlc.json", "cddlc.yaml"], ["compact", "block"], ["none"], ["plain", "path", "tricky", "control", "empty"], 1, 1, 1, ["none"]),
                        values("lists", ["cddlc.json", "cddlc.yaml"], ["lines", "block"], ["none"], ["plain", "control"], 2, 2 if T else 1, 1, ["none"]),
                        values("many", ["cddlc.json", "cddlc.yaml"], ["compact", "lines", "block"], ["none", "truncated", "trailing"], ["plain", "path"], 40, 30, 5, ["flat", "nested"], simulate=1500 if T else 150),
                        values("faults", ["cddlc.json", "cddlc.yaml"], ["compact", "block"], FAULTS, ["plain"], 1, 1, 3, ["flat"]),
                        values("names", NAMES, ["compact"], ["none"], ["plain"], 1, 0, 2, ["flat"])]}[prop]
        run.parallel(jobs, 3)
        rules = {"C16": "replayed scenarios with at least one definition file that succeed; recorded runs",
                 "C17": "replayed scenarios with a fault; recorded runs",
                 "C18": "documents loaded and runs of the command with each kind of configuration file"}
        return run.finish(ASSUMED, rule=rules[prop])
    return check


ASSUMED = ["Kind, mode and content of a path stand for all states of the file system; the paths are those of the scenarios and the content of a definition file is one of the pool's",
           "The runs are made as an ordinary user where the sandbox allows it; where it does not, scenarios that depend on permissions are skipped (counted in 'skipped')",
           "What the generator returns for a definition file is judged by C15; here the file has to hold exactly that and the header"]


KINDS = ["none", "file", "config", "empty", "secret", "dir", "fulldir", "dangling", "filelink", "dirlink", "loop", "fifo", "device"]
NEAR = ["cddlc.yaml", "CDDLC.JSON", "cddlc.json.bak", "cddlc.yml", "dist", ".cddlc.json", "cddlc.json~", "cddlc", "x.CDDL"]


def init(run):
    """C19: processes that create the configuration."""
    T = run.thorough
    h, env = prepare(run)
    can = subprocess.run([h, "canhold"], env=dict(os.environ, **env), capture_output=True, text=True, timeout=120).stdout.strip()
    run.notes["steps_can_be_held"] = env["CLI_STRACE"] = can
    invs = ["Inv_Once", "Inv_Never", "Inv_Others", "Inv_Ends"]
    tset = lambda l: "{" + ", ".join(json.dumps(x) for x in l) + "}"  # noqa

    def explore(name, procs, kinds, dirs, near, alone, workers=16, parts=1):
        def go():
            out = run.tlc("InitRace", [f"Procs = {procs}", f"Kinds = {tset(kinds)}", f"Dirs = {tset(dirs)}", "Neighbours = {" + ", ".join(map(tset, near)) + "}", f"Parts = {parts}",
                                       "Exclusive = TRUE", f"Alone = {str(alone).upper()}"], invs + ["Emitted"], spec="ISpec", name=name, workers=2, timeout=300,
                          exhaustive=f"all {'orders' if alone else 'schedules'} of {procs} processes with {kinds} in {dirs} directories")
            if parts > 1:
                return
            f, s = run.harness(h, ["init"], [out], workers=workers, env=env)
            run.traces += s["cases"]
            run.take(f, {"C19"})
        return go

    def broken():
        """The schedules reach what exclusive creation prevents."""
        for inv in ("Inv_Once", "Inv_Never"):
            try:
                run.tlc("InitRace", ["Procs = 2", 'Kinds = {"none", "dangling"}', 'Dirs = {"open"}', "Neighbours = {{}}", "Parts = 1", "Exclusive = FALSE", "Alone = FALSE"], [inv], spec="ISpec",
                        name="broken-" + inv, workers=1, timeout=200)
            except CheckError as e:
                if inv not in str(e) or "is violated" not in str(e):
                    raise
            else:
                raise CheckError(f"the model does not see what looking first and creating then breaks ({inv})")

    def crowd():
        n = 4000 if T else 500
        cases = [{"pre": k, "wd": "open", "near": run.rng.sample(NEAR, run.rng.choice([0, 0, 1, 3])), "procs": run.rng.choice([2, 3, 4, 8, 16]), "sched": [], "oks": int(k == "none"),
                  "after": "new" if k == "none" else k, "crowd": True} for k in run.rng.choices(KINDS, [40] + [1] * (len(KINDS) - 1), k=n)]
        f, s = run.harness(h, ["init"], [run.write_cases("crowd.jsonl", cases)], workers=6, env=env)
        run.take(f, {"C19"})
        run.traces += s["cases"]
    run.parallel([explore("kinds", 1, KINDS, ["open", "sealed"], [[]] + [[n] for n in NEAR] + [NEAR], True), explore("twice", 3 if T else 2, KINDS, ["open", "sealed"], [[], NEAR[:3]], True),
                  explore("race", 2, KINDS, ["open"], [[]], False), explore("race3", 3, ["none"], ["open"], [[]], False), *([explore("race4", 4, ["none"], ["open"], [[]], False, 48)] if T else []),
                  explore("parts", 3, ["none", "file"], ["open", "sealed"], [[]], False, parts=3), broken], 4)
    crowd()
    return run.finish(ASSUMED[1:2] + ["A schedule is replayed by holding the processes back at the system calls that name the file, for times much longer than a run takes; whether the schedule was met is not checked, "
                                      "the expectation holds for all schedules"],
                      rule="replayed schedules, kinds of existing entries and crowds of processes")


REPL_INVS = ["Inv_Undefined", "Inv_FirstWins", "Inv_Ranges", "Inv_Prefix", "Inv_Resumes", "Inv_EveryFault", "Inv_Listing", "Inv_End", "Inv_Sources", "Inv_Accepted"]


def typed(r):
    """The lines of a session, of any kind."""
    lines = []
    pool = [l for s in cddlgen.sources(r, 6) for l in s.split(b"\n")] + [s for s in lex.sources(r, 2)]
    for _ in range(r.randrange(1, 25) if r.random() < .98 else r.randrange(80, 300)):
        k = r.random()
        if k < .1:
            lines.append(":pv")
        elif k < .3:
            lines.append(":tree " + " ".join(r.sample(cddlgen.NAMES, r.randrange(1, 5))))
        elif k < .33:
            lines.append(":help")
        elif k < .5:
            lines.append(r.choice(cddlgen.NAMES) + r.choice([" = ", "=", " /= ", " //= "]) + r.choice(cddlgen.TYPES + cddlgen.NAMES + cddlgen.INTS[:5] + cddlgen.FLOATS[:4]) + r.choice(["", " ; c", " " + r.choice(cddlgen.NAMES) + " = int"]))
        elif k < .502:
            lines.append(r.choice(["; ", "a = ", "(", "a=b "]) + r.choice(["x ", "[", ") ", "a: b, "]) * 40000)
        else:
            l = r.choice(pool).decode("utf-8", "replace" if r.random() < .8 else "ignore").replace("\n", " ").replace("\r", " ").replace("\0", " ")
            lines.append("" if l.strip().startswith(":") else l)
    return {"lines": [l for l in lines if ">>>" not in l]}


def repl(run):
    """C20: interactive sessions."""
    T = run.thorough
    h, env = prepare(run)

    def explore(name, chunks, cmds, rules, items, simulate=None):
        def go():
            out = run.tlc("Repl", [f"Chunks <- {chunks}", f"Cmds <- {cmds}", f"MaxRules = {rules}", f"MaxItems = {items}", "MaxLines = 0"], ["REmitted"] if simulate else REPL_INVS + ["REmitted"], spec="RSpec",
                          name=name, workers=3, timeout=820 if T else 300, heap="6g" if T else "3g", simulate=simulate, depth=rules + items + 2 if simulate else None,
                          exhaustive=None if simulate else f"all sessions of {items} lines, {cmds} and up to {rules} rules of {chunks}")
            f, s = run.harness(h, ["repl"], [out], workers=8, env=env)
            run.traces += s["cases"]
            run.take(f, {"C20"})
            os.remove(out)
        return go

    def recorded():
        rec = run.path("rec.jsonl")
        f, s = run.harness(h, ["recordrepl"], [run.write_cases("in.jsonl", [typed(run.rng) for _ in range(6000 if T else 600)])], records=rec, workers=8, env=env)
        run.take(f, {"C20"})
        recs = open(rec).read().split("\n")[:-1]
        out = run.tlc("ReplTrace", [], ["Judged"], spec="RSpec", name="trace", env={"TRACE": rec}, workers=3, timeout=820, heap="4g")
        ok, bad = tlc_lines(out, "ACCEPT"), tlc_lines(out, "REJECT")
        run.traces += len(ok)
        if len(ok) + len(bad) != len(recs):
            raise CheckError("not every recorded session was judged")
        for line in bad:
            i, why = line.split(" ", 1)
            items = json.loads(recs[int(i) - 1])["items"]
            run.violation(f"recorded session rejected: {why}\n {[x.get('src') or x for x in items][:int(why.split(':')[0].split()[1])]} {items[int(why.split(':')[0].split()[1]) - 1].get('answer')}", items)
    run.parallel([explore("few", "C_ReplFew", "M_Few", 4 if T else 3, 5 if T else 4), explore("all", "C_Repl", "M_All", 3 if T else 2, 3), explore("many", "C_ReplMany", "M_Few", 3 if T else 2, 4 if T else 3),
                  explore("long", "C_ReplMany", "M_All", 14, 16, simulate=1500 if T else 150), recorded], 4)
    return run.finish(ASSUMED[1:2] + ["A line of output that begins with 'parser error: ' or 'lexer error: ' is a diagnostic; the wording of diagnostics is not judged, only that they mention the names they are about",
                                      "What the parser returns for a line is judged by C06-C12 and C22; here it has to be shown and kept"],
                      rule="replayed sessions of up to 16 lines; recorded sessions of random lines")


def export(run):
    """C23: the commands that show tokens and trees."""
    T = run.thorough
    h, env = prepare(run)
    every = ["Inv_Unread", "Inv_Tokens", "Inv_Status", "Inv_Lines", "XEmitted"]

    def replay(out, workers=8):
        f, s = run.harness(h, ["export"], [out], workers=workers, env=env)
        run.traces += s["cases"]
        run.take(f, {"C23"})
        os.remove(out)

    def tokens(name, alphabet, n, starts, commands, arguments=("file",)):
        def go():
            tset = lambda l: "{" + ", ".join(json.dumps(x) for x in l) + "}"  # noqa
            replay(run.tlc("Export", [f"Alphabet <- {alphabet}", f"MaxLen = {n}", f"Starts <- {starts}", f"Commands = {tset(commands)}", f"Arguments = {tset(arguments)}"], every, spec="XSpec", name=name,
                           workers=2, timeout=820 if T else 300, heap="4g", exhaustive=f"runs of {commands} with arguments {arguments} on sources of up to {n} chunks over {alphabet} after each of {starts}"))
        return go

    def trees(name, conf, inv, module="CddlGrammar", **kw):
        def go():
            replay(run.tlc(module, conf, inv, name=name, workers=2, timeout=820 if T else 300, heap="4g", **kw))
        return go

    def sources():
        srcs = lex.repo_sources() + cddlgen.sources(run.rng, 4000 if T else 400) + lex.sources(run.rng, 1500 if T else 200)
        for n in ((40000, 70000, 300000, 1000000, 3000000) if T else (40000, 70000, 400000)):
            srcs += [b"\n".join(b"name%d = int" % i for i in range(n // 25)), b"a = [ " + b", ".join(b"k%d: uint" % i for i in range(n // 25)) + b" ]",
                     b"t = \"" + b"text " * (n // 5) + b"\"", b"; " + b"long " * (n // 5) + b"\na = int", b"n" * n + b" = int ; " + b"c" * n, b"a = [ " * min(n // 400, 150) + b"int" + b" ]" * min(n // 400, 150),
                     b"a = b\n" * (n // 20), b"!\n" * (n // 20), b"! " * 500]
        cases = []
        for s in srcs:
            b = base64.b64encode(s).decode()
            cases += [{"cmd": c, "arg": "file", "bytes": b} for c in ("lex", "parse")]
            line = s.split(b"\n")[0].replace(b"\r", b" ").replace(b">>> ", b"")
            if line.strip():
                cases.append({"cmd": "shell", "arg": "file", "bytes": base64.b64encode(line).decode()})
        replay(run.write_cases("sources.jsonl", cases))
    run.parallel([tokens("full", "A_Full", 3 if T else 1, "P_Empty", ["lex", "shell"]), tokens("words", "A_WordsSep", 1, "P_Ctx", ["lex"]), tokens("lines", "A_Lines", 4 if T else 2, "P_Ctx", ["lex"]),
                  tokens("ops", "A_Ops", 4 if T else 3, "P_Empty", ["lex", "shell"]),
                  tokens("arguments", "A_Lines", 0, "P_Ctx", ["lex", "parse", "shell"], ["file", "none", "two", "missing", "directory", "unreadable", "empty-name", "below-file"]),
                  trees("trees", [f"MaxWrap = {2 if T else 1}", "Leafs <- L_All", "Wrapping = TRUE", "MaxList = 0"], ["Emitted"], exhaustive=f"the trees of up to {2 if T else 1} constructs"),
                  trees("values", ["MaxWrap = 0", "Leafs <- L_Values", "Wrapping = TRUE", "MaxList = 0"], ["Emitted"], exhaustive="a value of every kind"),
                  trees("lists", [f"MaxWrap = {2 if T else 1}", "Leafs <- L_All", "Wrapping = FALSE", f"MaxList = {2 if T else 1}"], ["Emitted"], exhaustive=f"the lists of up to {2 if T else 1} members"),
                  trees("faulty", ["Chunks <- C_Faulty", f"MaxRules = {2 if T else 1}", "MaxLines = 1"], ["Emitted"], module="ParseNames", exhaustive="sources with faulty rules"),
                  sources], 4)
    return run.finish(ASSUMED[1:2] + ["What scanner and parser find is judged by C01-C13; the tree the command has to export is the one the parser returns for the source in the harness, the tokens are those of CddlLex"],
                      rule="replayed runs on the sources of the specification and on random and repository sources")


CHECKS = {"C23": (export, "model_checking"), "C20": (repl, "model_checking"), "C19": (init, "model_checking"), "C16": (generate("C16"), "model_checking"), "C17": (generate("C17"), "model_checking"), "C18": (generate("C18"), "model_checking")}
