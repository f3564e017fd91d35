"""C01-C03: the scanner against CddlLex."""
import glob, json, os
from lib import REPO, tlc_lines

INV = ["Inv_Bounded", "Inv_Tiling", "Inv_Positions", "Inv_LongestLexeme", "Inv_LexErrors", "Emitted"]

ASSUME = ["Go's utf8 package splits the source into characters",
          "exhaustive only up to the stated lengths over the stated alphabets; longer sources are sampled",
          "spec/CddlLex.tla states the lexical grammar of the property"]

ALPHABET = b"abzEGFx0b1o789.$-_@/=>;\"\n\r\t (){}[]*+?,:~&#<\\!^\x00\x7f"
PIECES = [b".size", b".bits", b".regexp", b".cbor", b".cborseq", b".lt", b".eq", b".ne", b".default", b".abnfb",
          b".feature", b".sizes", b".siz", b"int", b"uint", b"float16", b"float", b"tstr", b"text_literal", b"true",
          b"nil", b"null", b"any", b"0x1F", b"0b101", b"0o17", b"0x", b"1.5", b"1..2", b"1...2", b"1.2.3", b"a.b", b"a-b",
          b"//=", b"/=", b"=>", b"//", b"...", b"..", b"\"text\"", b"\"open", b"; comment\n", b";\r\n", "é".encode(),
          "€".encode(), "😀".encode(), b"\xff", b"\xc3", b"\xe2\x82", b"\xed\xa0\x80", b"\xef\xbf\xbd", b"\xef\xbb\xbf",
          b"\xc2\x85", b"\xc2\xa0", b"\xd9\xa1", b":", b",", b"(", b"[", b"}", b")", b"=", b"~", b"&", b"#", b"?", b"*", b"+", b"/", b"-",
          b"\n", b" ", b"\t", b"\r\n", b"\n\n"]


def repo_sources():
    out = []
    for f in sorted(glob.glob(os.path.join(REPO, "**", "*.cddl"), recursive=True)):
        try:
            out.append(open(f, "rb").read())
        except OSError:
            pass
    return out


def mutate(r, b):
    b = bytearray(b)
    for _ in range(r.randrange(1, 4)):
        k = r.randrange(4)
        i = r.randrange(len(b) + 1)
        if k == 0 and b:
            del b[i:i + r.randrange(1, 4)]
        elif k == 1:
            b[i:i] = r.choice(PIECES)
        elif k == 2 and i < len(b):
            b[i] = r.randrange(256)
        else:
            j = r.randrange(len(b) + 1)
            b[i:i] = b[min(i, j):max(i, j)][:20]
    return bytes(b)


def sources(r, n, big=False):
    seeds = repo_sources()
    out = list(seeds)
    while len(out) < n:
        k = r.randrange(5)
        if k == 0:
            out.append(bytes(r.randrange(256) for _ in range(r.randrange(0, 40))))
        elif k == 1:
            out.append(bytes(r.choice(ALPHABET) for _ in range(r.randrange(0, 80))))
        elif k in (2, 3):
            sep = r.choice([b"", b" ", b"\n", b""])
            out.append(sep.join(r.choice(PIECES) for _ in range(r.randrange(0, 25))))
        else:
            out.append(mutate(r, r.choice(seeds) if seeds else b"a = int"))
    if big:
        for n in (70000, 300000, 1200000):
            out.append(b"".join(r.choice(PIECES) for _ in range(n // 4)))
            out.append(bytes(r.randrange(256) for _ in range(n)))
        for c in (b"\"", b";", b"a", b"0", b".", b"\n", b"\xff", b"/", b"\xc3\xa9", b"=", b"1."):
            out.append(c * 100000)
            out.append(b" \n" * 1000 + c * 70000 + b"\n" + c)
    return out


def check(run):
    prop = run.prop
    T = run.thorough
    lexh = run.build("lexh")
    configs = [("full", "A_Full", 4 if T else 3, "P_Empty"),
               ("every", "A_Every", 2, "P_Empty" if not T else "P_Ctx"),
               ("num", "A_Num", 6 if T else 5, "P_Empty"),
               ("ops", "A_Ops", 7 if T else 5, "P_Empty"),
               ("lines", "A_Lines", 6 if T else 4, "P_Ctx" if not T else "P_Empty"),
               ("words", "A_WordsSep", 2, "P_Ctx" if T else "P_Empty")]
    if prop == "C03" or T:
        configs.append(("wordchar", "A_Every" if not T else "A_Full", 1 if not T else 2, "P_Words"))
        configs.append(("charword", "A_Words", 1, "P_Chars"))
        configs.append(("inside", "A_Every", 2 if T else 1, "P_Inside"))
        configs.append(("radix", "A_Every", 2, "P_Radix"))
        configs.append(("ctx", "A_Full", 3 if T else 2, "P_Ctx"))

    def explore(name, alpha, n, starts):
        def go():
            # the spec's own invariants are checked on every run of C03 and in thorough runs
            inv = INV if (T or (prop == "C03" and name != "full")) else ["Emitted"]
            if prop in ("C01",) and not T:
                inv = ["Inv_Bounded", "Emitted"]
            if prop in ("C02",) and not T:
                inv = ["Inv_Tiling", "Inv_Positions", "Emitted"]
            out = run.tlc("LexExplore", [f"Alphabet <- {alpha}", f"MaxLen = {n}", f"Starts <- {starts}"], inv,
                          name=name, workers=2 if not T else 4, timeout=800 if T else 300, heap="6g" if T else "2g",
                          exhaustive=f"sources of up to {n} chunks over {alpha} after each of {starts}")
            f, s = run.harness(lexh, ["replay"], [out], workers=4)
            run.traces += s["cases"]
            run.take(f, {prop})
            os.remove(out)
        return go

    def traces():
        n = 12000 if T else 1500
        cases = run.write_cases("in.jsonl", [{"hex": s.hex()} for s in sources(run.rng, n)])
        rec = run.path("rec.jsonl")
        f, s = run.harness(lexh, ["record"], [cases], records=rec, workers=4)
        run.take(f, {prop})
        if s["cases"] == s["findings"]:
            return
        out = run.tlc("LexTrace", name="trace", env={"TRACE": rec}, workers=4, heap="3g", timeout=700)
        run.traces += len(tlc_lines(out, "ACCEPT"))
        recs = open(rec).read().split("\n")[:-1]
        for line in tlc_lines(out, "REJECT"):
            p, i, why = line.split(" ", 2)
            if p == prop:
                run.violation(f"recorded scan rejected: {why}: {recs[int(i) - 1][:2000]}", json.loads(recs[int(i) - 1]))

    def big():
        cases = run.write_cases("big.jsonl", [{"hex": s.hex()} for s in sources(run.rng, 300 if not T else 3000, big=True)])
        f, s = run.harness(lexh, ["monitor"], [cases], workers=4)
        run.take(f, {prop})

    jobs = [traces] + [explore(*c) for c in configs]
    if prop in ("C01", "C02"):
        jobs.append(big)
    run.parallel(jobs, 4 if not T else 3)
    return run.finish(ASSUME, rule="sources printed by TLC with the tokens of the specification and recorded scans of random, "
                      "mutated and repository sources; non-trivial: at least one token before the end of input; "
                      "distinct: different sequences of token kinds")


CHECKS = {p: (check, "model_checking") for p in ("C01", "C02", "C03")}
