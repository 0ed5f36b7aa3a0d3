"""C26 parsing and escaping, C27 timestamps, C05 splitting."""
import json, random, re


def cases_of(out):
    return [json.loads(json.loads(x)) for x in re.findall(r'^<<"CASE", (".*")>>$', out, re.M)]


LINE_MC = """SPECIFICATION Spec
CONSTANTS Alphabet <- %s
 MaxLen = %d
 Emit = %s
INVARIANTS RoundTripTag RoundTripMeasurement RoundTripQuoted TokenSplits UnescapeShrinks CanonSame EmitCase
CHECK_DEADLOCK FALSE
"""


def pure(c, cases, what):
    """Run the cases through the real functions and let TLC judge the results."""
    seen, uniq = set(), []
    for x in cases:
        k = json.dumps(x, sort_keys=True)
        if k not in seen:
            seen.add(k)
            uniq.append(k)
    n = 12000
    for i in range(0, len(uniq), n):
        part = uniq[i:i + n]
        src, out = c.path("cases.json"), c.path("pure.ndjson")
        open(src, "w").write("\n".join(part) + "\n")
        c.drive(["pure", src, out])
        if not c.judge("TracePure", out, "%s (calls %d-%d)" % (what, i + 1, i + len(part)), traces=len(part)):
            return
    for k in random.Random(c.seed).sample(uniq, min(5, len(uniq))):
        c.sample(k)


def rstr(r, alphabet, lo, hi):
    return "".join(r.choice(alphabet) for _ in range(r.randint(lo, hi)))


def C26(c):
    r = random.Random(c.seed)
    n = 5 if c.thorough else 4
    o = c.mc("LineMC", LINE_MC % ("ParseAlphabet", n, "TRUE"), timeout=800)
    strings = cases_of(o)
    cases = []

    def add(s):
        cases.append({"op": "ParseTags", "s": s})
        cases.append({"op": "ParseTags", "s": "m," + s})
        cases.append({"op": "Token", "s": s, "until": ", "})
        cases.append({"op": "Token", "s": s, "until": "= ,"})
        cases.append({"op": "TokenEscaped", "s": s, "until": ", "})
        cases.append({"op": "QuotedString", "s": s})
        cases.append({"op": "QuotedString", "s": '"' + s})
        for op in ("EscapeTag", "EscapeMeasurement", "EscapeQuoted", "Unescape"):
            cases.append({"op": op, "s": s})

    def roundtrip(s, tags):
        if "\\" not in s + "".join(k + v for k, v in tags):
            cases.append({"op": "RoundTrip", "s": s, "tags": tags})
    short = [s for s in strings if len(s) <= (4 if c.thorough else 3)]
    for s in strings:
        if len(s) <= 3 or c.thorough or r.random() < 0.25:
            add(s)
    for s in short:
        roundtrip(s, [])
        if s:
            roundtrip("m", [[s, "v"]])
            roundtrip("m", [["k", s], [s, s]])
    for _ in range(8000 if c.thorough else 1500):
        a = r.choice(["ab,= \\\"", "abc,=\\ \n", "xy,= ", "k=v, \\\"f1.#%~^"[:14], "a,=\\"])
        s = rstr(r, a, 0, r.choice([8, 20, 60]))
        add(s)
        tags = [[rstr(r, "ab,= \"", 1, 6), rstr(r, "ab,= \"'", 1, 8)] for _ in range(r.randint(0, 7))]
        roundtrip(rstr(r, "mn,= \"", 0 if not tags else 1, 8), tags)
    # many tags, long items
    for n in (1, 2, 8, 9, 30):
        roundtrip("meas", [["key%d%s" % (i, " ," * i), "=" * (i + 1)] for i in range(n)])
        add("m," + ",".join("k%d=v\\,%d" % (i, i) for i in range(n)) + " f=1,g=\"x y\" 123")
    for _ in range(1500 if c.thorough else 400):
        pool = [[rstr(r, "ab", 1, 1), rstr(r, "xy", 1, 1)] for _ in range(4)]
        cases.append({"op": "Subset", "s": "", "tags": [r.choice(pool) for _ in range(r.randint(0, 3))],
                      "other": [r.choice(pool) for _ in range(r.randint(0, 5))]})
    pure(c, cases, "parsing and escaping")
    c.assumptions.append("strings longer than %d characters are sampled; bytes outside ASCII are treated like letters" % n)


EDGE = [0, 1, 9, 10, 11, 99, 100, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 53, 2 ** 62, 2 ** 63 - 3, 2 ** 63 - 2, 2 ** 63 - 1,
        2 ** 63, 2 ** 63 + 1, 2 ** 64 - 1, 2 ** 64, 2 ** 64 + 1, 2 ** 65, 10 ** 18, 10 ** 19 - 1, 10 ** 19, 10 ** 20, 10 ** 24,
        1500000000, 1500000000000, 1500000000000000, 1500000000000000000, 3 * 2 ** 64 + 7]
MULT = {"": 1, "n": 1, "ns": 1, "u": 10 ** 3, "ms": 10 ** 6, "s": 10 ** 9, "m": 60 * 10 ** 9, "h": 3600 * 10 ** 9, "x": 1}


def C27(c):
    r = random.Random(c.seed)
    c.mc("DecMC", "SPECIFICATION Spec\nCONSTANT N = %d\nINVARIANT Arithmetic\nCHECK_DEADLOCK FALSE\n" % (60 if c.thorough else 25), timeout=800)
    o = c.mc("LineMC", LINE_MC % ("StampAlphabet", 5 if c.thorough else 4, "TRUE"), timeout=800)
    cases = []

    def stamp(s):
        cases.append({"op": "ExtractTimestamp", "s": s})
        cases.append({"op": "ExtractNanos", "s": s})
    for s in cases_of(o):
        stamp(s)
        stamp("m f=1" + s)
        cases.append({"op": "ToInt", "s": s})
    ints = set()
    for e in EDGE:
        for d in (-2, -1, 0, 1, 2):
            ints.update((e + d, -(e + d)))
    for p, m in MULT.items():
        for lim in (2 ** 63 - 2, 2 ** 63 - 1, 2 ** 63, 2 ** 64):
            for d in (-1, 0, 1):
                ints.update((lim // m + d, -(lim // m) + d))
    for _ in range(600 if c.thorough else 200):
        ints.add(r.choice((1, -1)) * r.randrange(10 ** r.randint(1, 22)))
    for i in sorted(ints):
        t = str(i)
        for s in (t, "0" + t, t + " ", "+" + t, t + "x", "-" + t, t + "0", "00000" + t):
            cases.append({"op": "ToInt", "s": s})
        for pre in ("m f=1 ", "m,a=b f=1i ", "m f=1  ", "m ", "m f=\"a b\" ", "m f="):
            for post in ("", "\n", "\r\n", " \n", "\n\n"):
                if r.random() < 0.4:
                    stamp(pre + t + post)
        if -2 ** 63 <= i < 2 ** 63:
            for p in MULT:
                cases.append({"op": "Calc", "s": t, "prec": p})
    for _ in range(4000 if c.thorough else 800):
        stamp(rstr(r, "01 -9", 0, 28))
        stamp("m f=1 " + rstr(r, "0123456789", 15, 23) + r.choice(["", "\n"]))
        cases.append({"op": "ToInt", "s": rstr(r, "0123456789", 0, 24)})
        cases.append({"op": "ToInt", "s": "-" + rstr(r, "0123456789-", 17, 22)})
    pure(c, cases, "timestamps")


SPLIT_MC = "SPECIFICATION Spec\nCONSTANT MaxLen = %d\nINVARIANTS NeverTooLong Correct\nPROPERTY Terminates\nCHECK_DEADLOCK FALSE\n"


def split_cases(c, r):
    cases = []
    n = 11 if c.thorough else 9
    for ln in range(0, n + 1):
        for bits in range(2 ** ln):
            if ln > 7 and r.random() > 0.25:
                continue
            s = "".join("\n" if bits >> i & 1 else "x" for i in range(ln))
            for mx in range(1, ln + 2):
                cases.append({"op": "Split", "s": s, "max": mx})
    r.shuffle(cases)
    cases = cases[:60000 if c.thorough else 6000]
    for _ in range(400 if c.thorough else 120):
        mx = r.choice([1, 5, 64, 300])
        s = ""
        while len(s) < mx * 4:
            s += "y" * max(0, r.choice([mx - 2, mx - 1, mx, mx + 1, r.randint(0, mx), r.randint(0, 2 * mx + 1)])) + "\n"
        cases.append({"op": "Split", "s": s[:r.randint(len(s) - 3, len(s))], "max": mx})
    return cases


def C05(c):
    r = random.Random(c.seed)
    c.mc("SplitMC", SPLIT_MC % (9 if c.thorough else 7), timeout=800)
    pure(c, split_cases(c, r), "splitter")
    import listening
    listening.run(c, listening.big_bodies(c, r), "large bodies at the HTTP listener")
    import downsampling
    downsampling.live(c, [downsampling.large(r) for _ in range(6 if c.thorough else 2)], "large periods at the downsampler")
    import writing
    writing.run(c, writing.pieces(c, r), "large batches at the writer")
