"""C06-C10: the filter."""
import json, random
import gen, vlib
from gen import S

FILTER_MC = """SPECIFICATION Spec
CONSTANTS Workers = {%s}
 NRules = %d
 MaxMsgs = %d
 MaxLines = %d
INVARIANTS AtMostOnce RightPlace InOrder Together Accounting
PROPERTIES Monotone EventuallyQuiet
CHECK_DEADLOCK FALSE
"""


def model(c):
    c.mc("Filter", FILTER_MC % ("w1, w2", 1, 2, 2), timeout=800, label="Filter (2 workers, 1 rule, 2 messages of 2 lines)")
    if c.thorough:
        c.mc("Filter", FILTER_MC % ("w1, w2", 2, 2, 2), timeout=800, label="Filter (2 workers, 2 rules, 2 messages of 2 lines)")
        c.mc("Filter", FILTER_MC % ("w1, w2, w3", 1, 3, 1), timeout=800, label="Filter (3 workers, 1 rule, 3 messages of 1 line)")


def run(c, scripts, what):
    return vlib.shards(c, "filter", "TraceFilter", scripts, what, show=lambda s: {k: (v if k != "msgs" else [m[:160] for m in v[:3]]) for k, v in s.items()})


def line_of(r, g, delta, kind=None):
    ins, outs = gen.near(delta)
    x = r.random()
    if x < 0.08:
        return g.bad()
    if x < 0.16:
        return g.odd()
    if x < 0.24:
        return g.line(ts=r.choice(gen.EXTREME))
    if x < 0.34:
        return g.line(ts="<%+d>" % r.choice(outs))
    if x < 0.6:
        return g.line()
    return g.line(ts="<%+d>" % r.choice(ins))


def scenario(r, mode="mixed"):
    delta = r.choice([60 * S, 600 * S, 3600 * S, 86400 * S])
    regex_ok = r.random() < 0.6
    g = gen.Lines(r, dup=0.0 if regex_ok else 0.15)
    nr = r.choice([0, 1, 2, 3, 3, 4, 6])
    types = ("basic", "tags", "regex", "negregex") if regex_ok else ("basic", "basic", "tags")
    subjects = None
    if r.random() < 0.25:
        subjects = [r.choice(["r0", "r1"]) for _ in range(nr)]
    rs = gen.rules(r, nr, subjects, types)
    if nr > 2 and r.random() < 0.5:
        rs[-1] = dict(rs[0], subject="last")     # a rule that can never be reached
    msgs = []
    for _ in range(r.choice([1, 3, 8, 20])):
        k = r.choice([1, 1, 2, 5, 12])
        m = "".join(line_of(r, g, delta) for _ in range(k))
        y = r.random()
        if y < 0.3 and m.endswith("\n") and not m.endswith("\r\n"):
            m = m[:-1]                               # unterminated last line
        elif y < 0.35:
            m = "\n" + m + "\n"
        msgs.append(m)
    return {"workers": r.choice([1, 1, 2, 3, 8]), "delta": str(delta), "rules": rs, "msgs": msgs,
            "pause": r.choice([0, 0, 1, 2]), "senders": r.choice([1, 1, 2]), "debug": r.random() < 0.2}


def big(r, nmsg, nlines, workers):
    """Many lines per message and many messages in flight."""
    g = gen.Lines(r)
    rs = [{"type": "basic", "match": "cpu", "tags": [], "subject": "r0"},
          {"type": "tags", "match": "", "tags": [["a", "1"]], "subject": "r1"},
          {"type": "basic", "match": "mem", "tags": [], "subject": "r2"},
          {"type": "basic", "match": "disk", "tags": [], "subject": "r0"}]
    msgs = []
    for _ in range(nmsg):
        msgs.append("".join(g.line(ts="<+0>", meas=r.choice(["cpu", "mem", "disk", "net"]), tags=r.choice([[], [("b", "2"), ("a", "1")], [("z", "q")]]))
                            for _ in range(r.randint(1, nlines))))
    return {"workers": workers, "delta": str(600 * S), "rules": rs, "msgs": msgs, "pause": 0, "senders": 3}


def C06(c):
    model(c)
    r = random.Random(c.seed)
    scripts = [scenario(r) for _ in range(400 if c.thorough else 50)]
    scripts += [big(r, 30, 15, w) for w in ((1, 2, 4, 8, 16) if c.thorough else (2, 8))]
    # large messages: more than the workers' buffers were made for
    g = gen.Lines(r)
    pad = "x" * 60
    scripts.append({"workers": 2, "delta": str(600 * S), "rules": [{"type": "basic", "match": "cpu", "tags": [], "subject": "r0"}],
                    "msgs": ["".join(g.line(meas=r.choice(["cpu", "mem"]), tags=[("p", pad)]) for _ in range(r.choice([1, 150, 300]))) for _ in range(4)]})
    # messages as large as the bus allows, which grow when tags are put into order and escaped
    for _ in range(6 if c.thorough else 2):
        scripts.append({"workers": 2, "delta": str(600 * S), "rules": [{"type": "basic", "match": "cpu", "tags": [], "subject": "r0"}],
                        "msgs": [grown(r, m) for m in ("cpu", "mem", "cpu")]})
    run(c, scripts, "filter")


def grown(r, meas, limit=1048576):
    out, total, k = [], 0, 0
    while total < limit:
        head, tail = '%s,z=ab==,a=%d f="' % (meas, k), '"\n'
        n = min(r.choice([9000, 26000, 60000]), limit - total - len(head) - len(tail) - r.choice([0, 1, 5]))
        if n < 64:
            break
        out.append("%s<*%d>%s" % (head, n, tail))
        total, k = total + len(head) + n + len(tail), k + 1
    return "".join(out)


def lookup_sets(r, n, nlines):
    out = []
    for i in range(n):
        g = gen.Lines(r, dup=0.2, weird=0.3)
        rs = gen.rules(r, r.choice([1, 1, 2, 4]))
        lines = []
        for _ in range(nlines):
            x = r.random()
            lines.append(g.bad() if x < 0.08 else g.odd() if x < 0.2 else g.line(ts=r.choice(["", "1500000000000000000"]), nl=r.choice(["\n", "\n", ""])))
        for x in rs:      # lines made for the rules
            if x["type"] == "basic":
                m = x["match"]
                for v in (m, m + "x", m[:-1] or "q", m.upper(), "x" + m, m + " "):
                    lines.append(g.line(meas=v, tags=[]))
                    lines.append(g.line(meas=v))
                lines.append(gen.esc(m, ", ") + "\n")
                lines.append(gen.esc(m, ", "))
            if x["type"] == "tags":
                t = [tuple(y) for y in x["tags"]]
                for v in (t, t[::-1], t[:-1], t + [("zz", "1")], [("0a", "1")] + t, [(k, w + "x") for k, w in t], [(k + "x", w) for k, w in t],
                          t + t, [(w, k) for k, w in t], [t[0]] * len(t)):
                    lines.append(g.line(tags=v, nl=r.choice(["", "\n"])))
                lines.append("m," + ",".join(gen.esc(k, ",= ") + "=" + gen.esc(w, ",= ") for k, w in t) + "\n")
        r.shuffle(lines)
        out.append({"rules": rs, "lines": lines, "par": r.choice([1, 4])})
    return out


def matching_cases():
    """Every line over a few items against every rule over the same items."""
    meas = ["a", "b", "aa", "a\\ b", "a\\,b", "a b"]
    pairs = [("k", "1"), ("k", "2"), ("l", "1"), ("1", "k"), ("k k", "1")]
    lines = []
    e = lambda s: gen.esc(s, ",= ")
    for m in meas[:5]:
        for i in range(len(pairs) + 1):
            for j in range(len(pairs) + 1):
                t = [pairs[x] for x in (i, j) if x < len(pairs)]
                for tail in ("", " f=1", " f=1\n", "\n"):
                    lines.append(m + "".join("," + e(k) + "=" + e(v) for k, v in t) + tail)
    lines = sorted(set(lines))
    rules = [{"type": "basic", "match": m, "tags": [], "subject": "s"} for m in ["a", "b", "aa", "a b", "a,b", "a\\ b", "a\\,b", "a(", "[a", "."]]
    for i in range(len(pairs)):
        rules.append({"type": "tags", "match": "", "tags": [list(pairs[i])], "subject": "s"})
        for j in range(len(pairs)):
            rules.append({"type": "tags", "match": "", "tags": [list(pairs[i]), list(pairs[j])], "subject": "s"})
    for t in ("regex", "negregex"):
        for re in ([gen.lit("a b")], [{"op": "bol"}, gen.lit("a"), {"op": "eol"}], [gen.lit("1"), {"op": "eol"}], [gen.lit("k=1")],
                   [{"op": "bol"}, gen.lit("a,k")], [gen.lit("f=1"), {"op": "eol"}], [gen.lit("\\")], [gen.lit("a,b")]):
            x = {"op": "seq", "args": re}
            rules.append({"type": t, "match": gen.regex_text(x), "re": x, "tags": [], "subject": "s"})
    return [{"rules": [x], "lines": lines} for x in rules]


def lookup(c, sets, what):
    src, out = c.path("lookup.json"), c.path("lookup.ndjson")
    open(src, "w").write("\n".join(json.dumps(s) for s in sets) + "\n")
    c.drive(["lookup", src, out], timeout=300)
    n = sum(len(s["lines"]) for s in sets)
    ok = c.judge("TraceLookup", out, what, traces=n, heap="6g")
    for s in sets[:2]:
        c.sample({"rules": s["rules"], "lines": s["lines"][:3]})
    return ok


def C07(c):
    r = random.Random(c.seed)
    c.mc("LineMC", LINE_MC, timeout=600)
    sets = matching_cases()
    if not c.thorough:
        for s in sets:
            s["lines"] = r.sample(s["lines"], 130)
    if not lookup(c, sets, "every small rule against small lines"):
        return
    if not lookup(c, lookup_sets(r, 500 if c.thorough else 60, 60), "rule sets and random lines"):
        return
    scripts = []
    for i in range(80 if c.thorough else 16):
        s = scenario(r)
        s["rules"] = gen.rules(r, r.choice([1, 2, 3]), types=("basic", "tags", "regex", "negregex") if i % 2 else ("regex", "negregex"))
        g = gen.Lines(r)
        s["msgs"] = ["".join(g.line() for _ in range(12)) for _ in range(3)]
        scripts.append(s)
    run(c, scripts, "filter, matching")


LINE_MC = """SPECIFICATION Spec
CONSTANTS Alphabet <- ParseAlphabet
 MaxLen = 4
 Emit = FALSE
INVARIANTS RoundTripTag RoundTripMeasurement TokenSplits UnescapeShrinks CanonSame
CHECK_DEADLOCK FALSE
"""


def C08(c):
    r = random.Random(c.seed)
    model(c)
    scripts = []
    for i in range(60 if c.thorough else 14):
        delta = [10 * S, 60 * S, 600 * S, 3600 * S, 86400 * S, 365 * 86400 * S, 200 * 365 * 86400 * S, 9 * 10 ** 18, 2 ** 63 - 1][i % 9]
        g = gen.Lines(r)
        ins, outs = gen.near(delta)
        msgs = []
        for _ in range(r.choice([2, 4])):
            m = ""
            for _ in range(10):
                x = r.random()
                if x < 0.35:
                    m += g.line(ts="<%+d>" % r.choice(ins if delta < 2 ** 60 else [0, 10 ** 18, -10 ** 18]))
                elif x < 0.65:
                    m += g.line(ts="<%+d>" % r.choice(outs) if delta < 2 ** 60 else r.choice(gen.EXTREME))
                elif x < 0.9:
                    m += g.line(ts=r.choice(gen.EXTREME), tags=r.choice([[], None]), meas=r.choice(["c", "a-rather-long-measurement-name"]))
                else:
                    m += r.choice([g.line(), g.bad(), g.odd()])
            msgs.append(m if r.random() < 0.6 else m[:-1])
        scripts.append({"workers": r.choice([1, 3]), "delta": str(delta), "rules": gen.rules(r, r.choice([0, 1]), types=("basic",)), "msgs": msgs})
    # the shortest lines that have a time
    for delta in (60 * S, 10 ** 18):
        ins, outs = gen.near(delta)
        msgs = []
        for k in range(12):
            x = r.choice([r.choice(["<%+d>" % (r.choice(outs)) if delta < 10 ** 18 else "-1000000000000000000", "999999999999999999", "100000000000000000", "-99999999999999999", "-100000000000000000", "-1000000000000000000"]), "<%+d>" % r.choice(ins)])
            msgs.append("".join("%s=%d %s\n" % (r.choice(["m f", "c f", "mm f"]), k % 10, y) for y in ([x, "1500000000000000000", x][k % 3:])) )
            if k % 2:
                msgs[-1] = msgs[-1][:-1]
        scripts.append({"workers": 1, "delta": str(delta), "rules": [{"type": "basic", "match": "m", "tags": [], "subject": "r0"}], "msgs": msgs})
    # many lines at a time, well within the window and well out of it
    for i in range(8 if c.thorough else 2):
        g = gen.Lines(r)
        delta = [60 * S, 86400 * S][i % 2]
        msgs = ["".join(g.line(ts="<%+d>" % (r.choice([1, -1]) * delta * r.choice([1, 2, 3, 3, 5, 5, 6]) // 4 + r.randrange(S)), meas="c") for _ in range(r.choice([70, 120]))) for _ in range(2)]
        scripts.append({"workers": [2, 1][i % 2], "delta": str(delta), "rules": gen.rules(r, 1, types=("basic",)), "msgs": msgs})
    # the window moves along with the clock
    for i in range(8 if c.thorough else 4):
        g = gen.Lines(r)
        delta, gap = 2 * S, 2600
        msgs = ["".join(g.line(ts="<%+d>" % x, tags=[]) for x in r.sample([0, -S, S, -3 * S, 3 * S, -2600 * S // 1000, 2700 * S // 1000, 5 * S, -5 * S, S // 2], 6)) for _ in range(4)]
        scripts.append({"workers": [1, 2][i % 2], "delta": str(delta), "gap": gap, "rules": gen.rules(r, r.choice([0, 1]), types=("basic",)), "msgs": msgs})
    run(c, scripts, "filter, time window")


def C09(c):
    r = random.Random(c.seed)
    c.mc("LineMC", LINE_MC, timeout=600)
    scripts = []
    for i in range(150 if c.thorough else 24):
        g = gen.Lines(r, dup=0.1)
        msgs = []
        for _ in range(4):
            m = []
            for _ in range(12):
                x = r.random()
                if x < 0.15:
                    m.append(g.odd())
                elif x < 0.2:
                    m.append(g.bad())
                elif x < 0.5:
                    t = g.tags(r.choice([2, 3, 5, 8]))
                    tail = g.fields()
                    base = gen.esc(r.choice(gen.MEAS), ", ")
                    for k in range(2):         # the same line with its tags in two orders
                        r.shuffle(t)
                        m.append(base + "".join("," + gen.esc(a, ",= ") + "=" + gen.esc(b, ",= ") for a, b in t) + " " + tail + " <+0>\n")
                else:
                    m.append(g.line(ts=r.choice(["", "<+0>", "<-1000000000>"]), tags=g.tags(r.choice([0, 1, 2, 2, 3, 7]))))
            r.shuffle(m)
            m = "".join(m)
            msgs.append(m if r.random() < 0.5 else m.rstrip("\r\n"))
        scripts.append({"workers": r.choice([1, 4]), "delta": str(600 * S), "rules": gen.rules(r, r.choice([0, 1, 2]), types=("basic", "tags")), "msgs": msgs})
    run(c, scripts, "filter, tag order")


def C10(c):
    model(c)
    r = random.Random(c.seed)
    scripts = [scenario(r) for _ in range(200 if c.thorough else 24)]
    scripts += [big(r, 60, 25, w) for w in ((1, 2, 4, 8, 16) if c.thorough else (4, 8))]
    for i in range(3):       # equal subjects, rules never triggered, many rules
        s = scenario(r)
        s["rules"] = gen.rules(r, 12, ["r%d" % (k % (i + 2)) for k in range(12)], types=("basic", "tags"))
        scripts.append(s)
    for _ in range(3 if c.thorough else 1):
        scripts.append({"workers": 2, "delta": str(600 * S), "rules": [{"type": "basic", "match": "cpu", "tags": [], "subject": "r0"}],
                        "msgs": [grown(r, m, n) for m, n in (("cpu", 100000), ("mem", 1048576), ("cpu", 1048576), ("cpu", 50000))]})
    run(c, scripts, "filter, accounting")
