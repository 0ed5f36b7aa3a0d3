"""C19, C20: the monitor."""
import json, random
import vlib

MODEL = """SPECIFICATION Spec
CONSTANTS Keys = {k1, k2}
 Values = {1, 2}
 MaxMsgs = %d
 Readers = {%s}
 Slow = {r2}
INVARIANTS Prefix Latest
%s
CHECK_DEADLOCK FALSE
"""


def model(c):
    c.mc("Monitor", MODEL % (2, "r1, r2", "PROPERTIES Progress Answered"), label="Monitor (2 messages, a quick and a slow client)")
    if c.thorough:
        c.mc("Monitor", MODEL % (3, "r1, r2", "PROPERTIES Progress Answered"), label="Monitor (3 messages, a quick and a slow client)", timeout=850)


def run(c, scripts, what, par=4):
    def show(s):
        return {k: (v if k != "ops" else [json.dumps(o)[:120] for o in v[:4]]) for k, v in s.items()}
    return vlib.shards(c, "monitor", "TraceMonitor", scripts, what, show=show, par=par)


NAMES = ["a", "ab", "a_b", "A", "received", "lines", "z9", "x:y"]
LABELS = ["b", "a", "c", "component", "le", "Z", "a1"]
VALUES = ["x", "y", "", "a b", "a,b", "a=b", "{", "}", "=", "x}y", "0", "/p.q*", "a\\n", "host-1"]
NUMBERS = ["0", "1", "-1", "12345", "9223372036854775807", "-9223372036854775808", "42", "100"]
STAMPS = ["", "", " 0", " 1", " 1500000000000", " -5", " 9223372036854775807", " 1500000000001"]


def render(r, key):
    """A well-formed metric of this name and labels, these in any order."""
    name, ls = key
    ls = r.sample(ls, len(ls))
    b = "{%s}" % ",".join('%s="%s"' % x for x in ls) if ls else r.choice(["", "", "{}"])
    return name + b + " " + r.choice(NUMBERS) + r.choice(STAMPS)


def newkey(r):
    ls = r.sample(LABELS, r.choice([0, 1, 1, 2, 2, 3, 5, 7]))
    return r.choice(NAMES), [(x, r.choice(VALUES[:4] if r.random() < .8 else VALUES)) for x in ls]


def metric(r):
    return render(r, newkey(r))


BAD = ["a", "a ", "a 1 2 3", "a x", "a 1.5", "a{", "a{}", "a{b}", 'a{b="c} 1', 'a{b="c"', 'a{b="c"}', 'a{b="c"} ', 'a{b="c"} x', 'a{b="c"}1',
       'a{b="c"x="y"} 1', 'a{b="c",} 1', 'a{="c"} 1', 'a{b=c} 1', "{} 1", " 1", "{a=\"b\"} 1", "a 9223372036854775808", "a 1 x", "a 1 ",
       "a  1", "a -", "a 1 -", "a +1", "a 1\r", "# HELP a b", "}{", "a 0x10", "\x00", "\xff\xfe", 'a{b="c"} 1 1500000000000 ', "%s%d%n", "a 1 9223372036854775808",
       'a{b="c",d="e} 1', 'a{b="', 'a{b=', 'a{b', "a{,} 1", "- ", "a -9223372036854775809"]


def message(r, keys, bad):
    ls = []
    for _ in range(r.choice([1, 1, 2, 4])):
        if keys and r.random() < .6:
            ls.append(render(r, r.choice(keys)))
        else:
            keys.append(newkey(r))
            ls.append(render(r, keys[-1]))
    if bad > .3 and r.random() < .1:    # many good lines before a bad one
        for _ in range(r.choice([10, 30])):
            keys.append(newkey(r))
            ls.append(render(r, keys[-1]))
        ls.insert(r.randint(len(ls) - 4, len(ls)), r.choice(BAD))
    if r.random() < bad:
        ls.insert(r.randint(0, len(ls)), r.choice(BAD))
        if r.random() < .3:
            ls.insert(r.randint(0, len(ls)), "".join(chr(r.choice([0, 9, 13, 32, 34, 44, 49, 61, 97, 123, 125, 255])) for _ in range(r.randint(1, 12))))
    if r.random() < .15:
        ls.insert(r.randint(0, len(ls)), "")
    s = "\n".join(ls) + r.choice(["\n", "\n", "", "\n\n"])
    return [s]


def scripts(c, r, n, bad):
    out = []
    for i in range(n):
        keys, ops = [], []
        step = i % 2 == 0
        for _ in range(r.choice([3, 8, 20])):
            ops.append({"pub": message(r, keys, bad), "pause": 0 if step else r.choice([0, 0, 0, 1, 5])})
            if step and r.random() < .5:
                ops.append({"settle": True})
        s = {"ops": ops, "readers": 0 if step else r.choice([1, 3, 6]), "gets": 8, "filler": 0, "stalled": 0}
        out.append(s)
    return out


def texts(c, r):
    out = list(BAD)
    for _ in range(300 if c.thorough else 60):
        key = newkey(r)
        m = render(r, key)
        out.append(m)
        out += [m[:k] for k in range(len(m))]
        for _ in range(20):
            k = r.randrange(len(m))
            ch = r.choice(" {}\",=\\0a-\t~")
            out.append(r.choice([m[:k] + ch + m[k:], m[:k] + ch + m[k + 1:], m[:k] + m[k + 1:]]))
        out.append("\n".join([m, metric(r), render(r, key)]) + "\n")
    for _ in range(6000 if c.thorough else 1200):
        out.append("".join(r.choice('ab{}="," 1-') for _ in range(r.randint(0, 12))))
    if True:    # every short string over the significant characters
        al = 'a{}=" 1,'
        from itertools import product
        for n in range(0, 5 if c.thorough else 4):
            out += ["".join(p) for p in product(al, repeat=n)]
        out += ['a{b="c"' + "".join(p) for p in product('a}=" 1,', repeat=3)]
    return sorted(set(x for x in out if len(x) < 250))


def pure(c, r):
    t = texts(c, r)
    n = 12000
    for i in range(0, len(t), n):
        src, out = c.path("texts.json"), c.path("texts.ndjson")
        open(src, "w").write("\n".join(json.dumps([x]) for x in t[i:i + n]) + "\n")
        c.drive(["metrics", src, out])
        if not c.judge("TraceMonitor", out, "metric parser", traces=len(t[i:i + n])):
            return


def C19(c):
    model(c)
    r = random.Random(c.seed)
    ss = scripts(c, r, 200 if c.thorough else 48, 0.1)
    for x in range(4 if c.thorough else 1):
        s = scripts(c, r, 2, 0.1)[1]
        s.update(filler=9000, stalled=r.choice([1, 3]), gets=2, readers=1)
        ss.append(s)
    vlib.parallel(lambda: run(c, ss, "monitor"), lambda: pure(c, r))


def C20(c):
    model(c)
    r = random.Random(c.seed)
    vlib.parallel(lambda: run(c, scripts(c, r, 200 if c.thorough else 60, 0.6), "monitor"), lambda: pure(c, random.Random(c.seed + 1)))
