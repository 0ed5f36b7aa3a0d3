"""Random inputs shared by the checks (seeded; the judging is TLC's)."""

S = 10 ** 9
MEAS = ["cpu", "mem", "disk", "creamwove", "quists", "cpu337111830", "cpu563230956", "c", "cpu0", "a b", "a,b", "a=b", "x y,z", "m%d", "hello", "cpu(", "c.u", "[m*"]
KEYS = ["a", "aa", "ab", "b", "host", "dc", "k k", "k,", "k=", "z", "Z", "_x", "0", "h.st", "k["]
VALS = ["1", "x", "server01", "a b", "a,b", "a=b", "x=", "v", "%s", "long-value-0123456789", "server.1", "(v"]


def esc(s, cs):
    return "".join("\\" + c if c in cs else c for c in s)


class Lines:
    """Lines with a unique field each."""

    def __init__(self, r, meas=None, keys=None, vals=None, dup=0.0, weird=0.1):
        self.r, self.n = r, 0
        self.meas, self.keys, self.vals = meas or MEAS, keys or KEYS, vals or VALS
        self.dup, self.weird = dup, weird

    def tags(self, n=None):
        r = self.r
        n = r.choice([0, 0, 1, 1, 2, 2, 3, 4, 6]) if n is None else n
        ks = r.sample(self.keys, min(n, len(self.keys)))
        if r.random() < 0.3:
            ks.sort(key=lambda k: k.encode())
        if ks and r.random() < self.dup:
            ks.append(r.choice(ks))
        return [(k, r.choice(self.vals)) for k in ks]

    def fields(self):
        r = self.r
        self.n += 1
        f = "n=%di" % self.n
        x = r.random()
        if x < 0.2:
            f += ',s="%s"' % r.choice(["a b", "a,b=c", "x \\\"y\\\" z", "", "a\\\\", "= , "])
        elif x < 0.3:
            f += ",v=1.5,w=t"
        return f

    def line(self, ts="", meas=None, tags=None, nl="\n"):
        r = self.r
        m = r.choice(self.meas) if meas is None else meas
        t = self.tags() if tags is None else tags
        ms = esc(m, ", ")
        if "=" in m and r.random() < 0.5:
            ms = esc(m, ", =")
        out = ms
        for k, v in t:
            ve = esc(v, ",= ")
            if "=" in v and r.random() < 0.4:
                ve = esc(v, ", ")          # an equals sign need not be escaped in a value
            out += "," + esc(k, ",= ") + "=" + ve
        out += " " + self.fields()
        if ts:
            out += " " + ts
        return out + nl

    def bad(self):
        r = self.r
        self.n += 1
        return r.choice(["m%d,a f=1\n", "m%d,=x f=1\n", "m%d,a= f=1\n", "m%d,a=1,,b=2 f=1\n", "m%d,a=1, f=1\n", "m%d,a\\=1 f=1\n",
                         "cpu,a=1,b,n=%d f=1\n", "m%d,a=1,\n", "m%d,\n"]) % self.n

    def odd(self):
        """Well-formed for the filter but unusual."""
        r = self.r
        self.n += 1
        return r.choice(["m%d\n", "m%d,b=1,a=2\n", "m%d,a=1,b=2\n", "m%d f=1\r\n", "m%d  f=1\n", "m%d \n", " f=%d\n", ",t=%d f=1\n",
                         "m%d,b=\\\"1,a=2 f=1\n", "m%d,b=x\\=y,a=\\,\\, f=1\n", "m\\%d,b=1,a=2 f=1\n", "m%d,z=1,a=b=c f=1\n",
                         "m%d,zz=\t,b=; f=\"multi word\"\n", "# m%d,b=1 f=1\n", "#m%d,b=1,a=2 f=1\n"]) % self.n


def near(delta):
    """Offsets clearly inside and clearly outside the window."""
    m = min(delta // 2, 5 * S)
    ins = [0, 1, -1, delta - m, -(delta - m), delta // 2, -delta // 2]
    outs = [delta + 5 * S, -(delta + 5 * S), 2 * delta + 10 * S, -(2 * delta + 10 * S), delta + 3600 * S]
    return ins, outs


EXTREME = ["0", "-1", "1", "-2", "9223372036854775807", "9223372036854775806", "-9223372036854775808", "9223372036854775808",
           "18446744073709551616", "-9223372036854775809", "1e9", "1500000000", "1500000000000", "9999999999999999999", "00000001500000000000000000",
           "-1500000000000000000", "1500000000000000000", "12345678901234567x", "+1500000000000000000", "1600000000000000000 ", "4611686018427387904"]


# ------------------------------------------------------------- expressions
def lit(s):
    return {"op": "seq", "args": [{"op": "lit", "c": c} for c in s]} if len(s) != 1 else {"op": "lit", "c": s}


def regex_text(x):
    op = x["op"]
    if op == "lit":
        return ("\\" if x["c"] in "\\.+*?()|[]{}^$" else "") + x["c"]
    if op == "any":
        return "."
    if op == "cls":
        return "[" + ("^" if x["neg"] else "") + "".join(("\\" if c in "\\]^-[" else "") + c for c in x["cs"]) + "]"
    if op == "seq":
        return "".join("(?:%s)" % regex_text(a) if a["op"] == "alt" else regex_text(a) for a in x["args"])
    if op == "alt":
        return "|".join(regex_text(a) for a in x["args"])
    if op in ("opt", "star", "plus"):
        return "(?:%s)%s" % (regex_text(x["args"][0]), {"opt": "?", "star": "*", "plus": "+"}[op])
    return {"bol": "^", "eol": "$"}[op]


def regex(r, words):
    """A random expression related to the given words."""
    def atom(d):
        k = r.random()
        if k < 0.5:
            w = r.choice(words)
            a = r.randrange(len(w))
            return lit(w[a:a + r.randint(1, 5)])
        if k < 0.6:
            return {"op": "any"}
        if k < 0.7:
            return {"op": "cls", "cs": sorted(r.sample("abcmpu01 ,=xyz", r.randint(1, 4))), "neg": r.random() < 0.3}
        if d > 1:
            return lit(r.choice("abcm0="))
        if k < 0.85:
            return {"op": r.choice(["opt", "star", "plus"]), "args": [atom(d + 2)]}
        return {"op": "alt", "args": [atom(d + 1), atom(d + 1)]}
    args = [atom(0) for _ in range(r.randint(1, 3))]
    if r.random() < 0.35:
        args.insert(0, {"op": "bol"})
    if r.random() < 0.3:
        args.append({"op": "eol"})
    return {"op": "seq", "args": args}


def rules(r, n, subjects=None, types=("basic", "tags", "regex", "negregex"), subject=True, meas=MEAS, keys=KEYS, vals=VALS):
    out = []
    for i in range(n):
        t = r.choice(types)
        x = {"type": t, "match": "", "tags": [], "subject": (subjects[i] if subjects else "r%d" % i) if subject else ""}
        if t == "basic":
            x["match"] = r.choice(meas)
        elif t == "tags":
            x["tags"] = [[r.choice(keys), r.choice(vals)] for _ in range(r.choice([1, 1, 1, 2, 3]))]
        else:
            x["re"] = regex(r, [m for m in meas if m.isascii()] + ["n=1", "n=2", "host=server01", "i", "n=1i", " n="])
            x["match"] = regex_text(x["re"])
        out.append(x)
    return out
