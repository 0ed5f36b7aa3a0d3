"""C32: the tap."""
import base64, random
import gen, vlib

BYTES = bytes(range(256))


def script(r, thorough):
    subject = r.choice(["", "s", "a.b", "spout.*", "all.>"])
    here = {"": ["influx-spout"], "s": ["s"], "a.b": ["a.b"], "spout.*": ["spout.x", "spout.y"], "all.>": ["all.x", "all.y.z"]}[subject]
    away = ["other", "influx-spout-junk", "spout", "a", "a.b.c", "S"]
    s = {"subject": subject, "expr": "", "pause": r.choice([0, 0, 0, 100]), "steps": []}
    g = gen.Lines(r)
    if r.random() < .65:
        while not s["expr"]:
            s["ast"] = gen.regex(r, gen.MEAS + ["n=1", "host", "%d", " "])
            s["expr"] = gen.regex_text(s["ast"])
    big = not s["expr"] and r.random() < .3

    def line():
        k = r.random()
        if k < .7:
            return g.line(nl="")
        if k < .8:
            return ""
        if k < .9:
            return r.choice(["%", "%d%s%!v", "%%", "\\n", "\t", " ", "\r", "cpu\r", "100% x=1", "%n" * 3, "x%"])
        return "".join(r.choice(" ,=abcm0%\\\"") for _ in range(r.randint(1, 12)))
    for _ in range(r.choice([3, 10, 25]) * (3 if thorough else 1)):
        if s["expr"] or r.random() < .8:
            d = "".join(line() + "\n" for _ in range(r.choice([0, 1, 1, 2, 5, 8])))
            if r.random() < .25:
                d = d[:-1] if d and r.random() < .5 else d + line()
            d = d.encode()
        elif big:
            d = bytes(r.choice(b"abcdefgh \n") for _ in range(r.choice([4096, 70000])))
        else:
            d = bytes(r.choice(BYTES) for _ in range(r.randint(1, 40))) + r.choice([b"", b"\n"])
        near = r.random() < .85
        s["steps"].append({"subject": r.choice(here if near else away), "data": base64.b64encode(d).decode(), "here": near, "gap": r.choice([0, 0, 0, 0, 0, 3])})
    return s


def C32(c):
    c.mc("TapMC", "SPECIFICATION Spec\nCONSTANT MaxMsgs = %d\nINVARIANTS InOrder Whole OnlyHits\nCHECK_DEADLOCK FALSE\n" % (3 if c.thorough else 2))
    c.mc("TapMC", "SPECIFICATION Spec\nCONSTANT MaxMsgs = 2\nPROPERTIES Printed\nCHECK_DEADLOCK FALSE\n")
    r = random.Random(c.seed)
    tap = c.build_bin("influx-spout-tap")
    vlib.shards(c, "tap", "TraceTap", [script(r, c.thorough) for _ in range(400 if c.thorough else 90)], "the tap", per=67 if c.thorough else 15, par=6, env={"VERIF_TAP": tap},
                show=lambda s: {"subject": s["subject"], "expression": s["expr"], "first": base64.b64decode(s["steps"][0]["data"]).decode("latin-1")[:200]})
