"""C01-C04: the listeners. (C05 uses listeners, too.)"""
import json, random
import gen, vlib

MODEL = """SPECIFICATION Spec
CONSTANTS Clients = {a, b}
 MaxReq = 2
 Sizes = {%s}
 MaxCount = 3
 MaxSize = %d
 Datagram = 1
 MaxAge = %d
 Late = 1
 MaxTime = %d
 Staller = b
INVARIANTS Once Contiguous NothingLost NeverJoined InOrder Confirmed AfterConfirmed Prompt
PROPERTIES NotEarly EventuallySent
CHECK_DEADLOCK FALSE
"""


def model(c):
    c.mc("Listener", MODEL % ("2", 6, 2, 3), label="Listener (2 clients, 2 bodies each of 2 lines)")
    if c.thorough:
        c.mc("Listener", MODEL % ("1, 2", 5, 1, 2), label="Listener (2 clients, 2 bodies each of 1-2 lines)", timeout=800)


def run(c, scripts, what, par=4):
    def show(s):
        return {k: (v if k != "clients" else [[json.dumps(o)[:120] for o in x[:3]] for x in v[:2]]) for k, v in s.items()}
    return vlib.shards(c, "listen", "TraceListener", scripts, what, show=show, par=par)


SEQ = [0]


def datagram(r, big=0.15, binary=0.2, maxlen=65507):
    """Content of one datagram or body; recognisable."""
    SEQ[0] += 1
    tag = "d%d" % SEQ[0]
    x = r.random()
    if x < big:
        n = r.choice([1000, 8000, 30000, 60000, maxlen - len(tag) - 2, maxlen - len(tag) - 1, maxlen - len(tag)])
        out = [tag, ["x", n]]
        return out if r.random() < 0.5 or n + len(tag) + 1 > maxlen else out + ["\n"]
    if x < big + binary:
        return [tag + "".join(chr(r.randrange(256)) for _ in range(r.randint(0, 40)))]
    if x < big + binary + 0.1:
        return [r.choice(["\n", "\n\n", "\r\n", " ", tag + "\n\n" + tag + "\n", "\n" + tag, tag + "\r\n", tag + " \n", "\x00", "\n\x00\n"])]
    k = r.choice([1, 1, 2, 5])
    t = "".join("%s.%d,a=b f=%d 15%017d\n" % (tag, i, i, r.randrange(10 ** 17)) for i in range(k))
    return [t if r.random() < 0.5 else t[:-1]]


def size_of(data):
    return sum(len(x) if isinstance(x, str) else x[1] for x in data)


SIZES = [10, 60000, 65536, 65537, 65600, 66000, 70000, 100000, 131072, 200000, 1048576]


def C01(c):
    model(c)
    r = random.Random(c.seed)
    scripts = []
    for i in range(150 if c.thorough else 36):
        ops = [{"data": datagram(r, big=r.choice([0.05, 0.5])), "pause": r.choice([0] * 8 + [1, 30])} for _ in range(r.choice([1, 5, 20, 60]))]
        if r.random() < 0.3:
            ops.insert(r.randrange(len(ops)), {"data": []})        # an empty datagram
        cl = [ops]
        if i % 6 == 5:       # several senders
            cl = [[{"data": datagram(r, big=0.05)} for _ in range(20)] for _ in range(3)]
        scripts.append({"kind": "udp", "count": r.choice([1, 2, 3, 10, 50, 1000]), "size": r.choice(SIZES), "age": r.choice([1, 100, 400]), "clients": cl})
    # the batch grows step by step
    for size in (65536, 70000, 140000) if not c.thorough else (65536, 65537, 70000, 100000, 131072, 140000, 300000):
        ops = [{"data": ["g%d" % k, ["y", 65507 - len("g%d" % k)]]} for k in range(6)] + [{"data": ["s%d" % k]} for k in range(6)]
        r.shuffle(ops)
        scripts.append({"kind": "udp", "count": 1000, "size": size, "age": 300, "clients": [ops]})
    # many small ones filling it up to the last byte
    ops = []
    for k in range(40):
        ops.append({"data": ["f%d" % k, ["z", r.choice([1000, 3000, 65400])], r.choice(["", "\n"])]})
    scripts.append({"kind": "udp", "count": 1000, "size": 1048576, "age": 500, "clients": [ops]})
    run(c, scripts, "UDP listener")
    c.assumptions.append("datagrams the kernel drops before the listener sees them do not count; such scenarios are repeated")


def body(r, nlines=None):
    return datagram(r, big=0.1, binary=0.1, maxlen=r.choice([65507, 300000]))


def http_op(r, prec="", data=None, stall=0.15):
    op = {"data": data if data is not None else body(r), "prec": prec, "chunk": r.random() < 0.4}
    n = size_of(op["data"])
    if r.random() < stall and n > 1:
        op["pieces"] = sorted(r.sample(range(1, min(n, 50)), min(r.choice([1, 2]), min(n, 50) - 1)))
        op["stall"] = r.choice([1, 20, 120])
    if r.random() < 0.3:
        op["pause"] = r.choice([1, 10, 60])
    return op


def C02(c):
    model(c)
    r = random.Random(c.seed)
    scripts = []
    for i in range(160 if c.thorough else 40):
        n = r.choice([1, 2, 4, 8])
        cl = [[http_op(r, prec=r.choice(["", "", "ns"])) for _ in range(r.choice([3, 8, 15]))] for _ in range(n)]
        if i % 3 == 0:       # a client that stalls while the others go on
            o = http_op(r, data=["stalled%d,a=b f=1\nxyz f=2" % i], stall=0)
            o.update(pieces=[r.choice([1, 9, 19])], hold=True)
            cl.append([o])
        if i % 4 == 1:       # one that goes away in the middle
            o = http_op(r, data=["aborted%d,a=b f=1\nxyz f=2\n" % i], stall=0)
            o.update(pieces=[r.choice([1, 9, 21])], abort=True, stall=r.choice([1, 30]), pause=r.choice([0, 20]))
            cl.append([o] + [http_op(r) for _ in range(3)])
        scripts.append({"kind": "http", "count": r.choice([1, 2, 3, 10, 1000]), "size": r.choice(SIZES), "age": r.choice([10, 50, 300]), "clients": cl})
    # many small unterminated bodies racing with each other and with age-triggered sends
    for i in range(6 if c.thorough else 3):
        cl = [[{"data": ["c%d.%d f=1" % (k, j) + r.choice(["", "", "\n", "\nsecond"])], "prec": ""} for j in range(25)] for k in range(10)]
        scripts.append({"kind": "http", "count": r.choice([3, 7, 1000]), "size": 1048576, "age": r.choice([3, 7, 20]), "clients": cl})
    for mb in (3, 17) if c.thorough else (17,):     # a very large body
        d = []
        for k in range(mb * 1048576 // 300000):
            d += ["L%d " % k, [r.choice("xy"), r.choice([300000, 299990])], "\n"]
        scripts.append({"kind": "http", "count": 1000, "size": 1048576, "age": 100, "clients": [[{"data": d, "prec": "", "chunk": r.random() < .5}], [http_op(r) for _ in range(10)]]})
    run(c, scripts, "HTTP listener")


PRECS = ["u", "ms", "s", "m", "h"]
UNIT = {"u": 10 ** 3, "ms": 10 ** 6, "s": 10 ** 9, "m": 60 * 10 ** 9, "h": 3600 * 10 ** 9}


def prec_line(r, prec, g):
    m = UNIT[prec]
    lim = 2 ** 63 // m
    x = r.random()
    if x < 0.35:
        ts = str(r.randrange(1, max(2, min(lim, 2 * 10 ** 18 // m + 10))))
    elif x < 0.5:
        ts = str(r.choice([1, -1]) * (lim + r.choice([-1, 0, 1, 2])))
    elif x < 0.6:
        ts = str(r.choice([1, -1]) * r.randrange(10 ** r.randint(1, 19)))
    elif x < 0.7:
        ts = r.choice(["", "0", "-0", "00012", "12x", "1.5", "+5", "1 ", " 1", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "99999999999999999999", "1500000000i", "-"])
    else:
        ts = str(1500000000 * 10 ** 9 // m + r.randrange(1000))
    f = g.fields()
    return "%s,q=%d %s%s\n" % (gen.esc(r.choice(gen.MEAS), ", "), SEQ[0], f, " " + ts if ts else "")


def prec_body(r, prec, g, nlines):
    out = []
    for _ in range(nlines):
        SEQ[0] += 1
        x = r.random()
        if x < 0.06:
            out.append("\n")
        elif x < 0.1:
            out.append(r.choice(["\r\n", "  \n", "m\n", "m %d\n" % r.randrange(10 ** 6), "q%d 5\n" % SEQ[0], "x 1\n"]))
        elif x < 0.14:
            out += ["long%d f=\"" % SEQ[0], [r.choice("ab "), r.choice([100, 70000, 65536, 200000])], "\" %d\n" % r.randrange(10 ** 10)]
        else:
            out.append(prec_line(r, prec, g))
    if isinstance(out[-1], str) and len(out[-1]) > 3 and r.random() < 0.4:
        out[-1] = out[-1][:-1]
    return out


def C03(c):
    r = random.Random(c.seed)
    c.mc("DecMC", "SPECIFICATION Spec\nCONSTANT N = 12\nINVARIANT Arithmetic\nCHECK_DEADLOCK FALSE\n")
    scripts = []
    for i in range(120 if c.thorough else 30):
        g = gen.Lines(r)
        cl = []
        for k in range(r.choice([1, 1, 3, 6])):
            ops = []
            for _ in range(r.choice([1, 3, 6])):
                p = PRECS[i % 5] if r.random() < 0.7 else r.choice(PRECS + ["", "ns", "n"])
                ops.append(http_op(r, p, prec_body(r, p, g, r.choice([1, 4, 12])) if p in UNIT else body(r), stall=0.2))
            cl.append(ops)
        scripts.append({"kind": "http", "count": r.choice([1, 5, 1000]), "size": r.choice(SIZES), "age": r.choice([10, 200]), "clients": cl})
    # bodies of many lines among many small ones without a last newline
    for i in range(6 if c.thorough else 2):
        cl = [[{"data": ["".join("p%d.%d.%d f=1 %d\n" % (k, j, x, 15 + x) for x in range(r.choice([20, 50])))], "prec": "s"} for j in range(3)] for k in range(3)]
        cl += [[{"data": ["q%d.%d f=1" % (k, j)], "prec": r.choice(["", "", "", "s"])} for j in range(30)] for k in range(8)]
        scripts.append({"kind": "http", "count": r.choice([1000, 17]), "size": 1048576, "age": 100, "clients": cl})
    # lines as long as the bus allows
    for p in ("s", "ms"):
        ops = [{"data": ["first f=1 5\n", "huge,a=b f=\"", [r.choice("xy"), n - 33], "\" 1500000000\n", "last f=2 6\n"], "prec": p} for n in (1000000, 1048576 - 9 * (p == "s") - 10)]
        scripts.append({"kind": "http", "count": 1, "size": 1048576, "age": 100, "clients": [ops]})
    run(c, scripts, "HTTP listener with precision")


def strict(r, kind, i):
    """One client, one unit after the other: what is sent when is determined."""
    x = i % 4
    count, size, age, tail, ops = 1000, 1048576, 3600000, 300, []
    terminated = lambda k: r.random() < 0.5
    if x == 0:         # by count
        count = r.choice([1, 2, 3, 5, 10])
        for k in range(r.randint(1, 4 * count + 1)):
            ops.append({"data": ["u%d.%d" % (i, k) + r.choice(["", "\n", "\nv=1\n", "\nv=1"])]})
    elif x == 1:       # by size, to the byte
        room = r.choice([100, 1000, 5000, 60000])
        size = 65536 + room
        left = room
        for k in range(r.choice([6, 14])):
            head = "u%d.%d" % (i, k)
            n = r.choice([left - 1, left, left + 1, left // 2, left // 3, 20])
            n = max(len(head) + 1, min(n, 65000))
            t = terminated(k)
            d = [head, ["p", n - len(head) - t]] + (["\n"] if t else [])
            ops.append({"data": [y for y in d if y != ["p", 0]]})
            left -= n + (0 if t else 1)
            if left <= 0:
                left = room
        if r.random() < 0.3:
            count = r.choice([3, 4])
    elif x == 2:       # by age, nothing more arrives
        age = r.choice([300, 700, 1300])
        count = r.choice([3, 1000])
        tail = age + 4200
        for k in range(r.choice([1, 2, 4])):
            ops.append({"data": ["u%d.%d\n" % (i, k)], "pause": r.choice([0, 0, age // 2])})
    else:              # by age, while data keeps arriving; also after count and after a pause
        age = r.choice([400, 900])
        count = r.choice([4, 1000, 1000])
        tail = age + 1500
        for k in range(r.choice([8, 25])):
            ops.append({"data": ["u%d.%d" % (i, k) + r.choice(["", "\n"])], "pause": r.choice([0, age // 5, age // 3, age // 3])})
        ops.insert(len(ops) // 2, {"data": ["u%d.p\n" % i], "pause": age + 1300})
    return {"kind": kind, "count": count, "size": size, "age": age, "strict": True, "tail": tail, "clients": [ops]}


def C04(c):
    model(c)
    r = random.Random(c.seed)
    scripts = []
    n = 120 if c.thorough else 32
    for i in range(n):
        scripts.append(strict(r, "udp" if (i // 4) % 2 else "http", i))
    for i in range(8 if c.thorough else 3):      # with a precision every line is a write
        ops = [{"data": ["".join("w%d.%d.%d f=1 15\n" % (i, k, j) for j in range(r.choice([1, 2, 5])))], "prec": "s"} for k in range(12)]
        scripts.append({"kind": "http", "count": r.choice([2, 4, 7]), "size": 1048576, "age": 3600000, "strict": True, "tail": 300, "clients": [ops]})
    for i in range(8 if c.thorough else 4):      # at every phase of a timer that counts from something else
        ops = [{"data": ["v%d.%d\n" % (i, k)], "pause": r.choice([200, 500, 900])} for k in range(2)]
        if i % 4 == 2:
            ops.append({"data": ["v%d.x\n" % i], "pause": 5100})
        scripts.append({"kind": ["http", "udp"][i % 4 == 3], "count": 1000, "size": 1048576, "age": 4500, "strict": True, "tail": 7300, "clients": [ops]})
    for i in range(8 if c.thorough else 4):      # the last units of a batch arrive only just in time
        ops = [{"data": ["y%d.%d\n" % (i, k)], "pause": p} for k, p in enumerate([0] * r.choice([1, 2]) + [4100 - 50 * (i % 2)])]
        scripts.append({"kind": ["http", "udp"][i % 2], "count": 1000, "size": 1048576, "age": 4500, "strict": True, "tail": 5200, "clients": [ops]})
    for i in range(24 if c.thorough else 6):     # everybody at once
        count, age = r.choice([(2, 3600000), (3, 3600000), (5, 3600000), (11, 3600000), (1000, 250), (7, 300), (1000, 20)])
        cl = [[{"data": ["g%d.%d.%d" % (i, k, j) + r.choice(["", "\n"])], "pause": 0 if age > 9999 else r.choice([0, 0, 0, 20, age // 2])}
               for j in range(r.choice([10, 40]))] for k in range(r.choice([3, 8]))]
        scripts.append({"kind": "http", "count": count, "size": 1048576, "age": age, "gang": True, "tail": 400 if age > 9999 else age + 3800, "clients": cl})
    r.shuffle(scripts)
    run(c, scripts, "limits of the listener", par=4)
    c.assumptions.append("sends on age are allowed 0.8 to 2.5 s, as the machine is busy, and 1 s (the documented delay) with UDP")


def big_bodies(c, r):
    """Bodies larger than the bus allows, each a batch of its own."""
    lim = 1048576
    scripts = []
    for i in range(16 if c.thorough else 5):
        ops = []
        for k in range(3):
            d, total = [], 0
            want = r.choice([lim + 1000, 2 * lim + 50, 3 * lim])
            while total < want:
                SEQ[0] += 1
                h = "b%d," % SEQ[0]
                n = r.choice([lim - 1, lim, lim + 1, lim + 200, 2 * lim + 300, 70000, 500000, 300, 1000, lim - total % lim, lim - total % lim - 1, lim - total % lim + 1])
                n = max(n, 200)
                d += [h, ["x", n - len(h) - 1], "\n"]
                total += n
            if r.random() < 0.5:
                d.pop()
            ops.append({"data": d, "prec": r.choice(["", "", "ns"]) if any(isinstance(x, list) and x[1] > lim - 100 for x in d) else r.choice(["", "s"]),
                        "chunk": r.random() < 0.5})
        scripts.append({"kind": "http", "count": 1, "size": lim, "age": 3600000, "single": True, "clients": [ops]})
    return scripts
