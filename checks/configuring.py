"""C24, C25: configuration."""
import json, random
import vlib, fleet

COMMON = "/etc/influx-spout.toml"
MODES = ["listener", "listener_http", "filter", "downsampler", "writer", "monitor"]
NS = dict(ns=1, us=10 ** 3, ms=10 ** 6, s=10 ** 9, m=60 * 10 ** 9, h=3600 * 10 ** 9)
STR = ["name", "nats_address", "nats_subject_monitor", "nats_subject_junkyard", "influxdb_address", "influxdb_protocol", "influxdb_dbname", "downsample_suffix", "queue_group"]
INT = ["influxdb_port", "batch_max_count", "port", "workers", "writer_retry_batches", "probe_port", "pprof_port"]
DUR = ["batch_max_age", "write_timeout", "writer_retry_interval", "writer_retry_timeout", "max_time_delta", "stats_interval", "downsample_period"]
SIZE = ["batch_max_size", "read_buffer_size", "nats_max_pending_size"]
DEFAULT = {"name": "n", "mode": "", "nats_address": "", "nats_subject": ["a"], "nats_subject_monitor": "", "nats_subject_junkyard": "", "influxdb_address": "", "influxdb_protocol": "http",
           "influxdb_port": "8086", "influxdb_dbname": "", "batch_max_count": "1", "batch_max_size": "0", "batch_max_age": "0", "port": "0", "workers": "1", "write_timeout": "0",
           "writer_retry_batches": "0", "writer_retry_interval": "0", "writer_retry_timeout": "0", "read_buffer_size": "0", "nats_max_pending_size": "0", "rule": [], "max_time_delta": "0",
           "stats_interval": "0", "probe_port": "0", "pprof_port": "0", "debug": "false", "downsample_period": "0", "downsample_suffix": "", "queue_group": ""}


def q(s):
    return json.dumps(s)


def duration(r):
    k = r.random()
    if k < .1:
        return q("0s"), "0"
    if k < .8:
        u, n = r.choice(list(NS)), r.randint(1, 500)
        return q("%d%s" % (n, u)), str(n * NS[u])
    if k < .9:
        return q("1h30m"), str(5400 * NS["s"])
    return q("1.5s"), str(15 * 10 ** 8)


def size(r, big=False):
    k = r.choice([0, 1, 2, 1023, 1024, 1025] if not big else [1])
    forms = [(q(str(k)), k), (q("%dKB" % k), k << 10), (q("%dkb" % k), k << 10), (q("%d MB" % k), k << 20), (q("%dM" % k), k << 20), (q("%dB" % k), k), (q("1048577"), 1048577), (q("1048576"), 1048576), (q("1MB"), 1 << 20)]
    t, v = r.choice(forms)
    return t, str(v)


def rule(r, mode, good=.75):
    """A rule, mostly a proper one; in the file's notation and the trace's."""
    t = r.choice(["basic", "tags", "regex", "negregex"])
    x = {"type": t, "match": "", "tags": [], "subject": "", "malformed": False}
    if t == "tags":
        x["tags"] = [[r.choice(["a", "b=", ""]), r.choice(["x", "y z", ""])] for _ in range(r.choice([1, 2]))]
    else:
        x["match"] = r.choice(["cpu", "c.*", "a|b", "x y"])
    if mode != "writer":
        x["subject"] = r.choice(["s1", "s2", "s.t"])
    if r.random() > good:
        k = r.randrange(8)
        if k == 0:
            x["type"] = ""
        elif k == 1:
            x["type"] = r.choice(["Basic", "odd", "tag"])
        elif k == 2:
            x["match"] = "" if t != "tags" else "m"
        elif k == 3:
            x["tags"] = [] if t == "tags" else [["a", "b"]]
        elif k == 4:
            x["subject"] = "" if mode != "writer" else "s"
        elif k == 5 and t == "tags":
            x["tags"] = x["tags"] + [r.choice([["a"], ["a", "b", "c"], []])]
        elif k == 6 and "regex" in t:
            x["match"], x["malformed"] = r.choice([("(", True), ("a**", True), ("[a", True), ("\\8", True), ("(?P<x", True), (")", True)])
    return x


def rules_text(rs):
    out = ""
    if not rs:
        return "rule = []\n"
    for x in rs:
        out += "[[rule]]\n"
        for k in ("type", "match", "subject"):
            if x[k] != "":
                out += "%s = %s\n" % (k, q(x[k]))
        if x["tags"]:
            out += "tags = [%s]\n" % ", ".join("[%s]" % ", ".join(q(z) for z in t) for t in x["tags"])
    return out


def value(r, o, mode, odd):
    """(the file's notation, the trace's) of a value of an option."""
    if o == "mode":
        v = r.choice(MODES) if r.random() > odd else r.choice(["", "Listener", "filters", "relay"])
        return q(v), v
    if o in STR:
        v = r.choice({"influxdb_protocol": ["http", "https"] + (["HTTP", "ftp", ""] if r.random() < odd else [])}.get(o, ["x", "y.z", "a b", "q\"q", "b\\b", ""]))
        return q(v), v
    if o in INT:
        v = r.choice([1, 2, 8, 80, 8086, 65535])
        if r.random() < odd:
            v = r.choice([0, -1, 65536, 100000, -65535])
        return str(v), str(v)
    if o in DUR:
        return duration(r)
    if o in SIZE:
        return size(r)
    if o == "debug":
        v = r.choice(["true", "false"])
        return v, v
    if o == "nats_subject":
        v = [r.choice(["a", "b.c", "in"]) for _ in range(1 if r.random() > odd else r.choice([0, 2, 3]))]
        return "[%s]" % ", ".join(map(q, v)), v
    v = [rule(r, mode, 1 - odd / 2) for _ in range(r.choice([0, 1, 1, 2, 3]))]
    return None, v


def one_file(r, mode, density, odd, give_mode):
    opts, lines = {}, []
    for o in DEFAULT:
        if o == "mode":
            if give_mode:
                t, v = (q(mode), mode) if r.random() > odd / 3 else value(r, o, mode, 1)
                opts[o], _ = v, lines.append("mode = %s\n" % t)
            continue
        if o == "downsample_period" and mode != "downsampler" and r.random() > odd / 2:
            continue
        if r.random() < density:
            t, v = value(r, o, mode, odd)
            opts[o] = v
            if o != "rule":
                lines.append("%s = %s\n" % (o, t))
    r.shuffle(lines)
    if r.random() < .2:
        lines.insert(0, "# comment\n\n")
    text = "".join(lines)
    if "rule" in opts:
        t = rules_text(opts["rule"])
        text = t + text if t.startswith("rule") else text + t
    return opts, text


BROKEN = ["mode = \n", "port = \"abc\"\n", "batch_max_age = \"5 parsecs\"\n", "batch_max_size = \"many\"\n", "nats_subject = \"one\"\n", "rule = 3\n", "mode = \"filter\n", "[[rule]\n", "workers = 1.5\n",
          "debug = \"yes\"\n", "\x00\x01", "mode = \"filter\"\nmode = \"writer\"\n", "stats_interval = \"3\"\n", "[[rule]]\ntags = [\"a\", \"b\"]\n", "name = 3\n"]
FILES = ["/c/listener.toml", "/etc/spout/writer.conf", "/x.d/name", "/a/b.c/foo.tar.gz", "/y/odd name.toml", "/z/.toml", "/w/trailing.", "/e/UPPER.TOML", "/n/a-b_c.1.toml", "/influx-spout.toml"]


def load(r, odd):
    mode = r.choice(MODES)
    own, common = {"state": "ok"}, {"state": "ok"}
    where = r.random()
    own["opts"], own_text = one_file(r, mode, r.choice([.05, .2, .5, 1]), odd, where < .8)
    common["opts"], common_text = one_file(r, mode if r.random() < .6 else r.choice(MODES), r.choice([0, .1, .4, 1]), odd, where > .7)
    k = r.random()
    if k < .25:
        common = {"state": "absent", "opts": {}}
    s = {"kind": "load", "files": {}, "denied": [], "file": r.choice(FILES)}
    user, pw = r.choice([("", "")] * 5 + [("u", "p"), ("u", ""), ("", "p"), ("a b", "c:d")])

    def place(path, d, text, allow_absent):
        x = r.random()
        if d["state"] == "absent":
            return
        if x < .06:
            d["state"], d["opts"] = "bad", {}
            b = r.random()
            if b < .6:
                s["files"][path] = r.choice(["", text if "rule" not in text else ""]) + r.choice(BROKEN)
            else:
                s["files"][path] = text
                s["denied"].append(path)
        elif x < .09 and allow_absent:
            d["state"], d["opts"] = "absent", {}
        else:
            s["files"][path] = text
    place(s["file"], own, own_text, True)
    place(COMMON, common, common_text, False)
    s["user"], s["pass"] = user, pw
    s["event"] = {"own": own, "common": common}
    return s


def check(r):
    """A configuration that breaks one constraint at most, or a few."""
    mode = r.choice(MODES + ["", "Writer"]) if r.random() < .1 else r.choice(MODES)
    c = json.loads(json.dumps(DEFAULT))
    c["mode"] = mode
    if mode in ("listener", "listener_http", "monitor"):
        c["port"] = "1"
    if mode == "downsampler":
        c["downsample_period"], c["downsample_suffix"] = "60000000000", "-x"
    if mode in ("filter", "writer"):
        c["rule"] = [rule(r, mode, .85) for _ in range(r.choice([0, 1, 2, 3]))]
    user, pw = "", ""
    for _ in range(r.choice([0, 0, 1, 1, 1, 2])):
        o = r.choice(["port", "probe_port", "pprof_port", "influxdb_port", "nats_subject", "batch_max_size", "downsample_period", "downsample_suffix", "influxdb_protocol", "auth", "name",
                      "nats_address", "workers", "batch_max_count", "rule", "influxdb_dbname", "queue_group"])
        if o == "auth":
            user, pw = r.choice([("u", "p"), ("u", ""), ("", "p")])
        elif o.endswith("port"):
            c[o] = r.choice(["0", "-1", "1", "65535", "65536", "2147483647", "-2147483648"])
        elif o == "nats_subject":
            c[o] = r.choice([[], ["a"], ["a", "b"], ["a", "b", "c"]])
        elif o == "batch_max_size":
            c[o] = r.choice(["0", "1", "1048575", "1048576", "1048577", "10485760", "18446744073709551615"])
        elif o == "downsample_period":
            c[o] = r.choice(["0", "1", "60000000000"])
        elif o == "influxdb_protocol":
            c[o] = r.choice(["http", "https", "HTTP", "", "httpss", "tcp"])
        elif o == "rule":
            c[o] = [rule(r, r.choice(["filter", "writer"]), .6)]
        elif o in ("workers", "batch_max_count"):
            c[o] = r.choice(["0", "-1", "100"])
        else:
            c[o] = r.choice(["", "x"])
    return {"kind": "check", "user": user, "pass": pw, "event": {"conf": c}}


def mc(c):
    n = "" if c.thorough else "CONSTRAINT Few\n"
    c.mc("ConfigMC", "SPECIFICATION Spec\nINVARIANTS OwnWins CommonNext DefaultLast Filled Complete\nCHECK_DEADLOCK FALSE\n" + n, timeout=3000)


def go(c, scripts, what):
    r = random.Random(5)
    vlib.shards(c, "config", "TraceConfig", scripts, what, per=-(-len(scripts) // 6), par=6,
                show=lambda s: {k: s[k] for k in ("kind", "file", "files", "user") if k in s} if s["kind"] == "load" else s["event"]["conf"])


def C24(c):
    mc(c)
    r = random.Random(c.seed)
    n = 12000 if c.thorough else 1500
    go(c, [load(r, r.choice([0, 0, .1, .3])) for _ in range(n)], "configuration files")
    # The program works by what its file says: nothing here is written or
    # published by its age, and with one worker every count is reached.
    scripts = []
    for k in range(24 if c.thorough else 6):
        mode = ["writer", "listener", "listener_http"][k % 3]
        count = r.choice([2, 3, 5]) if k < 3 else 1000
        m, feed = fleet.single(r, mode, count=count, size=10 ** 6 if k < 3 else 64, age=1000000, workers=1, proc=True)
        if k % 6 == 3:      # no number of workers: as many as are useful
            m["count"], m["workers"] = 1, 0
        marks = fleet.Marks(r, True)
        ops = [fleet.op("start", i=0), fleet.op("ready", i=0)]
        for _ in range(3):
            if k < 3:
                ops += feed(marks, count)
            else:
                ops += [fleet.op({"listener": "udp", "listener_http": "http"}.get(mode, "pub"), i=0, to="in", lines=marks.some(5, True))]
            ops += [fleet.op("settle", want=0, ms=700)]
        scripts.append({"members": [m], "dbs": 1, "ops": ops + [fleet.op("stop", i=0)], "record": []})
    fleet.run(c, scripts, "the program by its file", env={"VERIF_SPOUT": c.build_bin("influx-spout")})


def C25(c):
    mc(c)
    r = random.Random(c.seed + 1)
    n = 20000 if c.thorough else 2400
    go(c, [check(r) for _ in range(n)] + [load(r, .3) for _ in range(n // 6)], "validation")
