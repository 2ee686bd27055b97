"""Checks of the connection between keymapper and keymapperd (C19, C20)."""
import os
import random

import replay
import suites
import vlib

MODULES = ("Keys.tla", "Link.tla", "LinkGraph.tla", "LinkGraph.cfg")
K = suites.K


def driver():
    return vlib.build_driver("link_driver", [os.path.join(vlib.VERIF, "harness", "link_driver.cpp")] +
                             vlib.globs("runtime/*.cpp", "server/ClientPort.cpp", "client/ServerPort.cpp",
                                        "common/Connection.cpp", "common/Host.cpp", "common/output.cpp"),
                             libs=("-pthread",))


def text(s):
    return list(s.encode() if isinstance(s, str) else s)


def filt(s="", inv=False):
    return dict(s=text(s), inv=inv)


def context(ins=(), out=(), cmd=(), begin=False, dn=None, di=None, mf=(), inv=False, ft=False):
    return {"begin": begin, "in": [dict(i=i, o=o) for i, o in ins], "out": list(out),
            "cmd": [dict(o=o, x=x) for x, o in cmd], "dn": dn or filt(), "di": di or filt(),
            "mf": list(mf), "inv": inv, "ft": ft}


def config(*ctx, grab=(), dirs=()):
    return ["cfg", dict(ctx=list(ctx), grab=[dict(filt(s, inv), id=i) for s, inv, i in grab], dir=[text(d) for d in dirs])]


PROBES = [text(p) for p in ("", "ab", "AB", "xaby", "XABY", "/i", "/ab")]
A, B, C = [[K["A"], 1, 0], [K["A"], 3, 0]], [[K["B"], 1, 0], [K["B"], 0, 0]], [[K["C"], 1, 0]]
UNITS = 6


def make(p, name, msgs, units, ev, mx, init=()):
    return dict(p=p, name=name, msgs=msgs, probes=PROBES, units=units, ev=ev, max=mx, init=[list(e) for e in init])


def arrivals(d, units):
    return [["arr", d, n] for n in units]


def c19():
    P = "C19"
    vk, ctx, val, nki = ["vk", 61697, 1], ["ctx", [0, 3]], ["val"], ["nki"]
    ii, io = ["ii", A + B], ["io", C + B + A]
    act, vks, info = ["act", 2], ["vks", 61699, 0], ["info", 30, text("Mouse"), text("id 7")]
    small = config(context([(A, 0)], [B]))
    big = config(*[context([(A * 9, 0), (B, 1)], [B * 40, C * 33]) for _ in range(5)], dirs=["x" * 3000])
    end = [["disc"], ["conn"]]

    def sends(d, *m):
        return [["send", d, n] for n in m]

    def ends(d):
        return [["cut", d], ["close", d]]
    up = [["conn"]]
    return [
        make(P, "to server", [vk, ctx, val], UNITS, sends(1, 1, 2, 3) + arrivals(1, (1, UNITS)) + [["read", 1]] + end, 3, up),
        make(P, "to server, breaking off", [vk, ctx], UNITS, sends(1, 1, 2) + arrivals(1, (1, UNITS)) + [["read", 1]] + ends(1) + end, 3, up),
        make(P, "to server, all kinds", [vk, ctx, val, nki, ii, io, small], UNITS, sends(1, 1, 2, 3, 4, 5, 6, 7) + arrivals(1, (1,)) + [["read", 1]] + end, 2, up),
        make(P, "large", [big, ctx], UNITS, sends(1, 1, 2) + arrivals(1, (1, UNITS)) + [["read", 1]] + ends(1) + end, 3, up),
        make(P, "single bytes", [small, vk], 80, sends(1, 1, 2) + arrivals(1, (1, 80)) + [["read", 1]], 2, up),
        make(P, "to client", [act, vks, info], UNITS, sends(2, 1, 2, 3) + arrivals(2, (1, UNITS)) + [["read", 2]] + end, 3, up),
        make(P, "to client, breaking off", [act, info], UNITS, sends(2, 1, 2) + arrivals(2, (1, UNITS)) + [["read", 2]] + ends(2) + end, 3, up),
        make(P, "both directions", [ctx, act], 2, sends(1, 1) + sends(2, 2) + arrivals(1, (1,)) + arrivals(2, (1,)) + [["read", 1], ["read", 2]] + ends(1) + ends(2) + end, 2, up),
        make(P, "malformed to server", [vk, ctx], 3, sends(1, 1, 2) + [["bad", 1, 1], ["bad", 1, 5]] + arrivals(1, (1, 3)) + [["read", 1]] + end, 3, up),
        make(P, "malformed to client", [act, info], 3, sends(2, 1, 2) + [["bad", 2, 1], ["bad", 2, 4]] + arrivals(2, (1, 3)) + [["read", 2]] + end, 3, up),
        make(P, "introduction", [vk, act], 1, sends(1, 1) + sends(2, 2) + arrivals(1, (1,)) + arrivals(2, (1,)) + [["read", 1], ["read", 2]] + end + [["hs", "other"], ["hs", "short"], ["hs", "none"]], 1),
    ]


def c20():
    P = "C20"
    seqs = [A, B, C, [], [[61443, 1, 9], [61441, 1, 4095], [61952, 1, 0]], [[0, 5, 0], [K["A"], 2, 0]]]
    cfgs = [
        config(),
        config(context()),
        config(context([(A, 0)], [B])),
        config(context([(A, 0), (B, 1), (A + B, -1), (C, -300)], [C, []], [(-1, B), (-2, [])])),
        config(context([(A, 0)], [B]), context([(B, 0)], [C]), context([(C, 0)], [A])),
        config(context([(A, 0)], [B], begin=True), context([(B, 0)], [C], begin=True), context([(C, 0)], [A])),
        config(context([(A, 0)], [B]), context(begin=True), context([(C, 0)], [A], begin=True), context(ft=True)),
        config(context(inv=True, mf=[[42, 1, 0]]), context(ft=True, mf=[[42, 2, 0], [29, 1, 0]]), context(inv=True, ft=True)),
        config(context(dn=filt("ab")), context(dn=filt("ab", True)), context(di=filt("ab")), context(di=filt("AB", True))),
        config(context(dn=filt("/ab/")), context(dn=filt("/ab/i", True)), context(di=filt("/ab/i")), context(di=filt("/ab/", True))),
        config(context(dn=filt("ab"), di=filt("/ab/i")), context(dn=filt("/i")), context(dn=filt("/ab")), context(dn=filt("//"), di=filt("/"))),
        config(grab=[("ab", False, False), ("ab", True, False), ("ab", False, True), ("/ab/i", True, True)]),
        config(context(), grab=[("", False, False)], dirs=["", "directive", "a b"]),
        config(*[context([(s, i % 3 - 1)], [s], [(i, s)]) for i, s in enumerate(seqs)]),
    ]
    ctxs = [["ctx", c] for c in ([], [0], [0, 1, 2], [7], [2, 1], list(range(40)))]
    other = [["vk", 61951, 2], ["ii", seqs[4]], ["io", []], ["val"], ["nki"]]
    res = []

    def add(name, msgs, mx, units=1):
        ev = [["send", 1, i + 1] for i in range(len(msgs))] + arrivals(1, (1,)) + [["read", 1], ["disc"], ["conn"]]
        res.append(make(P, name, msgs, units, ev, mx, [["conn"]]))
    add("all configurations", cfgs + ctxs, 2)
    add("mixed", [cfgs[3], cfgs[6], ctxs[2], ctxs[0], other[0]], 3)
    add("other messages", other + ctxs[1:3] + [cfgs[2]], 2, 2)
    return res


def describe(e):
    return "%s%s" % (e[0], "" if len(e) < 2 else "(%s)" % ",".join(map(str, e[1:])))


def describe_obs(o):
    names = {1: "connected", 2: "sent", 3: "read"}
    return ", ".join("%s %s" % (names[x[0]], bool(x[1])) if x[0] in names else str(x) for x in o) or "nothing"


# random histories

def rnd_seq(r, mx):
    n = r.choice((0, 1, 2, 3, r.randrange(mx)))
    return [[r.choice((r.randrange(1, 248), r.randrange(61440, 62208), r.randrange(272, 277))), r.randrange(10),
             r.choice((0, 0, r.randrange(4096)))] for _ in range(n)]


def rnd_text(r, mx=40):
    k = r.randrange(6)
    if k == 0:
        return []
    if k == 1:
        return text("/" + "".join(r.choice("abAB") for _ in range(r.randrange(3))) + r.choice(("/", "/i")))
    if k == 2:
        return text("".join(r.choice("abAB/i") for _ in range(r.randrange(5))))
    return [r.randrange(256) if k == 3 else r.randrange(65, 123) for _ in range(r.randrange(mx))]


def rnd_filter(r):
    # other slashes could make it a regular expression with another meaning
    t = rnd_text(r) if r.random() < .5 else []
    while 47 in t[1:-2] or (len(t) > 1 and t[0] == 47 and t[-1] in (47, 105) and not all(chr(c) in "abAB" for c in t[1:-2])):
        t = rnd_text(r)
    return dict(s=t, inv=r.random() < .3)


def rnd_config(r):
    n = r.choice((0, 1, 2, 3, r.randrange(20)))
    ctx = []
    for _ in range(n):
        m = r.choice((0, 1, 2, r.randrange(12)))
        ctx.append({"begin": r.random() < .3, "in": [dict(i=rnd_seq(r, 20), o=r.randrange(-400, 400)) for _ in range(m)],
                    "out": [rnd_seq(r, 60) for _ in range(r.choice((0, 1, 2, r.randrange(8))))],
                    "cmd": [dict(o=rnd_seq(r, 20), x=x) for x in r.sample(range(-400, 400), r.choice((0, 1, r.randrange(6))))],
                    "dn": rnd_filter(r), "di": rnd_filter(r), "mf": rnd_seq(r, 6), "inv": r.random() < .5, "ft": r.random() < .5})
    return ["cfg", dict(ctx=ctx, grab=[dict(rnd_filter(r), id=r.random() < .5) for _ in range(r.randrange(4))],
                        dir=[rnd_text(r) for _ in range(r.randrange(3))])]


def rnd_message(r, d, big):
    if d == 2:
        k = r.randrange(3)
        return (["act", r.randrange(300)] if k == 0 else ["vks", r.randrange(61696, 61952), r.randrange(3)] if k == 1 else
                ["info", r.randrange(1, 248), rnd_text(r), rnd_text(r, 1100 if big else 40)])
    k = r.randrange(7)
    if k == 0: return rnd_config(r)
    if k == 1: return ["ctx", [r.randrange(1000) for _ in range(r.choice((0, 1, 3, 270 if big else 5)))]]
    if k == 2: return ["vk", r.randrange(61696, 61952), r.randrange(3)]
    if k == 3: return ["val"]
    if k == 4: return ["nki"]
    return ["ii" if k == 5 else "io", rnd_seq(r, 600 if big else 10)]


def scenario(n, prop):
    r = random.Random("link %s %d %d" % (prop, vlib.SEED, n))
    if prop == "C20":
        msgs = [rnd_config(r) if i % 2 == 0 else rnd_message(r, 1, False) for i in range(r.randrange(1, 6))]
        ev = [["conn"]]
        for i in range(len(msgs)):
            ev += [["send", 1, i + 1], ["arr", 1, 1]]
            if r.random() < .5:
                ev.append(["read", 1])
            if r.random() < .1:
                ev += [["read", 1], ["disc"], ["conn"]]
        return dict(msgs=msgs, probes=PROBES, units=1, ev=ev + [["read", 1]]), "configurations %d" % n
    units = 5000
    msgs = [rnd_message(r, d, r.random() < .3) for d in (1, 1, 1, 1, 2, 2, 2)]
    ev = []
    up, sent, arr, closed, over, bad = False, [0, 0], [0, 0], [None, None], [False, False], [None, None]
    for _ in range(r.randrange(10, 60)):
        if not up:
            if r.random() < .2:
                ev.append(["hs", r.choice(("other", "short", "none"))])
            ev.append(["conn"])
            up, sent, arr, closed, over, bad = True, [0, 0], [0, 0], [None, None], [False, False], [None, None]
            continue
        d = r.choice((1, 1, 2))
        k = r.random()
        total = closed[d - 1] if closed[d - 1] is not None else sent[d - 1] * units
        if k < .3 and closed[d - 1] is None:
            is_bad = r.random() < .03 and bad[d - 1] is None
            ev.append(["bad", d, r.randrange(1, 9)] if is_bad else ["send", d, r.randrange(1, 5) if d == 1 else r.randrange(5, 8)])
            if closed[2 - d] is None:
                sent[d - 1] += 1
                if is_bad:
                    bad[d - 1] = sent[d - 1]
        elif k < .65 and total > arr[d - 1]:
            left = -arr[d - 1] % units or units
            u = min(total - arr[d - 1], r.choice((1, 2, 3, 4, 5, 7, left, left, left, left - 1 or 1, left + 1, left + 3, r.randrange(1, 1500), total)))
            ev.append(["arr", d, u])
            arr[d - 1] += u
        elif k < .95 and not over[d - 1]:
            ev.append(["read", d])
            if closed[d - 1] is not None and arr[d - 1] == closed[d - 1] or bad[d - 1] is not None and arr[d - 1] >= bad[d - 1] * units:
                over[d - 1] = True
        elif k < .97 and closed[d - 1] is None:
            ev.append([r.choice(("cut", "close")), d])
            closed[d - 1] = arr[d - 1] if ev[-1][0] == "cut" else sent[d - 1] * units
            over[2 - d] = True
        elif k > .985 or all(over):
            ev.append(["disc"])
            up = False
    return dict(msgs=msgs, probes=PROBES, units=units, ev=ev), "pieces %d" % n


def suite(prop):
    return c19() if prop == "C19" else c20()


def check(prop):
    rep = vlib.Report(prop)
    exe = driver()
    thorough = vlib.TIER == "thorough"
    s = suite(prop)
    data, rep.coverage["graph_from_cache"] = replay.graphs(prop, "LinkGraph", MODULES, s, thorough)
    replay.replay_graphs(rep, exe, s, data, vlib.scale(2000, 40000), describe, describe_obs, fields=("msgs", "probes", "units"))
    sc = [scenario(n, prop) for n in range(vlib.scale(400, 4000))]
    replay.validate(rep, exe, "TraceLink", [a for a, b in sc], [b for a, b in sc], describe, describe_obs)
    return rep.finish()


def warm(prop):
    replay.graphs(prop, "LinkGraph", MODULES, suite(prop), False)
