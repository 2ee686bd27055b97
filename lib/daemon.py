"""Checks of the server program with its devices (C24 - C26)."""
import os
import random

import kmexpr as X
import kmgen
import replay
import server
import vlib
from server import conf, ctx, seq
from suites import K

MODULES = ("Keys.tla", "Match.tla", "Stage.tla", "MultiStage.tla", "Server.tla", "Daemon.tla", "DaemonGraph.tla", "DaemonGraph.cfg")
SYN, KEY, REL, ABS, MSC, SW = range(6)
OWN = [ord(c) - 97 for c in "keymapper"]


def driver():
    return vlib.build_driver("daemon_driver", [os.path.join(vlib.VERIF, "harness", "daemon_driver.cpp")] +
                             vlib.globs("runtime/*.cpp", "server/ServerState.cpp", "server/ClientPort.cpp", "server/Settings.cpp",
                                        "server/unix/GrabbedDevicesLinux.cpp", "server/unix/VirtualDevicesLinux.cpp",
                                        "client/ServerPort.cpp", "config/get_key_name.cpp", "common/Connection.cpp",
                                        "common/Host.cpp", "common/output.cpp"), libs=("-pthread",))


def device(keys=(), rel=(), abs=(), sw=(), msc=(), props=(), rep=False, ok=True):
    return dict(keys=[list(k) for k in keys], rel=list(rel), abs=[list(a) for a in abs], sw=list(sw), msc=list(msc),
                props=list(props), rep=rep, ok=ok)


BUTTONS = (272, 276)
KINDS = dict(
    keyboard=device([(1, 255)], msc=[4], rep=True),
    small=device([(1, 60)], rep=True),
    media=device([(113, 115)], abs=[(32, 0, 255, 0, 0, 0)]),
    knob=device([(1, 127)], abs=[(32, -100, 100, 0, 0, 0), (40, 0, 511, 0, 0, 0)]),
    power=device([(116, 116)]),
    lid=device([(116, 116)], sw=[0]),
    mouse=device([BUTTONS], rel=[0, 1, 6, 8, 11, 12], msc=[4], props=[0]),
    plain=device([(272, 274)], rel=[0, 1, 8]),
    tilt=device([BUTTONS], rel=[0, 1, 6, 8, 11]),
    point=device([(272, 274)], rel=[0, 1], props=[0, 5]),
    dial=device([(256, 256)], rel=[1]),
    combined=device([(1, 255), (272, 276)], rel=[0, 1, 6, 8, 11, 12], abs=[(32, 0, 100, 0, 0, 0)], msc=[4], rep=True),
    tablet=device([(320, 331)], abs=[(0, 0, 21600, 4, 0, 100), (1, 0, 13500, 4, 0, 100), (40, -5, 250, 0, 0, 0)], msc=[0], props=[1]),
    pad=device([(304, 340)], abs=[(0, -32768, 32767, 16, 128, 0), (32, 0, 7, 0, 0, 0)]),
    wheel=device([(1, 5)], rel=[8]),
    other=device([(1, 255)], ok=False),
    none=device([], rel=[0, 1]),
    many=device([(100, 131)], sw=[1], abs=[(2, 0, 9, 1, 2, 3)]),
    few=device([(100, 130)], sw=[1]),
    axes=device([(100, 130)], abs=[(2, 0, 9, 1, 2, 3)]),
)


def dev(kind, id, n, i=(), ids=(1, 2, 3)):
    return dict(KINDS[kind], id=id, n=list(n), i=list(i), ids=list(ids))


def named(text):
    return [ord(c) - 97 for c in text]


def describe(ev):
    if ev[0] == "in":
        names = {KEY: lambda e: "%s%s" % ("-+="[e[2]], X.NAMES.get(e[1], str(e[1]))), REL: lambda e: "rel%d:%d" % (e[1], e[2]),
                 ABS: lambda e: "abs%d:%d" % (e[1], e[2])}
        return "in(%d:%s)" % (ev[1], " ".join(names.get(e[0], str)(e) for e in ev[2]))
    if ev[0] in ("vk", "ii", "io"):
        return server.describe(ev)
    return "%s%s" % (ev[0], "(%s)" % ",".join(map(str, ev[1:])) if len(ev) > 1 else "")


def describe_obs(obs):
    res = []
    for o in obs:
        if o[0] == 60:
            res.append("%s<%s>" % (o[1], describe(["in", 0, [o[i:i + 3] for i in range(2, len(o), 3)]])[5:-1]))
        elif o[0] in (1, 2, 3):
            res.append(server.describe_obs([o])[1:-1])
        elif o[0] == 51:
            res.append("grabbed%s" % o[1:])
        elif o[0] == 52:
            res.append("virtual%s" % o[1:])
        else:
            res.append({5: "dropped", 53: "created(%s)" % ",".join(map(str, o[1:])), 70: "ended"}.get(o[0], str(o)))
    return "[%s]" % " ".join(res)


# ---------------------------------------------------------------------------
# configurations which are explored completely

def keys(d, *names, repeat=False):
    """presses and releases (and repeats) of keys of a device"""
    return [["in", d, [[KEY, K[k] if isinstance(k, str) else k, x]]] for k in names for x in ((1, 0, 2) if repeat else (1, 0))]


def hires(d, axis, *values):
    """packets of a wheel with high resolution, with the complete detents as sent by mice"""
    return [["in", d, [[REL, axis, v]] + ([[REL, 8 if axis == 11 else 6, int(v / 120)]] if abs(v) >= 120 else [])] for v in values]


def lores(d, axis, *values):
    return [["in", d, [[REL, axis, v]]] for v in values]


def motion(d):
    return [["in", d, [[REL, 0, 3], [REL, 1, -2]]]]


def filt(text, inv=False, id=False, rx=False):
    return dict(p=[named(t) for t in text.split()], rx=rx, inv=inv, id=id)


def exactly(text):
    return dict(p=[named(text)], rx=False, inv=False)


def make(p, name, devs, cfgs, ev, gf=None, init=None, hold=2, depth=(10, 14), plain=False):
    if init is None:
        n = sum(len(s) for s in cfgs[0])
        init = [["plug", i + 1] for i in range(len(devs))] + [["conn", 1, list(range(n))]]
    return dict(p=p, name=name, devs=devs, cfgs=cfgs, gf=gf or [[] for _ in cfgs], init=init, ev=ev, hold=hold, depth=depth, plain=plain)


def c24():
    P = "C24"
    kb = dev("keyboard", 3, named("kb"), named("x"))
    mouse = dev("mouse", 5, named("mouse"), named("y"), (9, 8, 7))
    second = dev("mouse", 7, named("trackball"))
    plain = dev("plain", 4, named("plain"))
    tilt = dev("tilt", 6, named("tilt"))
    point = dev("point", 8, named("stick"))
    combined = dev("combined", 2, named("both"))
    knob = dev("knob", 9, named("knob"))
    tablet = dev("tablet", 11, named("tablet"))
    none = conf(("C", "X"))
    mice = conf(("ButtonForward", "X"))
    return [
        make(P, "keys of two keyboards", [kb, dev("small", 4, named("pad"))], [none], keys(1, "A", "B", repeat=True) + keys(2, "A", repeat=True), hold=3, depth=(14, 18)),
        make(P, "mapped keys", [kb], [conf(("A", "X"), ("B", "Y ^ X"))], keys(1, "A", "B", repeat=True), depth=(14, 18)),
        make(P, "buttons of two mice", [mouse, second], [mice], keys(1, "ButtonLeft") + keys(2, "ButtonLeft") + motion(1) + motion(2), hold=3, depth=(14, 18)),
        make(P, "key to button", [kb, mouse, plain], [conf(("A", "ButtonLeft"), ("B", "ButtonBack"), ("ButtonLeft", "B"))],
             keys(1, "A", "B") + keys(2, "ButtonLeft") + motion(2) + motion(3), hold=2, depth=(12, 16)),
        make(P, "button without mouse", [kb, dev("dial", 9, named("dial"))], [conf(("A", "ButtonLeft"), ("B", "WheelUp"), ("ButtonLeft", "B"))],
             keys(1, "A", "B", repeat=True) + [["in", 2, [[REL, 1, 5]]]], depth=(12, 16)),
        make(P, "button while the mouse is removed", [kb, mouse], [conf(("A", "ButtonLeft"), ("ButtonBack", "B"))],
             keys(1, "A") + keys(2, "ButtonLeft") + motion(2) + [["unplug", 2], ["plug", 2]], depth=(12, 16)),
        make(P, "high resolution wheel", [mouse], [mice], hires(1, 11, 60, -60, 120, -240, 45), depth=(14, 18), plain=True),
        make(P, "horizontal wheel", [mouse], [mice], hires(1, 12, 60, -90, 120) + hires(1, 11, 60), depth=(12, 16), plain=True),
        make(P, "wheels of two mice", [mouse, plain], [mice], hires(1, 11, 60, 120) + lores(2, 8, 1, -2) + motion(1) + motion(2), depth=(12, 16), plain=True),
        make(P, "wheel of a mouse with one high resolution wheel", [tilt], [mice], hires(1, 11, 30, 120) + lores(1, 6, 1, -1), depth=(12, 16), plain=True),
        make(P, "wheel to a mouse without high resolution", [plain, mouse], [mice], hires(2, 11, 60, -120) + motion(1) + lores(1, 8, 1) + motion(2), depth=(12, 16), plain=True),
        make(P, "wheel and a stick without wheel", [point, mouse, kb], [conf(("A", "WheelUp"), ("B", "WheelLeft"), ("ButtonForward", "X"))],
             motion(1) + motion(2) + hires(2, 11, 60) + keys(3, "A", "B"), depth=(10, 14)),
        make(P, "wheel in all directions", [kb, mouse], [conf(("A", "WheelUp"), ("B", "WheelDown"), ("C", "WheelLeft"), ("D", "WheelRight"), ("ButtonBack", "X"))],
             keys(1, "A", "B", "C", "D") + motion(2), hold=1, depth=(10, 14)),
        make(P, "mapped wheel", [mouse], [conf(("WheelUp", "WheelDown"), ("WheelLeft", "X"))], hires(1, 11, 60, 120, -30) + hires(1, 12, 120, -60), depth=(10, 14)),
        make(P, "wheel behind a delay", [kb, mouse], [conf(("A", "X 50ms Y"), ("ButtonBack", "B"))],
             keys(1, "A") + hires(2, 11, 60, 120) + [["t", 20], ["t", 50]], depth=(6, 8)),
        make(P, "combined device", [combined, mouse], [mice], keys(1, "A", "ButtonLeft") + motion(1) + motion(2) + [["in", 1, [[ABS, 32, 50], [ABS, 32, 100]]]],
             depth=(10, 14)),
        make(P, "packet of several kinds", [mouse], [mice], [["in", 1, [[MSC, 4, 589825], [KEY, 272, 1], [REL, 0, 4]]], ["in", 1, [[REL, 1, -4], [KEY, 272, 0], [REL, 11, 120], [REL, 8, 1], [REL, 0, 7]]]] + motion(1),
             depth=(12, 16), plain=True),
        make(P, "volume knobs", [knob, dev("media", 1, named("media"))], [none],
             [["in", 1, [[ABS, 32, x]]] for x in (-100, 0, 99, 100)] + [["in", 1, [[ABS, 40, 511], [ABS, 32, 50]]]] + [["in", 2, [[ABS, 32, x]]] for x in (0, 128, 255)], depth=(6, 10)),
        make(P, "tablet", [tablet, kb], [none], [["in", 1, [[ABS, 0, 21600], [ABS, 1, 0], [ABS, 40, 250], [KEY, 320, 1]]], ["in", 1, [[ABS, 0, -5], [MSC, 0, 77], [KEY, 320, 0]]]] + keys(2, "A"),
             gf=[[filt("tablet")]], depth=(10, 14)),
        make(P, "switches and joysticks", [dev("many", 2, named("many")), dev("pad", 1, named("pad"))], [none],
             [["in", 1, [[SW, 1, 1], [ABS, 2, 7]]], ["in", 1, [[SW, 1, 0]]], ["in", 2, [[ABS, 0, -32768], [KEY, 304, 1]]], ["in", 2, [[ABS, 32, 7], [KEY, 304, 0]]]], gf=[[filt("pad")]], depth=(10, 14)),
        make(P, "injected", [kb, mouse], [conf(("A", "ButtonLeft"), ("WheelUp", "X"))],
             keys(1, "A") + motion(2) + [["io", seq("ButtonLeft")], ["io", seq("WheelUp")], ["ii", [[K["WheelUp"], 0, 0]]], ["vk", K["ButtonLeft"], 2]], depth=(9, 13)),
    ]


def c25():
    P = "C25"
    kb = dev("keyboard", 3, named("kb"), named("x"))
    mouse = dev("mouse", 5, named("ms"), named("y"))
    own = dev("mouse", 12, named("akeymapper"))
    lid = dev("lid", 1, named("lid"))
    keyed = conf(("A", "X"))
    mice = conf(("ButtonLeft", "X"))
    change = lambda *ds: [[a, d] for d in ds for a in ("plug", "unplug")]
    listed = [filt("k", rx=True), filt("k", rx=True, inv=True), filt("ms"), filt("ms", inv=True), filt("x", id=True), filt("y", id=True, inv=True)]
    res = []
    # all lists of up to two filters
    for a in listed:
        for b in [None] + listed:
            gf = [a] + ([b] if b else [])
            names = ["%s%s%s" % ("!" if f["inv"] else "", "id " if f["id"] else "", f["p"]) for f in gf]
            res.append(make(P, "filters %s" % ", ".join(names), [kb, mouse, own], [keyed],
                            change(1, 2, 3) + keys(1, "A") + keys(2, "ButtonLeft"), gf=[gf], init=[["plug", 1], ["conn", 1, [0]]], depth=(6, 10)))
    res += [
        make(P, "every kind of device, keys mapped", [dev(k, i, named(c + "z")) for i, (k, c) in enumerate(zip(KINDS, "abcdefghijklmnopqrst"))], [keyed, mice],
             [["cfg", 1], ["cfg", 2], ["conn", 1], ["conn", 2], ["disc"]], depth=(6, 10)),
        make(P, "plugged in later", [kb, mouse, lid, own], [mice], change(1, 2, 3, 4) + keys(1, "A"), init=[["conn", 1, [0]]], hold=1, depth=(8, 12)),
        make(P, "two at once", [kb, mouse, dev("small", 2, named("sm"))], [mice], [["plug", 1, 2], ["plug", 2, 3], ["plug", 3, 1]] + change(1, 2, 3), init=[["conn", 1, [0]]], depth=(9, 13)),
        make(P, "several own devices", [dev("keyboard", 2, named("keymapper")), own, dev("keyboard", 4, named("keymappera")), dev("keyboard", 6, named("b" * 90))], [mice],
             change(1, 2, 3, 4), gf=[[filt("k b", rx=True)]], init=[["conn", 1, [0]]], depth=(7, 11)),
        make(P, "attributed to devices", [kb, dev("small", 4, named("sm"), named("z")), mouse], [[[ctx(("A", "X"), dn=exactly("kb")), ctx(("A", "Y"), dn=exactly("sm")), ctx(("A", "Z"))]]],
             change(1, 2, 3) + keys(1, "A") + keys(2, "A"), init=[["plug", 2], ["conn", 1, [0, 1, 2]]], hold=1, depth=(9, 13)),
        make(P, "next key", [kb, dev("small", 4, named("sm"), named("z"))], [keyed], change(1, 2) + keys(1, "A") + keys(2, "B") + [["nki"]], init=[["plug", 1], ["conn", 1, [0]]], hold=1, depth=(9, 13)),
        make(P, "filters changed", [kb, mouse], [keyed, mice, keyed], change(1, 2) + [["cfg", 1], ["cfg", 2], ["cfg", 3], ["conn", 1], ["conn", 2], ["conn", 3]] + keys(2, "ButtonLeft"),
             gf=[[], [filt("kb", inv=True)], [filt("kb", inv=True)]], hold=1, depth=(7, 11)),
    ]
    return res


def c26():
    P = "C26"
    kb = dev("keyboard", 3, named("kb"), named("x"))
    mouse = dev("mouse", 5, named("ms"), named("y"))
    keyed = conf(("A", "X"), ("B", "Y 50ms Z"))
    other = conf(("A", "B"))
    mice = conf(("ButtonLeft", "X"))
    leave = [["disc"], ["bye", 1], ["conn", 1, [0]], ["term"]]
    both = leave + [["conn", 2, [0]], ["bye", 2], ["cfg", 1], ["cfg", 2]]
    return [
        make(P, "keys held", [kb], [keyed], keys(1, "A", "B", repeat=True) + leave + [["t", 50]], depth=(7, 10)),
        make(P, "buttons held", [kb, mouse], [conf(("A", "ButtonLeft"), ("ButtonBack", "X"))], keys(1, "A") + keys(2, "ButtonLeft", "ButtonBack") + motion(2) + leave, depth=(7, 10)),
        make(P, "two configurations", [kb], [keyed, other], keys(1, "A") + both, depth=(6, 9)),
        make(P, "with and without mouse", [kb, mouse], [keyed, mice], keys(1, "A") + keys(2, "ButtonLeft") + both, depth=(5, 8)),
        make(P, "different filters", [kb, mouse], [keyed, other], keys(1, "A") + both, gf=[[], [filt("kb", inv=True)]], depth=(6, 9)),
        # every pair of filters
        make(P, "similar filters", [kb, mouse], [conf(("A", "X"))] * 7, keys(1, "A") + [["cfg", n] for n in range(1, 8)],
             gf=[[], [filt("kb")], [filt("kb", inv=True)], [filt("kb", id=True, inv=True)], [filt("x", id=True, inv=True)],
                 [filt("kb", inv=True), filt("kb")], [filt("kb"), filt("kb", inv=True)]], hold=1, depth=(4, 5)),
        make(P, "filters of a client which left", [kb], [keyed, other], keys(1, "A") + [["bye", 1], ["bye", 2], ["disc"], ["conn", 1, [0]], ["conn", 2, [0]], ["nki"]], gf=[[], [filt("ms")]], depth=(7, 10)),
        make(P, "toggled keys", [kb], [conf(("A", "Virtual0"), ("Virtual0{B}", "X"), ("Virtual0", "Y"))], keys(1, "A", "B") + leave + [["vk", K["Virtual0"], 2]], depth=(7, 10)),
        make(P, "pending timeout", [kb], [conf(("A{100ms}", "X"), ("A", "Y"), ("B", "50ms Z"))], keys(1, "A") + leave + [["t", 60], ["t", 100]], depth=(7, 10)),
        make(P, "pending output", [kb], [conf(("A", "X 100ms Y 100ms Z"))], keys(1, "A", "B") + leave + [["t", 100]], depth=(7, 10)),
        make(P, "context active", [kb], [[[ctx(("ContextActive", "X 50ms Y")), ctx(("ContextActive", "Z ^ W"))]]],
             leave[:2] + [["conn", 1, [0]], ["conn", 1, [0, 1]], ["conn", 1], ["c", [1]], ["c", []], ["t", 50]], init=[["plug", 1]], depth=(7, 10)),
        make(P, "wheel below a detent", [mouse], [mice], hires(1, 11, 60, -90) + leave, depth=(7, 10)),
        make(P, "exit combination", [kb], [conf(("A", "X"))], keys(1, "A", "ShiftLeft", "Escape", "K") + leave[:3], hold=4, depth=(7, 10)),
        make(P, "devices change while nobody is connected", [kb, mouse, dev("small", 1, named("sm"))], [mice], [[a, d] for a in ("plug", "unplug") for d in (1, 2, 3)] + keys(1, "A") + leave, hold=1, depth=(5, 8)),
    ]


def suite(prop, thorough):
    s = {"C24": c24, "C25": c25, "C26": c26}[prop]()
    for c in s:
        c["depth"] = c["depth"][1 if thorough else 0]
    return s


# ---------------------------------------------------------------------------
# random devices, configurations and histories

def scenario(prop, n, length):
    seed = vlib.SEED * 1000003 + n * 41 + int(prop[1:]) * 7919
    r = random.Random(seed)
    feat = {f for f in "ctx ctxactive device mods virtual timeout delay oor any not".split() if r.random() < .25}
    if "ctxactive" in feat:
        # which contexts are active before the devices are known is not specified
        feat.discard("device")
    if r.random() < .6:
        feat.add("mouse")
    ge = kmgen.Gen(seed, keys="ABC", feat=feat)
    cfgs, texts = [], []
    for _ in range(r.choice([1, 1, 2, 2, 3])):
        if r.random() < .25:
            ms = r.choice([[("A", "B")], [("A", "ButtonLeft"), ("ButtonLeft", "A")], [("WheelUp", "WheelDown"), ("A", "WheelLeft")],
                           [("ButtonLeft", "ButtonRight"), ("B", "ButtonMiddle")], [("WheelUp", "X"), ("A", "WheelUp WheelUp")],
                           [("A", "ShiftLeft{ButtonLeft}"), ("B", "50ms ButtonLeft 50ms WheelRight")]])
            cs, t = conf(*ms), ms
        else:
            cs, t = ge.config()
        cfgs.append(cs)
        texts.append(t)
    nctx = [sum(len(s) for s in cs) for cs in cfgs]

    def name():
        x = r.random()
        if x < .5:
            return [r.randrange(3) for _ in range(r.choice([1, 2]))]
        if x < .6:
            return [r.randrange(3)] + OWN
        if x < .65:
            return OWN + [r.randrange(3)]
        if x < .75:
            return [r.randrange(3) for _ in range(r.choice([60, 70, 78, 79, 80, 100, 120]))]
        return [r.randrange(3) for _ in range(r.choice([3, 5, 8]))]

    def filters():
        res = []
        for _ in range(r.choice([0, 0, 1, 1, 2, 3]) if prop == "C25" else r.choice([0, 0, 0, 1])):
            rx = r.random() < .6
            d = r.choice(devs)
            p = [[r.randrange(3) for _ in range(r.choice([1, 1, 2]))] for _ in range(r.choice([1, 2]) if rx else 1)]
            by = r.random() < .4
            if not rx and r.random() < .8:
                p = [d["i" if by else "n"]]
            if all(p):
                res.append(dict(p=p, rx=rx, inv=r.random() < .5, id=by))
        return res

    kinds = list(KINDS)
    common = ["keyboard", "keyboard", "small", "mouse", "mouse", "plain", "tilt", "point", "combined", "tablet", "knob"]
    numbers = r.sample(range(0, 40), 6)
    devs, used = [], []
    for i in range(r.choice([2, 3, 3, 4, 5])):
        nm = name()
        # forward devices are known by the names of their devices
        if any(u[:40] == nm[:len(u[:40])] or nm[:40] == u[:len(nm[:40])] for u in used):
            nm = [3 + i] + nm
        used.append(nm)
        kind = r.choice(kinds if r.random() < .4 else common)
        devs.append(dev(kind, numbers[i], nm, [] if r.random() < .4 else [r.randrange(3) for _ in range(r.choice([1, 2]))] + [3 + i],
                        [r.randrange(9) for _ in range(3)]))
    gf = []
    for _ in cfgs:
        x = r.random()
        if gf and gf[-1] and x < .3:
            # a small change
            fs = [dict(f) for f in gf[-1]]
            f = r.choice(fs)
            x = r.choice(["inv", "id", "", "rx" if len(f["p"]) == 1 else "inv"])
            if not x:
                fs.remove(f)
            else:
                f[x] = not f[x]
            gf.append(fs)
        else:
            gf.append(gf[-1] if gf and x < .7 else filters())

    ks = [X.KEYS[k] for k in "ABCE"] + ([42] if "mods" in feat else [])
    # which of several devices repeats a key is only defined as long as they do not change
    state = dict(cur=1, changed=False)
    held = {}
    ev = []
    plugged = set()

    def conn(kind):
        state["cur"] = c = r.randint(1, len(cfgs))
        if kind == "cfg":
            state["changed"] = False
        m = nctx[c - 1]
        e = [kind, c]
        if r.random() < .8:
            e.append(list(range(m)) if r.random() < .7 else sorted(r.sample(range(m), r.randint(0, m))))
        return e

    def input(d):
        D = devs[d - 1]
        codes = [k for k in ks + [272, 273, 274, 114, 116, 257, 305, 321] if any(a <= k <= b for a, b in D["keys"])]
        res = []
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            x = r.random()
            h = held.setdefault(d, [])
            if x < .5 and codes:
                if h and r.random() < .5:
                    k = r.choice(h)
                    v = r.choice([0, 0, 0, 2]) if not state["changed"] else 0
                    if v == 0:
                        h.remove(k)
                    res.append([KEY, k, v])
                else:
                    k = r.choice(codes)
                    if k not in h and sum(map(len, held.values())) < 5 and not (
                            state["changed"] and any(k in x for x in held.values())):
                        h.append(k)
                        res.append([KEY, k, 1])
            elif x < .85 and D["rel"]:
                c = r.choice(D["rel"])
                if c in (8, 6):
                    res.append([REL, c, r.choice([1, -1, 2])])
                elif c in (11, 12):
                    v = r.choice([120, -120, 30, 60, -60, 240, 15, -90])
                    res.append([REL, c, v])
                    if abs(v) >= 120:
                        res.append([REL, c - 3 if c == 11 else 6, v // 120])
                else:
                    res.append([REL, c, r.choice([1, -3, 10])])
            elif x < .9 and D["abs"]:
                a = r.choice(D["abs"])
                res.append([ABS, a[0], r.choice([a[1], a[2], (a[1] + a[2]) // 2, r.randint(a[1], a[2])])])
            elif x < .95 and D["msc"]:
                res.append([MSC, r.choice(D["msc"]), r.choice([458756, 30])])
            elif D["sw"]:
                res.append([SW, r.choice(D["sw"]), r.choice([0, 1])])
        return ["in", d, res] if res else None

    everything = list(range(1, len(devs) + 1))
    for d in everything:
        if r.random() < .75:
            plugged.add(d)
            ev.append(["plug", d])
    if r.random() < .95:
        ev.append(conn("conn"))
    change = .16 if prop == "C25" else .06
    leave = change + (.18 if prop == "C26" else .09)
    while len(ev) < length:
        x = r.random()
        if x < change:
            d = r.choice(everything)
            state["changed"] = True
            if d in plugged:
                plugged.discard(d)
                held.pop(d, None)
                ev.append(["unplug", d])
            else:
                plugged.add(d)
                e = ["plug", d]
                rest = [y for y in everything if y not in plugged]
                if rest and r.random() < .3:
                    e.append(r.choice(rest))
                    plugged.add(e[-1])
                ev.append(e)
        elif x < change + .05:
            ev.append(conn("cfg"))
        elif x < leave:
            x = r.random()
            if x >= .55 and "ctxactive" in feat:
                # devices are not grabbed before their keys are released, delays pass meanwhile
                ev += [["in", d, [[KEY, k, 0] for k in h]] for d, h in held.items() if h]
                held.clear()
            ev.append(["disc"] if x < .4 else conn("bye")[:2] if x < .55 else conn("conn"))
        elif x < leave + .05:
            ev.append(["t", r.choice([1, 20, 50, 100, 250, 1000, 5000])])
        elif x < leave + .07:
            m = nctx[state["cur"] - 1]
            ev.append(["c", sorted(r.sample(range(m), r.randint(0, m)))])
        elif x < leave + .09:
            ev.append(["vk", K["Virtual0"], r.choice([0, 1, 2])])
        elif x < leave + .1:
            ev.append([r.choice(["ii", "io"]), seq(r.choice(["A", "ButtonLeft", "WheelUp", "X 50ms Y"]))])
        elif x < leave + .105:
            ev.append(["nki"])
        elif x < leave + .109:
            d = r.choice(everything)
            if d in plugged and devs[d - 1]["keys"] == [[1, 255]]:
                for k in (42, 1, 37):
                    if k not in held.setdefault(d, []):
                        held[d].append(k)
                        ev.append(["in", d, [[KEY, k, 1]]])
        elif plugged:
            e = input(r.choice(sorted(plugged)))
            if e:
                ev.append(e)
    if r.random() < .3:
        ev.append(["term"])
    return dict(cfgs=cfgs, gf=gf, devs=devs, ev=ev), "devices %s, filters %s, mappings %s" % (
        [(next(k for k, v in KINDS.items() if all(D[f] == v[f] for f in v)), D["n"], D["i"]) for D in devs], gf, texts)


def check(prop):
    rep = vlib.Report(prop)
    exe = driver()
    thorough = vlib.TIER == "thorough"
    s = suite(prop, thorough)
    data, rep.coverage["graph_from_cache"] = replay.graphs(prop, "DaemonGraph", MODULES, s, thorough)
    replay.replay_graphs(rep, exe, s, data, vlib.scale(4000, 40000), describe, describe_obs, fields=("cfgs", "gf", "devs"))
    sc = [scenario(prop, n, vlib.scale(40, 80)) for n in range(vlib.scale(800, 8000))]
    replay.validate(rep, exe, "TraceDaemon", [a for a, b in sc], [b for a, b in sc], describe, describe_obs)
    return rep.finish()


def warm(prop):
    replay.graphs(prop, "DaemonGraph", MODULES, suite(prop, False), False)
