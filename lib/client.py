"""Checks of the client: contexts, configuration and control requests (C21 to C23)."""
import os
import random

import replay
import suites
import vlib

MODULES = ("Keys.tla", "Client.tla", "ClientGraph.tla", "ClientGraph.cfg")
FIELDS = ("cfgs", "wins", "names", "exprs", "auto")
K = suites.K
VIRTUAL = 61696


def driver():
    return vlib.build_driver("client_driver", [os.path.join(vlib.VERIF, "harness", "client_driver.cpp")] +
                             vlib.globs("runtime/*.cpp", "config/*.cpp", "client/ClientState.cpp", "client/ConfigFile.cpp",
                                        "client/Settings.cpp", "client/unix/TrayIcon.cpp",
                                        "client/ControlPort.cpp", "client/ServerPort.cpp", "client/unix/FocusedWindowImpl.cpp",
                                        "client/unix/StringTyperImpl.cpp", "client/unix/StringTyperGeneric.cpp",
                                        "server/ClientPort.cpp", "common/Connection.cpp", "common/Host.cpp", "common/output.cpp"),
                             defines=("ENABLE_X11", "ENABLE_APPINDICATOR"), libs=("-pthread",))


def text(s):
    return list(s.encode())


# parts of scenarios

def filt(s="", inv=False, rx=False, i=False, a=False, z=False):
    return dict(s=text(s), inv=inv, rx=rx, i=i, a=a, z=z)


def filter_text(name, f):
    s = bytes(f["s"]).decode()
    if not s:
        return ""
    if f["rx"]:
        s = "/%s%s%s/%s" % ("^" if f["a"] else "", s, "$" if f["z"] else "", "i" if f["i"] else "")
    else:
        s = '"%s"' % s
    return " %s%s%s" % (name, "!=" if f["inv"] else "=", s)


def ctx(m, c=None, t=None, p=None):
    return dict(m=m, c=c or filt(), t=t or filt(), p=p or filt())


def content(n, contexts=(), cmd=(), al=(), inc=0, opt=()):
    """the n-th content of files"""
    lines = ["@options %s" % ("update" if o else "no-update") for o in opt]
    lines += ["[default]", "B >> Virtual%d" % (100 + n)]
    lines += ["F%d >> $(run %d)" % (f + 1, x) for f, x in cmd]
    lines += ["%s = Virtual%d" % (a, k - VIRTUAL) for a, k in al]
    for x in contexts:
        s = "".join(filter_text(*f) for f in (("class", x["c"]), ("title", x["t"]), ("path", x["p"])))
        lines += ["[%s]" % (s.strip() or "default"), "A >> Virtual%d" % x["m"]]
    if inc:
        lines.append('@include "file%d.conf"' % inc)
    return dict(ok=True, id=100 + n, ctx=list(contexts), cmd=[list(c) for c in cmd], al=[list(a) for a in al], inc=inc, opt=list(opt),
                x="\n".join(lines) + "\n")


def broken(n, inc=0):
    lines = ["A >> B", "[class=\"X\"]"]
    if inc:
        lines.append('@include "file%d.conf"' % inc)
    return dict(ok=False, id=100 + n, ctx=[], cmd=[], al=[], inc=inc, opt=[], x="\n".join(lines + ["A >> >> C", ""]))


def window(c, t, p):
    return dict(c=text(c), t=text(t), p=text(p))


def virtual(n):
    return VIRTUAL + n


def name(x, v=0):
    return dict(x=x, v=v)


def ev(k, s=1, v=0):
    return [K[k], s, v]


EXPRS = [dict(x="A B", ok=True, q=[ev("A"), ev("A", 0), ev("B"), ev("B", 0)]),
         dict(x="A{B}", ok=True, q=[ev("A"), ev("B"), ev("B", 0), ev("A", 0)]),
         dict(x="(A B)", ok=True, q=[ev("A"), ev("B"), ev("A", 0), ev("B", 0)]),
         dict(x="A NoSuchKey", ok=False, q=[]),
         dict(x="Shift{A}", ok=True, q=[[42, 1, 0], ev("A"), ev("A", 0), [42, 0, 0]]),
         dict(x="Virtual3", ok=True, q=[[virtual(3), 1, 0], [virtual(3), 0, 0]]),
         dict(x="", ok=True, q=[])]
# typed strings
TYPED = [dict(x="", ok=True, q=[[61440, 2, 0]]),
         dict(x="ab", ok=True, q=[[61440, 2, 0], ev("A"), ev("A", 0), ev("B"), ev("B", 0)]),
         dict(x="aA", ok=True, q=[[61440, 2, 0], ev("A"), ev("A", 0), [42, 1, 0], ev("A"), ev("A", 0), [42, 0, 0]])]


def make(p, nm, cfgs, alphabet, init=(), wins=(), names=(), exprs=(), auto=True):
    return dict(p=p, name=nm, cfgs=list(cfgs), wins=list(wins), names=list(names), exprs=list(exprs), auto=auto,
                ev=[list(e) for e in alphabet], init=[list(e) for e in init])


WINS = [window("Firefox", "Mozilla - ab", "/usr/bin/firefox"), window("firefox", "Mozilla", "/usr/bin/Firefox"),
        window("Code", "ab - Code", "/opt/code"), window("", "x", "")]
# nothing of it is executed
ODD = [window("a\"b", "x $(run 91) `run 92` \\ 'y'", "/p\\\"q"), window("\\\";run 93;\"", "';run 94;'", "$PATH"), WINS[0]]


def c21():
    P = "C21"
    a = content(1, [ctx(1, c=filt("Firefox")), ctx(2, t=filt("ab")), ctx(3, p=filt("/usr")), ctx(4, c=filt("fire"))])
    b = content(2, [ctx(1, c=filt("firefox", rx=True, i=True)), ctx(2, c=filt("Fire", rx=True, a=True)),
                    ctx(3, c=filt("Firefox", inv=True)), ctx(4, t=filt("ab", rx=True, z=True)), ctx(5)])
    c = content(3, [ctx(1, c=filt("Code"), t=filt("ab")), ctx(2, c=filt("Code"), t=filt("ab", inv=True)),
                    ctx(3, p=filt("code", rx=True, z=True), t=filt("Code")), ctx(4, c=filt("o", rx=True, inv=True))])
    # a command which does not end
    d = content(4, [], [(0, 900)])
    bad = broken(5)
    wins = [["win", w + 1, q] for w in range(len(WINS)) for q in (True, False)]
    writes = [["write", 1, n, age] for n in (1, 2, 3, 4, 5) for age in (1, 2)]
    other = [["tog"], ["loop"], ["disc"], ["reload"], ["act", 0]]
    start = [["write", 1, 1, 2], ["start", 1]]
    return [
        make(P, "windows", [a, b, c, d, bad], wins + writes + other, start, WINS),
        make(P, "windows, no automatic update", [a, b, c, d, bad], wins + writes[::2] + other, start, WINS, auto=False),
        make(P, "switching configurations", [a, b, c, d, bad],
             wins[::2] + [["tog"], ["cc", 1], ["setcfg", 1, 1], ["setcfg", 1, 2], ["setcfg", 1, 3]],
             start + [["write", 2, 2, 2], ["write", 3, 3, 2]], WINS),
        make(P, "starting", [a, b], wins[:4] + [["write", 1, 1, 1], ["write", 1, 2, 2], ["start", 1], ["tog"], ["loop"], ["disc"]], [], WINS),
    ]


def c22():
    P = "C22"
    plain = content(1, [ctx(1)], [(0, 11), (1, 900)])
    other = content(2, [ctx(2)], [(0, 21), (1, 22)])
    main = content(3, [ctx(3)], [(0, 31)], inc=2)
    part = content(4, [ctx(4)], [(5, 41)])
    part2 = content(5, [ctx(5)], [(5, 51), (6, 52)])
    bad = broken(6)
    badinc = broken(7, inc=2)
    cfgs = [plain, other, main, part, part2, bad, badinc]
    acts = [["act", n] for n in (0, 1, 5, 6, 12)]
    update, keep = content(8, [ctx(6)], [(0, 61)], opt=[True]), content(9, [ctx(7)], [(0, 71)], opt=[True, False])
    res = [make(P, "options" + ("" if auto else ", no automatic update"), cfgs + [update, keep, content(10, [ctx(8)], inc=2)],
                [["write", 1, n, 1] for n in (1, 2, 6, 8, 9, 10)] + [["write", 2, n, 3] for n in (4, 8, 9)] + [["loop"], ["reload"], ["disc"], ["act", 0], ["setcfg", 1, 1], ["setcfg", 1, 2]],
                [["write", 1, 1, 2], ["write", 2, 4, 2], ["start", 1], ["cc", 1]], auto=auto) for auto in (True, False)]
    for auto in (True, False):
        tail = "" if auto else ", no automatic update"
        loop = [["loop"], ["reload"], ["disc"]]
        res.append(make(P, "one file" + tail, cfgs, [["write", 1, n, age] for n in (0, 1, 2, 6) for age in (1, 2, 3)] + loop + acts[:3],
                        [["write", 1, 1, 2], ["start", 1]], auto=auto))
        res.append(make(P, "includes" + tail, cfgs, [["write", 1, n, age] for n in (0, 1, 3, 6, 7) for age in (1, 3)] +
                        [["write", 2, n, age] for n in (0, 4, 5, 6) for age in (1, 3)] + loop + acts,
                        [["write", 1, 3, 2], ["write", 2, 4, 2], ["start", 1]], auto=auto))
        res.append(make(P, "several files" + tail, cfgs, [["write", 1, n, 1] for n in (0, 1, 6)] + [["write", 2, n, 1] for n in (0, 2, 6)] +
                        [["write", 3, n, 3] for n in (4, 5)] + [["setcfg", 1, f] for f in (1, 2, 3)] + [["cc", 1], ["loop"], ["reload"]] + acts[:4],
                        [["write", 1, 1, 2], ["start", 1], ["cc", 1]], auto=auto))
    res.append(make(P, "starting", cfgs, [["write", 1, n, age] for n in (0, 1, 3, 6) for age in (1, 2)] + [["write", 2, n, 1] for n in (0, 4)] +
                    [["start", 1], ["loop"], ["reload"], ["disc"]] + acts[:3]))
    return res


def c23():
    P = "C23"
    v7, v9, v255 = virtual(7), virtual(9), virtual(255)
    a = content(1, [], [], [("Boss", v7), ("Last", v255)])
    b = content(2, [], [], [("Boss", v9)])
    bad = broken(3)
    names = [name("Virtual7", v7), name("Boss"), name("A"), name("nothing"), name("Virtual255", v255), name("Last"), name("")]
    start = [["write", 1, 1, 2], ["start", 1]]

    def on(c, *reqs):
        return [[r[0], c] + list(r[1:]) for r in reqs]

    def conn(*cs):
        return [[k, c] for c in cs for k in ("cc", "cd")]
    svk = [["svk", k, s] for k in (v7, v9) for s in (0, 1)]
    res = [
        make(P, "states", [a, b, bad], conn(1) + on(1, *[("get", i + 1) for i in range(7)], *[("set", i + 1, s) for i in range(7) for s in (0, 1, 2)]) +
             [["svk", k, s] for k in (v7, v9, v255) for s in (0, 1)] + [["write", 1, 2, 1], ["write", 1, 1, 1], ["write", 1, 3, 1], ["disc"]], start, names=names),
        make(P, "waiting", [a, b], conn(1, 2) + [x for c in (1, 2) for x in on(c, ("wait", 1), ("wait", 2), ("wait", 4), ("get", 2))] + svk + [["write", 1, 2, 1], ["write", 1, 1, 1], ["disc"]],
             start, names=names),
        make(P, "three waiting", [a], [["cc", c] for c in (1, 2, 3)] + [["cd", 2]] + [["wait", c, 1] for c in (1, 2, 3)] + svk[:2] + [["get", 2, 1]], start, names=names),
        make(P, "instances", [a], conn(1, 2, 3) + [["inst", c, i] for c in (1, 2, 3) for i in ("", "0", "x", "y")] + [["wait", 1, 1]] + svk[:2], start, names=names),
        make(P, "key infos", [a], conn(1, 2) + [["nki", 1], ["nki", 2], ["info", K["A"]], ["tinfo"], ["val"], ["get", 1, 1], ["wait", 1, 1], ["disc"], ["inst", 1, "x"], ["inst", 2, "x"]] + svk[:2],
             start, names=names),
        make(P, "key infos of windows", [a, bad], conn(1) + [["win", w + 1, True] for w in range(len(ODD))] + [["nki", 1], ["info", K["A"]], ["tinfo"], ["tog"],
             ["write", 1, 2, 1], ["write", 1, 1, 1]], start, ODD, names=names),
        make(P, "injecting", [a], conn(1) + [[k, 1, i + 1] for k in ("ii", "io") for i in range(len(EXPRS))] + [["type", 1, len(EXPRS) + i + 1] for i in range(len(TYPED))] + svk[:2] + [["wait", 1, 1]],
             start, names=names, exprs=EXPRS + TYPED),
        make(P, "several requests at once", [a, b], conn(1, 2) + [
            ["multi", 1, on(1, ("get", 1), ("get", 3), ("get", 2))],
            ["multi", 1, on(1, ("wait", 1), ("get", 1), ("wait", 4))],
            ["multi", 1, on(1, ("set", 1, 1), ("inst", "x"), ("get", 1))],
            ["multi", 2, on(2, ("setcfg", 2), ("get", 2), ("wait", 2))],
            ["multi", 2, on(2, ("inst", "x"), ("wait", 2), ("wait", 1))],
            ["multi", 2, on(2, ("setcfg", 1), ("setcfg", 3), ("io", 1), ("ii", 4))]] + svk,
             start + [["write", 2, 2, 2]], names=names, exprs=EXPRS),
    ]
    return res


def describe(e):
    return "%s%s" % (e[0], "" if len(e) < 2 else "(%s)" % ",".join(map(str, e[1:])))


NAMES = {20: "server received configuration of", 21: "active contexts", 70: "ended", 22: "set virtual key", 23: "requested key info", 24: "injected input",
         25: "injected output", 26: "validate", 30: "answered", 31: "answered key info", 32: "closed", 33: "could not connect", 34: "incomplete answer",
         35: "could not send", 40: "executed command", 41: "showed key info", 42: "reconnected", 43: "server failed reading"}


def describe_obs(o):
    return "; ".join("%s %s" % (NAMES[x[0]], " ".join(map(str, x[1:]))) for x in o) or "nothing"


# random histories

def rnd_filter(r):
    if r.random() < .5:
        return filt()
    rx = r.random() < .5
    return filt("".join(r.choice("abAB") for _ in range(r.randrange(1, 3))), r.random() < .25, rx, rx and r.random() < .4,
                rx and r.random() < .2, rx and r.random() < .2)


def rnd_text(r):
    return "".join(r.choice(("ab", "A", "B", " ", "-", "a", "b", "'", '"', "\\", "$", "`")) for _ in range(r.randrange(6)))


def scenario(n, prop):
    r = random.Random("client %s %d %d" % (prop, vlib.SEED, n))
    cfgs = []
    aliases = ("Boss", "Toggle", "other")
    for i in range(1, 9):
        if i in (7, 8):
            cfgs.append(broken(i, r.choice((0, 2, 3))))
            continue
        # the included ones use other keys
        part = i in (5, 6)
        f = 5 if part else 0
        cmd = [(f + k, 10 * i + k + (900 if r.random() < .15 else 0)) for k in range(r.randrange(5))]
        al = [(r.choice(aliases), virtual(r.choice((1, 2, 3, 255)))) for _ in range(r.randrange(3))]
        m = 10 * (i if part else 0) + 1
        cfgs.append(content(i, [ctx(m + k, rnd_filter(r), rnd_filter(r), rnd_filter(r)) for k in range(r.randrange(5))], cmd, al,
                            0 if part or r.random() < .5 else r.choice((2, 3)), [r.random() < .7] if r.random() < .3 else ()))
    wins = []
    while len(wins) < 4:
        w = window(rnd_text(r), rnd_text(r), rnd_text(r))
        if w not in wins and any(w.values()):
            wins.append(w)
    names = [name("Virtual%d" % k, virtual(k)) for k in (1, 2, 3, 255)] + [name(a) for a in aliases] + [name("A"), name("Any"), name("ContextActive"), name("virtual1"), name("Nothing")]
    auto = r.random() < .7
    evs = [["write", 1, r.randrange(1, 5), 2]]
    evs += [["write", f, r.choice((5, 6)), 2] for f in (2, 3) if r.random() < .8]
    evs.append(["start", 1])
    weights = dict(C21=(4, 2, 10, 3, 1, 1, 1, 4), C22=(10, 3, 2, 1, 8, 1, 1, 4), C23=(2, 1, 1, 1, 1, 6, 3, 30))[prop]

    def req(c):
        k = r.randrange(9)
        nm = r.randrange(len(names)) + 1
        if k < 2: return ["get", c, nm]
        if k == 2: return ["set", c, nm, r.randrange(3)]
        if k < 5: return ["wait", c, nm]
        if k == 5: return ["inst", c, r.choice(("", "0", "x", "y"))]
        if k == 6: return ["setcfg", c, r.choice((1, 2, 3))]
        return [r.choice(("ii", "io")), c, r.randrange(len(EXPRS)) + 1]
    for _ in range(r.randrange(10, 60)):
        k = r.choices(range(8), weights)[0]
        c = r.randrange(1, 4)
        if k == 0:
            f = r.choice((1, 1, 2, 3))
            evs.append(["write", f, r.choice((0, 1, 2, 3, 4, 7, 8) if f == 1 else (0, 5, 6, 5, 6, 7)), r.randrange(1, 4)])
        elif k == 1: evs.append(r.choice((["loop"], ["reload"], ["loop"])))
        elif k == 2: evs.append(["win", r.randrange(1, 5), r.random() < .7])
        elif k == 3: evs.append(["tog"] if r.random() < .7 else ["disc"])
        elif k == 4: evs.append(["act", r.choice((0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 13))])
        elif k == 5: evs.append(["svk", virtual(r.choice((1, 2, 3, 255))), r.randrange(2)])
        elif k == 6: evs.append(r.choice((["info", r.choice((30, 48, 57))], ["tinfo"], ["val"], ["nki", c], ["nki", c])))
        else:
            j = r.random()
            if j < .35: evs.append(["cc", c])
            elif j < .42: evs.append(["cd", c])
            elif j < .5: evs.append(["multi", c, [req(c) for _ in range(r.randrange(1, 4))]])
            else: evs.append(req(c))
    return dict(cfgs=cfgs, wins=wins, names=names, exprs=EXPRS, auto=auto, ev=evs), "history %d" % n


def suite(prop):
    return dict(C21=c21, C22=c22, C23=c23)[prop]()


def check(prop):
    rep = vlib.Report(prop)
    exe = driver()
    thorough = vlib.TIER == "thorough"
    s = suite(prop)
    data, rep.coverage["graph_from_cache"] = replay.graphs(prop, "ClientGraph", MODULES, s, thorough)
    with vlib.Scratch() as d:
        env = dict(os.environ, DRIVER_DIR=d)
        replay.replay_graphs(rep, exe, s, data, vlib.scale(1000, 20000), describe, describe_obs, fields=FIELDS, env=env)
        sc = [scenario(n, prop) for n in range(vlib.scale(300, 3000))]
        replay.validate(rep, exe, "TraceClient", [a for a, b in sc], [b for a, b in sc], describe, describe_obs, env=env)
    return rep.finish()


def warm(prop):
    replay.graphs(prop, "ClientGraph", MODULES, suite(prop), False)
