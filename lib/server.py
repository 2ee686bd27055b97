"""Checks of the server's state machine (C12 - C16)."""
import os
import random

import engine
import kmexpr as X
import kmgen
import replay
import suites
import vlib
from suites import K, ctx, down, up

MODULES = ("Keys.tla", "Match.tla", "Stage.tla", "MultiStage.tla", "Server.tla", "ServerGraph.tla", "ServerGraph.cfg")
V0, V1 = K["Virtual0"], K["Virtual1"]
UP, DOWN, TOGGLE = 0, 1, 2


def driver():
    return vlib.build_driver("server_driver", [os.path.join(vlib.VERIF, "harness", "server_driver.cpp")] +
                             vlib.globs("runtime/*.cpp", "server/ServerState.cpp", "common/output.cpp",
                                        "config/get_key_name.cpp"))


def seq(text):
    """events of an output expression"""
    return X.translate(text, False)


def conf(*mappings, **kw):
    """one stage with one context"""
    return [[X.context(mappings, **kw)]]


def make(p, name, cfgs, keys, hold=2, devs=(0,), times=(), ctxs=(), extra=(), init=None, depth=(7, 11), descs=None, wheel=()):
    ev = []
    for k in keys.split():
        for d in devs:
            ev += [down(k, d), up(k, d)]
    for w in wheel:
        ev.append(["k", K[w[0]], 0, w[1], 0])
    ev += [["t", t] for t in times]
    ev += [["c", list(c)] for c in ctxs]
    ev += [list(e) for e in extra]
    n = sum(len(s) for s in cfgs[0]) if cfgs else 0
    start = []
    if descs:
        start.append(["d", descs])
    start += [["cfg", 1], ["c", list(range(n))]] if init is None else init
    return dict(p=p, name=name, cfgs=cfgs, init=start, ev=ev, hold=hold, depth=depth)


def dev(n, i=()):
    return dict(n=list(n), i=list(i))


def c12():
    P = "C12"
    vk = [["vk", V0, DOWN], ["vk", V0, UP], ["vk", V0, TOGGLE]]
    return [
        make(P, "toggle by key", [conf(("A", "Virtual0"), ("Virtual0{B}", "X"), ("B", "Y"))], "A B", extra=vk),
        make(P, "toggle two", [conf(("A", "Virtual0 Virtual1"), ("B", "Virtual0"), ("Virtual1{C}", "X"))], "A B C"),
        make(P, "toggle twice in one output", [conf(("A", "Virtual0 X Virtual0"), ("Virtual0", "Y"))], "A B", extra=vk),
        make(P, "held output", [conf(("Virtual0", "X"), ("A", "Virtual0"))], "A B", extra=vk),
        make(P, "modifier context", [[[ctx(("A", "Virtual0")), ctx(("A", "X"), ("B", "Y"), mf=["Virtual0"])]]], "A B", extra=vk),
        make(P, "inverted modifier context", [[[ctx(("A", "Virtual0"), mf=["!Virtual0"]), ctx(("A", "Virtual0 X"), mf=["Virtual0"])]]], "A B", extra=vk[2:]),
        make(P, "context active", [[[ctx(("A", "Virtual0")), ctx(("ContextActive", "Virtual1"), mf=["Virtual0"]), ctx(("B", "X"), mf=["Virtual1"])]]], "A B", extra=vk, ctxs=([0, 1, 2], [0, 2])),
        make(P, "mutual toggling", [[[ctx(("C", "Virtual0")), ctx(("ContextActive", "A Virtual0"), mf=["Virtual0"]), ctx(("ContextActive", "B Virtual0"), mf=["!Virtual0"])]]], "C", extra=vk[:2], init=[["cfg", 1]], ctxs=([0, 1, 2], [0])),
        make(P, "two stages", [[[ctx(("A", "Virtual0"), ("Virtual0{B}", "C"))], [ctx(("Virtual0{C}", "X"), ("C", "Y"))]]], "A B C", extra=vk),
        make(P, "toggled in second stage", [[[ctx(("A", "B"))], [ctx(("B", "Virtual0"), ("Virtual0{C}", "X"))]]], "A B C", extra=vk[2:]),
        make(P, "three stages", [[[ctx(("A", "Virtual0"))], [ctx(("Virtual0{B}", "C"))], [ctx(("Virtual0{C}", "X"), ("B", "Y"))]]], "A B", extra=vk),
        make(P, "negated in output", [conf(("A", "!Virtual0 X"), ("B", "Virtual0"))], "A B", extra=vk),
        make(P, "behind a delay", [conf(("A", "X 50ms Virtual0"), ("Virtual0{B}", "Y"))], "A B", times=(30, 50), extra=vk[1:]),
        make(P, "with timeout", [conf(("A{100ms}", "Virtual0"), ("Virtual0{B}", "Y"))], "A B", times=(60, 100), extra=vk[2:]),
        make(P, "on release", [conf(("A", "Virtual0 ^ Virtual0"), ("Virtual0{B}", "Y"))], "A B", extra=vk[2:]),
        make(P, "requested key", [conf(("A", "X"), ("B", "Y"))], "A B", extra=[["vk", K["A"], DOWN], ["vk", K["A"], UP]]),
        make(P, "requested while timeout is pending", [conf(("A{100ms}", "X"), ("Virtual0{B}", "Y"))], "A B", times=(60, 100), extra=vk[:2]),
        make(P, "new configuration", [conf(("A", "Virtual0"), ("Virtual0{B}", "Y")), conf(("A", "Virtual0"), ("Virtual0{B}", "Z"))], "A B", extra=vk[:2] + [["cfg", 2], ["disc"]], ctxs=([0],)),
    ]


def c13():
    P = "C13"
    return [
        make(P, "delay", [conf(("A", "X 50ms Y"), ("B", "Z"))], "A B C", times=(20, 50)),
        make(P, "two delays", [conf(("A", "X 50ms Y 100ms Z"))], "A B", times=(50, 60, 100)),
        make(P, "leading delay", [conf(("A", "50ms Y"), ("B", "Z"))], "A B", times=(20, 50)),
        make(P, "several delayed outputs", [conf(("A", "X 50ms Y"), ("B", "Z 20ms W"))], "A B", times=(20, 50)),
        make(P, "actions", [conf(("A", "Action0"), ("B", "X Action1 Y"))], "A B C"),
        make(P, "delayed actions", [conf(("A", "X 50ms Action0 Y"), ("B", "Action1"))], "A B", times=(20, 50)),
        make(P, "actions between delays", [conf(("A", "Action0 50ms Action1 50ms Action0"))], "A B", times=(50, 20)),
        make(P, "on release", [conf(("A", "X 50ms Y ^ Z 50ms W"))], "A B", times=(20, 50)),
        make(P, "context change", [[[ctx(("A", "X 50ms Y")), ctx(("ContextActive", "B 20ms C"))]]], "A", times=(20, 50), ctxs=([0], [0, 1])),
        make(P, "virtual behind delay", [conf(("A", "X 50ms Virtual0"), ("Virtual0", "Y 20ms Z"))], "A B", times=(20, 50)),
        make(P, "two stages", [[[ctx(("A", "B 50ms C"))], [ctx(("B", "X"), ("C", "Y 20ms Z"))]]], "A D", times=(20, 50)),
        make(P, "input timeout", [conf(("A{100ms}", "X 50ms Y"), ("A", "Z"))], "A B", times=(50, 100)),
        make(P, "input timeout and delay", [conf(("A{!100ms}", "X 50ms Y"), ("B", "Z 20ms W"))], "A B", times=(50, 100)),
        make(P, "injected output", [conf(("A", "X 50ms Y"))], "A B", times=(20, 50), extra=[["io", seq("Z 20ms W")], ["io", seq("V")]]),
        make(P, "injected input", [conf(("A", "X 50ms Y"))], "A B", times=(20, 50), extra=[["ii", seq("A")], ["ii", seq("B")]]),
        make(P, "wheel", [conf(("A", "X 50ms WheelUp"), ("WheelDown", "Y 20ms Z"))], "A", times=(20, 50), wheel=[("WheelUp", 120), ("WheelDown", 60)]),
        make(P, "sending fails", [conf(("A", "X 50ms Y"), ("B", "Action0 Z"))], "A B", times=(50,), extra=[["fail", 1], ["fail", 0], ["cfg", 1]]),
        make(P, "maximal delay", [conf(("A", "X 4095ms Y"), ("B", "Z"))], "A B", times=(4000, 95)),
    ]


def c14():
    P = "C14"
    ks = "ShiftLeft Escape K"
    return [
        make(P, "no mappings", [conf(("D", "X"))], ks + " A", hold=4, depth=(8, 11)),
        make(P, "combination mapped", [conf(("ShiftLeft", "X"), ("Escape", "Y"), ("K", "Z"))], ks + " A", hold=3),
        make(P, "combination held back", [conf(("ShiftLeft{Escape{K}}", "X"), ("Escape K A", "Y"))], ks + " A", hold=4),
        make(P, "held output", [conf(("A", "X"), ("K", "Z"))], ks + " A", hold=4),
        make(P, "swallowed", [conf(("Any", ""))], ks + " A", hold=3),
        make(P, "with context", [[[ctx(("A", "B")), ctx(("ContextActive", "X ^ Y"), ("Any", "Z"))]]], ks, ctxs=([0], [0, 1]), hold=3),
        make(P, "several devices", [conf(("A", "B"))], ks, devs=(0, 1), hold=3, depth=(6, 9)),
        make(P, "timeouts", [conf(("ShiftLeft{100ms}", "X"), ("K{!100ms}", "Y"))], ks, times=(50, 100), hold=3),
        make(P, "delayed output pending", [conf(("A", "X 50ms Y 50ms Z"))], ks + " A", times=(20, 50), hold=4, depth=(6, 9)),
        make(P, "virtual keys", [conf(("A", "Virtual0"), ("Virtual0", "X"))], ks + " A", hold=4, depth=(6, 9)),
        make(P, "stages", [[[ctx(("ShiftLeft", "A"), ("A", "ShiftLeft"))], [ctx(("Any", "X"))]]], ks + " A", hold=3),
        make(P, "mouse in between", [conf(("ButtonLeft", "K"))], ks + " ButtonLeft", hold=3, wheel=[("WheelUp", 120)]),
        make(P, "output forms combination", [conf(("A", "ShiftLeft Escape K"), ("B", "ShiftLeft{Escape{K}}"))], "A B ShiftLeft", hold=3),
        make(P, "injected", [conf(("A", "B"))], ks, extra=[["ii", seq("D")], ["io", seq("K")]], times=(1,), hold=3, depth=(6, 8)),
    ]


def c15():
    P = "C15"
    other = conf(("A", "Z"), ("B", "W"), ("Virtual0{C}", "V"))
    both = [["cfg", 2], ["disc"]]
    return [
        make(P, "held output", [conf(("A", "X"), ("B", "ShiftLeft{Y}")), other], "A B", extra=both, ctxs=([0],)),
        make(P, "pending input", [conf(("A B", "X"), ("A", "Y")), other], "A B", extra=both, ctxs=([0],)),
        make(P, "delayed output", [conf(("A", "X 50ms Y 50ms Z"), ("B", "ShiftLeft{X 50ms Y}")), other], "A B", extra=both, ctxs=([0],), times=(20, 50)),
        make(P, "pending timeout", [conf(("A{100ms}", "X"), ("A{!100ms}", "Y")), other], "A B", extra=both, ctxs=([0],), times=(50, 100)),
        make(P, "virtual keys", [conf(("A", "Virtual0"), ("Virtual0{C}", "X"), ("Virtual0", "Y")), other], "A C", extra=both + [["vk", V0, DOWN]], ctxs=([0],)),
        make(P, "on release", [conf(("A", "X ^ Y"), ("B", "Z")), other], "A B", extra=both, ctxs=([0],)),
        make(P, "context active", [[[ctx(("ContextActive", "X"), ("A", "Y"))]], [[ctx(("ContextActive", "Z ^ W"))]]], "A", extra=both + [["cfg", 1]], ctxs=([0], [])),
        make(P, "device filter", [[[ctx(("A", "X"), dn=dict(p=[[0, 0]], rx=False, inv=False)), ctx(("A", "Y"))]], [[ctx(("A", "Z"), dn=dict(p=[[1, 1]], rx=False, inv=False)), ctx(("A", "W"))]]], "A", devs=(0, 1), descs=[dev([0, 0]), dev([1, 1])], extra=both, ctxs=([0, 1],)),
        make(P, "injected output", [conf(("A", "X")), other], "A", extra=both + [["io", seq("X 50ms Y")]], ctxs=([0],), times=(1, 50)),
        make(P, "key info requested", [conf(("A", "X")), other], "A B", extra=both + [["nki"]], ctxs=([0],)),
        make(P, "sending fails", [conf(("A", "X 50ms Y"), ("B", "Z")), other], "A B", extra=both + [["fail", 1], ["fail", 0]], ctxs=([0],), times=(50,)),
        make(P, "stages", [[[ctx(("A", "B"))], [ctx(("B", "X"), ("C", "Y"))]], [[ctx(("A", "C"))], [ctx(("C", "Z"))]]], "A C", extra=both + [["cfg", 1]], ctxs=([0, 1],)),
        make(P, "repeated last key", [conf(("A", "X 50ms Y"), ("B", "Virtual0")), conf(("A", "X 50ms Y"), ("Virtual0{B}", "Z"))], "A B", extra=[["cfg", 2], ["vk", V0, DOWN]], ctxs=([0],), times=(50,)),
        make(P, "delayed virtual and action", [conf(("A", "X 50ms Virtual0 Action0 Y"), ("Virtual0", "Z")), other], "A B", extra=both, ctxs=([0],), times=(20, 50)),
        make(P, "negated keys", [conf(("ShiftLeft{A}", "!ShiftLeft X"), ("B", "!Any Y")), other], "ShiftLeft A B", extra=both, ctxs=([0],)),
        make(P, "wheel", [conf(("A", "X 50ms WheelUp Y")), other], "A", extra=both, ctxs=([0],), times=(50,), wheel=[("WheelUp", 120)]),
    ]


def c16():
    P = "C16"
    descs = [dev([0, 1], [2]), dev([1], [])]
    return [
        make(P, "next key", [conf(("A", "X"))], "A B", devs=(0, 1), descs=descs, extra=[["nki"]]),
        make(P, "mouse", [conf(("A", "X"))], "ButtonLeft ButtonRight A", descs=descs, extra=[["nki"]], wheel=[("WheelUp", 120)], hold=3),
        make(P, "without devices", [conf(("A", "X"))], "A B", extra=[["nki"]]),
        make(P, "more keys than devices", [conf(("A", "X"))], "A", devs=(0, 1, 2), descs=descs, extra=[["nki"]]),
        make(P, "while pending", [conf(("A B", "X"), ("C", "Y 50ms Z"))], "A B C", descs=descs, extra=[["nki"]], times=(50,)),
        make(P, "while timeout is pending", [conf(("A{100ms}", "X"))], "A B", descs=descs, extra=[["nki"]], times=(50, 100)),
        make(P, "virtual keys", [conf(("A", "Virtual0"), ("Virtual0{B}", "X"))], "A B", descs=descs, extra=[["nki"], ["vk", V0, TOGGLE]]),
        make(P, "injected input", [conf(("A", "X"), ("B C", "Y"))], "A B", extra=[["ii", seq("A")], ["ii", seq("B")], ["ii", seq("C")]], times=(1,)),
        make(P, "injected held input", [conf(("ShiftLeft{A}", "X"), ("A", "Y"))], "ShiftLeft A", extra=[["ii", [[42, 1, 0]]], ["ii", [[42, 0, 0]]], ["ii", seq("A")]], times=(1,)),
        make(P, "injected input with device filter", [[[ctx(("A", "X"), dn=dict(p=[[0, 0]], rx=False, inv=False)), ctx(("A", "Y"))]]], "A", devs=(0, 1), descs=[dev([0, 0]), dev([1, 1])], extra=[["ii", seq("A")]], times=(1,)),
        make(P, "injected output", [conf(("A", "X"))], "A", extra=[["io", seq("Y 50ms Z")], ["io", seq("ShiftLeft{W}")]], times=(1, 50), depth=(6, 8)),
        make(P, "injected output with action and virtual key", [conf(("A", "X"), ("Virtual0{A}", "Y"))], "A", extra=[["io", seq("Action0 Z")], ["io", seq("Virtual0")]], times=(1,)),
        make(P, "injected other events", [conf(("A", "X"))], "A", extra=[["ii", [[30, 2, 0], [K["Virtual0"], 1, 0], [X.K_TIMEOUT, 0, 50], [48, 1, 0], [48, 0, 0]]]], times=(1,)),
        make(P, "request and injected input", [conf(("A", "X"))], "A B", descs=descs, extra=[["nki"], ["ii", seq("A")]], times=(1,)),
        make(P, "output and input", [conf(("A", "X 50ms Y"))], "A", extra=[["io", seq("Z 20ms W")], ["ii", seq("A")]], times=(20, 50), depth=(6, 8)),
        make(P, "injected wheel", [conf(("WheelUp", "X"))], "A", extra=[["ii", [[K["WheelUp"], 0, 0]]], ["ii", [[K["WheelDown"], 0, 0]]]], times=(1,)),
    ]


ALL = dict(C12=c12, C13=c13, C14=c14, C15=c15, C16=c16)


def suite(prop, thorough):
    r = ALL[prop]()
    for c in r:
        c["depth"] = c["depth"][1 if thorough else 0]
    return r


def describe(ev):
    if ev[0] == "k":
        return engine.describe(ev) + (":%d" % ev[3] if ev[3] and ev[1] != X.K_TIMEOUT else "")
    if ev[0] in ("ii", "io"):
        return "%s%s" % (ev[0], engine.describe_obs(ev[1]))
    if ev[0] == "vk":
        return "vk(%s,%s)" % (X.NAMES.get(ev[1], ev[1]), "up down toggle".split()[ev[2]])
    return "%s%s" % (ev[0], "(%s)" % ev[1] if len(ev) > 1 else "")


def describe_obs(obs):
    res = []
    for o in obs:
        if o[0] == 0:
            res.append("%s%s%s" % ("-+"[o[2]] if o[2] < 2 else "%d:" % o[2], X.NAMES.get(o[1], str(o[1])), ":%d" % o[3] if o[3] else ""))
        elif o[0] == 1:
            res.append("action%d" % o[1])
        elif o[0] == 2:
            res.append("report(%s,%s)" % (X.NAMES.get(o[1], o[1]), "up down".split()[o[2]] if o[2] < 2 else o[2]))
        elif o[0] == 3:
            res.append("info(%s,%s)" % (X.NAMES.get(o[1], o[1]), o[2:]))
        elif o[0] == 9:
            res.append("(flush in %s, timeout in %s)" % (o[1], o[2]))
        else:
            res.append({4: "exit", 5: "lost"}.get(o[0], str(o)))
    return "[%s]" % " ".join(res)


# ---------------------------------------------------------------------------
# random configurations and histories

FOCUS = dict(
    C12=(["virtual"], "ctx ctxactive stages oor mods timeout cmd device not".split()),
    C13=(["delay"], "oor ctx ctxactive virtual stages timeout mouse mods".split()),
    C14=([], "any mods not group string oor nmm ctx stages timeout virtual delay mouse".split()),
    C15=([], "virtual delay oor ctx ctxactive stages timeout device mods not nmm".split()),
    C16=([], "virtual delay ctx device timeout mods nmm stages mouse".split()),
)


def scenario(prop, n, length):
    seed = vlib.SEED * 1000003 + n * 37 + int(prop[1:]) * 7919
    r = random.Random(seed)
    always, maybe = FOCUS[prop]
    feat = set(always) | {f for f in maybe if r.random() < 0.4}
    keys = "ABC"
    ge = kmgen.Gen(seed, keys=keys, feat=feat)
    cfgs, texts = [], []
    for _ in range(2 if prop == "C15" or r.random() < .2 else 1):
        cs, t = ge.config()
        if "delay" in feat:
            for st in cs:
                for c in st:
                    for o in c["out"]:
                        for _ in range(r.choice([0, 0, 1, 1, 2])):
                            if o and not any(e[1] == X.OOR for e in o):
                                o.insert(r.randrange(len(o)), [X.K_TIMEOUT, 1, r.choice([20, 50, 100])])
                        if r.random() < .15:
                            o.insert(r.randrange(len(o) + 1), [X.ACTION + r.randrange(3), 1, 0])
        cfgs.append(cs)
        texts.append(t)
    nctx = [sum(len(s) for s in cs) for cs in cfgs]
    ks = [X.KEYS[k] for k in keys + "E"]
    if {"mods", "not", "string"} & feat:
        ks += [42, 29]
    if "mouse" in feat:
        ks += [0x110, 0x111]
    if prop == "C14":
        ks += [42, 1, 37, 42, 1, 37]
    ev = []
    cur = 1
    ndev = r.choice([1, 2])
    def contexts(c):
        m = nctx[c - 1]
        return ["c", list(range(m)) if r.random() < .6 else sorted(r.sample(range(m), r.randint(0, m)))]
    if "device" in feat or r.random() < .3:
        ev.append(["d", ge.descs()])
    if r.random() < .95:
        ev += [["cfg", 1], contexts(1)]
    down_ = {}
    for _ in range(length):
        x = r.random()
        if x < 0.05 and "ctx" in feat:
            ev.append(contexts(cur))
        elif x < 0.07 and "device" in feat:
            ev.append(["d", ge.descs()])
        elif x < 0.22:
            ev.append(["t", r.choice([0, 1, 20, 49, 50, 51, 99, 100, 101, 150, 200, 250, 300, 5000])])
        elif x < 0.30 and ("virtual" in feat or r.random() < .1):
            ev.append(["vk", r.choice([V0, V1]), r.choice([0, 1, 2])])
        elif x < 0.33 and (prop == "C16" or r.random() < .2):
            ev.append(["nki"])
        elif x < 0.38 and (prop == "C16" or r.random() < .2):
            e = r.choice(["A", "B", "X 50ms Y", "ShiftLeft{A}", "Virtual0", "Action1 C", "A B C"])
            ev.append([r.choice(["ii", "io"]), seq(e)])
        elif x < (0.44 if prop == "C15" else 0.385):
            if r.random() < .6:
                cur = r.randint(1, len(cfgs))
                ev += [["cfg", cur], contexts(cur)]
            else:
                ev.append(["disc"])
                if r.random() < .8:
                    cur = r.randint(1, len(cfgs))
                    ev += [["cfg", cur], contexts(cur)]
        elif x < (0.46 if prop in ("C13", "C15") else 0.385):
            ev.append(["fail", r.choice([0, 0, 1])])
        elif x < 0.48 and "mouse" in feat:
            ev.append(["k", r.choice([0x150, 0x151, 0x152]), 0, r.choice([120, 60, 1]), 0])
        elif x < 0.49 and prop == "C15":
            ev.append(["v", [k for k in ks if k in down_ or r.random() < .3]])
        elif prop == "C14" and x < 0.56:
            for k in (42, 1, 37):
                if r.random() < .9:
                    down_[k] = 0
                    ev.append(["k", k, 1, 0, 0])
        else:
            held = list(down_)
            if held and r.random() < 0.55:
                k = r.choice(held)
                if r.random() < .2:
                    ev.append(["k", k, 1, 0, down_[k]])
                else:
                    ev.append(["k", k, 0, 0, down_.pop(k)])
            else:
                k = r.choice(ks)
                down_.setdefault(k, r.randrange(ndev))
                ev.append(["k", k, 1, 0, down_[k]])
    for k, d in down_.items():
        ev.append(["k", k, 0, 0, d])
    ev += [["t", 100], ["t", 5000]]
    return dict(cfgs=cfgs, ev=ev), "mappings %s" % texts


def check(prop):
    rep = vlib.Report(prop)
    exe = driver()
    thorough = vlib.TIER == "thorough"
    s = suite(prop, thorough)
    data, rep.coverage["graph_from_cache"] = replay.graphs(prop, "ServerGraph", MODULES, s, thorough)
    replay.replay_graphs(rep, exe, s, data, vlib.scale(40000, 400000), describe, describe_obs, fields=("cfgs",))
    sc = [scenario(prop, n, vlib.scale(35, 70)) for n in range(vlib.scale(480, 6000))]
    replay.validate(rep, exe, "TraceServer", [a for a, b in sc], [b for a, b in sc], describe, describe_obs)
    return rep.finish()


def warm(prop):
    replay.graphs(prop, "ServerGraph", MODULES, suite(prop, False), False)
