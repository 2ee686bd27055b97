"""Checks of the mapping engine (C01 - C11)."""
import os
import random

import kmexpr as X
import kmgen
import replay
import suites
import vlib

MODULES = ("Keys.tla", "Match.tla", "Stage.tla", "MultiStage.tla", "Props.tla", "Graph.tla", "Graph.cfg")


def driver():
    return vlib.build_driver("stage_driver", [os.path.join(vlib.VERIF, "harness", "stage_driver.cpp")] +
                             vlib.globs("runtime/*.cpp"))


def describe(ev):
    if ev[0] == "k":
        name = X.NAMES.get(ev[1], str(ev[1]))
        if ev[1] == X.K_TIMEOUT:
            return "timeout(%dms)" % ev[3]
        return "%s%s@%d" % ("+" if ev[2] == 1 else "-", name, ev[4])
    return "%s%s" % (ev[0], ev[1])


def describe_obs(obs):
    signs = {0: "-", 1: "+"}
    res = []
    for o in obs:
        if o[0] == -1:
            if o[1]:
                res.append("exit")
        elif o[0] == -2:
            res.append("(down: %s)" % " ".join(X.NAMES.get(k, str(k)) for k in o[1:]))
        elif o[0] == X.K_TIMEOUT:
            res.append("timeout(%d,%dms)" % (o[1], o[2]))
        else:
            res.append("%s%s%s" % (signs.get(o[1], "%d:" % o[1]), X.NAMES.get(o[0], str(o[0])), ":%d" % o[2] if o[2] else ""))
    return "[%s]" % " ".join(res)


# ---------------------------------------------------------------------------
# random configurations and histories, validated by the specification

FEATURES = "any mods not group string oor nmm ctx cmd ctxactive device stages mouse virtual timeout".split()
FOCUS = dict(
    C01=([], "any mods not group string".split()),
    C02=([], FEATURES),
    C03=([], "mods group oor timeout nmm stages mouse not".split()),
    C04=(["not", "mods"], "string oor any virtual group".split()),
    C05=(["oor"], "mods ctx group any timeout stages not".split()),
    C06=(["timeout"], "mods group stages virtual not nmm".split()),
    C07=(["nmm"], "string mods ctx group not mouse".split()),
    C08=(["ctx"], "cmd device virtual mods stages oor group".split()),
    C09=(["ctx", "ctxactive"], "oor virtual device mods stages".split()),
    C10=(["stages"], "ctx cmd virtual timeout mods oor not ctxactive".split()),
    C11=([], "mods group oor ctx device nmm".split()),
)


def scenario(prop, n, length):
    seed = vlib.SEED * 1000003 + n * 31 + int(prop[1:]) * 7919
    r = random.Random(seed)
    always, maybe = FOCUS[prop]
    feat = set(always) | {f for f in maybe if r.random() < 0.4}
    keys = r.choice(["ABC", "ABCD", "ABC"])
    ge = kmgen.Gen(seed, keys=keys, feat=feat)
    cs, texts = ge.config()
    nctx = sum(len(s) for s in cs)
    ks = [X.KEYS[k] for k in keys + "E"]
    if "mods" in feat or "not" in feat or "string" in feat:
        ks += [42, 29]
    if "mouse" in feat:
        ks += [0x110, 0x150]
    virt = [X.VIRT, X.VIRT + 1] if "virtual" in feat else []
    ndev = r.choice([2, 3]) if prop == "C11" or "device" in feat else 1
    ev = []
    if "device" in feat:
        ev.append(["d", ge.descs()])
    ev.append(["c", list(range(nctx)) if r.random() < .6 else sorted(r.sample(range(nctx), r.randint(1, nctx)))])
    down = {}
    calm = r.random() < 0.6   # strokes mostly do not overlap
    for _ in range(length):
        x = r.random()
        if x < 0.08 and "ctx" in feat:
            ev.append(["c", sorted(r.sample(range(nctx), r.randint(0, nctx)))])
        elif x < 0.1 and "device" in feat:
            ev.append(["d", ge.descs()])
        elif x < 0.11 and prop == "C01":
            ev.append(["v", [k for k in ks if k in down or r.random() < .3]])
        elif x < 0.25 and "timeout" in feat:
            ev.append(["k", X.K_TIMEOUT, 0, r.choice([50, 100, 150, 200, 250, 300]), -2])
        elif x < 0.32 and virt:
            v = r.choice(virt)
            ev.append(["k", v, 0 if v in down else 1, 0, -2])
            if v in down: del down[v]
            else: down[v] = -2
        else:
            held = [k for k in down if k < 0xF000]
            if held and r.random() < (0.75 if calm else 0.4):
                k = r.choice(held)
                if r.random() < (0.35 if prop == "C11" else 0.15):
                    ev.append(["k", k, 1, 0, down[k]])   # repeat
                else:
                    ev.append(["k", k, 0, 0, down.pop(k)])
            else:
                k = r.choice(ks)
                if k in down:
                    ev.append(["k", k, 1, 0, down[k]])
                else:
                    down[k] = -1 if r.random() < .03 else r.randrange(ndev)
                    ev.append(["k", k, 1, 0, down[k]])
    for k, d in down.items():
        ev.append(["k", k, 0, 0, d])
    return dict(cs=cs, ev=ev), texts


def check(prop):
    rep = vlib.Report(prop)
    exe = driver()
    thorough = vlib.TIER == "thorough"
    suite = suites.suite(prop, thorough)
    data, rep.coverage["graph_from_cache"] = replay.graphs(prop, "Graph", MODULES, suite, thorough)
    replay.replay_graphs(rep, exe, suite, data, vlib.scale(60000, 600000), describe, describe_obs)
    scenarios = [scenario(prop, n, 30 + n % 3 * 15) for n in range(vlib.scale(4000, 40000))]
    replay.validate(rep, exe, "TraceStage", [s for s, t in scenarios], ["mappings %s" % t for s, t in scenarios],
                    describe, describe_obs)
    return rep.finish()


def warm(prop):
    replay.graphs(prop, "Graph", MODULES, suites.suite(prop, False), False)
