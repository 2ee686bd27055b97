"""Replays graphs of a specification into a driver and validates recorded
histories (see harness/walker.h for the driver's side)."""
import json
import os
import re
import subprocess

import vlib
from vlib import CheckError


def parse_tla(text):
    """value of a printed tuple of integers, booleans and tuples"""
    text = text.replace("<<", "[").replace(">>", "]").replace("TRUE", "true").replace("FALSE", "false")
    return json.loads(text)


def graphs(prop, module, files, suite, thorough):
    """complete graphs of the suite's configurations, with what is to be observed"""
    def produce():
        with vlib.Scratch() as d:
            path = os.path.join(d, "suite.jsonl")
            with open(path, "w") as f:
                for c in suite:
                    f.write(json.dumps(c) + "\n")
            r = vlib.tlc(module, env={"SUITE": path}, timeout=vlib.scale(800, 6000), xmx=vlib.scale("8g", "20g"))
        if r.violated:
            # the specification itself contradicts the property
            raise CheckError("the specification violates %s of %s:\n%s" % (
                r.violated, prop, "\n".join(l for l in r.out.splitlines() if not l.startswith('"T'))[-5000:]))
        res = [dict(expected=[], xid={}, trans=[]) for _ in suite]
        for line in r.out.splitlines():
            if not line.startswith('"T'):
                continue
            n, a, ev, obs, b = parse_tla(line[2:-1])
            g = res[n - 1]
            x = json.dumps(obs)
            if x not in g["xid"]:
                g["xid"][x] = len(g["expected"])
                g["expected"].append(obs)
            g["trans"].append((tuple(a), ev - 1, g["xid"][x], tuple(b)))
        data = []
        for c, g in zip(suite, res):
            # breadth first search: transitions of the initial state come first
            ids = {}
            for t in g["trans"]:
                for s in (t[0], t[3]):
                    ids.setdefault(s, len(ids))
            data.append(dict(states=max(1, len(ids)), expected=g["expected"],
                             trans=[[ids[t[0]], t[1], t[2], ids[t[3]]] for t in g["trans"]]))
        return dict(graphs=data, states=r.distinct, transitions=r.generated)

    data, hit = vlib.cached("graph-%s-%s" % (prop, "t" if thorough else "q"),
                            [vlib.spec_hash(*files), json.dumps(suite)], produce)
    return data, hit


def replay_graphs(rep, exe, suite, data, steps, describe, describe_obs, fields=("cs",), env=None):
    rep.add("states", data["states"])
    rep.add("transitions", data["transitions"])
    # largest first, to balance the load
    order = sorted(range(len(suite)), key=lambda i: -len(data["graphs"][i]["trans"]))
    with vlib.Scratch() as d:
        n = min(vlib.JOBS, len(suite))
        procs = []
        for w in range(n):
            path = os.path.join(d, "g%d.jsonl" % w)
            idx = order[w::n]
            with open(path, "w") as f:
                for i in idx:
                    c, g = suite[i], data["graphs"][i]
                    f.write(json.dumps(dict({k: c[k] for k in fields}, init=c["init"], ev=c["ev"], **g)) + "\n")
            p = subprocess.Popen([exe, "walk", path, str(vlib.SEED * 1000 + w), str(steps)], stdout=subprocess.PIPE,
                                 stderr=open(os.path.join(d, "err%d" % w), "w"), text=True, env=env)
            procs.append((p, idx, w))
        for p, idx, w in procs:
            out, _ = p.communicate(timeout=vlib.scale(700, 7000))
            lines = out.splitlines()
            err = open(os.path.join(d, "err%d" % w)).read()
            if p.returncode or len(lines) != len(idx):
                raise CheckError("driver failed (%d): %s" % (p.returncode, err[-2000:]))
            for i, line in zip(idx, lines):
                c = suite[i]
                g = data["graphs"][i]
                r = json.loads(line)
                if "covered" in r:
                    if r["covered"] != len(g["trans"]):
                        raise CheckError("not all transitions of '%s' were replayed (%d of %d)" % (
                            c["name"], r["covered"], len(g["trans"])))
                    rep.add("transitions_replayed", r["covered"])
                    rep.add("traces_validated_against_impl", r["walks"])
                    rep.add("random_walk_steps", r["walked"])
                    if len(rep.coverage["samples"]) < 2 and g["trans"]:
                        t = g["trans"][len(g["trans"]) // 2]
                        rep.sample("'%s': state %d, %s => %s" % (
                            c["name"], t[0], describe(c["ev"][t[1]]), describe_obs(g["expected"][t[2]])))
                    continue
                if "crash" in r:
                    path = [int(x) for x in r["path"].split()]
                    rep.violation("'%s', after %s: %s" % (
                        c["name"], " ".join(describe(c["ev"][e]) for e in path[-30:]), r["crash"]),
                        dict(config=c["name"], init=c["init"], events=[c["ev"][e] for e in path],
                             crash=r["crash"], stderr=err[-3000:], **{k: c[k] for k in fields}))
                else:
                    m = r["mismatch"]
                    x = g["expected"][m["expected"]]
                    rep.violation("'%s', after %s: %s" % (
                        c["name"], " ".join(describe(c["ev"][e]) for e in m["path"][-30:]), differ(m["got"], x, describe_obs)),
                        dict(config=c["name"], init=c["init"], events=[c["ev"][e] for e in m["path"]],
                             got=m["got"], expected=x, **{k: c[k] for k in fields}))


def differ(got, exp, describe_obs):
    """description of the difference, of long observations only from where they differ"""
    if len(got) + len(exp) > 12 or sum(map(len, got)) + sum(map(len, exp)) > 80:
        n = next((i for i, (a, b) in enumerate(zip(got, exp)) if a != b), min(len(got), len(exp)))
        got, exp = got[n:n + 2], exp[n:n + 2]
        return "observed (from %d) %s, specified %s" % (n, describe_obs(got)[:400], describe_obs(exp)[:400])
    return "observed %s, specified %s" % (describe_obs(got), describe_obs(exp))


def run_driver(exe, scenarios, env=None, timeout=600):
    """results of the scenarios, run in parallel; (results, stderr per scenario)"""
    count = len(scenarios)
    results, errs = [None] * count, [""] * count
    with vlib.Scratch() as d:
        n = min(vlib.JOBS, max(1, count))
        procs = []
        for w in range(n):
            idx = list(range(w, count, n))
            a, b = os.path.join(d, "in%d" % w), os.path.join(d, "out%d" % w)
            with open(a, "w") as f:
                for i in idx:
                    f.write(json.dumps(scenarios[i]) + "\n")
            procs.append((subprocess.Popen([exe, "run", a, b], stderr=open(os.path.join(d, "err%d" % w), "w"), env=env), idx, b, w))
        for p, idx, b, w in procs:
            p.wait(timeout=timeout)
            lines = open(b).read().splitlines()
            err = open(os.path.join(d, "err%d" % w)).read()
            if p.returncode or len(lines) != len(idx):
                raise CheckError("driver failed (%d): %s" % (p.returncode, err[-2000:]))
            for i, line in zip(idx, lines):
                results[i] = json.loads(line)
                if "crash" in results[i]:
                    errs[i] = err[-3000:]
    return results, errs


def validate(rep, exe, module, scenarios, titles, describe, describe_obs, env=None):
    """run scenarios (dicts with ev) on the real code, validate the recorded traces"""
    results, errs = run_driver(exe, scenarios, env)
    ok = []
    for i, r in enumerate(results):
        if "crash" in r:
            evs = scenarios[i]["ev"][:r["step"] + 1]
            rep.violation("%s, after %s: %s" % (titles[i], " ".join(map(describe, evs[-30:])), r["crash"]),
                          dict(title=titles[i], scenario=dict(scenarios[i], ev=evs), crash=r["crash"], stderr=errs[i]))
        else:
            ok.append(i)
    with vlib.Scratch() as d:
        trace = os.path.join(d, "trace.jsonl")
        with open(trace, "w") as f:
            for i in ok:
                f.write(json.dumps(dict(scenarios[i], obs=results[i]["obs"])) + "\n")
        r = vlib.tlc(module, env={"TRACE": trace}, timeout=vlib.scale(800, 6000), xmx=vlib.scale("8g", "20g"))
    done = {int(m) for m in re.findall(r'<<"DONE", (\d+)>>', r.out)}
    bad = re.findall(r'"MISMATCH(<<.*>>)"', r.out)
    rep.add("states", r.distinct)
    rep.add("transitions", r.generated)
    for b in bad:
        t, l, exp = parse_tla(b)
        i = ok[t - 1]
        s = scenarios[i]
        rep.violation("%s, after %s: %s" % (
            titles[i], " ".join(describe(e) for e in s["ev"][max(0, l - 30):l]),
            differ(results[i]["obs"][l - 1], exp, describe_obs)),
            dict(title=titles[i], scenario=dict(s, ev=s["ev"][:l]), got=results[i]["obs"][l - 1], expected=exp))
    if len(done) + len(bad) != len(ok):
        raise CheckError("trace validation incomplete: %d of %d\n%s" % (len(done) + len(bad), len(ok), r.out[-2000:]))
    rep.add("traces_validated_against_impl", len(done))
    rep.add("random_scenarios", len(scenarios))
    rep.add("random_steps", sum(len(scenarios[i]["ev"]) for i in ok))
    if scenarios:
        rep.sample("%s: %s" % (titles[0], " ".join(map(describe, scenarios[0]["ev"][:14]))))
