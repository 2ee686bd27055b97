"""Check of the translation of key expressions (C17)."""
import os
import random
import re

import kmexpr as X
import replay
import vlib

MODULES = ("Keys.tla", "KeyNames.tla", "ParseSeq.tla", "ParseGraph.tla", "ParseGraph.cfg")
STATES = "-+!~*?^#=%"


def driver():
    # without a window system strings are typed with a generic layout
    return vlib.build_driver("parse_driver", [os.path.join(vlib.VERIF, "harness", "parse_driver.cpp")] +
                             vlib.globs("config/ParseKeySequence.cpp", "config/get_key_name.cpp", "common/output.cpp",
                                        "client/unix/StringTyperImpl.cpp", "client/unix/StringTyperGeneric.cpp"))


def chars(s):
    return [ord(c) for c in s]


def named(n):
    return dict(v=int(n[7:])) if n.startswith("Virtual") else dict(n=n)


def key(n): return dict(named(n), t=1, x=n + " ")
def nkey(n): return dict(named(n), t=2, x="!" + n + " ")
def ms(v): return dict(t=3, ms=min(v, 100000), x="%dms " % v)
def nms(v): return dict(t=4, ms=min(v, 100000), x="!%dms " % v)
def string(s, q="'"): return dict(t=5, s=chars(s), x=q + s + q)
def cmd(s): return dict(t=6, s=chars(s), x="$(" + s + ")")
def bad(x): return dict(t=14, x=x)


REL, NMM = dict(t=7, x="^"), dict(t=8, x="?")
OPEN, CLOSE, HOLD, UNHOLD = dict(t=9, x="("), dict(t=10, x=")"), dict(t=11, x="{"), dict(t=12, x="}")
END = dict(t=13, x="#")
SEMI = dict(t=13, x=";")
G = [OPEN, CLOSE, HOLD, UNHOLD]


def suite(thorough):
    d = 1 if thorough else 0
    A, B, C = key("A"), key("B"), key("C")
    S = []

    def add(name, inp, ev, depth):
        S.append(dict(name=name, init=[], ev=ev, depth=depth, **{"in": inp}))
    for inp, kind in ((True, "input"), (False, "output")):
        add(kind + " groups", inp, [A, B] + G, 7 + d)
        add(kind + " negated keys", inp, [A, B, nkey("A"), nkey("B"), HOLD, UNHOLD], 6 + d)
        add(kind + " negated keys and groups", inp, [A, nkey("A"), nkey("Any")] + G, 6 + d)
        add(kind + " timeouts", inp, [A, B, ms(100), ms(4000), nms(100), nms(4000), HOLD, UNHOLD], 5 + d)
        add(kind + " timeouts and groups", inp, [A, ms(100), nms(50), nkey("A")] + G, 6 + d)
        add(kind + " strings", inp, [A, string("ab"), string("aB"), string("B"), HOLD, UNHOLD, nkey("Shift")], 5 + d)
        add(kind + " characters", inp, [string(""), string("A?b C"), string("\\n\\t\\r\\"), string("1é0", '"'), OPEN, CLOSE], 4 + d)
        add(kind + " special", inp, [A, NMM, REL, cmd("c"), cmd("x (y) z"), OPEN, CLOSE, HOLD, UNHOLD], 5 + d)
        add(kind + " modes", inp, [A, nkey("B"), NMM, REL, key("Virtual1"), ms(10), HOLD, UNHOLD], 5 + d)
        add(kind + " context activation", inp, [key("ContextActive"), nkey("ContextActive"), A, NMM] + G, 5 + d)
        add(kind + " comments", inp, [A, END, SEMI, OPEN, CLOSE], 5 + d)
        add(kind + " invalid", inp, [A, bad("! A"), bad("!"), bad("$"), bad("$(a"), bad("'a"), bad("a"), bad("Virtual256 "),
                                   bad("VirtualX "), bad("Virtual1x "), bad(">"), bad("[A]"), bad("0xF000 "), bad("&"), bad("\x80"),
                                   bad("10mss "), bad("ms "), bad("KeyShift "), bad("Key1 "), bad("DigitA ")], 2)
    return S


def names():
    """all names of the specification and some codes"""
    text = open(os.path.join(vlib.SPEC, "KeyNames.tla")).read()
    n = re.findall(r'<<"(\w+)", \d+>>', text)
    n += ["Virtual%d" % i for i in range(256)]
    return [x for x in n if x != "ContextActive"]


NAMES = names()
BAD = ["! A ", "! ", "$x", "$(a", "'a", "a ", "Virtual256 ", "VirtualX ", "Virtual2b ", "Virtual ", "| ", "[A]", "0xF000 ", "&", "%",
       "KeyAA ", "Digit10 ", "shift ", "none ", "=", "Virtual99999999999 ", "Virtual-1 ", ">>", "99999999999999999999999 "]


def random_token(r, inp, few):
    x = r.random()
    ws = lambda: r.choice(["", "", " ", "  ", "\t"])
    sep = lambda: r.choice([" ", " ", "  ", "\t "])
    if x < .45:
        if few or r.random() < .5:
            n = r.choice(["A", "B", "C", "Shift", "Virtual0", "Any"])
        else:
            n = r.choice(NAMES)
        return dict(named(n), t=1, x=ws() + n + sep())
    if x < .53:
        n = r.choice(["A", "B", "Shift", "Any", "Virtual0"]) if few else r.choice(NAMES)
        return dict(named(n), t=2, x=ws() + "!" + n + sep())
    if x < .58:
        v = r.choice([0, 1, 50, 100, 1000, 4094, 4095, 4096, 10000, 2147483647, 2147483648, 4294967296, 99999999999, 10 ** 20])
        return dict(t=3, ms=min(v, 100000), x=ws() + "%dms" % v + ws())
    if x < .62:
        v = r.choice([0, 1, 50, 100, 4095, 5000, 4294967396])
        return dict(t=4, ms=min(v, 100000), x=ws() + "!%dms" % v + ws())
    if x < .68:
        s = "".join(r.choice("aAbBzZ09 ?x\\ntr") for _ in range(r.randint(0, 5)))
        if r.random() < .2:
            s += r.choice(["ä", "€", "\U0001f600", "@", "#", "{", "(", ";", "$", "!"])
        return dict(string(s, r.choice("'\"")))
    if x < .71 and not inp:
        return cmd(r.choice(["", "ls", "echo (a) b", "a;b", "x 'y' #z"]))
    if x < .73:
        return REL if not inp else NMM
    if x < .735:
        return r.choice([REL, NMM])
    if x < .745:
        return bad(ws() + r.choice(BAD))
    if x < .755:
        return dict(t=13, x=r.choice(["#", ";"]) + r.choice(["", " x", "A"]))
    if x < .84:
        return dict(OPEN if r.random() < .5 else CLOSE)
    return dict(HOLD if r.random() < .5 else UNHOLD)


def grammar(r, inp, depth=0):
    """tokens of a mostly valid expression"""
    out = []
    for _ in range(r.randint(1, 3)):
        x = r.random()
        if x < .3 and depth < 3:
            if r.random() < .4:
                out += [OPEN] + [key(r.choice("ABCD")) for _ in range(r.randint(1, 3))] + [CLOSE]
            else:
                out.append(key(r.choice(["A", "B", "Shift", "Control", "Virtual1"])))
            if r.random() < .7:
                out += [HOLD] + grammar(r, inp, depth + 1) + [UNHOLD]
        elif x < .4:
            out.append(nkey(r.choice(["A", "B", "Shift", "Any"])))
        elif x < .5:
            out.append(ms(r.choice([0, 50, 3000])))
        elif x < .55:
            out.append(nms(r.choice([50, 3000])))
        elif x < .62:
            out.append(string(r.choice(["a", "Ab", "aBc", "B"])))
        else:
            out.append(key(r.choice(["A", "B", "C", "D"])))
    return out


def scenario(n):
    r = random.Random(vlib.SEED * 1000003 + n * 7919 + 17)
    inp = r.random() < .5
    ev = []
    if r.random() < .6:
        if inp and r.random() < .15:
            ev.append(NMM)
        ev += grammar(r, inp)
        if not inp and r.random() < .3:
            ev.append(REL)
            ev += grammar(r, inp)
        for _ in range(r.choice([0, 0, 1, 2])):
            ev.insert(r.randrange(len(ev) + 1), random_token(r, inp, True))
    else:
        few = r.random() < .5
        for _ in range(r.randint(2, 14)):
            ev.append(random_token(r, inp, few))
    # what an unterminated token means depends on what follows
    for i, e in enumerate(ev):
        if e["x"].strip() in ("$(a", "'a"):
            ev = ev[:i + 1]
            break
    if r.random() < .2:
        ev[0] = dict(ev[0], x="  " + ev[0]["x"])
    return {"in": inp, "ev": ev}, "input expression" if inp else "output expression"


def name_scenarios():
    res = []
    for i, n in enumerate(NAMES):
        ev = [key(n)]
        res.append(({"in": i % 2 == 0, "ev": ev}, "name of a key"))
    # codes are written in decimal or hexadecimal notation
    for c in (10, 30, 159, 200, 0x100, 0xEFFF):
        for x in ("%d" % c, "0x%X" % c, "0x%x" % c):
            for t in (1, 2):
                res.append(({"in": False, "ev": [dict(t=t, c=c, x="!" * (t - 1) + x)]}, "code of a key"))
    return res


def describe(e):
    return e["x"].strip()


def name(k):
    return X.NAMES.get(k, "key %d" % k)


def describe_obs(obs):
    if obs and obs[0] == [0]:
        return "error"
    r = []
    for e in obs[1:]:
        if e[0] == -1:
            r.append("$(" + "".join(map(chr, e[1:])) + ")")
        elif e[0] == X.K_TIMEOUT:
            r.append("%s%dms" % (STATES[e[1]] if e[1] < 10 else "@", e[2]))
        else:
            r.append((STATES[e[1]] if e[1] < 10 else "@") + name(e[0]))
    return "[" + " ".join(r) + "]"


def trees():
    """the translation agrees with the meaning given by the structure"""
    def produce():
        r = vlib.tlc("ParseTree")
        if r.violated:
            raise vlib.CheckError("the specification violates %s:\n%s" % (r.violated, r.out[-3000:]))
        return r.distinct
    return vlib.cached("parsetree", [vlib.spec_hash("Keys.tla", "KeyNames.tla", "ParseSeq.tla", "ParseTree.tla", "ParseTree.cfg")], produce)[0]


def check(prop):
    rep = vlib.Report(prop)
    exe = driver()
    thorough = vlib.TIER == "thorough"
    rep.add("states", trees())
    s = suite(thorough)
    data, rep.coverage["graph_from_cache"] = replay.graphs(prop, "ParseGraph", MODULES, s, thorough)
    replay.replay_graphs(rep, exe, s, data, vlib.scale(20000, 200000), describe, describe_obs, fields=("in",))
    sc = name_scenarios() + [scenario(n) for n in range(vlib.scale(6000, 60000))]
    replay.validate(rep, exe, "TraceParse", [a for a, b in sc], [b for a, b in sc], describe, describe_obs)
    return rep.finish()


def warm(prop):
    trees()
    replay.graphs(prop, "ParseGraph", MODULES, suite(False), False)
