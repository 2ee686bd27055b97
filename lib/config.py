"""Check of the meaning of configuration files (C18)."""
import os
import random

import parse
import replay
import vlib
from parse import CLOSE, HOLD, OPEN, REL, UNHOLD, chars

MODULES = ("Keys.tla", "KeyNames.tla", "ParseSeq.tla", "Compile.tla", "CompileGraph.tla", "CompileGraph.cfg")
(L_MAP, L_CONTEXT, L_STAGE, L_DEFAULT, L_LOGICAL, L_ALIAS, L_BLANK, L_BAD, L_LOWER, L_UNMAPPED, L_FORWARD, L_DONE,
 L_GRAB, L_OPTION, L_SERVER, L_INCLUDE, L_BADDIR, L_APPLY) = range(1, 19)


def driver():
    return vlib.build_driver("config_driver", [os.path.join(vlib.VERIF, "harness", "config_driver.cpp")] +
                             vlib.globs("config/*.cpp", "common/output.cpp", "client/unix/StringTyperImpl.cpp",
                                        "client/unix/StringTyperGeneric.cpp"))


# tokens

def K(n, t=1):
    if n.startswith("!"):
        return K(n[1:], 2)
    tok = parse.named(n)
    if "n" in tok:
        tok["low"] = n[0].islower()
    return dict(tok, t=t, x="!" * (t - 1) + n + " ")


def string(parts, q="'", t=5):
    """parts: texts, or names of aliases in a list"""
    x, res = "", []
    for p in parts:
        if isinstance(p, list):
            x += "${%s}" % p[0]
            res.append(dict(n=p[0], s=chars("${%s}" % p[0])))
        else:
            x += p
            res.append(dict(s=list(p.encode()) if t == 6 else chars(p)))
    return dict(t=t, q=res, x=("$(" + x + ")" if t == 6 else q + x + q))


def par(i): return dict(t=20, i=i, x="$%d " % i)
def num(i): return dict(t=22, i=i, x="%d" % i)
def app(n, *args): return dict(t=21, n=n, a=list(args), x=n + "[" + ", ".join(text(a).strip() for a in args) + "] ")
def text(toks): return "".join(t["x"] for t in toks)


def E(s):
    """tokens of a simple expression"""
    import re
    res = []
    for t in re.findall(r"'[^']*'|[(){}^?]|!?\w+", s):
        if t[0] == "'":
            res.append(string([t[1:-1]]))
        elif t in "(){}^?":
            res.append({"(": OPEN, ")": CLOSE, "{": HOLD, "}": UNHOLD, "^": REL, "?": parse.NMM}[t])
        elif re.fullmatch(r"\d+ms", t):
            res.append(parse.ms(int(t[:-2])))
        else:
            res.append(K(t))
    return res


# lines

def mapping(i, o, sep=">> ", w=1):
    i, o = (E(e) if isinstance(e, str) else e for e in (i, o))
    return {"l": L_MAP, "w": w, "in": i, "out": o, "x": text(i) + sep + text(o)}


def subst(toks, args):
    return [u for t in toks for u in (args[t["i"]] if t["t"] == 20 else [t])]


def apply(i, o, *args):
    """one mapping for each tuple of arguments"""
    n = 1 + max(t["i"] for t in i + o if t["t"] == 20)
    groups = [args[j:j + n] for j in range(0, len(args) - n + 1, n)]
    return dict(l=L_APPLY, w=1, maps=[mapping(subst(i, g), subst(o, g)) for g in groups],
                x="apply[%s>> %s, %s]" % (text(i), text(o).strip(), ", ".join(text(a).strip() for a in args)))


FIELDS = ["class", "title", "path", "device", "device-id"]


def is_regex(p):
    return len(p) > 1 and p[0] == "/" and (p[-1] == "/" or len(p) > 2 and p[-2:] == "/i")


def context(filters=(), mods=None, inv=False, sys=True, system=None, sep=" ", q='"', eq="="):
    """filters: (field, text, inverted)"""
    parts, fs = [], []
    if system or not sys:
        parts.append("system%s%s%s%s" % (eq, q, system or "Windows", q))
    for field, p, i in filters:
        rx = is_regex(p)
        parts.append("%s%s%s" % (field, "!=" if i else eq, p if rx else q + p + q))
        fs.append(dict(k=FIELDS.index(field.replace("_", "-")) + 1, inv=i, rx=rx, p=chars(p)))
    m = E(mods) if mods else []
    if mods is not None:
        parts.append("modifier%s%s%s%s" % ("!=" if inv else eq, q, text(m), q))
    return dict(l=L_CONTEXT, w=1, sys=sys, f=fs, m=m, inv=bool(mods) and inv, x="[" + sep.join(parts) + "]")


def logical(n, ks):
    k = E(ks)
    return dict(l=L_LOGICAL, w=1, n=n, nc=chars(n), k=k, x=n + " = " + "| ".join(t["x"] for t in k))


def alias(n, v):
    v = E(v) if isinstance(v, str) else v
    return dict(l=L_ALIAS, w=1, n=n, nc=chars(n), v=v, x=n + " = " + text(v))


def bad(x): return dict(l=L_BAD, w=1, x=x)
def baddir(x): return dict(l=L_BADDIR, w=1, x=x)
def lower(v, x=None): return dict(l=L_LOWER, w=1, v=v, x="@enforce-lowercase-commands" + (" true" if v else " false" if x is None else x))
def unmapped(v, x=None): return dict(l=L_UNMAPPED, w=1, v=v, x="@allow-unmapped-commands" + ((" true" if v else " false") if x is None else x))
def forward(ks): return dict(l=L_FORWARD, w=1, k=E(ks), x="@forward-modifiers " + text(E(ks)))
def server(n, v, x): return dict(l=L_SERVER, w=1, v=v, p=chars(n), x="@" + n + x)


def grab(p, inv, by_id):
    rx = is_regex(p)
    return dict(l=L_GRAB, w=1, id=by_id, inv=inv, rx=rx, p=chars(p),
                x="@%s-device%s %s" % ("skip" if inv else "grab", "-id" if by_id else "", p if rx else '"' + p + '"'))


OPTIONS = ["update", "no-update", "verbose", "no-tray", "no-notify"]


def options(*o):
    return dict(l=L_OPTION, w=1, o=[OPTIONS.index(x) for x in o], x="@options " + " ".join(o))


def include(name, lines, eol="\n"):
    files = [[name, eol.join(l["x"] for l in lines)]]
    for l in lines:
        files += l.get("files", [])
    return dict(l=L_INCLUDE, w=1, lines=lines, files=files, x='@include "%s"' % name)


def nested(depth, inner):
    l = [inner]
    for i in range(depth):
        l = [include("n%d_%d.conf" % (depth, i), l)]
    return l[0]


STAGE = dict(l=L_STAGE, w=1, x="[stage]")
DEFAULT = dict(l=L_DEFAULT, w=1, x="[default]")
BLANK = dict(l=L_BLANK, w=1, x="")
DONE = dict(l=L_DONE, w=1, x="@done")
WINDOWS = context(sys=False)
TITLE = context([("title", "T", False)])
CLASS = context([("class", "/C/i", True)])


def suite(thorough):
    d = 1 if thorough else 0
    S = []

    def add(name, ev, depth, init=()):
        S.append(dict(name=name, init=list(init), ev=ev, depth=depth))
    ab, cd = mapping("A", "B"), mapping("C", "D")
    add("blocks", [ab, TITLE, CLASS, WINDOWS, DEFAULT, STAGE, BLANK], 5 + d)
    add("blocks which share mappings", [ab, TITLE, WINDOWS, context(system="LINUX", mods="Virtual1", inv=True), alias("x", "A"),
                                        DONE], 5 + d)
    add("commands", [mapping("A", "foo"), mapping("B", "foo"), mapping("foo", "X"), mapping("foo", "Y"), TITLE, WINDOWS], 5 + d)
    add("names of commands", [mapping("A", "foo"), mapping("A", "Bar"), mapping("foo", "X"), mapping("Bar", "Y"), unmapped(True),
                              lower(True), lower(False), mapping("foo", "Ab"), unmapped(False)], 4 + d)
    add("logical keys", [mapping("Shift{A}", "B"), mapping("Shift{A}", "Shift{B}"), mapping("!Ext A", "Ext"),
                         mapping("Ext{Shift{A}}", "Ext{X} Shift"), logical("Ext", "C D"), logical("Ext", "Shift Control F"),
                         logical("Shift", "ShiftRight Virtual1")], 4 + d)
    add("logical keys of filters", [ab, context(mods="Ext"), context(mods="Ext", inv=True), context(mods="!Ext Shift"),
                                    context(mods="!Ext Shift", inv=True), context(mods="Ext A Ext", inv=True),
                                    logical("Ext", "C Shift")], 4 + d)
    add("logical keys and commands", [mapping("Shift{A}", "foo"), mapping("Ext", "foo"), mapping("foo", "Shift{B} Ext"),
                                      mapping("foo", "!Ext X"), logical("Ext", "C D E"), TITLE], 5 + d)
    add("forwarded modifiers", [forward("Shift"), forward("ControlLeft Ext"), mapping("Shift{A}", "B"),
                                mapping("Control{A}", "!Control B"), mapping("Ext A", "foo"), mapping("foo", "Shift{X}"), STAGE],
        4 + d, [logical("Ext", "Shift MetaLeft ControlLeft")])
    add("forwarded modifiers of blocks", [forward("ControlLeft Shift"), mapping("(Shift Control){A}", "Control{B}"), mapping("ControlLeft A", "foo"),
                                          mapping("foo", "X"), WINDOWS, TITLE, STAGE], 4 + d)
    add("aliases", [alias("Win", "MetaLeft"), alias("Win", "A B"), alias("Go", "Win !Win"), alias("Go", "Virtual1"), mapping("Win{C}", "Go"),
                    mapping("!Win C", "Win"), WINDOWS, DEFAULT], 4 + d)
    add("aliases with parameters", [alias("Two", [par(0), HOLD, par(1), UNHOLD]), alias("Two", [par(0), K("Win"), par(0)]),
                                    alias("Win", "A"), alias("Win", "B X"), mapping([app("Two", E("C"), E("Win"))], E("X")),
                                    mapping("C", [app("Two", E("Win"), [app("Two", E("D"), E("E F"))])]),
                                    mapping("Q", [app("repeat", E("Win"), [num(3)])]), mapping("A", [app("Two", E("C"))])], 4 + d)
    add("aliases of aliases", [alias("A", "B"), alias("B", "A"), alias("B", "C"), ab, mapping("B", "A"), logical("B", "X Y"),
                               logical("C", "A D")], 4 + d)
    add("aliases in strings", [alias("greet", [string(["Hi"])]), alias("greet", [string(["a", ["name"], "b"], '"')]),
                               alias("name", [string(["x", ["greet"]])]), mapping("A", [string([["greet"], " ", ["name"]], '"')]),
                               mapping("B", [string(["echo ", ["name"], " (#x) ;"], t=6), K("C")]), mapping("A", "greet")], 4 + d)
    n = num
    add("builtin macros", [mapping("A", [app("repeat", E("X Y"), [app(f, [n(a)], [n(b)])]), K("C")]) for f, a, b in (
        ("add", 1, 2), ("sub", 3, 1), ("sub", 1, 3), ("mul", 2, 2), ("mul", -1, -2), ("div", 7, 3), ("div", -7, -3), ("div", 1, 0),
        ("mod", 7, 4), ("mod", -7, 4), ("mod", 1, 0), ("min", 2, 3), ("max", -2, 2), ("pow", 1, 1))] + [
        mapping("A", [app("repeat", E("X"), [app("length", [string(["ab;"], '"')])])]),
        mapping("A", [app("default", E("X Y"), E("Z"))]), mapping("A", [app("Two", E("X"), E("Z"))]),
        mapping("A", [app("Two", E("X"))]), mapping("A", [app("repeat", E("X"), E("Y"))]), mapping("A", [app("length", E("X"))]),
        dict(mapping("A", "C"), x="A >> repeat[B, mod[-2147483648, -1]] C"),
        apply([par(0)], [par(0), HOLD, K("X"), UNHOLD], E("A"), E("Ext"), E("Nope")),
        apply([K("Shift"), HOLD, par(0), UNHOLD], [par(1)], E("A"), E("B"), E("C"), E("foo"), E("Q")),
        ], 2 + d, [alias("Two", [app("default", [par(1)], [par(0)])]), logical("Ext", "A B")])
    inc = include("a.conf", [mapping("A", "foo"), TITLE])
    add("included files", [inc, include("b.conf", [BLANK, mapping("foo", "Y"), alias("Win", "X")]), mapping("B", "Win"),
                           include("c.conf", [ab, DONE, bad("x")]), include("d.conf", [ab, include("e.conf", [cd, bad("A > B")])]),
                           context([("path", "p", False)]), context([("title", "/i", False)]), WINDOWS, mapping("foo", "X")], 4 + d)
    add("depth of included files", [nested(9, ab), nested(10, ab), nested(11, ab), ab], 2)
    add("directives", [grab("Some Device", False, False), grab("/i", False, True), grab("/x.*/", True, True), options("verbose", "no-tray"), options("update"),
                       server("macos-iso-keyboard", True, ""), server("macos-toggle-fn", False, " false"), WINDOWS, STAGE,
                       unmapped(True, ""), forward("Shift Shift ShiftLeft"), baddir("@unknown"), mapping("A", "foo")], 3 + d)
    add("last line", [dict(mapping("A", "B"), x="A >> B \\"), dict(mapping("A", "C"), x="A >> \\\nC\\ ", w=2), dict(BLANK, x="\\")], 1)
    add("invalid lines", [mapping("A B", "X")] + [bad(x) for x in INVALID] + [baddir(x) for x in INVALID_DIRECTIVES] +
         [WINDOWS, alias("a", "B"), logical("Ext", "A None"), context(mods="Nope"), context(mods="ContextActive"), forward("A Nope"),
          forward("Virtual1"), forward("Any"), mapping("A", "ContextActive"), mapping("ContextActive", "A"), mapping("None", "A"), mapping("A{", "A"), mapping("A", ""), mapping("", "A"), mapping("A", "(A"),
          mapping([app("nope", E("A"))], E("B")), mapping("A", [app("Nope", E("A"))])], 2)
    return S


INVALID = ["A", "A > B", ">> A", "A B", "= A B >", "[title='a'", "[title='a'] x", "[title]", "[foo='a']", "[title=]", "[]",
           "[stage", "[stage x]", "[default title='a']", "[title='a' title]", "[title=/[/]", "[modifier='A", "A >> 'b", "'a' >> \"",
           "A >> $(x", "A >> repeat[B, min[1, div[-2147483648, -1]]]", "A >> repeat[B, sub[add[2147483647, 1], 1]]",
           "A >> repeat[B, mul[65536, 65536]]", "A >> repeat[B, 2147483648]", "apply[A >> $0, B, C >>]",
           "A >> B C )", "[title=/a]"]
INVALID_DIRECTIVES = ["@", "@foo", "@done x", "@allow-unmapped-commands maybe", "@options foo", "@grab-device", "@grab-device /[/",
                      "@include", "@include 'missing.conf'", "@enforce-lowercase-commands true x", "@forward-modifiers !", "@ done"]

NAMED = ["A", "B", "C", "D", "E", "X", "Y", "Shift", "Control", "Alt", "ShiftLeft", "ControlRight", "Virtual1", "Virtual2", "Any"]
LOGICAL = ["Ext", "Mod", "Shift", "Alt"]
ALIASES = ["Win", "Boss", "go", "Ext", "A"]
COMMANDS = ["foo", "bar", "Baz", "do-it", "go"]


def name(r, out=False):
    x = r.random()
    if x < .7: return r.choice(NAMED)
    if x < .85: return r.choice(LOGICAL)
    if x < .98: return r.choice(ALIASES)
    return "Nope"


def expression(r, inp, depth=0):
    q = []
    for _ in range(r.choice([1, 1, 1, 2, 2, 3])):
        x = r.random()
        if x < .2 and depth < 2:
            if r.random() < .3:
                q += [OPEN] + [K(name(r)) for _ in range(r.randint(1, 3))] + [CLOSE]
            else:
                q.append(K(name(r)))
            q += [HOLD] + expression(r, inp, depth + 1) + [UNHOLD]
        elif x < .3 and not (inp and depth):
            q.append(K(name(r), 2))
        elif x < .34 and depth < 2:
            arg = lambda: [t for t in expression(r, inp, 2) if t["t"] != 5] or [K("A")]
            q.append(app("Two", arg(), arg()) if r.random() < .7 else app("repeat", arg(), number(r)))
        elif x < .38:
            q.append(string([r.choice(["a", "Ab", "#;", "é"]), [r.choice(["greet", "name"])]], r.choice("'\"")))
        elif x < .42 and not inp and depth == 0:
            q.append(string([r.choice(["ls", "a (b) C", "x;#y", "echo '#'"]), [r.choice(["greet", "name"])]], t=6))
        elif x < .44:
            q.append(parse.ms(r.choice([50, 5000])))
        else:
            q.append(K(name(r)))
    # on its own a delay is taken for the name of a command
    return q + [K("X")] if len(q) == 1 and q[0]["t"] == 3 else q


def number(r, depth=0):
    if depth == 2 or r.random() < .5:
        return [num(r.randint(-2, 4))]
    return [app(r.choice(["add", "sub", "mul", "div", "mod", "min", "max"]), number(r, depth + 1), number(r, depth + 1))]


def modifiers(r):
    return " ".join(r.choice(["", "", "!"]) + name(r) for _ in range(r.choice([1, 1, 2, 3])))


def random_line(r, count, depth=0):
    x = r.random()
    if x < .35:
        ln = mapping(expression(r, True), expression(r, False) if r.random() < .75 else [K(r.choice(COMMANDS))])
    elif x < .45:
        ln = mapping([K(r.choice(COMMANDS))], expression(r, False))
    elif x < .62:
        fs = []
        for _ in range(r.choice([0, 1, 1, 2])):
            fs.append((r.choice(FIELDS + ["device_id"]), r.choice(["Foo", "a b", "/x(y|z)*/", "/A\\/b/i", "#", "a ; b", "/i", "/", "/a"]), r.random() < .3))
        mods = modifiers(r) if r.random() < .4 or not fs else None
        sysm = r.random()
        ln = context(fs, mods, r.random() < .4, sysm >= .25,
                     r.choice(["Windows", "MacOS", "linuxx", ""]) if sysm < .25 else r.choice(["Linux", "linux"]) if sysm < .4 else None,
                     r.choice([" ", ", ", ",", "  "]), r.choice("'\""), r.choice(["=", " = ", "= "]))
    elif x < .65:
        ln = STAGE
    elif x < .67:
        ln = DEFAULT
    elif x < .73:
        ln = logical(r.choice(LOGICAL + ["Win"]), " ".join(r.choice(NAMED + LOGICAL + ["Win", "Boss"]) for _ in range(r.randint(2, 4))))
    elif x < .80:
        n = r.choice(ALIASES)
        ln = alias(n, [K(r.choice(["B", "X", "Virtual1", "Virtual7", "Shift"]))] if r.random() < .5 else
                   [t for t in expression(r, False, 1) if t["t"] != 5])
    elif x < .83:
        n = r.choice(["greet", "name"])
        ln = alias(n, [string([r.choice(["x", "Yz", ""]), ["name" if n == "greet" else "greet"]], r.choice("'\""))])
    elif x < .86:
        ln = alias("Two", r.choice([[par(0), K("Win"), par(1)], [par(1), HOLD, par(0), UNHOLD], [K("Ext", 2), par(0)], [par(0)]]))
    elif x < .865:
        i, o = r.choice([([par(0)], [K("Win"), par(0)]), ([K("Ext"), HOLD, par(0), UNHOLD], [par(1)]),
                         ([par(1), K("A")], [par(0), HOLD, K("X"), UNHOLD]), ([par(0)], [K("foo")])])
        ln = apply(i, o, *[[K(name(r))] for _ in range(r.randint(1, 5))])
    elif x < .88:
        ln = forward(" ".join(r.choice(["Shift", "Control", "Ext", "Alt", "AltLeft", "A"]) for _ in range(r.randint(1, 3))))
    elif x < .90:
        ln = unmapped(*r.choice([(True, ""), (True,), (True, " true"), (False,)]))
    elif x < .91:
        ln = lower(*r.choice([(True,), (True, ""), (False,)]))
    elif x < .92:
        ln = grab(r.choice(["Foo", "/x/", "a b", "/i"]), r.random() < .5, r.random() < .5)
    elif x < .93:
        ln = options(*r.sample(OPTIONS, r.randint(1, 3)))
    elif x < .935:
        ln = server(*r.choice([("macos-toggle-fn", True, ""), ("macos-iso-keyboard", True, " true"), ("macos-iso-keyboard", False, " false")]))
    elif x < .96 and depth < 3:
        count[0] += 1
        n = "i%d.conf" % count[0]
        ln = include(n, [random_line(r, count, depth + 1) for _ in range(r.randint(1, 4))], r.choice(["\n", "\r\n"]))
    elif x < .963:
        ln = DONE
    elif x < .97:
        ln = bad(r.choice(INVALID))
    elif x < .98:
        ln = baddir(r.choice(INVALID_DIRECTIVES))
    else:
        ln = BLANK
    ln = dict(ln)
    if ln["l"] == L_MAP and r.random() < .1:
        ln.update(mapping(ln["in"], ln["out"], r.choice(["\\\n  >> ", ">>\\\n", ">> \\ \n\t"]), 2))
    if r.random() < .2:
        ln["x"] = r.choice(["  ", "\t"]) + ln["x"]
    if r.random() < .2 and ln["l"] not in (L_BAD, L_BADDIR, L_OPTION):
        ln["x"] += r.choice([" # comment >> [x]", "  ; a = b", " ", "\t"])
    return ln


def scenario(n):
    r = random.Random(vlib.SEED * 1000003 + n * 7919 + 18)
    count = [0]
    ev = [unmapped(True)] if r.random() < .5 else []
    if r.random() < .3:
        ev.append(logical("Ext", r.choice(["C D", "Shift Control", "A Virtual1 AltLeft"])))
    if r.random() < .3:
        ev.append(forward("Shift Control"))
    ev += [random_line(r, count) for _ in range(r.randint(3, 12))]
    if ev[-1]["l"] in (L_MAP, L_ALIAS, L_STAGE, L_FORWARD) and r.random() < .3 and "#" not in ev[-1]["x"] and ";" not in ev[-1]["x"]:
        ev[-1]["x"] += " \\"
    return {"ev": ev}, "configuration"


def many():
    """more terminal commands than there are codes for"""
    ev = [mapping("A", [string(["c%d" % i], t=6) for i in range(j, j + 50)]) for j in range(0, 250, 50)]
    ev += [mapping("B", [string(["d%d" % i], t=6)]) for i in range(8)]
    return {"ev": ev}, "many terminal commands"


def describe(e):
    return "\n  " + e["x"] + "".join("\n    %s: %s" % (n, t.replace("\n", "\n      ")) for n, t in e.get("files", []))


def events(v):
    return parse.describe_obs([[1]] + [v[i:i + 3] for i in range(0, len(v), 3)])


def describe_obs(obs):
    if obs and obs[0] and obs[0][0] == 0:
        return "error in line %d%s" % (obs[0][1], " of included file" if obs[0][2] else "")
    r = []
    for e in obs[1:]:
        if e[0] == 2:
            r.append("stage")
        elif e[0] == 6:
            x = e.index(-3) if -3 in e else len(e)
            r.append("%s >> %s" % (events(e[2:x]), "command %d" % e[1] if e[1] else events(e[x + 1:])))
        elif e[0] == 9:
            r.append("command %d >> %s" % (e[1], events(e[2:])))
        else:
            r.append("%s" % e)
    return "\n  ".join(["configuration:"] + r)


def check(prop):
    rep = vlib.Report(prop)
    exe = driver()
    thorough = vlib.TIER == "thorough"
    s = suite(thorough)
    data, rep.coverage["graph_from_cache"] = replay.graphs(prop, "CompileGraph", MODULES, s, thorough)
    with vlib.Scratch() as d:
        env = dict(os.environ, DRIVER_DIR=d)
        replay.replay_graphs(rep, exe, s, data, vlib.scale(2000, 20000), describe, describe_obs, fields=(), env=env)
        sc = [many()] + [scenario(n) for n in range(vlib.scale(4000, 40000))]
        replay.validate(rep, exe, "TraceCompile", [a for a, b in sc], [b for a, b in sc], describe, describe_obs, env=env)
    return rep.finish()


def warm(prop):
    replay.graphs(prop, "CompileGraph", MODULES, suite(False), False)
