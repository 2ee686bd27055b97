"""Small configurations whose histories are explored completely, per property."""
import kmexpr as X

K = X.KEYS
REST = object()


def down(k, dev=0):
    return ["k", K[k] if isinstance(k, str) else k, 1, 0, dev]


def up(k, dev=0):
    return ["k", K[k] if isinstance(k, str) else k, 0, 0, dev]


def timeout(ms):
    return ["k", X.K_TIMEOUT, 0, ms, -2]


def ctx(*mappings, **kw):
    return X.context(mappings, **kw)


def make(p, name, stages, keys, hold=2, devs=(0,), virt=(), times=(), ctxs=(), init=None, descs=(),
         rest=True, validate=(), maxh=6, depth=(9, 14), **params):
    """stages: list of context lists; a plain list of mappings stands for one
    stage with one context"""
    if stages and isinstance(stages[0], tuple):
        stages = [[X.context(stages)]]
    elif stages and isinstance(stages[0], dict):
        stages = [stages]
    nctx = sum(len(s) for s in stages)
    ev = []
    for k in keys.split():
        for d in devs:
            ev += [down(k, d), up(k, d)]
    for v in virt:
        ev += [down(v, -2), up(v, -2)]
    for t in times:
        ev.append(timeout(t))
    for c in ctxs:
        ev.append(["c", list(c)])
    for d in descs[1:]:
        ev.append(["d", d])
    for v in validate:
        ev.append(["v", [K[k] for k in v.split()]])
    start = [["d", descs[0]]] if descs else []
    start.append(["c", list(range(nctx)) if init is None else list(init)])
    return dict(p=p, name=name, cs=stages, init=start, ev=ev, hold=hold, rest=rest, maxh=maxh, depth=depth, **params)


def rules(*ms):
    return dict(rules=[dict(i=[K[k] for k in a.split()], o=[K[k] for k in b.split()]) for a, b in ms])


def plain(p, name, ms, keys, **kw):
    return make(p, name, list(ms), keys, **rules(*ms), **kw)


def c01():
    r = []
    r.append(plain("C01", "sequence or forward", [("A B", "X"), ("C", "Y")], "A B C D"))
    r.append(plain("C01", "overlapping sequences", [("A B C", "X"), ("A B", "Y"), ("B C", "Z")], "A B C"))
    r.append(plain("C01", "prefix decides by order", [("A", "X"), ("A B", "Y"), ("B A", "Z")], "A B"))
    r.append(plain("C01", "restart after mismatch", [("A A B", "X"), ("A B B", "Y")], "A B"))
    r.append(plain("C01", "longest beginning", [("A B C D", "X"), ("A B", "Y"), ("A", "Z")], "A B C D"))
    r.append(plain("C01", "output sequences", [("A", "X Y"), ("B", "A"), ("A C", "Z"), ("C", "X")], "A B C"))
    r.append(make("C01", "hold modifier", [("ShiftLeft{A}", "X"), ("ShiftLeft{B}", "ControlLeft{Y}"), ("A", "Z")], "ShiftLeft A B"))
    r.append(make("C01", "chords", [("(A B)", "X"), ("A", "Y"), ("C", "Z")], "A B C"))
    r.append(make("C01", "chord with content", [("(A B){C}", "X"), ("C", "Y")], "A B C", hold=3))
    r.append(make("C01", "nested hold", [("A{B{C}}", "X"), ("A{B}", "Y"), ("B", "Z")], "A B C", hold=3))
    r.append(make("C01", "any", [("A", "A"), ("Any", "X"), ("B{Any}", "Y")], "A B C"))
    r.append(make("C01", "any output", [("A{Any}", "ShiftLeft{Any}"), ("A", "Z")], "A B C"))
    r.append(make("C01", "not pressed", [("!A B", "X"), ("A{C}", "Y"), ("!ShiftLeft A", "Z")], "A B C ShiftLeft"))
    r.append(make("C01", "release in input", [("A !A", "X"), ("A B !B", "Y")], "A B C"))
    r.append(make("C01", "release of modifier", [("A{B} !A", "X"), ("A !A", "Y")], "A B"))
    r.append(make("C01", "strings", [("'ab'", "X"), ("'Ab'", "'xY'"), ("C", "'Z'")], "A B C ShiftLeft"))
    r.append(make("C01", "swap", [("A", "B"), ("B", "A"), ("C", "ShiftLeft")], "A B C"))
    r.append(make("C01", "same output", [("A", "X"), ("B", "X"), ("C", "X Y")], "A B C", hold=3))
    r.append(make("C01", "empty output", [("A", ""), ("B C", ""), ("C", "X")], "A B C"))
    r.append(make("C01", "modifier both sides", [("A{B}", "X"), ("A", "ShiftLeft"), ("C", "ShiftLeft{Y}")], "A B C"))
    r.append(make("C01", "mouse", [("ButtonLeft{A}", "X"), ("WheelUp", "Y"), ("A{WheelUp}", "Z")], "A ButtonLeft WheelUp"))
    r.append(make("C01", "released key reported down", [("A", "X"), ("B{C}", "Y")], "A B C", validate=("", "A", "B"), rest=False))
    return r


def c02():
    r = []
    ms = [
        [("A{B}", "ShiftLeft{X}"), ("A", "ControlLeft"), ("C", "Y")],
        [("A", "ShiftLeft"), ("A{B}", "!ShiftLeft X"), ("B", "ShiftLeft{Y}")],
        [("(A B)", "X"), ("A{C}", "Y ^ Z"), ("B", "ControlLeft")],
        [("A B", "X"), ("A{C}", "ShiftLeft{Y}"), ("C", "C")],
        [("Any", "Any"), ("A{B}", "X")],
        [("A{Any}", "ControlLeft{Any}"), ("B", "!Any X")],
        [("A", "B"), ("B", "A"), ("A{C}", "X")],
        [("? A B", "X"), ("C", "ShiftLeft{A}"), ("A{C}", "Y")],
        [("A", "X ^ Y"), ("B", "X"), ("A{C}", "!X Z")],
        [("A !A", "X"), ("A{B}", "Y"), ("B !B", "Z")],
        [("!A B", "ShiftLeft"), ("A", "ShiftLeft{B}"), ("C", "!Any X")],
    ]
    for i, m in enumerate(ms):
        r.append(make("C02", "mappings %d" % i, m, "A B C", hold=3))
    r.append(make("C02", "timeouts", [("A{200ms}", "ShiftLeft"), ("A{!200ms}", "X"), ("B", "ControlLeft{Y}")], "A B",
                  times=(100, 200)))
    r.append(make("C02", "timeout sequence", [("A 200ms B", "X"), ("A !200ms B", "Y"), ("B", "ShiftLeft")], "A B", times=(100, 200)))
    r.append(make("C02", "contexts", [ctx(("A", "X"), ("B", "ShiftLeft{Y}")), ctx(("A", "Y ^ Z"), ("C", "ShiftLeft"), mf=("B",)),
                                      ctx(("ContextActive", "ControlLeft ^ Z"), ("B", "X"))],
                  "A B C", ctxs=([0, 1], [0, 2], [])))
    r.append(make("C02", "stages", [[ctx(("A", "ShiftLeft"), ("B", "X"))], [ctx(("ShiftLeft{C}", "Y"), ("X", "ControlLeft{Z}"))]],
                  "A B C"))
    r.append(make("C02", "virtual", [("Virtual0{A}", "X"), ("A", "ShiftLeft"), ("B", "Virtual0 Y")], "A B", virt=("Virtual0",)))
    r.append(make("C02", "devices", [("A{B}", "X"), ("B", "ShiftLeft"), ("A", "Y")], "A B", devs=(0, 1)))
    return r


def c03():
    r = []

    def f(name, ms, keys, free, idle=False, **kw):
        kw.setdefault("hold", 3)
        r.append(make("C03", name, ms, keys, free=[K[k] for k in free.split()], idle=idle, **kw))
    f("sequences", [("A B", "X"), ("A", "Y"), ("B A", "Z")], "A B E F", "E F", hold=2)
    f("holds", [("A{B}", "X"), ("A", "ShiftLeft"), ("B", "Y")], "A B E F", "E F")
    f("chord", [("(A B)", "X"), ("A{B}", "Y")], "A B E", "E")
    f("on release", [("A", "X ^ Y"), ("A{B}", "Z ^ X")], "A B E", "E")
    f("timeouts", [("A{200ms}", "X"), ("A !200ms B", "Y"), ("B{!200ms}", "Z")], "A B E", "E", times=(100, 200))
    f("history", [("? A B", "X"), ("? B A", "Y"), ("A{B}", "Z")], "A B E", "E", hold=2)
    f("negations", [("A", "!ShiftLeft X"), ("!A B", "Y"), ("ShiftLeft", "ShiftLeft")], "A B E ShiftLeft", "E")
    f("mouse", [("A{WheelUp}", "X"), ("B", "ButtonLeft"), ("A", "Y")], "A B ButtonRight WheelUp", "ButtonRight")
    f("stages", [[ctx(("A B", "X"), ("A", "B"))], [ctx(("B X", "Y"), ("X", "Z"))]], "A B E", "E", hold=2)
    f("inactive contexts", [ctx(("A B", "X"), ("E", "Y")), ctx(("E A", "X"))], "A E", "A E", init=[], idle=True, devs=(0, 1))
    f("no mappings", [ctx()], "A ShiftLeft ButtonLeft WheelUp", "A ShiftLeft ButtonLeft WheelUp", idle=True)
    f("no contexts", [[]], "A B ControlLeft", "A B ControlLeft", idle=True)
    f("modifier filter", [ctx(("A", "X"), ("E", "Z"), mf=("B",)), ctx(("A C", "Y"))], "A B C F", "B F", hold=2)
    return r


def c04():
    r = []

    def f(name, ms, keys, neg, pos, keep, **kw):
        """neg: (trigger, negated key, key pressed meanwhile), pos: (trigger, key pressed without negations)"""
        kw.setdefault("hold", 3)
        r.append(make("C04", name, ms, keys, neg=[dict(t=K[t], k=K[k], o=K[o]) for t, k, o in neg],
                      pos=[dict(t=K[t], o=K[o]) for t, o in pos], keep=[K[k] for k in keep.split()], **kw))
    f("not modifier", [("A", "!ShiftLeft X"), ("B", "Y")], "ShiftLeft A B", [("A", "ShiftLeft", "X")], [("B", "Y")], "ShiftLeft")
    f("not any", [("A", "!Any X"), ("B", "Y"), ("C", "!Any")], "ShiftLeft A B C D",
      [("A", "ShiftLeft", "X"), ("A", "D", "X"), ("A", "Y", "X")], [("B", "Y")], "ShiftLeft D")
    f("two modifiers", [("A", "!ShiftLeft !ControlLeft X"), ("B", "!ControlLeft Y"), ("C", "Z")], "ShiftLeft ControlLeft A B C",
      [("A", "ShiftLeft", "X"), ("A", "ControlLeft", "X"), ("B", "ControlLeft", "Y")], [("C", "Z")], "ShiftLeft ControlLeft")
    f("negated then pressed", [("A", "!ShiftLeft X ShiftLeft{Y}"), ("B", "Z")], "ShiftLeft A B",
      [("A", "ShiftLeft", "X")], [("B", "Z")], "ShiftLeft")
    f("repeated modifier output", [("A", "ShiftLeft{X}"), ("B", "!ShiftLeft Y"), ("C", "ShiftLeft")], "ShiftLeft A B C",
      [("B", "ShiftLeft", "Y")], [("A", "X")], "ShiftLeft")
    f("held output", [("A", "ControlLeft"), ("A{B}", "!ControlLeft X"), ("C", "Y")], "A B C", [("B", "ControlLeft", "X")], [], "")
    f("string", [("A", "'xY'"), ("B", "Z")], "ShiftLeft ControlLeft A B", [("A", "ControlLeft", "X")], [("B", "Z")], "ControlLeft ShiftLeft")
    f("after on release", [("A", "X ^ !ShiftLeft Y"), ("B", "Z")], "ShiftLeft A B", [("A", "ShiftLeft", "Y")], [("B", "Z")], "ShiftLeft")
    f("negated virtual", [("A", "!Virtual0 X"), ("Virtual0{B}", "!Any Y"), ("B", "Z")], "A B ShiftLeft",
      [("B", "ShiftLeft", "Y")], [("B", "Z")], "ShiftLeft", virt=("Virtual0",))
    f("negation of itself", [("A", "!A X"), ("B", "A"), ("C", "!A !B Y")], "A B C", [("C", "A", "Y"), ("C", "B", "Y")], [], "")
    f("output of two keys", [("A", "!Any X"), ("B", "Y"), ("C", "Y")], "A B C ShiftLeft",
      [("A", "ShiftLeft", "X")], [("B", "Y"), ("C", "Y")], "ShiftLeft", hold=4)
    return r


def c05():
    r = []

    def f(name, ms, keys, split, **kw):
        r.append(make("C05", name, ms, keys, split=[dict(t=K[t], a=K[a], b=K[b], c=c) for t, a, b, c in split], **kw))
    f("simple", [("A", "X ^ Y"), ("B", "Z")], "A B C", [("A", "X", "Y", 0)], hold=3)
    f("two splits", [("A", "X ^ Y"), ("B", "Z ^ W")], "A B C", [("A", "X", "Y", 0), ("B", "Z", "W", 0)], hold=3)
    f("hold", [("A{B}", "X ^ Y"), ("B", "Z ^ W"), ("A", "V")], "A B C", [("B", "X", "Y", 0), ("B", "Z", "W", 0)], hold=3)
    f("sequence", [("A B", "X ^ Y"), ("C", "Z")], "A B C", [("B", "X", "Y", 0)])
    f("matched on release", [("A !A", "X ^ Y"), ("A{B}", "Z")], "A B", [("A", "X", "Y", 0)])
    f("only second", [("A", "X"), ("A{B}", "Z ^ Y"), ("C", "W ^ V")], "A B C", [("B", "Z", "Y", 0), ("C", "W", "V", 0)])
    f("held in first", [("A", "ShiftLeft{X} ^ ControlLeft{Y}"), ("B", "!ShiftLeft Z ^ W")], "A B C ShiftLeft",
      [("A", "X", "Y", 0), ("B", "Z", "W", 0)])
    f("context change", [ctx(("A", "X ^ Y")), ctx(("B", "Z ^ W")), ctx(("C", "V"))], "A B C", [("A", "X", "Y", 0), ("B", "Z", "W", 1)],
      ctxs=([0, 1], [0, 2], [2], []))
    f("chord", [("(A B)", "X ^ Y"), ("C", "Z")], "A B C", [("B", "X", "Y", 0)], hold=3)
    f("chords with common key", [("(A B)", "X ^ Y"), ("(C B)", "Z ^ W")], "A B C", [("B", "X", "Y", 0), ("B", "Z", "W", 0)], hold=3)
    f("timeout", [("A{200ms}", "X ^ Y"), ("B", "Z")], "A B", [("A", "X", "Y", 0)], times=(100, 200))
    f("stages", [[ctx(("A", "X ^ Y"), ("B", "B"))], [ctx(("X", "Z ^ W"), ("B", "V"))]], "A B C", [])
    f("any", [("Any", "X ^ Y")], "A B C", [], hold=2)
    return r


def c06():
    r = []

    def f(name, ms, keys, timed, times=(100, 200), **kw):
        r.append(make("C06", name, ms, keys, times=times,
                      timed=[dict(t=K[t], x=K[x] if x else 0, y=K[y] if y else 0, ms=m) for t, x, y, m in timed], **kw))
    f("hold or tap", [("A{200ms}", "X"), ("A{!200ms}", "Y")], "A B", [("A", "X", "Y", 200)])
    f("hold or tap with fallback", [("A{!200ms}", "X"), ("A", "Y"), ("B", "Z")], "A B", [("A", "", "X", 200)])
    f("hold only", [("A{200ms}", "X"), ("B{A}", "Y")], "A B", [("A", "X", "", 200)])
    f("after release", [("A 200ms B", "X"), ("A !200ms B", "Y")], "A B C", [])
    f("double tap", [("A !200ms A", "X"), ("A", "Y")], "A B", [])
    f("long and short", [("A{300ms}", "X"), ("A{100ms}", "Y"), ("A{!100ms}", "Z")], "A B", [], times=(50, 100, 300))
    f("two keys", [("A{200ms}", "X"), ("B{!200ms}", "Y"), ("A{B}", "Z")], "A B", [("A", "X", "", 200)], hold=2)
    f("hold with content", [("A{B 200ms}", "X"), ("A{B}", "Y"), ("B !200ms C", "Z")], "A B C", [], hold=2)
    f("tap or hold modifier", [("A{!200ms}", "X"), ("A", "ShiftLeft"), ("B", "Y")], "A B", [("A", "", "X", 200)])
    f("release after timeout", [("A 200ms !A", "X"), ("A !200ms !A", "Y")], "A B", [])
    f("hold virtual", [("A{200ms}", "Virtual0"), ("Virtual0{B}", "X"), ("A{!200ms}", "Y")], "A B", [("A", "", "Y", 200)], virt=("Virtual0",))
    f("stages", [[ctx(("A{200ms}", "X"), ("A{!200ms}", "Y"))], [ctx(("X", "Z"), ("Y", "V"))]], "A B", [("A", "Z", "V", 200)])
    f("modifier tap", [("ShiftLeft{!200ms}", "X"), ("ShiftLeft", "ShiftLeft"), ("ShiftLeft{A}", "Y")], "ShiftLeft A", [("ShiftLeft", "", "X", 200)])
    return r


def c07():
    r = []

    def f(name, ms, keys, pure, repl=(), **kw):
        r.append(make("C07", name, ms, keys, pure=pure, repl=[dict(k=K[k], o=K[o]) for k, o in repl], **kw))
    f("sequence", [("? A B", "X")], "A B C", True, [("B", "X")])
    f("two sequences", [("? A B C", "X"), ("? B A", "Y")], "A B C", True, [("C", "X"), ("A", "Y")])
    f("repeated letter", [("? A A B", "X")], "A B", True, [("B", "X")])
    f("string", [("? 'ab'", "X")], "A B ShiftLeft", True, [("B", "X")])
    f("prefix of other", [("? A B", "X"), ("? A B C", "Y")], "A B C", True, [("B", "X"), ("C", "Y")])
    f("mixed", [("? A B", "X"), ("C A", "Y"), ("B", "Z")], "A B C", False)
    f("mixed hold", [("? A B", "X"), ("C{B}", "Y"), ("A C", "Z")], "A B C", False)
    f("held keys", [("? A B", "X"), ("C", "ShiftLeft")], "A B C", True, [("B", "X"), ("C", "ShiftLeft")], hold=3)
    f("release", [("? A !A B", "X")], "A B C", True, [("B", "X")])
    f("contexts", [ctx(("? A B", "X")), ctx(("? B A", "Y"))], "A B C", True, [("B", "X"), ("A", "Y")], ctxs=([0], [1], [0, 1], []))
    f("devices", [("? A B", "X"), ("? B B", "Y")], "A B", True, [("B", "X"), ("B", "Y")], devs=(0, 1))
    return r


def c08():
    r = []

    def f(name, cs, keys, sent, **kw):
        r.append(make("C08", name, cs, keys,
                      sent=[dict(k=K[x[0]], s=1, c=x[1], over=list(x[2]) if len(x) > 2 else [], held=len(x) > 3) for x in sent], **kw))
    flt = lambda *p, **kw: dict(p=[list(x) for x in p], rx=kw.get("rx", False), inv=kw.get("inv", False))
    f("two contexts", [ctx(("A", "X"), ("B C", "Y")), ctx(("A", "Z"), ("B", "V"))], "A B C",
      [("X", 0), ("Y", 0), ("Z", 1), ("V", 1)], ctxs=([0], [1], [0, 1], []))
    f("modifier filter", [ctx(("A", "X"), mf=("B",)), ctx(("A", "Y"), mf=("!B", "C")), ctx(("A", "Z"))], "A B C",
      [("X", 0), ("Y", 1), ("Z", 2)], hold=3)
    f("inverted modifiers", [ctx(("A", "X"), mf=("B", "C"), inv=True), ctx(("A", "Y"))], "A B C", [("X", 0), ("Y", 1)], hold=3)
    f("virtual filter", [ctx(("A", "X"), mf=("Virtual0",)), ctx(("A", "Y"), mf=("!Virtual0",))], "A B", [("X", 0), ("Y", 1)], virt=("Virtual0",))
    f("fallthrough", [ctx(mf=("B",), ft=True), ctx(("A", "X"), mf=("C",)), ctx(("A", "Y"))], "A B C", [("X", 1), ("Y", 2)],
      ctxs=([0, 2], [1, 2], [0, 1, 2]))
    f("command override", [ctx(("A", -1), ("B", -2), cmds=((-1, "X"), (-2, "Y"))), ctx(cmds=((-1, "Z"),), mf=("C",)),
                           ctx(cmds=((-1, "V"), (-2, "W")))], "A B C",
      [("X", 0, (1, 2)), ("Y", 0, (2,)), ("Z", 1, (2,)), ("V", 2), ("W", 2)], ctxs=([0, 1], [0, 2], [0, 1, 2]))
    f("command without default", [ctx(cmds=((-1, "X"),), mf=("B",)), ctx(("A", -1), ("A", "Y"))], "A B", [("X", 0), ("Y", 1)], ctxs=([0, 1], [1]))
    f("device filter", [ctx(("A", "X"), dn=flt([0])), ctx(("A", "Y"), dn=flt([1], inv=True)), ctx(("A", "Z"))], "A B",
      [("X", 0), ("Y", 1), ("Z", 2)], devs=(0, 1, 2),
      descs=([dict(n=[0], i=[0]), dict(n=[1], i=[1]), dict(n=[2], i=[2])], [dict(n=[1], i=[0]), dict(n=[0], i=[0])]), hold=2)
    f("device id filter", [ctx(("A", "X"), di=flt([0], [1], rx=True)), ctx(("A", "Y"))], "A B", [("X", 0), ("Y", 1)], devs=(0, 1),
      descs=([dict(n=[0], i=[2]), dict(n=[0], i=[1, 2])], [dict(n=[0], i=[0]), dict(n=[0], i=[2])], [dict(n=[0], i=[2])]))
    f("pending while switching", [ctx(("A B", "X"), ("A{C}", "Y")), ctx(("A C", "Z"), ("B", "V"))], "A B C",
      [("X", 0), ("Y", 0), ("Z", 1), ("V", 1)], ctxs=([0], [1], []))
    f("held while switching", [ctx(("A", "X ^ Y"), ("B", "ShiftLeft{Z}")), ctx(("A{B}", "V"), ("B", "!X W"))], "A B",
      [("X", 0), ("Z", 0), ("V", 1), ("W", 1)], ctxs=([0], [1], [0, 1], []))
    return r


def c09():
    r = []

    def f(name, cs, keys, sent, **kw):
        r.append(make("C09", name, cs, keys, sent=[dict(k=K[x[0]], s=1, c=x[1], hold=not x[2], r=K[x[3]] if x[3] else 0) for x in sent], **kw))
    f("focus", [ctx(("ContextActive", "X")), ctx(("ContextActive", "Y")), ctx(("A", "Z"))], "A B",
      [("X", 0, 0, 0), ("Y", 1, 0, 0)], ctxs=([0], [1], [0, 1], [2], [], [0, 2], [1, 2]), init=[])
    f("split", [ctx(("ContextActive", "X ^ V")), ctx(("ContextActive", "Y ^ W"))], "A",
      [("X", 0, 1, "V"), ("Y", 1, 1, "W")], ctxs=([0], [1], [0, 1], []), init=[])
    f("modifiers", [ctx(("ContextActive", "X"), mf=("A",)), ctx(("ContextActive", "Y"), mf=("!A", "B")), ctx(("B", "Z"))], "A B C",
      [("X", 0, 0, 0), ("Y", 1, 0, 0)], ctxs=([0, 1, 2], [1, 2]), hold=3)
    f("virtual", [ctx(("ContextActive", "X"), mf=("Virtual0",)), ctx(("ContextActive", "Y"), mf=("Virtual1",)), ctx(("A", "Virtual0"))], "A",
      [("X", 0, 0, 0), ("Y", 1, 0, 0)], virt=("Virtual0", "Virtual1"), ctxs=([0, 1, 2], [0], []))
    f("second mapping", [ctx(("A", "V"), ("ContextActive", "X")), ctx(("A", "W"), ("ContextActive", "Y"), ("B", "Z"))], "A B",
      [("X", 0, 0, 0), ("Y", 1, 0, 0)], ctxs=([0], [1], [0, 1], []), init=[])
    f("fallthrough", [ctx(mf=("A",), ft=True), ctx(("ContextActive", "X"), mf=("B",)), ctx(("ContextActive", "Y"))], "A B",
      [("X", 1, 0, 0), ("Y", 2, 0, 0)], ctxs=([0, 1], [0, 2], [1, 2], []))
    return r


def c10():
    r = []

    def f(name, stages, keys, insert, times=(), **kw):
        a = make("C10", name, stages, keys, times=times, **kw)
        # the same with an empty stage (one context) inserted: contexts are renumbered
        pos = sum(len(s) for s in stages[:insert])
        sh = lambda e: ["c", sorted([x if x < pos else x + 1 for x in e[1]] + [pos])] if e[0] == "c" else e
        a["cs2"] = stages[:insert] + [[ctx()]] + stages[insert:]
        a["init2"] = [sh(a["init"][-1])]
        a["ev2"] = [sh(e) for e in a["ev"]]
        r.append(a)
    two = [[ctx(("A", "B"), ("C", "X Y"))], [ctx(("B C", "Z"), ("X", "ShiftLeft{V}"), ("Y", ""))]]
    f("two stages, empty first", two, "A B C", 0)
    f("two stages, empty between", two, "A B C", 1)
    f("two stages, empty last", two, "A B C", 2)
    f("holds", [[ctx(("A", "ShiftLeft"), ("B", "!ShiftLeft X"))], [ctx(("ShiftLeft{C}", "Y"), ("X", "ControlLeft{Z}"))]], "A B C", 1)
    f("contexts in stages", [[ctx(("A", "X")), ctx(("A", "Y"))], [ctx(("X", "Z")), ctx(("Y", "V"))]], "A B", 1, ctxs=([0, 2], [1, 3], [0, 1, 2, 3], [3], []))
    f("timeouts", [[ctx(("A{200ms}", "X"), ("A{!200ms}", "Y"))], [ctx(("X", "Z"), ("Y", "V W"))]], "A B", 1, times=(100, 200))
    f("virtual", [[ctx(("A", "Virtual0 X"))], [ctx(("Virtual0{X}", "Y"), ("B", "Virtual1"))]], "A B", 1, virt=("Virtual0", "Virtual1"))
    f("actions", [[ctx(("A", "Action0"), ("B", "X"))], [ctx(("X", "Action1 Y"))]], "A B", 1)
    f("swap twice", [[ctx(("A", "B"), ("B", "A"))], [ctx(("A", "B"), ("B", "A"))]], "A B C", 1)
    return r


def c11():
    r = []

    def f(name, ms, keys, idle=False, **kw):
        kw.setdefault("hold", 3)
        r.append(make("C11", name, ms, keys, idle=idle, **kw))
    f("no mappings", [ctx()], "A B C", idle=True, devs=(0, 1))
    f("three devices", [ctx()], "A B", idle=True, devs=(0, 1, 2))
    f("mappings", [("A", "X"), ("B{C}", "Y")], "A B C", devs=(0, 1))
    f("sequences", [("A B", "X"), ("B", "ShiftLeft")], "A B C", devs=(0, 1))
    f("injected", [("A", "X"), ("B", "Y ^ Z")], "A B", devs=(0, 1, -1))
    f("device context", [ctx(("A", "X"), dn=dict(p=[[0]], rx=False, inv=False)), ctx(("A", "Y"))], "A B", devs=(0, 1),
      descs=([dict(n=[0], i=[0]), dict(n=[1], i=[1])],))
    return r


ALL = dict(C01=c01, C02=c02, C03=c03, C04=c04, C05=c05, C06=c06, C07=c07, C08=c08, C09=c09, C10=c10, C11=c11)


# search depth (quick, thorough) of configurations with many states
DEPTH = {
    ("C02", "mappings 7"): (7, 11), ("C02", "contexts"): (8, 12), ("C03", "holds"): (7, 12), ("C03", "timeouts"): (6, 9),
    ("C03", "negations"): (7, 11), ("C03", "mouse"): (7, 12), ("C04", "two modifiers"): (7, 12), ("C04", "negated virtual"): (6, 9),
    ("C04", "output of two keys"): (7, 11), ("C05", "context change"): (7, 12), ("C06", "hold virtual"): (7, 11),
    ("C07", "held keys"): (7, 11), ("C07", "contexts"): (7, 11), ("C08", "two contexts"): (6, 9), ("C08", "modifier filter"): (7, 11),
    ("C08", "command override"): (6, 10), ("C08", "device id filter"): (8, 12), ("C08", "pending while switching"): (6, 10),
    ("C08", "held while switching"): (7, 11), ("C09", "focus"): (6, 9), ("C09", "second mapping"): (5, 8),
    ("C10", "contexts in stages"): (6, 10), ("C11", "no mappings"): (8, 12), ("C11", "mappings"): (6, 10), ("C11", "sequences"): (6, 10),
}


def suite(prop, thorough=False):
    r = ALL[prop]()
    for c in r:
        c["depth"] = DEPTH.get((prop, c["name"]), c["depth"])
        c["depth"] = c["depth"][1 if thorough else 0]
    return r
