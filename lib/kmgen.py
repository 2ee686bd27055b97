"""Random configurations and histories."""
import random
import kmexpr as X


def pick(r, pairs):
    n = r.random() * sum(w for w, _ in pairs)
    for w, v in pairs:
        n -= w
        if n < 0:
            return v
    return pairs[-1][1]


class Gen:
    def __init__(self, seed, keys="ABCDE", outs="ABXYZ", mods=("ShiftLeft", "ControlLeft"), feat=()):
        self.r = random.Random(seed)
        self.keys = list(keys)
        self.outs = list(outs)
        self.mods = list(mods)
        self.feat = set(feat)

    # ---- expressions -----------------------------------------------------
    def inkey(self):
        r = self.r
        x = r.random()
        if "any" in self.feat and x < 0.08: return "Any"
        if "virtual" in self.feat and x < 0.16: return "Virtual%d" % r.randrange(2)
        if "mods" in self.feat and x < 0.3: return r.choice(self.mods)
        if "mouse" in self.feat and x < 0.38: return r.choice(["ButtonLeft", "ButtonRight", "WheelUp", "WheelDown"])
        return r.choice(self.keys)

    def timeout(self):
        return "%s%dms" % (self.r.choice(["", "!"]), self.r.choice([100, 200, 200, 300]))

    def input(self, depth=0):
        r = self.r
        parts = []
        if depth == 0 and "nmm" in self.feat and r.random() < 0.35:
            parts.append("?")
        n = pick(r, [(5, 1), (4, 2), (2, 3)]) if depth == 0 else pick(r, [(4, 1), (1, 2)])
        for _ in range(n):
            x = r.random()
            if x < 0.10 and "not" in self.feat:
                parts.append("!" + self.inkey())
            elif x < 0.20 and "group" in self.feat:
                parts.append("(%s)" % " ".join(r.sample(self.keys, r.choice([2, 2, 3]) if len(self.keys) > 2 else 2)))
                if r.random() < 0.3 and depth < 2:
                    parts.append("{%s}" % self.input(depth + 1))
            elif x < 0.42 and depth < 2:
                parts.append("%s{%s}" % (self.inkey(), self.input(depth + 1)))
            elif x < 0.50 and "string" in self.feat and depth < 2:
                parts.append("'%s'" % "".join(r.choice(self.keys + [k.lower() for k in self.keys]) for _ in range(r.choice([1, 2, 2, 3]))))
            elif x < 0.58 and "not" in self.feat and parts:
                parts.append("!" + r.choice(self.keys))
            else:
                parts.append(self.inkey())
            if "timeout" in self.feat and r.random() < (0.25 if depth == 0 else 0.3):
                parts.append(self.timeout())
        if depth > 0 and "timeout" in self.feat and r.random() < 0.35:
            parts = [self.timeout()]
        return " ".join(parts)

    def outkey(self):
        r = self.r
        x = r.random()
        if "virtual" in self.feat and x < 0.15: return "Virtual%d" % r.randrange(2)
        if "mods" in self.feat and x < 0.3: return r.choice(self.mods)
        if "mouse" in self.feat and x < 0.38: return r.choice(["ButtonLeft", "WheelUp"])
        if "any" in self.feat and x < 0.06: return "Any"
        return r.choice(self.outs)

    def output(self, depth=0):
        r = self.r
        parts = []
        n = pick(r, [(1, 0), (8, 1), (4, 2), (2, 3)]) if depth == 0 else pick(r, [(4, 1), (2, 2)])
        for _ in range(n):
            x = r.random()
            if x < 0.14 and "not" in self.feat:
                parts.append("!" + r.choice(["Any", self.outkey(), self.outkey()]))
            elif x < 0.20 and "group" in self.feat:
                parts.append("(%s)" % " ".join(r.sample(self.outs, 2)))
            elif x < 0.38 and depth < 2:
                parts.append("%s{%s}" % (self.outkey(), self.output(depth + 1)))
            elif x < 0.46 and "string" in self.feat:
                parts.append("'%s'" % "".join(r.choice("abXY") for _ in range(r.choice([1, 2]))))
            elif x < 0.52 and "action" in self.feat and depth == 0:
                parts.append("Action%d" % r.randrange(3))
            elif x < 0.62 and "delay" in self.feat:
                parts.append("%dms" % r.choice([50, 100, 300]))
            else:
                parts.append(self.outkey())
        if depth == 0 and "oor" in self.feat and r.random() < 0.35:
            parts.insert(r.randrange(len(parts) + 1), "^")
        return " ".join(parts)

    def valid(self, f, is_input):
        while True:
            t = f()
            try:
                X.translate(t, is_input)
                return t
            except X.Error:
                pass

    # ---- configurations ----------------------------------------------------
    def mapping(self, cmds):
        i = self.valid(self.input, True)
        if cmds and self.r.random() < 0.4:
            return (i, self.r.choice(cmds))
        if self.r.random() < 0.12:   # trivial mapping of a key to itself
            k = self.r.choice(self.keys)
            return (k, k)
        return (i, self.valid(self.output, False))

    def filter(self):
        r = self.r
        rx = r.random() < 0.4
        return dict(p=[[r.randrange(3) for _ in range(1 if rx else r.choice([1, 2]))] for _ in range(r.choice([1, 2]) if rx else 1)],
                    rx=rx, inv=r.random() < 0.3)

    def contexts(self):
        r = self.r
        n = 1 if "ctx" not in self.feat else r.choice([1, 2, 3, 4, 5])
        cmds = [-1, -2] if "cmd" in self.feat else []
        res = []
        for c in range(n):
            ms = [self.mapping(cmds) for _ in range(pick(r, [(1, 1), (3, 2), (3, 3), (2, 4), (1, 6)]))]
            kw = {}
            if "ctx" in self.feat and c > 0:
                if r.random() < 0.35:
                    ks = self.keys + (["Virtual0", "Virtual1"] if "virtual" in self.feat else [])
                    kw["mf"] = [("!" if r.random() < 0.3 else "") + k for k in r.sample(ks, r.choice([1, 1, 2]))]
                    kw["inv"] = r.random() < 0.25
                if "device" in self.feat and r.random() < 0.4:
                    kw["dn" if r.random() < 0.7 else "di"] = self.filter()
                if r.random() < 0.2 and c < n - 1:
                    kw["ft"] = True
                    ms = []
            if "ctxactive" in self.feat and r.random() < 0.5 and not kw.get("ft"):
                ms.insert(r.randrange(len(ms) + 1), ("ContextActive", self.valid(self.output, False)))
            if cmds and not kw.get("ft"):
                kw["cmds"] = [(x, self.valid(self.output, False)) for x in cmds if r.random() < (0.9 if c == 0 else 0.4)]
            res.append((ms, kw))
        return res

    def config(self):
        """list of stages"""
        n = self.r.choice([1, 2, 2, 3]) if "stages" in self.feat else 1
        stages = []
        texts = []
        for _ in range(n):
            cs = self.contexts()
            texts.append(cs)
            stages.append([X.context(ms, **kw) for ms, kw in cs])
        return stages, texts

    def descs(self):
        r = self.r
        return [dict(n=[r.randrange(3) for _ in range(r.choice([1, 2]))],
                     i=[r.randrange(3) for _ in range(r.choice([1, 2]))]) for _ in range(r.choice([1, 2, 3]))]
