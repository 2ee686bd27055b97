"""Key expressions used to generate configurations.

Only a generator: it turns expressions into event lists which are then given
to both the specification and the code under test. How the real parser
translates expressions is decided by its own specification (ParseSeq.tla).
"""
UP, DOWN, NOT, UPA, DOWNA, NMM, OOR, DOWNM, UPM, NTUD = range(10)
K_ANY, K_TIMEOUT, K_CTX = 0xF000, 0xF001, 0xF002
VIRT, ACTION = 0xF100, 0xF200

KEYS = dict(A=30, B=48, C=46, D=32, E=18, F=33, G=34, H=35, I=23, J=36, K=37, L=38,
            M=50, N=49, O=24, P=25, Q=16, R=19, S=31, T=20, U=22, V=47, W=17, X=45,
            Y=21, Z=44, Escape=1, Space=57, Enter=28, Tab=15, Slash=53,
            ShiftLeft=42, ShiftRight=54, ControlLeft=29, ControlRight=97,
            AltLeft=56, AltRight=100, MetaLeft=125, MetaRight=126,
            ButtonLeft=0x110, ButtonRight=0x111, ButtonMiddle=0x112, ButtonBack=0x113, ButtonForward=0x114,
            WheelUp=0x150, WheelDown=0x151, WheelLeft=0x152, WheelRight=0x153,
            Any=K_ANY, ContextActive=K_CTX)
for i in range(4):
    KEYS["Virtual%d" % i] = VIRT + i
for i in range(4):
    KEYS["Action%d" % i] = ACTION + i   # stands for a terminal command
for i in range(10):
    KEYS["%d" % i] = 11 if i == 0 else i + 1
for i in range(1, 13):
    KEYS["F%d" % i] = 58 + i if i <= 10 else 76 + i
NAMES = {v: k for k, v in KEYS.items()}


class Error(Exception):
    pass


def tokens(text):
    import re
    return re.findall(r"'[^']*'|[!(){}^?]|\d+ms\b|[A-Za-z0-9]+", text)


def char_key(c):
    if c == ' ': return KEYS["Space"], False
    if c == '?': return KEYS["Slash"], True
    return KEYS[c.upper()], c.isupper()


def translate(text, is_input):
    """event list of an expression, raises Error when it is not valid"""
    seq, buf, pressed, before = [], [], [], []
    nmm = oor = together = False
    group = 0
    has_mod = False

    def has_down():
        return any(s == DOWN and k != K_TIMEOUT for k, s, v in seq)

    def remove_pressed(k):
        n = len(pressed)
        pressed[:] = [p for p in pressed if p != k]
        return len(pressed) != n

    def flush(up):
        for k in buf:
            seq.append([k, DOWN, 0])
        for k in buf:
            if up:
                if is_input:
                    seq.append([k, UPA, 0])
                else:
                    seq.append([k, UP, 0])
                    remove_pressed(k)
            else:
                pressed.append(k)
        buf.clear()

    def release(keep):
        while len(pressed) > keep:
            seq.append([pressed.pop(), UPA if is_input else UP, 0])

    def add_timeout(ms, is_not):
        flush(True)
        if is_input and not has_down(): raise Error
        if not is_input and is_not: raise Error
        ms = min(ms, 4095)
        if not is_input: st = DOWN
        elif is_not: st = NTUD if group else NOT
        else: st = UP if group else DOWN
        if seq and seq[-1][0] == K_TIMEOUT and seq[-1][1] == st:
            seq[-1][2] = min(4095, seq[-1][2] + ms)
        else:
            seq.append([K_TIMEOUT, st, ms])

    def key(tok):
        if tok not in KEYS: raise Error
        return KEYS[tok]

    toks = tokens(text)
    i = 0
    while i < len(toks):
        t = toks[i]
        i += 1
        if t == '!':
            if i >= len(toks): raise Error
            t = toks[i]
            i += 1
            if t.endswith("ms") and t[0].isdigit():
                if together: raise Error
                add_timeout(int(t[:-2]), True)
                continue
            if together: raise Error
            k = key(t)
            if is_input and group and k not in buf: raise Error
            flush(is_input)
            if remove_pressed(k) and is_input:
                seq.append([k, UPA, 0])
            if is_input and seq and seq[-1] == [k, UPA, 0]:
                seq[-1][1] = UP
            elif is_input and next((s != UP for kk, s, v in reversed(seq) if kk == k), False):
                seq.append([k, UP, 0])
            else:
                seq.append([k, NOT, 0])
        elif t[0] == "'":
            if together: raise Error
            flush(True)
            sh = KEYS["ShiftLeft"]
            prev = False
            first = True
            if not is_input and not group:
                seq.append([K_ANY, NOT, 0])
            for c in t[1:-1]:
                k, m = char_key(c)
                if is_input:
                    if not group:
                        if m:
                            if prev: seq.append([sh, UPA, 0])
                            seq.extend([[sh, DOWNA, 0], [sh, DOWN, 0]])
                        else:
                            if first: seq.append([sh, NOT, 0])
                            if prev: seq.append([sh, UP, 0])
                    seq.extend([[k, DOWN, 0], [k, UPA, 0]])
                else:
                    if m != prev: seq.append([sh, DOWN if m else UP, 0])
                    seq.extend([[k, DOWN, 0], [k, UP, 0]])
                has_mod |= m
                prev = m
                first = False
            if prev: seq.append([sh, UPA if is_input else UP, 0])
        elif t == '^':
            if is_input or oor or together or group: raise Error
            flush(True)
            seq.append([0, OOR, 0])
            oor = True
        elif t == '?':
            if not is_input or seq or buf or together: raise Error
            seq.append([0, NMM, 0])
            nmm = True
        elif t == '(':
            if together: raise Error
            flush(True)
            together = True
        elif t == ')':
            if not together: raise Error
            if is_input:
                for k in buf: seq.append([k, DOWNA, 0])
            together = False
        elif t == '{':
            if together: raise Error
            before.append(len(pressed))
            flush(False)
            if not pressed: raise Error
            group += 1
            has_mod = True
        elif t == '}':
            if not group: raise Error
            flush(True)
            release(before.pop())
            group -= 1
            if is_input:
                last = len(seq) - 1
                for x in range(last, -1, -1):
                    if seq[x][0] == K_TIMEOUT and seq[x][1] in (NOT, NTUD):
                        for j in range(x + 1, last + 1):
                            seq.append([seq[j][0], UP, 0])
                        break
                    elif seq[x][1] != UPA:
                        break
        elif t.endswith("ms") and t[0].isdigit():
            if together or nmm: raise Error
            add_timeout(int(t[:-2]), False)
        else:
            if not together: flush(True)
            k = key(t)
            if 0xF200 <= k <= 0xF2FF:
                if is_input or together or group: raise Error
                flush(True)
                seq.append([k, DOWN, 0])
            else:
                buf.append(k)
    flush(True)
    if together or group: raise Error
    if is_input:
        if nmm:
            while seq and seq[-1][1] == UPA: seq.pop()
        if not has_down(): raise Error
        if nmm and any(VIRT <= k < ACTION for k, s, v in seq): raise Error
    else:
        release(0)
        if not has_mod:
            st = [s for k, s, v in seq]
            n = next((x for x, s in enumerate(st) if s == UP), len(st))
            if all(s != DOWN for s in st[n:]):
                while seq and seq[-1][1] == UP: seq.pop()
    if any(k == K_CTX for k, s, v in seq):
        if not is_input or len(seq) != 2: raise Error
        seq.pop()
    return seq


NOFILTER = dict(p=[], rx=False, inv=False)


def context(mappings=(), cmds=(), mf=(), inv=False, ft=False, dn=None, di=None):
    """mappings: (input text, output text or negative command index)
       cmds: (negative index, output text)"""
    ins, outs = [], []
    for i, o in mappings:
        if isinstance(o, int):
            ins.append(dict(i=translate(i, True), o=o))
        else:
            ins.append(dict(i=translate(i, True), o=len(outs)))
            outs.append(translate(o, False))
    return {"in": ins, "out": outs,
            "cmd": [dict(o=translate(o, False), x=x) for x, o in cmds],
            "dn": dn or NOFILTER, "di": di or NOFILTER,
            "mf": [[KEYS[m.lstrip('!')], NOT if m[0] == '!' else DOWN, 0] for m in mf],
            "inv": inv, "ft": ft}
