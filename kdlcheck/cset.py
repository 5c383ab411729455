"""Exact sets of code points / integers as sorted tuples of inclusive intervals."""
LO, HI = -(1 << 140), 1 << 140
ALL = ((LO, HI),)
CHARS = ((0, 0xD7FF), (0xE000, 0x10FFFF))


def norm(iv):
    iv = sorted((a, b) for a, b in iv if a <= b)
    out = []
    for a, b in iv:
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], b))
        else:
            out.append((a, b))
    return tuple(out)


def union(a, b):
    return norm(list(a) + list(b))


def inter(a, b):
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo, hi = max(a[i][0], b[j][0]), min(a[i][1], b[j][1])
        if lo <= hi:
            out.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


def compl(a, u=ALL):
    out = []
    cur = LO
    for x, y in a:
        if cur < x:
            out.append((cur, x - 1))
        cur = y + 1
    if cur <= HI:
        out.append((cur, HI))
    return inter(tuple(out), u)


def diff(a, b):
    return inter(a, compl(b))


def subset(a, b):
    return not diff(a, b)


def disjoint(a, b):
    return not inter(a, b)


def contains(a, x):
    return any(l <= x <= h for l, h in a)


def single(x):
    return ((x, x),)


def of(xs):
    return norm([(x, x) for x in xs])


def rng(a, b):
    return ((a, b),)


def cmp(op, k):
    return {"Eq": ((k, k),), "Ne": compl(((k, k),)), "Lt": ((LO, k - 1),), "Le": ((LO, k),), "Gt": ((k + 1, HI),), "Ge": ((k, HI),)}[op]


def size(a):
    return sum(h - l + 1 for l, h in a)


def show(a, n=12):
    def f(x):
        return "U+%04X" % x if x >= 0 else str(x)
    s = ", ".join(f(l) if l == h else "%s-%s" % (f(l), f(h)) for l, h in a[:n])
    return "{" + s + (", …" if len(a) > n else "") + "}"
