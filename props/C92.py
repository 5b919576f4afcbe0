"""Number tables: ten numbers to a row, in order, in columns that line up whatever the signs."""
from props.h import *

ASSUMES = ["one number of the table is free, the others are fixed numbers of both signs and zeros"]


def fixed(i):
    return 0.0 if i % 5 == 2 else (-1) ** (i // 2) * (1.25 + i % 16 * 0.5)


def table(env):
    g = env.m.general
    n, dec = env.p.n, env.p.dec
    k = env.choose(n, "place") if n < 12 else env.pick([0, 5, 9, 10, n - 1])
    x = env.real("x", 0.001, 9.9)
    if env.boolean("negative"):
        x = -x
    vals = [fixed(i) for i in range(n)]
    vals[k] = x
    L, R, I = env.p.pads
    fmt = f".{dec}{env.p.kind}"
    s = g.prism10widetextarray(env.A(vals), L, R, I, fmt)
    env.true(isinstance(s, str), "a text")
    rows = s.split("\n")
    env.true(len(rows) == (n + 9) // 10, "ten numbers to a row")
    if len(rows) != (n + 9) // 10:
        return
    h = 0.5000001 * 10.0 ** -dec
    for r, row in enumerate(rows):
        fields = row.split()
        want = vals[10 * r:10 * r + 10]
        env.true(len(fields) == len(want), "every number of the row")
        if len(fields) != len(want):
            return
        env.true(row[:I] == " " * I, "indented")
        if len(want) == 10:
            env.true(row.endswith(fields[9]), "nothing after the tenth number")
        pos = I
        for i, (f, v) in enumerate(zip(fields, want)):
            at = row.index(f, pos)
            first = at + (f[0] == "-")                   # the first digit lines up
            if env.p.kind == "f":
                env.true(first == I + L + i * (L + dec + 2 + R), "columns line up")
            pos = at + len(f)
            got = env.number(f, "a number")
            d = got - v
            if env.p.kind == "f":
                env.true(env.AND(d <= h, d >= -h), "the number, to its decimals")
            else:
                env.true(env.AND(d * d <= (v * h) ** 2 * 1.0001), "the number, to its decimals")


def goals(tier):
    out = []
    for n in (1, 3, 10, 11, 25, 137) if tier == "quick" else (1, 3, 10, 11, 25, 137, 1011):
        for kind, dec in (("f", 2), ("e", 3)) if n < 12 else (("f", 2),):
            out.append(Goal(f"{n} numbers .{dec}{kind}", table, dict(n=n, dec=dec, kind=kind, pads=(2, 1, 3)),
                            bounds="0.001<=|x|<=9.9 anywhere in the table"))
    out.append(Goal("wide pads", table, dict(n=4, dec=1, kind="f", pads=(4, 3, 0)), bounds="0.001<=|x|<=9.9"))
    return out
