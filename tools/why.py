"""why.py NN K [prop] [n]: where the terms of a hand-written rewrite and of the contract part ways (debugging aid)."""
import sys, os, importlib
sys.argv0 = sys.argv
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.path.insert(0, os.path.join(H, "tools"))
import handref as hr
from sa import compare
from sa.terms import *
from sa.canon import canon

LAST = []
SEEN = set()
orig = compare.diff


def cap(impl, ref, parts=("ret", "store", "setitem", "delattr", "raise", "yield", "enter", "call"), ignore=(), quick=False):
    d = orig(impl, ref, parts, ignore, quick=False)
    if d:
        LAST.append((impl, ref, parts, ignore))
    return d


def size(t):
    return len(list(subterms(t, set())))


def td(a, b, path, out, lim):
    if a is b or len(out) >= lim or (a, b) in SEEN:
        return
    SEEN.add((a, b))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            td(x, y, path + ".%d" % i, out, lim)
        return
    if isinstance(a, T) and isinstance(b, T) and a.op == b.op and len(a.args) == len(b.args) and a.op not in ("poly", "and", "or"):
        ds = [(x, y) for x, y in zip(a.args, b.args) if x is not y and x != y]
        for i, (x, y) in enumerate(zip(a.args, b.args)):
            if x is not y and x != y:
                td(x, y, path + "/" + a.op + str(i), out, lim)
        return
    out.append((path, a, b))


def main(nn, k, prop=None, lim=3):
    import glob
    f = glob.glob(os.path.join(H, "tools", "handref", nn + "*.py"))[0]
    hr.F[0] = nn
    exec(compile(open(f).read(), f, "exec"), {"r": hr.r, "fn": hr.fn})
    compare.diff = cap
    import sa.check
    sa.check.diff = cap
    for m in list(sys.modules.values()):
        if getattr(m, "diff", None) is orig:
            m.diff = cap
    print(hr.one(k)[1][:300])
    if not LAST:
        return
    impl, ref, parts, ignore = LAST[0]

    def sh(x):
        return show(x) if isinstance(x, T) else repr(x)

    def pair(la, lb, ga, gb):
        for x in la:
            best = None
            for y in ([y for y in lb if gb[y] is ga[x]] or lb):
                o = []
                SEEN.clear()
                td(x, y, "", o, 50)
                s = sum((size(p[1]) if isinstance(p[1], T) else 1) + (size(p[2]) if isinstance(p[2], T) else 1) for p in o)
                if best is None or s < best[0]:
                    best = (s, o)
            if best:
                for p, u, v in best[1][:lim]:
                    print("  AT", p, "\n     impl:", sh(u)[:1500], "\n     ref :", sh(v)[:1500])
            else:
                print("  ONLY IMPL", sh(x)[:600])
    a, b = canon(impl.ret), canon(ref.ret)
    if a is not b:
        print("RET")
        la, lb = compare.leaf_table(a), compare.leaf_table(b)
        pair([x for x in la if x not in lb], [x for x in lb if x not in la], la, lb)
        for x in la:
            if x in lb and la[x] is not lb[x]:
                print("  COND", sh(x)[:200], "\n     impl:", sh(la[x])[:800], "\n     ref :", sh(lb[x])[:800])
    kinds = tuple(p for p in parts if p != "ret")
    ea, eb = compare.effect_table(impl, kinds, ignore), compare.effect_table(ref, kinds, ignore)
    print("EFFECTS")
    pair([x for x in ea if x not in eb], [x for x in eb if x not in ea], {k: v[0] for k, v in ea.items()}, {k: v[0] for k, v in eb.items()})
    for x in ea:
        if x in eb and ea[x][0] is not eb[x][0]:
            print("  COND", sh(x[0])[:200], "\n     impl:", sh(ea[x][0])[:800], "\n     ref :", sh(eb[x][0])[:800])


main(sys.argv[1], int(sys.argv[2]), *sys.argv[3:])
