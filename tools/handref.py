"""Hand-written behaviour-preserving rewrites: every check must stay quiet on them.

handref/NN.py files call  r(prop, rel, [(old, new), ...])  with texts of the current source (relative to skdecide/).
usage: handref.py [NN ...]"""
import ast, glob, textwrap, importlib, multiprocessing as mp, os, sys, warnings
warnings.filterwarnings("ignore", category=SyntaxWarning)
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from sa.check import Ctx
from sa.program import Program

R = []
F = [""]


def r(props, rel, edits, *more):
    R.append((F[0], props.split(), [(rel, edits)] + list(more)))


def fn(props, rel, src, cls=None, mod=""):
    """Replace the functions of the given names by src (decorators kept when src gives none); new ones are added beside."""
    R.append((F[0], props.split(), [(rel, (cls, textwrap.dedent(src).strip("\n"), textwrap.dedent(mod)))]))


def replace_fns(s, cls, src, mod):
    lines = s.splitlines(keepends=True)
    new = ast.parse(src)
    t = ast.parse(s)
    body = t.body
    if cls:
        for part in cls.split("."):
            body = [n for n in body if isinstance(n, ast.ClassDef) and n.name == part][0].body
    old = {n.name: n for n in body if isinstance(n, ast.FunctionDef)}
    sl = src.splitlines(keepends=True)
    if not sl[-1].endswith("\n"):
        sl[-1] += "\n"
    reps = []
    ends = []
    added = []
    for n in new.body:
        a = min([n.lineno] + [d.lineno for d in getattr(n, "decorator_list", [])]) - 1
        txt = sl[a:n.end_lineno]
        o = old.get(getattr(n, "name", None))
        if o is None:
            added.append("".join(txt))
            continue
        ind = " " * o.col_offset
        da = min([o.lineno] + [d.lineno for d in o.decorator_list]) - 1
        if not n.decorator_list:
            da = o.lineno - 1
        reps.append((da, o.end_lineno, "".join(ind + x if x.strip() else x for x in txt)))
    assert reps, "no function replaced"
    for k, (a, b, x) in enumerate(sorted(reps, reverse=True)):
        if k == 0 and added:
            ind = " " * [o for o in old.values()][0].col_offset
            for y in added:
                x += "\n" + "".join(ind + z if z.strip() else z for z in y.splitlines(keepends=True))
        lines[a:b] = [x]
    out = "".join(lines)
    if mod:
        t = ast.parse(out)
        k = max([0] + [n.end_lineno for n in t.body if isinstance(n, (ast.Import, ast.ImportFrom))])
        ls = out.splitlines(keepends=True)
        ls[k:k] = ["\n" + mod.strip("\n") + "\n\n"]
        out = "".join(ls)
    return out


def one(i):
    f, props, files = R[i]
    ov = {}
    for rel, edits in files:
        s = open("/repo/skdecide/" + rel).read()
        if isinstance(edits, tuple):
            try:
                s = replace_fns(s, *edits)
            except Exception as e:
                return i, "BAD %r" % e
            edits = []
        for o, n in edits:
            if s.count(o) != 1:
                return i, "BADEDIT %d: %s" % (s.count(o), o[:80])
            s = s.replace(o, n)
        try:
            compile(s, rel, "exec")
        except SyntaxError as e:
            return i, "SYNTAX %s" % e
        ov["skdecide/" + rel] = s
    out = []
    for p in props:
        c = Ctx(p, prog=Program("/repo", overlay=ov))
        try:
            importlib.import_module("props." + p.lower()).check(c)
        except Exception as e:
            out.append("CRASH %r" % e)
        for v in c.violations:
            out.append(p + ": " + v["message"][:900])
        for v in c.errors:
            out.append(p + " ERROR: " + str(v)[:300])
    return i, "\n   ".join(out)


if __name__ == "__main__":
    sel = sys.argv[1:]
    for f in sorted(glob.glob(os.path.join(H, "tools", "handref", "*.py"))):
        b = os.path.basename(f)[:-3]
        if sel and b not in sel:
            continue
        F[0] = b
        exec(compile(open(f).read(), f, "exec"), {"r": r, "fn": fn})
    bad = 0
    with mp.Pool(7) as pool:
        for i, m in pool.imap_unordered(one, range(len(R))):
            if m:
                bad += 1
                print("ALARM %s #%d %s\n   %s" % (R[i][0], [x for x in range(len(R)) if R[x][0] == R[i][0]].index(i), R[i][2][0][0], m))
    print(len(R), "rewrites,", bad, "not quiet")
