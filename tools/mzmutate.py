"""Self-test of the MiniZinc part of C35: changed models must differ from their reference, rewritten ones must not.

usage: mzmutate.py"""
import glob, os, random, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from sa import mzn
SW = {"<=": ["<"], "<": ["<="], ">=": [">"], ">": [">="], "==": ["!="], "=": ["!="], "!=": ["=="], "+": ["-"], "-": ["+"], "/\\": ["\\/"], "\\/": ["/\\"],
      "forall": ["exists"], "exists": ["forall"], "sum": ["max"], "max": ["min"], "min": ["max"], "minimize": ["maximize"], "maximize": ["minimize"],
      "->": ["<->"], "<->": ["->"], "alldifferent": ["alldifferent_except_0"], "union": ["intersect"], "not": [""], "and": [""], "*": ["+"]}


def same(a, ref, name):
    m = mzn.Model(a, ref.vars)
    if any(x[0] in ("constraint", "solve", "variable") for x in ref.items):
        return m.items == ref.items
    return m.funs.get(name) == ref.funs.get(name)


def spans(s):
    i = 0
    while i < len(s):
        m = mzn.TOK.match(s, i)
        if m.lastgroup:
            yield m.lastgroup, m.group(), m.start(), m.end()
        i = m.end()


def items(s):
    out, depth, start = [], 0, 0
    for k, x, a, b in spans(s):
        if k == "op" and x in "([{":
            depth += 1
        if k == "op" and x in ")]}":
            depth -= 1
        if k == "op" and x == ";" and depth == 0:
            out.append((start, b))
            start = b
    return out


miss = n = 0
for f in sorted(glob.glob(os.path.join(H, "specs", "mzn", "*.mzn"))):
    s = open(f).read()
    ref = mzn.load(f)
    name = os.path.basename(f)[:-4].split("__")[1]
    ts = list(spans(s))
    its = items(s)
    skip = [(a, b) for a, b in its if re.match(r"(\s|%[^\n]*\n)*(output|solve|ann\b)", s[a:b])]
    for j, (k, x, a, b) in enumerate(ts):
        if any(p <= a < q for p, q in skip) and x not in ("minimize", "maximize"):
            continue
        alts = SW.get(x, []) if k != "str" else []
        if k == "int":
            alts = [str(int(x) + 1)]
        if k == "id" and x not in SW:
            near = [y for kk, y, *_ in ts[max(0, j - 12):j + 12] if kk == "id" and y != x and y not in mzn.KEY | mzn.WORDS | set(SW) | {"of", "array", "var", "int", "set", "bool"}]
            if near and x not in mzn.KEY | mzn.WORDS | {"of", "array", "var", "int", "set", "bool", "include", "constraint", "solve", "satisfy", "function", "predicate", "ann"}:
                alts = [random.Random(j).choice(near)]
        for y in alts:
            n += 1
            try:
                if same(s[:a] + y + s[b:], ref, name):
                    miss += 1
                    print("SAME", os.path.basename(f), s[:a].count("\n") + 1, "%s -> %s" % (x, y), "|", s[s.rfind("\n", 0, a) + 1:s.find("\n", b)].strip()[:100])
            except (mzn.Bad, IndexError, RecursionError):
                pass
    for a, b in its:
        if re.match(r"(\s|%[^\n]*\n)*constraint", s[a:b]):
            n += 1
            if same(s[:a] + s[b:], ref, name):
                miss += 1
                print("SAME without", s[a:b].strip()[-100:])
    # rewrites
    r = random.Random(1)
    parts = [s[a:b] for a, b in its] + [s[its[-1][1]:] if its else s]
    tail = parts.pop()
    r.shuffle(parts)
    new = "".join(p if p.endswith(";") else p + ";" for p in parts) + ("\n" + tail)
    def up(m):
        return m.group(1) + "bnd_" + m.group(2)
    if not same(new.replace("forall(i in", "forall(i in"), ref, name):
        print("DIFFERS when items are reordered:", f)
    for v in "ikmtsfcnwv":
        t = re.sub(r"(?<![A-Za-z0-9_\"])%s(?![A-Za-z0-9_\"(])" % v, "zz_" + v, s)
        if v not in ref.vars and v not in ref.par and not same(t, ref, name):
            print("DIFFERS when %s is renamed:" % v, f)
print(n, "changes,", miss, "not seen")
