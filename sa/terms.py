"""Interned value-graph terms and their normal forms.

A term is the static description of a value: which parameter, attribute,
call result, container element, arithmetic or gated combination of those it is.
Terms are hash-consed; `key` is a structural digest used for deterministic
ordering.
"""
import hashlib
from fractions import Fraction


class T:
    __slots__ = ("op", "args", "key", "kids")
    _tab = {}

    def __new__(cls, op, *args):
        k = (op, args)
        t = cls._tab.get(k)
        if t is None:
            t = object.__new__(cls)
            t.op = op
            t.args = args
            h = hashlib.md5(op.encode())
            _feed(h, args)
            t.key = h.hexdigest()
            t.kids = None
            cls._tab[k] = t
        return t

    def __repr__(self):
        return show(self)

    def __reduce__(self):
        raise TypeError("no pickling")


def _feed(h, args):
    for a in args:
        if isinstance(a, T):
            h.update(b"T" + a.key.encode())
        elif isinstance(a, tuple):
            h.update(b"(")
            _feed(h, a)
            h.update(b")")
        else:
            h.update(("%s:%r;" % (type(a).__name__, a)).encode())


# ---------------------------------------------------------------- constants
NONE = T("c", "none", 0)
TRUE = T("c", "b", 1)
FALSE = T("c", "b", 0)


def const(v):
    if v is None:
        return NONE
    if v is True:
        return TRUE
    if v is False:
        return FALSE
    if isinstance(v, (int, float)):
        try:
            return T("c", "n", Fraction(v).limit_denominator(10 ** 12))
        except (OverflowError, ValueError):
            return T("c", "f", repr(v))
    if isinstance(v, str):
        return T("c", "s", v)
    return T("c", type(v).__name__, repr(v))


def num(v):
    return T("c", "n", Fraction(v))


def is_num(t):
    return t.op == "c" and t.args[0] == "n"


def is_const(t):
    return t.op == "c"


def is_str(t):
    return t.op == "c" and t.args[0] == "s"


def key_of(t):
    return t.key


# --------------------------------------------------------------- traversal
def children(t):
    if t.kids is not None:
        return t.kids
    out = []

    def rec(a):
        for x in a:
            if isinstance(x, T):
                out.append(x)
            elif isinstance(x, tuple):
                rec(x)

    rec(t.args)
    t.kids = out
    return out


def subterms(t, _seen=None):
    seen = set() if _seen is None else _seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(children(x))


def contains(t, s):
    return any(x is s for x in subterms(t))


def rebuild(t, f):
    """Apply f to the direct T children of t and rebuild through smart constructors."""

    def rec(a):
        ch = False
        out = []
        for x in a:
            if isinstance(x, T):
                y = f(x)
                ch |= y is not x
                out.append(y)
            elif isinstance(x, tuple):
                y = rec(x)
                ch |= y is not x
                out.append(y)
            else:
                out.append(x)
        return tuple(out) if ch else a

    na = rec(t.args)
    if na is t.args:
        return t
    return remake(t.op, na)


def remake(op, a):
    if op == "poly":
        return poly_rebuild(a)
    if op == "cmp":
        return cmp_(a[0], a[1], a[2])
    if op == "not":
        return not_(a[0])
    if op == "and":
        return and_(*a[0])
    if op == "or":
        return or_(*a[0])
    if op == "ite":
        return ite(a[0], a[1], a[2])
    if op == "i":
        return index(a[0], a[1])
    if op == "concat":
        return concat(*a[0])
    if op == "fstr":
        return fstr(a[0])
    if op == "any":
        return any_(a[0], a[1])
    if op == "sumc":
        return sumc(a[0], a[1], a[2])
    if op == "comp":
        return comp(a[0], a[1], a[2], a[3])
    if op == "dcat":
        return dcat(*a[0])
    if op == "union":
        return union(*a[0])
    if op == "set":
        return T("set", tuple(sorted(set(a[0]), key=key_of)))
    if op in ("min", "max"):
        return minmax(op, a[0])
    if op == "call" and a[0].op == "g" and a[0].args[0] == "list" and len(a[1]) == 1 and not a[2] and a[1][0].op in ("list", "tuple", "dict", "set"):
        x = a[1][0]
        if x.op == "list":
            return x
        if x.op == "tuple" or not x.args[0]:
            return T("list", x.args[0])
    if op == "call" and a[0].op == "g" and a[0].args[0] == "len" and len(a[1]) == 1 and not a[2]:
        return length(a[1][0], a[0])
    if op == "effs":
        return T("effs", tuple(sorted({e for e in a[0] if e.op != "eff" or e.args[1] is not FALSE}, key=key_of)))
    if op == "lc" and a[1].op == "ph0" and not a[1].args and a[2] in (NONE, a[1]):
        return a[0]
    if op == "rec" and a[1] is a[0] and a[2] in (NONE, a[0]):
        return a[0]
    return T(op, *a)


def length(x, ft=None):
    x = strip_len(x)
    if x.op in ("tuple", "list") and all(y.op != "star" for y in x.args[0]):
        return num(len(x.args[0]))
    if x.op == "comp" and x.args[0] == "list" and x.args[3] is not TRUE:
        return sumc(num(1), x.args[2], x.args[3])
    return T("call", ft or T("g", "len"), (x,), ())


def is_count(t):
    return t.op == "sumc" and is_num(t.args[0]) and t.args[0].args[1] == 1


def strip_len(x):
    while x.op == "call" and not x.args[2]:
        f, a = x.args[0], x.args[1]
        if f.op == "g" and f.args[0] in ("list", "tuple") and len(a) == 1:
            x = a[0]
            continue
        if f.op == "a" and f.args[1] in ("keys", "values", "items") and not a:
            x = f.args[0]
            continue
        break
    if x.op == "comp" and x.args[0] == "list" and x.args[3] is TRUE and len(x.args[2]) == 1 and x.args[2][0].op not in ("zip", "until", "while"):
        return strip_len(x.args[2][0])
    return x


def subst(t, mapping, memo=None):
    if not mapping:
        return t
    memo = {} if memo is None else memo

    def rec(x):
        if x in mapping:
            return mapping[x]
        r = memo.get(x)
        if r is None:
            r = rebuild(x, rec)
            memo[x] = r
        return r

    return rec(t)


# ------------------------------------------------------------------ boolean
BOOL_OPS = {"cmp", "not", "any", "exc", "and", "or"}
BOOL_CALLS = {
    "isinstance", "issubclass", "hasattr", "callable", "startswith", "endswith",
    "contains", "satisfy", "issubset", "issuperset", "isdisjoint", "any", "all",
    "array_equal", "bool", "dominates", "exists", "isfile", "isdir", "check", "check_sol",
    "ndom", "ismethod", "isfunction", "isclass", "isroutine", "isgenerator", "iscoroutine", "isdigit", "isalpha", "isupper", "islower", "isspace", "isnan", "isinf",
    "isfinite", "isclose",
}
BOOL_PREFIX = ("is_", "_is_", "check_", "_check_", "can_", "_can_", "has_", "_has_", "all_", "_all_")
NOT_BOOL = {"all_tasks_possible"}


def callee_name(t):
    """Simple name of the callee of a call term, or None."""
    if t.op != "call":
        return None
    f = t.args[0]
    if f.op in ("a",):
        return f.args[1]
    if f.op == "g":
        return f.args[0].rsplit(".", 1)[-1]
    if f.op == "super":
        return f.args[0]
    return None


_bools = {}


def is_bool(t):
    r = _bools.get(t)
    if r is None:
        r = _bools[t] = _is_bool(t)
    return r


def _is_bool(t):
    if t.op == "c":
        return t.args[0] == "b"
    if t.op in BOOL_OPS:
        return True
    if t.op == "ite":
        return is_bool(t.args[1]) and is_bool(t.args[2])
    if t.op == "call":
        n = callee_name(t)
        return bool(n) and n not in NOT_BOOL and (n in BOOL_CALLS or n.startswith(BOOL_PREFIX))
    return False


_nots = {}


def not_(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == "not":
        return t.args[0]
    if t.op in ("and", "or"):
        r = _nots.get(t)
        if r is None:
            r = _nots[t] = (or_ if t.op == "and" else and_)(*[not_(x) for x in t.args[0]])
        return r
    if t.op == "ite" and (is_bool(t)):
        return ite(t.args[0], not_(t.args[1]), not_(t.args[2]))
    if t.op == "c":
        return const(not truth_const(t))
    return T("not", t)


def truth_const(t):
    k, v = t.args[0], t.args[1]
    if k == "none":
        return False
    if k == "s":
        return bool(v)
    if k in ("b", "n"):
        return bool(v)
    return True


def _nary(op, unit, zero, ts):
    work = list(ts)
    while True:
        out = []
        seen = set()

        def add(x):
            if x.op == op:
                for y in x.args[0]:
                    add(y)
            elif x not in seen:
                seen.add(x)
                out.append(x)

        for x in work:
            add(x)
        if zero in seen:
            return zero
        out = [x for x in out if x is not unit]
        for x in out:
            if not_(x) in seen:
                return zero
        # absorption: x & (x | y) -> x ; x & (not x | y) -> x & y
        dual = "or" if op == "and" else "and"
        changed = False
        new = []
        for x in out:
            if x.op == dual:
                ch = x.args[0]
                if any(y in seen for y in ch):
                    changed = True
                    continue
                red = [y for y in ch if not_(y) not in seen]
                if len(red) != len(ch):
                    changed = True
                    x = (or_ if dual == "or" else and_)(*red)
            new.append(x)
        if changed:
            work = new
            continue
        break
    if not out:
        return unit
    if len(out) == 1:
        return out[0]
    out.sort(key=key_of)
    return T(op, tuple(out))


def and_(*ts):
    return _nary("and", TRUE, FALSE, [truthy(t) for t in ts])


def or_(*ts):
    return _nary("or", FALSE, TRUE, [truthy(t) for t in ts])


def truthy(t):
    """The boolean condition 'bool(t)'."""
    if t.op == "c":
        return const(truth_const(t))
    if t.op == "ite":
        a, b = truthy(t.args[1]), truthy(t.args[2])
        return ite(t.args[0], a, b)
    if t.op == "call":
        n = t.args[0]
        if n.op == "g" and n.args[0] == "bool" and len(t.args[1]) == 1:
            return truthy(t.args[1][0])
        if n.op == "g" and n.args[0] == "len" and len(t.args[1]) == 1:
            return truthy(t.args[1][0])
    if t.op == "poly" or t.op == "bin" and t.args[0] == "Mod" and t.args[1].op != "fstr" and not is_str(t.args[1]):
        return not_(cmp_("==", t, num(0)))
    if t.op == "tuple":
        return const(bool(t.args[0]))
    if t.op in ("list", "set", "dict") and isinstance(t.args[0], tuple) and all(x.op != "star" for x in t.args[0]):
        return const(bool(t.args[0]))
    if is_count(t):
        return any_(t.args[2], t.args[1])
    if t.op == "comp":
        return any_(t.args[3], t.args[2]) if t.args[3] is not TRUE else t
    return t


def ite(c, a, b):
    c = truthy(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if is_bool(a) and is_bool(b):
        if a is TRUE:
            return or_(c, b)
        if b is FALSE:
            return and_(c, a)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    # idioms
    if c.op == "cmp" and c.args[0] == "<":
        x, y = _cmp_sides(c)
        if x is not None:
            if a is x and b is y:
                return minmax("min", [a, b])
            if a is y and b is x:
                return minmax("max", [a, b])
            if a.op == "poly" or b.op == "poly" or x.op == "poly" or y.op == "poly":
                try:
                    d, e = psub(y, x), psub(a, b)
                except Exception:
                    d = None
                if d is not None and not is_num(e):
                    if e is d:
                        return minmax("max", [a, b])
                    if psub(b, a) is d:
                        return minmax("min", [a, b])
    if c.op in ("and", "or"):
        # a guarded maximum: ite(p and x < y, y, x) = ite(p, max(x, y), x)
        neg = c.op == "or"
        lt, other = (a, b) if not neg else (b, a)
        for k in c.args[0]:
            q = not_(k) if neg else k
            if q.op == "cmp" and q.args[0] == "<" and (lt is q.args[1] and other is q.args[2] or lt is q.args[2] and other is q.args[1]):
                rest = and_(*[not_(z) if neg else z for z in c.args[0] if z is not k])
                return ite(rest, minmax("min" if lt is q.args[1] else "max", [a, b]), other)
    return T("ite", c, a, b)


def _cmp_sides(c):
    return c.args[1], c.args[2]


def minmax(which, ts):
    out = []
    for t in ts:
        if t.op == which:
            out.extend(t.args[0])
        else:
            out.append(t)
    out = sorted(set(out), key=key_of)
    nums = [t for t in out if is_num(t)]
    if len(nums) > 1:
        f = min if which == "min" else max
        v = f(x.args[1] for x in nums)
        out = [t for t in out if not is_num(t)] + [num(v)]
        out.sort(key=key_of)
    if len(out) == 1:
        return out[0]
    return T(which, tuple(out))


# -------------------------------------------------------------- comparisons
def _attr_read(c, x):
    """c certainly reads an attribute of x (so x is not None)."""
    if c.op == "a" and c.args[0] is x:
        return True
    if c.op in ("cmp", "not"):
        return any(isinstance(y, T) and _attr_read(y, x) for y in c.args)
    if c.op == "and":
        ys = c.args[0] if isinstance(c.args[0], (tuple, frozenset)) else c.args
        return any(isinstance(y, T) and _attr_read(y, x) for y in ys)
    return False


def cmp_(op, a, b):
    if op == ">":
        return cmp_("<", b, a)
    if op == ">=":
        return not_(cmp_("<", a, b))
    if op == "<=":
        return not_(cmp_("<", b, a))
    if op == "!=":
        return not_(cmp_("==", a, b))
    if op == "is not":
        return not_(cmp_("is", a, b))
    if op == "not in":
        return not_(cmp_("in", a, b))
    if is_const(a) and is_const(b):
        if op in ("==", "is"):
            return const(a is b)
        if op == "<" and is_num(a) and is_num(b):
            return const(a.args[1] < b.args[1])
    if op == "==" and (a is NONE or b is NONE):
        op = "is"
    if op == "is" and (a is NONE or b is NONE):
        x = b if a is NONE else a
        if x.op == "first" and _attr_read(x.args[1], x.args[0]):
            return FALSE
    if op == "is" and is_const(b) and b.args[0] in ("n", "s"):
        op = "=="
    if op in ("==", "is"):
        if is_bool(a) and b is TRUE:
            return a
        if is_bool(b) and a is TRUE:
            return b
        if is_bool(a) and b is FALSE:
            return not_(a)
        if is_bool(b) and a is FALSE:
            return not_(b)
    if op == "==" and a.op == b.op and a.op in ("tuple", "list") and len(a.args[0]) == len(b.args[0]) \
            and all(x.op != "star" for x in a.args[0] + b.args[0]):
        return and_(*[cmp_("==", x, y) for x, y in zip(a.args[0], b.args[0])])
    if op == "==":
        # len(x) == 0
        for x, y in ((a, b), (b, a)):
            if is_len(x) and is_num(y) and y.args[1] == 0:
                return not_(truthy(x.args[1][0]))
            if is_count(x) and is_num(y) and y.args[1] == 0:
                return not_(any_(x.args[2], x.args[1]))
        d = arith_diff(a, b)
        if d is not None:
            lo, hi = d
            pair = sorted([d, tuple(reversed(d))], key=lambda p: (p[0].key, p[1].key))
            # canonical sign: pick smaller by key of the difference
            p1 = psub(a, b)
            p2 = psub(b, a)
            p = min(p1, p2, key=key_of)
            if is_num(p):
                return const(p.args[1] == 0)
            return T("cmp", "==", p, num(0))
    if op == "<":
        for x, all_of in ((a, "max"), (b, "min")):
            if x.op in ("max", "min") and len(x.args) == 1 and isinstance(x.args[0], tuple) and 1 < len(x.args[0]) <= 4 and not is_const(b if x is a else a):
                each = [cmp_("<", y, b) if x is a else cmp_("<", a, y) for y in x.args[0]]
                return and_(*each) if x.op == all_of else or_(*each)
        if is_num(a) and a.args[1] == 0 and is_len(b):
            return truthy(b.args[1][0])
        if is_len(a) and is_num(b) and b.args[1] == 1:
            return not_(truthy(a.args[1][0]))
        if is_num(a) and a.args[1] == 0 and is_count(b):
            return any_(b.args[2], b.args[1])
        if is_count(a) and is_num(b) and b.args[1] == 1:
            return not_(any_(a.args[2], a.args[1]))
        if a is b:
            return FALSE
        d = arith_diff(a, b)
        if d is not None:
            p = psub(a, b)
            if is_num(p):
                return const(p.args[1] < 0)
            # present as lo < hi with positive parts on each side
            return T("cmp", "<", *split_sides(p))
    if op in ("==", "is"):
        if a is b:
            return TRUE
        if a.key > b.key:
            a, b = b, a
    if op == "in" and b.op == "dict" and 0 < len(b.args[0]) <= 8 and all(e.op == "kv" and is_const(e.args[0]) for e in b.args[0]):
        return or_(*[cmp_("==", a, e.args[0]) for e in b.args[0]])
    if op == "in" and b.op in ("tuple", "list", "set") and b.args and isinstance(b.args[0], tuple) and len(b.args[0]) <= 6 \
            and all(x.op != "star" for x in b.args[0]) and b.args[0]:
        return or_(*[cmp_("==", a, x) for x in b.args[0]])
    if op == "in":
        # membership in keys()/list()/set()/sorted() views
        b = strip_view(b)
    return T("cmp", op, a, b)


def strip_view(b):
    while True:
        if b.op == "call":
            f = b.args[0]
            if f.op == "a" and f.args[1] == "keys" and not b.args[1]:
                b = f.args[0]
                continue
            if f.op == "g" and f.args[0] in ("list", "tuple", "set", "frozenset", "sorted", "iter") and len(b.args[1]) == 1 and not b.args[2]:
                b = b.args[1][0]
                continue
        return b


def is_len(t):
    return t.op == "call" and t.args[0].op == "g" and t.args[0].args[0] == "len" and len(t.args[1]) == 1


def arith_diff(a, b):
    if a.op == "poly" or b.op == "poly":
        return (a, b)
    return None


def split_sides(p):
    c, terms = to_poly(p)
    terms = terms.items()
    pos = {m: k for m, k in terms if k > 0}
    neg = {m: -k for m, k in terms if k < 0}
    cpos, cneg = (c, 0) if c > 0 else (0, -c)
    return mkpoly(Fraction(cpos), pos), mkpoly(Fraction(cneg), neg)


# --------------------------------------------------------------- polynomials
# ("poly", const, ((monomial, coef), ...)), monomial = tuple of factor terms (sorted)
def to_poly(t):
    if is_num(t):
        return t.args[1], {}
    if t.op == "poly":
        return t.args[0], dict(t.args[1])
    return Fraction(0), {(t,): Fraction(1)}


def mkpoly(c, terms):
    terms = {m: k for m, k in terms.items() if k != 0}
    if not terms:
        return num(c)
    if c == 0 and len(terms) == 1:
        (m, k), = terms.items()
        if k == 1 and len(m) == 1:
            return m[0]
    items = tuple(sorted(terms.items(), key=lambda mk: ([x.key for x in mk[0]], mk[1])))
    return T("poly", c, items)


def padd(a, b, sb=1):
    if a.op == "ite" and False:
        return None
    ca, ta = to_poly(a)
    cb, tb = to_poly(b)
    r = dict(ta)
    for m, k in tb.items():
        r[m] = r.get(m, 0) + sb * k
    return mkpoly(ca + sb * cb, r)


def psub(a, b):
    return padd(a, b, -1)


def pmul(a, b):
    ca, ta = to_poly(a)
    cb, tb = to_poly(b)
    ta = dict(ta)
    tb = dict(tb)
    if ca:
        ta[()] = ca
    if cb:
        tb[()] = cb
    r = {}
    for m1, k1 in ta.items():
        for m2, k2 in tb.items():
            m = mono(m1 + m2)
            r[m] = r.get(m, 0) + k1 * k2
    c = r.pop((), Fraction(0))
    return mkpoly(c, r)


def mono(fs):
    # cancel x * inv(x)
    fs = list(fs)
    for f in list(fs):
        if f.op == "inv" and f.args[0] in fs and f in fs:
            fs.remove(f)
            fs.remove(f.args[0])
    return tuple(sorted(fs, key=key_of))


def pneg(a):
    return pmul(num(-1), a)


def pdiv(a, b):
    if is_num(b) and b.args[1] != 0:
        return pmul(num(Fraction(1) / b.args[1]), a)
    if b.op == "poly":
        c, terms = b.args
        if c == 0 and len(terms) == 1:
            m, k = terms[0]
            r = pmul(num(Fraction(1) / k), a)
            for f in m:
                r = pmul(r, inv(f))
            return r
    return pmul(a, inv(b))


def inv(f):
    if f.op == "inv":
        return f.args[0]
    return T("inv", f)


def poly_rebuild(a):
    r = num(a[0])
    for m, k in a[1]:
        t = num(k)
        for f in m:
            t = pmul(t, f)
        r = padd(r, t)
    return r


# --------------------------------------------------------------- sequences
SEQ_OPS = {"list", "tuple", "concat", "comp", "str", "set"}


def is_seq(t):
    if t.op in ("list", "tuple", "concat", "fstr"):
        return True
    if is_str(t):
        return True
    if t.op == "comp":
        return True
    if t.op == "call" and t.args[0].op == "g" and t.args[0].args[0] in ("list", "tuple", "sorted", "str"):
        return True
    if t.op == "ref":
        return True
    if t.op == "ite":
        return is_seq(t.args[1]) and is_seq(t.args[2])
    return False


def fstr(parts):
    """A string put together from parts (constants, values to format, other strings)."""
    out = []
    for p in parts:
        if p.op == "fmt" and len(p.args) == 1:
            x = p.args[0]
            if x.op == "call" and x.args[0].op == "g" and x.args[0].args[0] == "str" and len(x.args[1]) == 1 and not x.args[2]:
                x = x.args[1][0]
            p = x if is_str(x) or x.op == "fstr" else T("fmt", x)
        elif p.op not in ("fmt", "fstr") and not is_str(p):
            p = T("fmt", p)
            if p.args[0].op == "call":
                p = fstr((p,))
        for x in (p.args[0] if p.op == "fstr" else (p,)):
            if is_str(x) and not x.args[1]:
                continue
            if out and is_str(x) and is_str(out[-1]):
                out[-1] = const(out[-1].args[1] + x.args[1])
            else:
                out.append(x)
    if not out:
        return const("")
    if len(out) == 1 and is_str(out[0]):
        return out[0]
    return T("fstr", tuple(out))


def concat(*parts):
    out = []
    for p in parts:
        if p.op == "concat":
            out.extend(p.args[0])
        else:
            out.append(p)
    if any(is_str(p) or p.op == "fstr" for p in out):
        return fstr(out)
    merged = []
    for p in out:
        if p.op == "list" and not p.args[0]:
            continue
        if len(out) > 1 and p.op == "call" and p.args[0].op == "g" and p.args[0].args[0] == "list" and len(p.args[1]) == 1 and not p.args[2] \
                and p.args[1][0].op in ("p", "a", "i", "el"):
            p = p.args[1][0]
        if merged and p.op == "list" and merged[-1].op == "list":
            merged[-1] = T("list", merged[-1].args[0] + p.args[0])
        else:
            merged.append(p)
    if not merged:
        return T("list", ())
    if len(merged) == 1:
        return merged[0]
    return T("concat", tuple(merged))


def _bases(gens):
    out = []
    for g in gens:
        if g.op == "until":
            g = g.args[0]
        out.extend(g.args[0] if g.op == "zip" else (g,))
    return out


def first_(t, cond, gens, depth, lcs=()):
    """t evaluated at the first element for which cond holds, the choice pushed to the elements."""
    bases = _bases(gens)
    if cond is TRUE and not lcs:
        pass
    memo = {}
    uses = {}

    def free_at(x):
        # a binder over one of the bases binds its own elements unless it uses deeper ones
        r = uses.get(x)
        if r is None:
            gs = [a for a in x.args if isinstance(a, tuple) and a and isinstance(a[0], T)]
            bs = [b for g in gs for b in _bases(g) if b in bases]
            r = True
            if bs:
                deep = any(y.op in ("el", "idx") and y.args[0] in bs and y.args[1] > depth.get(y.args[0], 0) for y in subterms(x))
                r = deep
            uses[x] = r
        return r

    def rec(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x in lcs or x.op in ("el", "idx") and x.args[0] in bases and x.args[1] == depth.get(x.args[0], 0):
            r = T("first", x, cond, gens)
        elif x.op in ("comp", "any", "sumc", "fold", "last", "first", "rec") and not free_at(x):
            r = x
        elif x.op == "c":
            r = x
        else:
            r = rebuild(x, rec)
        memo[x] = r
        return r

    return rec(t)


def el_depths(t, gens):
    """Depth of the elements of gens bound by a binder whose body is t."""
    out = {}
    bases = _bases(gens)
    for x in subterms(t):
        if x.op in ("el", "idx") and x.args[0] in bases:
            out[x.args[0]] = min(out.get(x.args[0], 99), x.args[1])
    return out


def first_of_comp(c):
    """First element of a list comprehension."""
    k, e, gens, cond = c.args
    d = el_depths(T("tuple", (e, cond)), gens)
    return first_(e, cond, gens, d)


def _outer(c):
    """The comprehension without the inner generators its values do not depend on (they only repeat them)."""
    k, e, gens, cond = c.args
    while len(gens) > 1:
        g = gens[-1]
        if g.op in ("until", "zip", "while") or any(y.op in ("el", "idx") and y.args[0] is g for y in subterms(e)):
            break
        cond, gens = any_(cond, (g,)) if cond is not TRUE else truthy(g), gens[:-1]
    return T("comp", k, e, gens, cond)


def _is_range(g):
    return g.op == "call" and g.args[0].op == "g" and g.args[0].args[0] == "range" and len(g.args[1]) == 1 and not g.args[2]


def _at_position(b, i):
    """[v for g][i] or {k: v for g}[k] where i is the position of an element of g."""
    kind, e, gens, cond = b.args
    if len(gens) != 1 or gens[0] is not i.args[0] or gens[0].op == "zip":
        return None
    g = gens[0]
    ispos = i.op == "idx" or _is_range(g)
    if kind == "dict" and e.op == "kv" and e.args[0].op == i.op and e.args[0].args[0] is g:
        d, v = e.args[0].args[1], e.args[1]
    elif kind == "list" and cond is TRUE and ispos:
        ds = {x.args[1] for x in subterms(e) if x.op in ("el", "idx") and x.args[0] is g}
        if len(ds) > 1:
            return None
        d, v = (ds.pop() if ds else 0), e
    else:
        return None
    if d != i.args[1]:
        if any(x.op in ("el", "idx") and x.args[0] is g and x.args[1] != d for x in subterms(v)) \
                or any(x.op in ("comp", "any", "sumc", "fold", "first", "last", "rec") and contains(x, g) for x in subterms(v)):
            return None
        v = subst(v, {T("el", g, d): T("el", g, i.args[1]), T("idx", g, d): T("idx", g, i.args[1])})
    return v


UNDEF = T("undef")  # the value of a failing lookup


def _last(t):
    """Last element of a list built in a known way."""
    if t.op == "list" and t.args[0] and t.args[0][-1].op != "star":
        return t.args[0][-1]
    if t.op == "concat":
        return _last(t.args[0][-1])
    if t.op == "ite":
        a, b = _last(t.args[1]), _last(t.args[2])
        return ite(t.args[0], a, b) if a is not None and b is not None else None
    return None


def index(b, i):
    if b.op in ("tuple", "list") and is_num(i) and i.args[1].denominator == 1:
        n = int(i.args[1])
        if -len(b.args[0]) <= n < len(b.args[0]):
            e = b.args[0][n]
            if all(x.op != "star" for x in b.args[0]):
                return e
    if i.op == "poly" and i.args[0] < 0 and len(i.args[1]) == 1 and i.args[0].denominator == 1:
        (m, k), = i.args[1]
        if k == 1 and len(m) == 1 and is_len(m[0]) and m[0].args[1][0] is strip_len(b):
            return index(b, num(i.args[0]))
    if i.op == "idx" and i.args[0] is b:
        return T("el", b, i.args[1])
    if b.op == "comp" and b.args[0] == "list" and is_num(i) and i.args[1] == 0:
        b = _outer(b)
        if len(b.args[2]) == 1 and b.args[3] is not TRUE:
            return first_of_comp(b)
    if i.op == "idx" and b.op == "call" and b.args[0].op == "g" and b.args[0].args[0] in ("list", "tuple") and b.args[1] == (i.args[0],) and not b.args[2]:
        return T("el", i.args[0], i.args[1])
    if b.op == "comp" and i.op in ("el", "idx"):
        v = _at_position(b, i)
        if v is not None:
            return v
    if b.op == "concat" and is_num(i) and i.args[1] == -1:
        x = _last(b)
        if x is not None:
            return x
    if b.op == "lc" and is_num(i) and i.args[1] == -1:
        x, y, z = _last(b.args[0]), _last(b.args[1]), NONE if b.args[2] is NONE else _last(b.args[2])
        if x is not None and y is not None and z is not None:
            m = {T("ph0"): T("ph0", b.args[0]), T("ph0", x): T("ph0")}
            return T("lc", x, subst(y, m), subst(z, m))
    if b.op == "lc" and i.op == "idx" and b.args[2] is NONE:
        # each iteration only updates its own position
        u = b.args[1]
        while u.op == "upd" and u.args[1] is i:
            u = u.args[0]
        if u.op == "ph0" and not u.args:
            return index(b.args[0], i)
    if b.op == "dict":
        for e in reversed(b.args[0]):
            if e.op == "kv":
                if e.args[0] is i:
                    return e.args[1]
                if is_const(e.args[0]) and is_const(i):
                    continue
            break
        if 0 < len(b.args[0]) <= 8 and all(e.op == "kv" and is_const(e.args[0]) for e in b.args[0]) and not is_const(i) and i.op not in ("ref", "slice"):
            r = UNDEF
            for e in b.args[0]:
                r = ite(cmp_("==", i, e.args[0]), e.args[1], r)
            return r
    if b.op == "call" and not b.args[2] and len(b.args[1]) == 1 and b.args[0].op == "g" and b.args[0].args[0] in ("list", "tuple") and i.op == "c":
        x = b.args[1][0]
        if x.op == "call" and x.args[0].op == "g" and x.args[0].args[0] in ("zip", "map", "filter", "enumerate", "reversed"):
            b = x
    if b.op == "call" and not b.args[2] and b.args[0] is T("g", "zip") and len(b.args[1]) == 1 and b.args[1][0].op == "star" and is_num(i):
        # one column of the rows
        x = b.args[1][0].args[0]
        return T("call", T("g", "tuple"), (comp("list", index(T("el", x, 0), i), (x,), TRUE),), ())
    if b.op == "ite":
        return ite(b.args[0], index(b.args[1], i), index(b.args[2], i)) if (
            b.args[1].op in ("tuple", "list", "dict") or b.args[2].op in ("tuple", "list", "dict")) else T("i", b, i)
    return T("i", b, i)


def any_(cond, gens):
    if cond is FALSE:
        return FALSE
    r = _any_equal(cond, gens)
    return T("any", cond, gens) if r is None else r


def _any_equal(cond, gens):
    """any(x == e for e in g) is x in g."""
    g = gens[-1]
    if g.op in ("until", "zip", "while"):
        return None
    conds = cond.args[0] if cond.op == "and" else (cond,)
    for c in conds:
        if c.op != "cmp" or c.args[0] not in ("==", "is"):
            continue
        for e, x in ((c.args[1], c.args[2]), (c.args[2], c.args[1])):
            if e.op == "el" and e.args[0] is g:
                rest = [k for k in conds if k is not c]
                if any(y.op in ("el", "idx") and y.args[0] is g or y is g for k in rest + [x] for y in subterms(k)):
                    continue
                r = and_(cmp_("in", x, g), *rest)
                return any_(r, gens[:-1]) if len(gens) > 1 else r
    return None


def sumc(elt, gens, cond):
    if is_num(elt) and elt.args[1] == 0:
        return num(0)
    # pull gates of the shape ite(c, e, 0) into the filter
    while elt.op == "ite" and is_num(elt.args[2]) and elt.args[2].args[1] == 0:
        cond = and_(cond, elt.args[0])
        elt = elt.args[1]
    if elt.op == "ite" and is_num(elt.args[1]) and elt.args[1].args[1] == 0:
        cond = and_(cond, not_(elt.args[0]))
        elt = elt.args[2]
    if elt.op != "c" and is_bool(elt):
        elt, cond = num(1), and_(cond, elt)
    if is_num(elt) and cond is TRUE and len(gens) == 1 and gens[0].op not in ("zip", "until", "while"):
        return pmul(elt, length(gens[0]))
    return T("sumc", elt, gens, cond)


def _positions(e, g):
    if e.op == "ite" and g.op == "ite" and e.args[0] is g.args[0]:
        return _positions(e.args[1], g.args[1]) and _positions(e.args[2], g.args[2])
    return e.op == "idx" and e.args[0] is g and g.op not in ("until", "zip", "while")


def comp(kind, elt, gens, cond):
    if kind == "list" and cond is TRUE and len(gens) == 1 and elt.op == "el" and elt.args[0] is gens[0] and gens[0].op != "until":
        return T("call", T("g", "list"), gens, ())
    if kind == "list" and cond is TRUE and len(gens) == 1 and _positions(elt, gens[0]):
        return T("call", T("g", "list"), (T("call", T("g", "range"), (length(gens[0]),), ()),), ())
    if kind == "list" and cond is TRUE and len(gens) == 1 and elt.op == "poly" and _is_range(gens[0]):
        s = psub(elt, T("el", gens[0], 0))
        if not any(x.op == "el" and x.args[0] is gens[0] for x in subterms(s)):
            return T("call", T("g", "list"), (T("call", T("g", "range"), (s, padd(gens[0].args[1][0], s)), ()),), ())
    return T("comp", kind, elt, gens, cond)


def lookup(d, k, default):
    """d.get(k, default)"""
    return ite(cmp_("in", k, d), index(d, k), default)


def _overwritten(a, b):
    """A list whose positions are reassigned one by one, as a comprehension."""
    if a.op == "comp" and a.args[0] == "list" and a.args[3] is TRUE and len(a.args[2]) == 1 and b.op == "comp" and b.args[0] == "dict" and b.args[2] == a.args[2] \
            and b.args[1].op == "kv":
        (g,), (k, v) = a.args[2], b.args[1].args
        if g.op == "zip" or not (k.op == "idx" and k.args[0] is g or k.op == "el" and k.args[0] is g and g.op == "call" and g.args[0].op == "g" and g.args[0].args[0] == "range" and len(g.args[1]) == 1):
            return None
        if any(x.op in ("el", "idx") and x.args[0] is g and x.args[1] != k.args[1] for x in subterms(T("tuple", (a.args[1], v, b.args[3])))):
            return None
        return comp("list", ite(b.args[3], v, a.args[1]), (g,), TRUE)
    return None


# ---------------------------------------------------------------- printing
_shown = [0]


def show(t):
    """Text of a term; very large terms are abbreviated."""
    _shown[0] = 0
    return _show(t, 0)


def _show(t, d):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(_show(x, d) for x in t) + ")"
        return str(t)
    _shown[0] += 1
    if d > 14 or _shown[0] > 5000:
        return "…"
    s = lambda x: _show(x, d + 1)
    op, a = t.op, t.args
    if op == "c":
        k, v = a
        if k == "none":
            return "None"
        if k == "b":
            return "True" if v else "False"
        if k == "s":
            return repr(v)
        if k == "n":
            return str(v) if v.denominator == 1 else str(float(v))
        return str(v)
    if op == "p":
        return "$%s" % a[0]
    if op == "self":
        return "self"
    if op == "g":
        return a[0].replace("skdecide.", "")
    if op == "a":
        return "%s.%s" % (s(a[0]), a[1])
    if op == "i":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if op == "call":
        args = [s(x) for x in a[1]] + ["%s=%s" % (k, s(v)) for k, v in a[2]]
        return "%s(%s)" % (s(a[0]), ", ".join(args))
    if op == "super":
        return "super().%s" % a[0]
    if op == "poly":
        parts = []
        for m, k in a[1]:
            ms = "*".join(s(f) for f in m)
            if k == 1:
                parts.append("+" + ms)
            elif k == -1:
                parts.append("-" + ms)
            else:
                parts.append("%+g*%s" % (float(k), ms))
        if a[0]:
            parts.append("%+g" % float(a[0]))
        return "(" + "".join(parts).lstrip("+") + ")"
    if op == "inv":
        return "1/(%s)" % s(a[0])
    if op == "cmp":
        return "(%s %s %s)" % (s(a[1]), a[0], s(a[2]))
    if op == "not":
        return "not %s" % s(a[0])
    if op in ("and", "or"):
        return "(" + (" %s " % op).join(s(x) for x in a[0]) + ")"
    if op == "ite":
        return "(%s if %s else %s)" % (s(a[1]), s(a[0]), s(a[2]))
    if op in ("list", "set"):
        return ("[%s]" if op == "list" else "{%s}") % ", ".join(s(x) for x in a[0])
    if op == "tuple":
        return "(%s)" % ", ".join(s(x) for x in a[0])
    if op == "dict":
        return "{%s}" % ", ".join(s(x) for x in a[0])
    if op == "kv":
        return "%s: %s" % (s(a[0]), s(a[1]))
    if op == "el":
        return "el%s<%s>" % (a[1] or "", s(a[0]))
    if op == "idx":
        return "idx%s<%s>" % (a[1] or "", s(a[0]))
    if op == "comp":
        return "%s{%s for %s if %s}" % (a[0], s(a[1]), ", ".join(s(x) for x in a[2]), s(a[3]))
    if op == "any":
        return "any(%s for %s)" % (s(a[0]), ", ".join(s(x) for x in a[1]))
    if op == "sumc":
        return "sum(%s for %s if %s)" % (s(a[0]), ", ".join(s(x) for x in a[1]), s(a[2]))
    if op == "get":
        return "%s.get(%s, %s)" % tuple(s(x) for x in a)
    if op == "concat":
        return " ++ ".join(s(x) for x in a[0])
    return "%s⟨%s⟩" % (op, ", ".join(s(x) if isinstance(x, (T, tuple)) else str(x) for x in a))


def union(*parts):
    out = []
    for p in parts:
        if p.op == "union":
            out.extend(p.args[0])
        else:
            out.append(p)
    elts = []
    rest = []
    for p in out:
        if p.op == "set":
            elts.extend(p.args[0])
        else:
            rest.append(p)
    elts = tuple(sorted(set(elts), key=key_of))
    rest = sorted(set(rest), key=key_of)
    if not rest:
        return T("set", elts)
    if elts:
        rest.append(T("set", elts))
    if len(rest) == 1:
        return rest[0]
    return T("union", tuple(sorted(rest, key=key_of)))


def dict_set(c, k, v, path=False):
    e = T("kvp" if path else "kv", k, v)
    if c.op == "dict":
        es = [x for x in c.args[0] if x.args[0] is not k or x.op != e.op]
        es.append(e)
        if all(x.op == "kv" and is_const(x.args[0]) for x in es):
            es.sort(key=lambda x: x.args[0].key)
        return T("dict", tuple(es))
    return dcat(c, T("dict", (e,)))


def dcat(*parts):
    out = []
    for p in parts:
        if p.op == "dcat":
            out.extend(p.args[0])
        else:
            out.append(p)
    m = []
    for p in out:
        if p.op == "dict" and not p.args[0]:
            continue
        if m and p.op == "dict" and m[-1].op == "dict":
            d = m[-1]
            for e in p.args[0]:
                d = dict_set(d, e.args[0], e.args[1], path=e.op == "kvp")
            m[-1] = d
        else:
            w = _overwritten(m[-1], p) if m else None
            if w is not None:
                m[-1] = w
            else:
                m.append(p)
    if not m:
        return T("dict", ())
    if len(m) == 1:
        return m[0]
    return T("dcat", tuple(m))
