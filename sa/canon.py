"""Canonical decision-tree form of gated terms (ordered, reduced)."""
from .terms import *
from . import terms as _t

BINDERS = {"comp", "any", "sumc", "lam", "first", "rec", "fold", "last", "lc"}


class TooBig(Exception):
    pass


_cache = {}
_exp = {}
_asg = {}
_budget = [0]


def depends_on_gens(t, gens):
    for x in subterms(t):
        if x.op in ("el", "idx") and any(x.args[0] is g or _gen_base(g) is x.args[0] for g in gens):
            return True
        if x.op in ("el", "idx"):
            for g in gens:
                if g.op == "zip" and x.args[0] in g.args[0]:
                    return True
    return False


def _gen_base(g):
    return g


def canon(t):
    r = _cache.get(t)
    if r is None:
        _budget[0] = 0
        if len(_order) > 2000:
            _renumber()
        r = _canon(t)
        _cache[t] = r
    return r


def is_canonical(t):
    _cache.setdefault(t, t)


def _canon(t):
    r = _cache.get(t)
    if r is None:
        t2 = _inner(t)
        r = _expand(t2, {})
        _cache[t] = r
    return r


def _inner(t):
    """Canonicalise binder bodies bottom-up."""
    memo = {}

    def rec(x):
        y = memo.get(x)
        if y is not None:
            return y
        if x.op in BINDERS:
            y = _binder(x)
        else:
            y = rebuild(x, rec)
            if y is not x and y.op in BINDERS:
                y = _binder(y)
        memo[x] = y
        return y

    return rec(t)


def _binder(x):
    if x.op == "any":
        cond, gens = x.args
        gens = tuple(_canon(g) for g in gens)
        cond = _canon(cond)
        return _mk_any(cond, gens)
    if x.op == "sumc":
        elt, gens, cond = x.args
        return sumc(_canon(elt), tuple(_canon(g) for g in gens), _canon(cond))
    if x.op == "comp":
        k, elt, gens, cond = x.args
        gens = tuple(_canon(g) for g in gens)
        return comp(k, _canon(elt), gens, _canon(cond))

    def rec(a):
        return tuple(_canon(y) if isinstance(y, T) else rec(y) if isinstance(y, tuple) else y for y in a)

    return T(x.op, *rec(x.args))


def _mk_any(cond, gens):
    return any_(cond, gens)


COND_POS = {"comp": 3, "any": 0, "sumc": 2, "first": 1, "rec": 4}
LOCAL = {"el", "idx", "ph0", "ph", "lp", "lc", "sent"}
_closed = {}
ENUMS = set()  # enumerations whose members are pairwise different
_local = {}


def _is_local(t):
    r = _local.get(t)
    if r is None:
        r = t.op in LOCAL or any(_is_local(c) for c in children(t))
        _local[t] = r
    return r


def closed_atoms(x):
    """Conditions tested below a binder that do not involve what it binds."""
    r = _closed.get(x)
    if r is None:
        _closed[x] = frozenset()
        r = set()
        p = COND_POS.get(x.op)
        for i, a in enumerate(x.args):
            todo = [a]
            while todo:
                y = todo.pop()
                if isinstance(y, tuple):
                    todo.extend(y)
                elif isinstance(y, T):
                    r.update(atoms_of(y, cnd=i == p))
        r = frozenset(a for a in r if not _is_local(a))
        if x.op == "lc":
            r = carried_atoms(x) | frozenset(atoms_of(x.args[0]))
        _closed[x] = r
    return r


_carry = {}


def carried_atoms(x):
    """Conditions below the update of a value carried by a loop that say the same in each iteration."""
    r = _carry.get(x)
    if r is None:
        r = set(atoms_of(x.args[1])) | set(atoms_of(x.args[2]))
        r = _carry[x] = frozenset(a for a in r if not _is_local(a) and not _drawn(a))
    return r


def _drawn(t):
    """Depends on a random draw made in a loop."""
    return any(y.op == "call" and any(k[0] == "#" and k[1].args[0][0] is not num(0) for k in y.args[2]) for y in subterms(t))


def _rebind(x, value, cond, atom):
    p = COND_POS.get(x.op)

    def rec(a, c):
        return (cond(a) if c else value(a)) if isinstance(a, T) else tuple(rec(y, False) for y in a) if isinstance(a, tuple) else a

    if x.op == "lc":
        args = (value(x.args[0]),) + (tuple(value(a) for a in x.args[1:]) if atom in carried_atoms(x) else x.args[1:])
    else:
        args = tuple(rec(a, i == p) for i, a in enumerate(x.args))
    if args == x.args:
        return x
    if x.op == "any":
        return _mk_any(*args)
    if x.op == "sumc":
        return sumc(*args)
    if x.op == "comp":
        k, elt, gens, c = args
        if c is FALSE:
            return T(k, ()) if not k.startswith("flat") else T(k[4:], ())
        if k.startswith("flat"):
            from .engine import flat
            return flat(elt, gens, k[4:], c)
    return remake(x.op, args)


_plain = {}


def plain(x):
    """No condition occurs anywhere in x: substituting truth values leaves it alone."""
    r = _plain.get(x)
    if r is None:
        r = _plain[x] = x.op not in ("ite", "and", "or", "not") and x.op not in BINDERS and not (x.op != "c" and is_bool(x)) \
            and all(plain(y) for y in children(x))
    return r


# conditions are numbered; sets of them are bit masks
_bits = {}
_order = []
_mv, _mc, _av, _ac = {}, {}, {}, {}
_least = {}
_aff = {}


def _bit(a):
    r = _bits.get(a)
    if r is None:
        r = _bits[a] = 1 << len(_order)
        _order.append(a)
    return r


def _members(m):
    out = []
    while m:
        low = m & -m
        out.append(_order[low.bit_length() - 1])
        m ^= low
    return out


def _in_cond(c):
    """Mask of what a decided test could change in the condition c."""
    r = _mc.get(c)
    if r is None:
        if c.op == "c":
            r = 0
        elif c.op == "not":
            r = _in_cond(c.args[0])
        elif c.op in ("and", "or"):
            r = 0
            for x in c.args[0]:
                r |= _in_cond(x)
        elif c.op == "ite":
            r = _in_cond(c.args[0]) | _in_cond(c.args[1]) | _in_cond(c.args[2])
        else:
            r = _bit(c) | _in_value(c)
        _mc[c] = r
    return r


def _in_value(x):
    """The same for a value."""
    r = _mv.get(x)
    if r is None:
        if plain(x) or x.op == "c":
            r = 0
        elif x.op == "ite":
            r = _in_cond(x.args[0]) | _in_value(x.args[1]) | _in_value(x.args[2])
        elif x.op in ("and", "or", "not"):
            r = _in_cond(x)
        elif x.op in BINDERS:
            r = 0
            for a in closed_atoms(x):
                r |= _bit(a)
        else:
            r = _bit(x) if is_bool(x) else 0
            for y in children(x):
                r |= _in_value(y)
        _mv[x] = r
    return r


def _tests_cond(c):
    """Mask of the tests of the condition c (those nested inside another one come first)."""
    r = _ac.get(c)
    if r is None:
        if c.op == "c":
            r = 0
        elif c.op == "not":
            r = _tests_cond(c.args[0])
        elif c.op in ("and", "or"):
            r = 0
            for x in c.args[0]:
                r |= _tests_cond(x)
        elif c.op == "ite":
            r = _tests_cond(c.args[0]) | _tests_cond(c.args[1]) | _tests_cond(c.args[2])
        else:
            r = _tests_value(c) or _bit(c)
        _ac[c] = r
    return r


def _tests_value(x):
    r = _av.get(x)
    if r is None:
        if plain(x) or x.op == "c":
            r = 0
        elif x.op == "ite":
            r = _tests_cond(x.args[0]) | _tests_value(x.args[1]) | _tests_value(x.args[2])
        elif x.op in ("and", "or", "not"):
            r = _tests_cond(x)
        elif x.op in BINDERS:
            r = 0
            for a in closed_atoms(x):
                r |= _bit(a)
        else:
            r = 0
            for y in children(x):
                r |= _tests_value(y)
        _av[x] = r
    return r


def atoms_of(t, cnd=False):
    """Condition atoms of t (below binders: those that do not involve what is bound)."""
    return _members(_tests_cond(t) if cnd or is_bool(t) else _tests_value(t))


def _first_test(t):
    m = _tests_cond(t) if is_bool(t) else _tests_value(t)
    if not m:
        return None
    r = _least.get(m)
    if r is None:
        r = _least[m] = min(_members(m), key=key_of)
    return r


def _settled(m, atom, val, implied):
    """Which of the tests in the mask m are settled by atom = val."""
    out = 0
    while m:
        low = m & -m
        c = _order[low.bit_length() - 1]
        r = _aff.get((c, atom, val))
        if r is None:
            r = _aff[(c, atom, val)] = c is atom or c in implied or c.op in ("cmp", "call", "any") and _theory(c, atom, val) is not None
        if r:
            out |= low
        m ^= low
    return out


def _renumber():
    for d in (_bits, _mv, _mc, _av, _ac, _least, _aff):
        d.clear()
    _order.clear()


def assign(t, atom, val, memo, cnd=False):
    """Substitute the truth value of atom in condition positions."""
    tv = TRUE if val else FALSE
    implied = _implied(atom, val)
    isb = is_bool(atom)
    aff = _settled(_in_cond(t) if cnd or is_bool(t) else _in_value(t), atom, val, implied)
    if not aff:
        return t

    def cond(c):
        if not _in_cond(c) & aff:
            return c
        k = (c, 1)
        r = memo.get(k)
        if r is not None:
            return r
        if c is atom:
            r = tv
        elif c in implied:
            r = implied[c]
        elif c.op in ("cmp", "call", "any") and _theory(c, atom, val) is not None:
            r = _theory(c, atom, val)
        elif c.op == "not":
            r = not_(cond(c.args[0]))
        elif c.op == "and":
            r = and_(*[cond(x) for x in c.args[0]])
        elif c.op == "or":
            r = or_(*[cond(x) for x in c.args[0]])
        elif c.op == "ite":
            r = truthy(ite(cond(c.args[0]), cond(c.args[1]), cond(c.args[2])))
        else:
            r = value(c)
            r = truthy(r)
        memo[k] = r
        return r

    def value(x):
        if not _in_value(x) & aff:
            return x
        k = (x, 0)
        r = memo.get(k)
        if r is not None:
            return r
        if isb and x is atom:
            r = tv
        elif x.op == "ite":
            r = ite(cond(x.args[0]), value(x.args[1]), value(x.args[2]))
        elif x.op in ("and", "or", "not"):
            r = cond(x)
        elif x.op in ("cmp", "call", "any") and is_bool(x) and _theory(x, atom, val) is not None:
            r = _theory(x, atom, val)
        elif x.op == "c":
            r = x
        elif x.op in BINDERS:
            r = x if atom not in closed_atoms(x) else _rebind(x, value, cond, atom)
        else:
            r = rebuild(x, value)
        memo[k] = r
        return r

    return cond(t) if cnd or is_bool(t) else value(t)


def _implied(atom, val):
    out = {}
    if atom.op == "cmp" and atom.args[0] == "is" and NONE in atom.args[1:]:
        x = atom.args[1] if atom.args[2] is NONE else atom.args[2]
        if val:
            out[x] = FALSE
    elif atom.op == "any" and val:
        x = _nonempty(atom)
        if x is not None:
            out[x] = TRUE
    elif atom.op not in ("cmp", "any", "exc") and val:
        # truthiness of a value: it is not None
        out[cmp_("is", atom, NONE)] = FALSE
        out[cmp_("==", atom, const(False))] = FALSE
        x = _tested(atom)
        if x is not None:
            out[cmp_("is", x, NONE)] = FALSE
    return out


def _tested(c):
    """x of isinstance(x, C), C a class None does not belong to"""
    if c.op == "call" and c.args[0] is ISINSTANCE and len(c.args[1]) == 2 and not c.args[2]:
        k = c.args[1][1]
        if k.op == "g" and k.args[0] not in ("object", "types.NoneType", "typing.Any", "typing.Hashable"):
            return c.args[1][0]
    return None


ISINSTANCE = T("g", "isinstance")


def _theory(c, atom, val):
    """Consequences of (atom == val) for comparison c over the same operands."""
    if c.op == "any":
        # nothing holds of any element of what is empty, or of any element for which less does not hold
        if val:
            return TRUE if atom.op == "any" and _stronger(atom, c) else None
        return FALSE if atom.op != "cmp" and (_nonempty(c) is atom or atom.op == "any" and _stronger(c, atom)) else None
    if atom.op != "cmp":
        return None
    o1, a1, b1 = atom.args
    if c.op == "call":
        if val and o1 == "is" and NONE in (a1, b1):
            x = _tested(c)
            if x is not None and x is (a1 if b1 is NONE else b1):
                return FALSE
        return None
    o2, a2, b2 = c.args
    if o1 in ("==", "is") and o2 in ("==", "is") and val:
        # same operand, two different constants
        for x1, k1 in ((a1, b1), (b1, a1)):
            for x2, k2 in ((a2, b2), (b2, a2)):
                if x1 is x2 and is_distinct(k1) and is_distinct(k2) and k1 is not k2:
                    return FALSE
    if o1 == "<" and o2 == "<" and val and a1 is b2 and b1 is a2:
        return FALSE
    if o1 == "<" and o2 == "==" and val and {a1, b1} == {a2, b2}:
        return FALSE
    if o1 == "==" and o2 == "<" and val and {a1, b1} == {a2, b2}:
        return FALSE
    if o1 == "<" and o2 == "<" and a1 is a2 and is_num(b1) and is_num(b2):
        if val and b1.args[1] <= b2.args[1]:
            return TRUE
        if not val and b1.args[1] >= b2.args[1]:
            return FALSE
    if o1 == "<" and o2 == "<" and b1 is b2 and is_num(a1) and is_num(a2):
        if val and a1.args[1] >= a2.args[1]:
            return TRUE
        if not val and a1.args[1] <= a2.args[1]:
            return FALSE
    return None


_nes = {}


def _nonempty(c):
    """For any(.. for x in g): the test that g has elements."""
    if c not in _nes:
        g = c.args[1][0]
        r = None
        if g.op not in ("zip", "until", "while", "fuse"):
            r = truthy(g)
            if r is TRUE or r is FALSE or r is c or r.op in ("not", "and", "or", "ite", "cmp"):
                r = None
        _nes[c] = r
    return _nes[c]


_str = {}


def _stronger(b, a):
    """any(p) implies any(q) when p implies q, over the same elements"""
    if b is a or b.args[1] != a.args[1]:
        return False
    r = _str.get((b, a))
    if r is None:
        _str[b, a] = False
        p, q = b.args[0], a.args[0]
        if _small(p, 16) and _small(q, 16):
            r = _str[b, a] = _expand(or_(not_(p), q), {}) is TRUE
        else:
            r = False
    return r


def is_distinct(k):
    """Terms denoting pairwise different values: constants and enum-like globals."""
    if k.op == "c":
        return True
    if k.op == "a" and k.args[0].op == "g" and (k.args[1][:1].isupper() or k.args[0].args[0] in ENUMS):
        return True
    return False


def _expand(t, memo):
    r = _exp.get(t)
    if r is not None:
        return r
    _budget[0] += 1
    if _budget[0] > 60000:
        raise TooBig()
    a = _first_test(t)
    if a is None:
        _exp[t] = t
        return t
    hi = _expand(assign(t, a, True, _asg.setdefault((a, True), {})), memo)
    lo = _expand(assign(t, a, False, _asg.setdefault((a, False), {})), memo)
    if hi is lo:
        r = hi
    elif a.op != "exc" and _related(lo, a, True) and _expand(assign(lo, a, True, {}), memo) is hi:
        r = lo  # the test is implied by what follows
    elif a.op != "exc" and _related(hi, a, False) and _expand(assign(hi, a, False, {}), memo) is lo:
        r = hi
    else:
        r = _join(a, hi, lo) if hi is TRUE or hi is FALSE or lo is TRUE or lo is FALSE or _small(hi) and _small(lo) else T("ite", a, hi, lo)
    _exp[t] = r
    return r


_joined = {}
_few = {}


def _small(t, limit=48):
    r = _few.get(t)
    if r is None:
        seen, todo = set(), [t]
        while todo and len(seen) <= limit:
            x = todo.pop()
            if x.op == "ite" and x not in seen:
                seen.add(x)
                todo += [x.args[1], x.args[2]]
        r = _few[t] = len(seen) <= limit
    return r


def _join(a, hi, lo):
    """The ordered tree for (hi if a else lo): the trees may test atoms that come before a (they appeared once a was settled)."""
    if hi is lo:
        return hi
    if hi is TRUE and lo is FALSE:
        return a
    if hi is FALSE and lo is TRUE:
        return T("not", a)
    logic = is_bool(hi) and is_bool(lo)
    b = min([a] + [x.args[0] if x.op == "ite" else _top(x) for x in (hi, lo) if x.op == "ite" or logic and x.op != "c"], key=key_of)
    if b is a or b.key == a.key:
        return T("ite", a, hi, lo)
    k = (a, hi, lo)
    r = _joined.get(k)
    if r is None:
        _budget[0] += 1
        if _budget[0] > 60000:
            raise TooBig()
        out = []
        for v in (True, False):
            f, g = _cofactor(hi, b, v), _cofactor(lo, b, v)
            w = _implied(b, v).get(a)
            if w is None and a.op in ("cmp", "call", "any"):
                w = _theory(a, b, v)
            out.append(f if w is TRUE else g if w is FALSE else _join(a, f, g))
        r = _joined[k] = out[0] if out[0] is out[1] else _join(b, *out)
    return r


def equal(a, b):
    if a is b:
        return True
    try:
        return canon(a) is canon(b)
    except TooBig:
        return False


_spines = {}


def _spine(t):
    """Comparison atoms tested by a decision tree."""
    r = _spines.get(t)
    if r is None:
        if t.op == "ite":
            r = _spine(t.args[1]) | _spine(t.args[2])
            if t.args[0].op in ("cmp", "any"):
                r = r | {t.args[0]}
            if len(r) > 24:
                r = frozenset(list(r)[:24])
        elif t.op == "not":
            r = _spine(t.args[0])
        else:
            r = frozenset([t]) if t.op in ("cmp", "any") and is_bool(t) else frozenset()
        _spines[t] = r
    return r


def _related(t, a, val):
    return any(_theory(c, a, val) is not None for c in _spine(t))


def _top(x):
    if x.op == "ite":
        return x.args[0]
    if x.op == "not":
        return x.args[0]
    return None if x.op == "c" else x


def _cofactor(x, a, val):
    if x.op == "ite":
        return (x.args[1] if val else x.args[2]) if x.args[0] is a else x
    if x is a:
        return TRUE if val else FALSE
    if x.op == "not" and x.args[0] is a:
        return FALSE if val else TRUE
    return x


_dif = {}


def _may_differ(f, g, given):
    """Some assignment of the atoms (consistent or not) satisfies given and tells f from g."""
    if f is g or given is FALSE:
        return False
    tops = [y for y in (_top(f), _top(g), _top(given)) if y is not None]
    if not tops:
        return True
    k = (f, g, given)
    r = _dif.get(k)
    if r is None:
        a = min(tops, key=key_of)
        r = any(_may_differ(_cofactor(f, a, v), _cofactor(g, a, v), _cofactor(given, a, v)) for v in (True, False))
        _dif[k] = r
    return r


def _conflict(path, a, val):
    """The literal (a, val) contradicts a literal of the path in the theory of comparisons."""
    tv = TRUE if val else FALSE
    for b, w in path:
        r = _implied(b, w).get(a)
        if r is None and a.op in ("cmp", "call"):
            r = _theory(a, b, w)
        if r is not None and r is not tv:
            return True
    return False


def _witness(f, g, given):
    """True: a consistent assignment tells f from g; False: none does; None: not settled."""
    if not _may_differ(f, g, given):
        return False
    steps = [0]

    def walk(f, g, given, path):
        if not _may_differ(f, g, given):
            return False
        steps[0] += 1
        if steps[0] > 4000:
            return None
        tops = [y for y in (_top(f), _top(g), _top(given)) if y is not None]
        if not tops:
            return True
        a = min(tops, key=key_of)
        for v in (True, False):
            if _conflict(path, a, v):
                continue
            r = walk(_cofactor(f, a, v), _cofactor(g, a, v), _cofactor(given, a, v), path + [(a, v)])
            if r is not False:
                return r
        return False

    return walk(f, g, given, [])


def same_cond(f, g, given=TRUE):
    """f and g agree wherever given holds, taking the theory of comparisons into account."""
    if f is g:
        return True
    try:
        w = _witness(canon(f), canon(g), canon(given))
        if w is not None:
            return not w
        return canon(and_(given, or_(and_(f, not_(g)), and_(not_(f), g)))) is FALSE
    except TooBig:
        return False


def implies(g, f):
    """Propositional implication g -> f over syntactic atoms."""
    try:
        return canon(or_(not_(g), f)) is TRUE
    except TooBig:
        return None
