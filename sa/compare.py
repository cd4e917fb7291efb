"""Comparison of function summaries against reference summaries."""
from .terms import *
from .canon import canon, TooBig, atoms_of, is_canonical, is_distinct, same_cond, implies
from .engine import Event, ignored

NOEV = T("noevent")


def leaf_table(t):
    """leaf -> canonical condition under which a canonical decision tree ends in it."""
    tab = {}
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            todo += [x.args[2], x.args[1]]
        else:
            tab[x] = TRUE
    if len(tab) > 1:
        for l in tab:
            tab[l] = _leaf_guard(t, l, {})
    return tab


def _leaf_guard(x, l, memo):
    r = memo.get(x)
    if r is None:
        if x.op == "ite":
            hi, lo = _leaf_guard(x.args[1], l, memo), _leaf_guard(x.args[2], l, memo)
            if hi is lo:
                r = hi
            elif hi is TRUE and lo is FALSE:
                r = x.args[0]
            elif hi is FALSE and lo is TRUE:
                r = T("not", x.args[0])
            else:
                r = T("ite", x.args[0], hi, lo)
            is_canonical(r)
        else:
            r = TRUE if x is l else FALSE
        memo[x] = r
    return r


def idle(l, g):
    """A store of the value the attribute has already."""
    if l.op == "store":
        loc = T("a", l.args[0], l.args[1])
        v = l.args[2]
        if v is loc:
            return True
        if v is NONE:
            return implies(g, cmp_("is", loc, NONE)) is True
    return False


def split_event(e):
    t = canon(ite(e.guard, e.term, NOEV)) if e.guard is not TRUE else canon(e.term)
    out = []
    for l, g in leaf_table(t).items():
        if l is not NOEV:
            out += _nothing(g, l)
    return out


def _nothing(g, l):
    """Tell apart the effects under a guard that asks whether a value they use is None."""
    if g is TRUE or l.op not in ("store", "setitem", "call"):
        return [(g, l)]
    for c in atoms_of(g, cnd=True):
        if c.op == "cmp" and c.args[0] == "is" and NONE in c.args[1:]:
            x = c.args[1] if c.args[2] is NONE else c.args[2]
            if x.op in ("p", "a") and contains(l, x) and not (l.op == "store" and T("a", l.args[0], l.args[1]) is x):
                hi, lo = canon(and_(g, c)), canon(and_(g, not_(c)))
                return ([] if lo is FALSE else [(lo, l)]) + ([] if hi is FALSE else _nothing(hi, canon(subst(l, {x: NONE}))))
    return [(g, l)]


def _each(g, l):
    """Adding all of a comprehension's elements is adding each of them."""
    if l.op == "call" and l.args[0].op == "a" and l.args[0].args[1] in ("update", "extend") and len(l.args[1]) == 1 and not l.args[2]:
        x = l.args[1][0]
        while x.op == "call" and x.args[0].op == "g" and x.args[0].args[0] in ("list", "set") and len(x.args[1]) == 1 and not x.args[2]:
            x = x.args[1][0]
        if x.op == "comp" and x.args[0] in ("list", "set", "gen"):
            elt, gens, g = x.args[1], tuple(x.args[2]), canon(and_(g, x.args[3]))
        elif x.op in ("comp", "list", "tuple", "set", "dict", "ite", "c", "n", "cat"):
            return g, l, ()
        else:
            elt, gens = T("el", x, 0), (x,)
        add = T("call", T("a", l.args[0].args[0], "add" if l.args[0].args[1] == "update" else "append"), (elt,), ())
        return g, canon(add), gens
    return g, l, ()


def held_of(e):
    return tuple(canon(x) for x in e.held)


def used_terms(summary):
    used = set()
    seen = set()

    def add(t):
        for x in subterms(t, seen):
            used.add(x)

    add(canon(summary.ret))
    return used


def effect_table(summary, kinds=("store", "setitem", "delattr", "raise", "yield", "enter", "call"), ignore=()):
    """leaf term -> (guard, loops, example event)"""
    tab = {}
    evs = [e for e in summary.all_events if e.kind in kinds]
    split = []
    for e in evs:
        loops = tuple(canon(l) for l in e.loops)
        for g, l in split_event(e):
            g, l, more = _each(g, l)
            split.append((e, g, l, loops + more, held_of(e)))
    # terms used by something else
    seen = set()
    used = set()

    def add(t, proper):
        if proper:
            for c in children(t):
                for x in subterms(c, seen):
                    used.add(x)
        else:
            for x in subterms(t, seen):
                used.add(x)

    add(canon(summary.ret), False)
    for e, g, l, loops, held in split:
        add(l, True)
        for x in loops:
            add(x, False)
        # guards: conditions of the event
        for x in subterms(g, seen):
            used.add(x)
    for e, g, l, loops, held in split:
        if idle(l, g) or l.op in ("c", "cmp", "not", "a") or any(x is UNDEF for x in children(l)):
            continue
        if l.op == "call":
            if l in used:
                continue
            if ignored(l, ignore):
                continue
        k = (l, loops, held)
        if k in tab:
            tab[k] = (or_(tab[k][0], g), tab[k][1])
        else:
            tab[k] = (g, e)
    return {k: (canon(g), e) for k, (g, e) in tab.items()}


def printed(summary):
    """Calls that only obtain what is printed."""
    out, seen = set(), set()
    for e in summary.all_events:
        if e.kind == "print":
            for x in subterms(canon(e.term), seen):
                if x.op == "call" and not (x.args[0].op == "a" and (x.args[0].args[1].lstrip("_") in VERBS or x.args[0].args[1] in MUTS)):
                    out.add(x)
    return out


def diff(impl, ref, parts=("ret", "store", "setitem", "delattr", "raise", "yield", "enter", "call"), ignore=(), quick=False):
    """List of (what, detail, line) differences; empty when the value graphs agree. quick: the first one suffices."""
    out = []
    given = TRUE
    for e in ref.all_events:
        if e.kind == "assert" and not e.loops:
            given = and_(given, or_(not_(e.guard), e.term.args[0]))
    if "ret" in parts:
        a, b = canon(impl.ret), canon(ref.ret)
        if a is not b:
            la, lb = leaf_table(a), leaf_table(b)
            la.pop(UNDEF, None)
            ret_given = and_(given, not_(lb.pop(UNDEF))) if UNDEF in lb else given
            for x, y in ((la, lb), (lb, la)):
                for l in list(x):
                    if l not in y and same_cond(x[l], FALSE, ret_given):
                        del x[l]
            det = []
            for l in la:
                if l not in lb:
                    det.append("returns %s" % show(l))
            for l in lb:
                if l not in la:
                    det.append("never returns %s" % show(l))
            if not det:
                for l in la:
                    if not same_cond(la[l], lb[l], ret_given):
                        det.append("returns %s when %s; required when %s" % (show(l), show(la[l]), show(lb[l])))
            if det:
                out.append(("return", "; ".join(det), None))
                if quick:
                    return out
    kinds = tuple(p for p in parts if p != "ret")
    if kinds and not _same_events(impl, ref, kinds):
        ea, eb = effect_table(impl, kinds, ignore), effect_table(ref, kinds, ignore)
        pr = printed(impl) | printed(ref)
        for k in ea:
            if out and quick:
                return out
            if k not in eb:
                if k[0] in pr:
                    continue
                out.append(("effect", "performs %s%s when %s" % (show(k[0]), loops_txt(k[1], k[2]), show(ea[k][0])), ea[k][1]))
            elif not same_cond(ea[k][0], eb[k][0], given):
                out.append(("effect", "performs %s%s when %s; required when %s" % (show(k[0]), loops_txt(k[1], k[2]), show(ea[k][0]), show(eb[k][0])), ea[k][1]))
        for k in eb:
            if k not in ea and k[0] not in pr:
                out.append(("effect", "never performs %s%s (required when %s)" % (show(k[0]), loops_txt(k[1], k[2]), show(eb[k][0])), None))
    return out


def _same_events(impl, ref, kinds):
    """Both perform literally the same effects (and return the same, so the same calls count as used)."""
    def sig(x):
        return {(e.term, e.guard, tuple(e.loops), tuple(e.held)) for e in x.all_events if e.kind in kinds}

    return canon(impl.ret) is canon(ref.ret) and sig(impl) == sig(ref)


def loops_txt(l, h=()):
    return (" for each of %s" % show(l) if l else "") + (" holding %s" % show(h) if h else "")


# effects whose relative order on one object is observable
VERBS = {"reset", "step", "set_memory", "sample_action", "solve", "load", "save", "send", "recv", "close", "join", "start", "notify_all",
         "wait_for", "render", "dial", "put", "update_time", "acquire", "release", "write", "push", "notify", "wait"}


def _receiver(t):
    if t.op == "call":
        f = t.args[0]
        if f.op == "a" and (f.args[1].lstrip("_") in VERBS or f.args[1] in MUTS):
            return f.args[0]
        return None
    if t.op in ("store", "setitem", "delattr"):
        return t.args[0]
    return None


MUTS = {"append", "extend", "insert", "add", "remove", "discard", "pop", "clear", "update", "setdefault", "sort", "reverse"}


def _observes(e, t):
    """the call made by e looks at the attribute stored by t"""
    return t.op == "store" and t.args[0].op == "self" and t.args[1] in e.sees


def _clash(ea, eb, a, b):
    if a.op == "yield" and b.op == "yield" or _observes(ea, b) or _observes(eb, a):
        return True
    ra, rb = _receiver(a), _receiver(b)
    if ra is None or rb is None or ra.op == "self" or rb.op == "self":
        if a.op == "store" and b.op == "store":
            return a.args[0] is b.args[0] and a.args[1] == b.args[1]
        return False
    if a.op == "setitem" and b.op == "setitem":
        return False
    if ra is not rb:
        return False
    if a.op == "store" and b.op == "store":
        return a.args[1] == b.args[1]
    return True


def order_diff(impl, ref, pairs=(), ignore=()):
    """Differences in the relative order of non-commuting effects."""
    import re

    def seq(s):
        out = []
        cnt = {}
        for e in s.all_events:
            if e.kind not in ("store", "setitem", "delattr", "call", "yield"):
                continue
            if e.kind != "yield" and not e.sees and _receiver(e.term) is None:
                continue
            k = (canon(e.term), tuple(canon(l) for l in e.loops), held_of(e))
            cnt[k] = cnt.get(k, 0) + 1
            out.append((k, e))
        return [(k, e) for k, e in out if cnt[k] == 1]

    out = []
    sa, sb = seq(impl), seq(ref)
    if len(sa) <= 400 and len(sb) <= 400:
        posa = {k: (i, e) for i, (k, e) in enumerate(sa)}
        for i in range(len(sb)):
            for j in range(i + 1, len(sb)):
                k1, k2 = sb[i][0], sb[j][0]
                if k1[1] != k2[1] or not _clash(sb[i][1], sb[j][1], k1[0], k2[0]):
                    continue
                if k1 in posa and k2 in posa and posa[k1][0] > posa[k2][0]:
                    try:
                        if canon(and_(sb[i][1].guard, sb[j][1].guard)) is FALSE:
                            continue
                    except TooBig:
                        pass
                    out.append(("order", "%s must come before %s" % (show(k1[0]), show(k2[0])), posa[k1][1]))
    for pa, pb in pairs:
        def find(s, p):
            return [e for e in s.all_events if re.search(p, show_event(e))]
        ea, eb = find(impl, pa), find(impl, pb)
        ra, rb = find(ref, pa), find(ref, pb)
        if not ra or not rb or max(e.order for e in ra) > min(e.order for e in rb):
            raise ValueError("ordering rule (%s before %s) does not hold in the reference itself" % (pa, pb))
        if ea and eb:
            last = max(ea, key=lambda e: e.order)
            first = min(eb, key=lambda e: e.order)
            if last.order > first.order:
                out.append(("order", "%s must come before %s" % (show_event(last), show_event(first)), first))
    return out


def show_event(e):
    t = e.term
    if t.op == "load":
        return "load %s[%s]" % (show(t.args[0]), show(t.args[1]))
    return show(t)
