"""MiniZinc models: parser and normal form.

model(path) returns the items of a model in a normal form in which the following make no difference: comments, layout, output items,
search annotations, the order of items, names of bound variables and of defined parameters (parameters with a right-hand side are
replaced by it), predicates and functions of the file that are not library overrides (expanded where called), conjunctions and
nested forall written apart or together, the order of commutative operands, the direction of comparisons, linear rewriting of
arithmetic, `a -> b` for `not a \\/ b`, guards written as where, if or implication."""
import re
from fractions import Fraction


class Bad(Exception):
    pass


TOK = re.compile(r"""\s+|%[^\n]*|/\*.*?\*/|(?P<float>\d+\.\d+(?:[eE][-+]?\d+)?)|(?P<int>\d+)|(?P<str>"(?:[^"\\]|\\.)*")
|(?P<id>[A-Za-z_][A-Za-z0-9_]*)|(?P<op><->|->|<-|\\/|/\\|<=|>=|==|!=|\.\.|\+\+|::|\[\||\|\]|[-+*/<>=(){}\[\],;:|`^])""", re.X | re.S)
PREC = {"<->": 1200, "->": 1100, "<-": 1100, "\\/": 1000, "xor": 1000, "/\\": 900, "<": 800, ">": 800, "<=": 800, ">=": 800, "=": 800, "==": 800,
        "!=": 800, "in": 700, "subset": 700, "superset": 700, "union": 600, "diff": 600, "symdiff": 600, "..": 500, "+": 400, "-": 400,
        "*": 300, "/": 300, "div": 300, "mod": 300, "intersect": 300, "++": 200, "^": 200}
WORDS = {"xor", "in", "subset", "superset", "union", "diff", "symdiff", "div", "mod", "intersect"}
KEY = {"then", "else", "elseif", "endif", "where", "constraint", "let", "if", "not", "true", "false"}


def tokens(s):
    out, i = [], 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise Bad("cannot read %r" % s[i:i + 30])
        if m.lastgroup:
            out.append((m.lastgroup, m.group()))
        i = m.end()
    return out + [("end", "")]


class Parser:
    def __init__(self, s):
        self.t = tokens(s)
        self.i = 0

    def at(self, *v):
        k, x = self.t[self.i]
        return k != "str" and x in v

    def take(self, v=None):
        k, x = self.t[self.i]
        if v is not None and not (k != "str" and x == v):
            raise Bad("expected %s before %s" % (v, " ".join(y for _, y in self.t[self.i:self.i + 6])))
        self.i += 1
        return x

    def opt(self, v):
        if self.at(v):
            self.i += 1
            return True
        return False

    def ident(self):
        k, x = self.t[self.i]
        if k != "id":
            raise Bad("expected a name before " + " ".join(y for _, y in self.t[self.i:self.i + 6]))
        self.i += 1
        return x

    # items
    def model(self):
        out = []
        while self.t[self.i][0] != "end":
            if self.opt(";"):
                continue
            out.append(self.item())
            if self.t[self.i][0] != "end":
                self.take(";")
        return out

    def anns(self):
        while self.opt("::"):
            self.primary()

    def item(self):
        if self.opt("include"):
            return ("include", self.take()[1:-1])
        if self.opt("output"):
            self.anns()
            self.expr()
            return ("output",)
        if self.opt("constraint"):
            self.anns()
            return ("constraint", self.expr())
        if self.opt("solve"):
            self.anns()
            k = self.take()
            if k == "satisfy":
                return ("solve", k, None)
            return ("solve", k, self.expr())
        if self.at("predicate", "test", "function", "annotation"):
            k = self.take()
            ti = ("bool",)
            if k == "function":
                ti = self.type()
                self.take(":")
            n = self.ident()
            ps = []
            if self.opt("("):
                while not self.at(")"):
                    t = self.type()
                    ps.append((self.ident() if self.opt(":") else None, t))
                    self.anns()
                    if not self.opt(","):
                        break
                self.take(")")
            self.anns()
            return ("fun", n, tuple(ps), ti, self.expr() if self.opt("=") else None)
        if self.t[self.i][0] == "id" and self.t[self.i + 1][1] == "=" and not self.at("int", "bool", "float"):
            n = self.ident()
            self.take("=")
            return ("assign", n, self.expr())
        return self.decl()

    def decl(self):
        t = self.type()
        self.take(":")
        n = self.ident()
        self.anns()
        return ("decl", n, t, self.expr() if self.opt("=") else None)

    def type(self):
        if self.opt("array"):
            self.take("[")
            ix = [self.type()]
            while self.opt(","):
                ix.append(self.type())
            self.take("]")
            self.take("of")
            return ("array", tuple(ix), self.type())
        v = False
        if self.opt("var"):
            v = True
        else:
            self.opt("par")
        o = self.opt("opt")
        if self.at("set") and self.t[self.i + 1][1] == "of":
            self.take()
            self.take("of")
            t = ("set", self.type())
        elif self.at("int", "float", "bool", "string", "ann"):
            t = (self.take(),)
        else:
            t = ("dom", self.expr())
        if o:
            t = ("opt", t)
        return ("var", t) if v else t

    # expressions
    def expr(self, limit=1300):
        a = self.unary()
        while True:
            k, x = self.t[self.i]
            p = PREC.get(x) if k == "op" or k == "id" and x in WORDS else None
            if p is None or p > limit:
                if self.at("::"):
                    self.anns()
                    continue
                return a
            self.i += 1
            right = x in ("->", "++")
            b = self.expr(p if right else p - 1)
            a = ("bin", "=" if x == "==" else x, a, b)

    def unary(self):
        if self.opt("not"):
            return ("not", self.unary())
        if self.opt("-"):
            return ("neg", self.unary())
        if self.opt("+"):
            return self.unary()
        return self.primary()

    def gens(self):
        """i, j in S where c, k in T ..."""
        out = []
        while True:
            ns = [self.ident()]
            while self.opt(","):
                ns.append(self.ident())
            self.take("in")
            d = self.expr()
            c = self.expr() if self.opt("where") else None
            for n in ns:
                out.append((n, d, c if n is ns[-1] else None))
            if not self.opt(","):
                return tuple(out)

    def isgens(self):
        """After an opening bracket: names separated by commas and then in?"""
        j = self.i
        while self.t[j][0] == "id" and self.t[j][1] not in KEY:
            if self.t[j + 1][1] == "in" and self.t[j + 1][0] == "id":
                return True
            if self.t[j + 1][1] != ",":
                return False
            j += 2
        return False

    def primary(self):
        a = self.atom()
        while self.at("["):
            self.take()
            ix = [self.expr()]
            while self.opt(","):
                ix.append(self.expr())
            self.take("]")
            a = ("at", a, tuple(ix))
        return a

    def atom(self):
        k, x = self.t[self.i]
        self.i += 1
        if k == "int":
            return ("n", Fraction(x))
        if k == "float":
            return ("n", Fraction(x))
        if k == "str":
            return ("s", x)
        if x == "true" or x == "false":
            return ("b", x == "true")
        if x == "(":
            a = self.expr()
            self.take(")")
            return a
        if x == "[|":
            rows, row = [], []
            while True:
                if self.opt("|"):
                    rows.append(tuple(row))
                    row = []
                elif self.opt("|]"):
                    if row:
                        rows.append(tuple(row))
                    return ("arr2", tuple(rows))
                else:
                    row.append(self.expr())
                    self.opt(",")
        if x in "[{":
            close = "]" if x == "[" else "}"
            kind = "arr" if x == "[" else "setlit"
            if self.opt(close):
                return (kind, ())
            e = self.expr()
            if self.opt("|"):
                g = self.gens()
                self.take(close)
                return ("comp", "arr" if x == "[" else "set", e, g)
            es = [e]
            while self.opt(",") and not self.at(close):
                es.append(self.expr())
            self.take(close)
            return (kind, tuple(es))
        if x == "if":
            arms = []
            c = self.expr()
            self.take("then")
            arms.append((c, self.expr()))
            while self.opt("elseif"):
                c = self.expr()
                self.take("then")
                arms.append((c, self.expr()))
            e = self.expr() if self.opt("else") else ("b", True)
            self.take("endif")
            for c, v in reversed(arms):
                e = ("if", c, v, e)
            return e
        if x == "let":
            self.take("{")
            items = []
            while not self.at("}"):
                if self.opt("constraint"):
                    items.append(("constraint", self.expr()))
                else:
                    items.append(self.decl())
                if not (self.opt(",") or self.opt(";")):
                    break
            self.take("}")
            self.take("in")
            return ("let", tuple(items), self.expr())
        if k == "id":
            if not self.at("("):
                return ("id", x)
            self.take("(")
            if self.isgens():
                g = self.gens()
                self.take(")")
                self.take("(")
                e = self.expr()
                self.take(")")
                return ("call", x, (("comp", "arr", e, g),))
            args = []
            while not self.at(")"):
                args.append(self.expr())
                if not self.opt(","):
                    break
            self.take(")")
            return ("call", x, tuple(args))
        raise Bad("cannot read %s" % " ".join(y for _, y in self.t[self.i - 1:self.i + 6]))


# ---------------------------------------------------------------------------------------------------------------- normal form
ALIAS = {"all_different": "alldifferent", "bool2int": None, "int2float": None}
TRUE, FALSE = ("b", True), ("b", False)
FOLD = {"forall", "exists", "sum", "product", "min", "max"}


class Norm:
    def __init__(self, items, keep=None):
        self.defs, self.funs, self.vars, self.types = {}, {}, set(), {}
        self.count = 0
        assigned = {x[1]: x[2] for x in items if x[0] == "assign"}
        for x in items:
            if x[0] == "decl":
                v = x[3] if x[3] is not None else assigned.get(x[1])
                self.types[x[1]] = x[2]
                if isvar(x[2]) and not (keep is not None and x[1] not in keep and v is not None and dom(x[2]) is None):
                    self.vars.add(x[1])
                elif v is not None:
                    self.defs[x[1]] = v
            if x[0] == "fun":
                self.funs[x[1]] = x
        self.integral = not any("float" in repr(x) for x in items)
        self.busy = []

    def fresh(self):
        self.count += 1
        return ("id", "#%d" % self.count)

    def ev(self, e, env):
        """Expression with definitions, functions and lets expanded; bound names are unique (#n)."""
        k = e[0]
        if k == "id":
            if e[1] in env:
                return env[e[1]]
            if e[1] in self.defs and e[1] not in self.busy:
                self.busy.append(e[1])
                r = self.ev(self.defs[e[1]], {})
                self.busy.pop()
                return r
            return e
        if k in ("n", "s", "b"):
            return e
        if k == "bin":
            return ("bin", e[1], self.ev(e[2], env), self.ev(e[3], env))
        if k in ("not", "neg"):
            return (k, self.ev(e[1], env))
        if k == "if":
            return ("if",) + tuple(self.ev(x, env) for x in e[1:])
        if k in ("arr", "setlit"):
            return (k, tuple(self.ev(x, env) for x in e[1]))
        if k == "arr2":
            return (k, tuple(tuple(self.ev(x, env) for x in r) for r in e[1]))
        if k == "at":
            return (k, self.ev(e[1], env), tuple(self.ev(x, env) for x in e[2]))
        if k == "comp":
            env = dict(env)
            gs = []
            for n, d, c in e[3]:
                dd = self.ev(d, env)
                env[n] = self.fresh()
                gs.append((env[n], dd, self.ev(c, env) if c is not None else TRUE))
            return (k, e[1], self.ev(e[2], env), tuple(gs))
        if k == "let":
            env = dict(env)
            decls, cons = [], []
            for x in e[1]:
                if x[0] == "constraint":
                    cons.append(self.ev(x[1], env))
                elif x[3] is not None:
                    env[x[1]] = self.ev(x[3], env)
                    if isvar(x[2]) and dom(x[2]) is not None:
                        v = self.ty(x[2], env)
                        decls.append((("id", "_"), v))
                        cons.append(("has", env[x[1]], v))
                else:
                    t = self.ty(x[2], env)
                    env[x[1]] = self.fresh()
                    if isvar(x[2]):
                        self.vars.add(env[x[1]][1])
                    decls.append((env[x[1]], t))
            decls = [d for d in decls if d[0][1] != "_"]
            b = self.ev(e[2], env)
            if not decls and not cons:
                return b
            return ("let", tuple(decls), tuple(cons), b)
        if k == "call":
            args = [self.ev(x, env) for x in e[2]]
            n = ALIAS.get(e[1], e[1])
            if n is None:
                return args[0]
            f = self.funs.get(n)
            if f is not None and f[4] is not None and len(f[2]) == len(args) and n not in self.busy and not n.startswith("fzn_"):
                self.busy.append(n)
                r = self.ev(f[4], {p: a for (p, _), a in zip(f[2], args)})
                self.busy.pop()
                return r
            return ("call", n, tuple(args))
        raise Bad(k)

    def ty(self, t, env):
        if t[0] == "array":
            return ("array", tuple(self.ty(x, env) for x in t[1]), self.ty(t[2], env))
        if t[0] in ("set", "var", "opt"):
            return (t[0], self.ty(t[1], env))
        if t[0] == "dom":
            return ("dom", self.ev(t[1], env))
        return t

    def par(self, e):
        """No decision variable in it?"""
        if isinstance(e, tuple):
            if len(e) == 2 and e[0] == "id":
                return e[1] not in self.vars
            return all(self.par(x) for x in e)
        return True

    # simplification, bottom up; the result is made of tuples with a total order on their repr
    def simp(self, e):
        k = e[0]
        if k in ("id", "n", "s", "b"):
            return e
        if k == "not":
            return neg(self.simp(e[1]))
        if k == "neg":
            return linear([(self.simp(e[1]), -1)])
        if k == "bin":
            o, a, b = e[1], self.simp(e[2]), self.simp(e[3])
            if o in ("+", "-"):
                return linear([(a, 1), (b, 1 if o == "+" else -1)])
            if o == "*":
                for x, y in ((a, b), (b, a)):
                    if x[0] == "n":
                        return linear([(y, x[1])])
                return ("mul", tuple(sorted(factors(a) + factors(b), key=repr)))
            if o == "/\\":
                return conj([a, b])
            if o == "\\/":
                return disj([a, b])
            if o == "->":
                return disj([neg(a), b])
            if o == "<-":
                return disj([a, neg(b)])
            if o in ("<->", "xor"):
                r = ("iff",) + tuple(sorted((a, b), key=repr))
                return neg(r) if o == "xor" else r
            if o in (">", ">="):
                o, a, b = {">": "<", ">=": "<="}[o], b, a
            if o in ("<", "<="):
                return self.leq(a, b, o == "<")
            if o in ("=", "!="):
                r = self.equal(a, b)
                return neg(r) if o == "!=" else r
            if o in ("union", "intersect", "symdiff"):
                return (o, tuple(sorted([a, b], key=repr)))
            if o == "superset":
                return ("subset", b, a)
            return (o, a, b)
        if k == "if":
            c, a, b = (self.simp(x) for x in e[1:])
            return ite(c, a, b)
        if k in ("arr", "setlit"):
            xs = [self.simp(x) for x in e[1]]
            return (k, tuple(sorted(set(xs), key=repr)) if k == "setlit" else tuple(xs))
        if k == "arr2":
            return (k, tuple(tuple(self.simp(x) for x in r) for r in e[1]))
        if k == "at":
            return (k, self.simp(e[1]), tuple(self.simp(x) for x in e[2]))
        if k == "has":
            return (k, self.simp(e[1]), self.sty(e[2]))
        if k == "let":
            return ("let", tuple((n, self.sty(t)) for n, t in e[1]), conj([self.simp(x) for x in e[2]]), self.simp(e[3]))
        if k == "comp":
            return self.comp(e)
        if k == "call":
            args = [self.simp(x) for x in e[2]]
            if e[1] in FOLD and len(args) == 1 and args[0][0] == "comp":
                return self.fold(e[1], args[0])
            if e[1] == "forall" and args[0][0] == "arr":
                return conj(list(args[0][1]))
            if e[1] == "exists" and args[0][0] == "arr":
                return disj(list(args[0][1]))
            if e[1] == "redundant_constraint" and len(args) == 1:
                return args[0]
            if e[1] == "assert" and len(args) > 1:
                args = args[:1] + args[2:]
            return ("call", e[1], tuple(args))
        raise Bad(k)

    def sty(self, t):
        if t[0] == "array":
            return ("array", tuple(self.sty(x) for x in t[1]), self.sty(t[2]))
        if t[0] in ("set", "var", "opt"):
            return (t[0], self.sty(t[1]))
        if t[0] == "dom":
            return ("dom", self.simp(t[1]))
        return t

    def leq(self, a, b, strict):
        """0 <= p, or 0 < p; over integers a strict one is made non-strict."""
        p = linear([(b, 1), (a, -1)])
        if strict and self.integral:
            p, strict = linear([(p, 1), (("n", Fraction(1)), -1)]), False
        if p[0] == "n":
            return ("b", p[1] > 0 if strict else p[1] >= 0)
        return ("lt" if strict else "le", p)

    def equal(self, a, b):
        if a == b:
            return TRUE
        arith = {"n", "lin", "mul"}
        if a[0] in arith or b[0] in arith:
            p = linear([(a, 1), (b, -1)])
            if p[0] == "n":
                return ("b", p[1] == 0)
            q = linear([(p, -1)])
            return ("eq", min(p, q, key=repr))
        return ("same",) + tuple(sorted((a, b), key=repr))

    def comp(self, e):
        gs, carry = [], []
        for n, d, c in e[3]:
            gs.append((n, self.simp(d)))
            carry += conjuncts(self.simp(c))
        return ("comp", e[1], self.simp(e[2]), tuple(gs), tuple(sorted(set(carry), key=repr)))

    def fold(self, f, c):
        """forall, exists, sum, ...: generators flattened, guards brought to the where part."""
        _, _, body, gs, cs = c
        gs, cs = list(gs), list(cs)
        if f == "forall":
            outs = []
            for x in conjuncts(body):
                outs.append(self.one(f, x, gs, cs))
            return conj(outs)
        return self.one(f, body, gs, cs)

    def one(self, f, body, gs, cs):
        gs, cs = list(gs), list(cs)
        while True:
            if body[0] == "fold" and body[1] == f:
                gs += body[3]
                cs += body[4]
                body = body[2]
                continue
            if f in ("forall", "exists") and body[0] == ("or" if f == "forall" else "and"):
                guard = [x for x in body[1] if self.par(x)]
                rest = [x for x in body[1] if not self.par(x)]
                if guard and rest:
                    for g in guard:
                        cs += conjuncts(neg(g)) if f == "forall" else [g]
                    body = disj(rest) if f == "forall" else conj(rest)
                    continue
            if f == "forall" and body[0] == "if" and self.par(body[1]) and body[3] == TRUE:
                cs += conjuncts(body[1])
                body = body[2]
                continue
            if f == "sum" and body[0] == "if" and self.par(body[1]) and body[3] == ("n", Fraction(0)):
                cs += conjuncts(body[1])
                body = body[2]
                continue
            if f == "forall" and body[0] == "and":
                return conj([self.one(f, x, gs, cs) for x in body[1]])
            break
        if f == "forall" and any(x == FALSE for x in cs) or f == "forall" and body == TRUE:
            return TRUE
        return ("fold", f, body, tuple(gs), tuple(sorted({x for x in cs if x != TRUE}, key=repr)))


def isvar(t):
    return t[0] == "var" or t[0] == "array" and isvar(t[2])


def dom(t):
    if t[0] == "array":
        return t if dom(t[2]) is not None else None
    return t[1] if t[0] in ("var", "opt") and t[1][0] == "dom" else t if t[0] == "dom" else None


def factors(a):
    return list(a[1]) if a[0] == "mul" else [a]


def linear(parts):
    """Sum of c * term."""
    acc, const = {}, Fraction(0)
    for t, c in parts:
        c = Fraction(c)
        if t[0] == "n":
            const += c * t[1]
        elif t[0] == "lin":
            const += c * t[2]
            for x, d in t[1]:
                acc[x] = acc.get(x, 0) + c * d
        else:
            acc[t] = acc.get(t, 0) + c
    acc = {x: d for x, d in acc.items() if d}
    if not acc:
        return ("n", const)
    if len(acc) == 1 and const == 0 and list(acc.values()) == [1]:
        return list(acc)[0]
    return ("lin", tuple(sorted(acc.items(), key=repr)), const)


def conjuncts(x):
    return list(x[1]) if x[0] == "and" else [] if x == TRUE else [x]


def conj(xs):
    out = []
    for x in xs:
        out += conjuncts(x)
    if FALSE in out:
        return FALSE
    out = sorted(set(out), key=repr)
    return TRUE if not out else out[0] if len(out) == 1 else ("and", tuple(out))


def disj(xs):
    out = []
    for x in xs:
        out += list(x[1]) if x[0] == "or" else [] if x == FALSE else [x]
    if TRUE in out:
        return TRUE
    out = sorted(set(out), key=repr)
    return FALSE if not out else out[0] if len(out) == 1 else ("or", tuple(out))


def neg(x):
    k = x[0]
    if k == "b":
        return ("b", not x[1])
    if k == "not":
        return x[1]
    if k == "and":
        return disj([neg(y) for y in x[1]])
    if k == "or":
        return conj([neg(y) for y in x[1]])
    if k == "fold" and x[1] in ("forall", "exists"):
        return ("fold", "exists" if x[1] == "forall" else "forall", neg(x[2]), x[3], x[4])
    if k == "le":
        p = linear([(x[1], -1)])
        return ("le", linear([(p, 1), (("n", Fraction(1)), -1)])) if INTEGRAL[0] else ("lt", p)
    if k == "lt":
        return ("le", linear([(x[1], -1)]))
    return ("not", x)


INTEGRAL = [True]


def ite(c, a, b):
    if c == TRUE:
        return a
    if c == FALSE:
        return b
    if a == b:
        return a
    if b == TRUE:
        return disj([neg(c), a])
    if a == TRUE:
        return disj([c, b])
    if b == FALSE:
        return conj([c, a])
    if a == FALSE:
        return conj([neg(c), b])
    n = neg(c)
    if repr(n) < repr(c):
        return ("if", n, b, a)
    return ("if", c, a, b)


def rename(e, m, depth):
    """Bound names by depth; folds over independent generators ordered by their domains."""
    if not isinstance(e, tuple):
        return e
    if len(e) == 2 and e[0] == "id":
        return ("id", m.get(e[1], e[1]))
    if e and e[0] == "comp" and len(e) == 5 or e and e[0] == "fold":
        gs = list(e[3])
        if e[0] == "fold":
            done, order = set(), []
            mine = {n[1] for n, _ in gs}
            while gs:
                ready = [g for g in gs if not (names(g[1]) & mine - done)]
                if not ready:
                    raise Bad("generators")
                g = min(ready, key=lambda g: (repr(rename(g[1], m, depth)), gs.index(g)))
                order.append(g)
                gs.remove(g)
                done.add(g[0][1])
            best = None
            for o in orders(order):
                r = body(e, o, m, depth)
                if best is None or repr(r) < repr(best):
                    best = r
            return best
        return body(e, gs, m, depth)
    if e and e[0] == "let" and len(e) == 4 and isinstance(e[1], tuple):
        m = dict(m)
        ds = []
        for n, t in e[1]:
            tt = rename(t, m, depth)
            m[n[1]] = "$%d" % depth
            depth += 1
            ds.append(tt)
        return ("let", tuple(ds), resort(rename(e[2], m, depth)), rename(e[3], m, depth))
    return resort(tuple(rename(x, m, depth) for x in e))


def orders(gs):
    """Permutations of neighbours with the same domain (their names are exchangeable)."""
    yield gs
    for i in range(len(gs) - 1):
        if repr(gs[i][1]) == repr(gs[i + 1][1]):
            yield gs[:i] + [gs[i + 1], gs[i]] + gs[i + 2:]


def body(e, gs, m, depth):
    m = dict(m)
    out = []
    for n, d in gs:
        dd = rename(d, m, depth)
        m[n[1]] = "$%d" % depth
        depth += 1
        out.append(dd)
    cs = tuple(sorted({rename(x, m, depth) for x in e[4]}, key=repr))
    return (e[0], e[1], rename(e[2], m, depth), tuple(out), cs)


def names(e):
    if isinstance(e, tuple):
        if len(e) == 2 and e[0] == "id":
            return {e[1]}
        return set().union(*[names(x) for x in e]) if e else set()
    return set()


def resort(e):
    """Order of commutative operands once the bound names are final."""
    if not e or not isinstance(e[0], str):
        return e
    if e[0] in ("and", "or", "mul", "union", "intersect", "symdiff", "setlit") and len(e) == 2:
        return (e[0], tuple(sorted(e[1], key=repr)))
    if e[0] in ("same", "iff"):
        return (e[0],) + tuple(sorted(e[1:], key=repr))
    if e[0] == "lin":
        return ("lin", tuple(sorted(e[1], key=repr)), e[2])
    if e[0] == "eq":
        q = linear([(e[1], -1)])
        a, b = resort(e[1]), resort(q)
        return ("eq", min(a, b, key=repr))
    return e


def show(e):
    """Readable text of a normal form."""
    if not isinstance(e, tuple):
        return str(e)
    if not e:
        return ""
    k = e[0]
    if not isinstance(k, str):
        return ", ".join(show(x) for x in e)
    if k in ("id", "n", "s"):
        return str(e[1])
    if k == "b":
        return str(e[1]).lower()
    if k == "lin":
        s = " + ".join((show(t) if c == 1 else "%s*%s" % (c, show(t))) for t, c in e[1])
        return "(%s%s)" % (s, " + %s" % e[2] if e[2] else "")
    if k in ("le", "lt", "eq"):
        return "0 %s %s" % ({"le": "<=", "lt": "<", "eq": "="}[k], show(e[1]))
    if k in ("and", "or", "mul"):
        return "(" + {"and": " /\\ ", "or": " \\/ ", "mul": " * "}[k].join(show(x) for x in e[1]) + ")"
    if k == "at":
        return "%s[%s]" % (show(e[1]), show(e[2]))
    if k == "fold":
        return "%s(%s%s)(%s)" % (e[1], show(e[3]), " where " + show(e[4]) if e[4] else "", show(e[2]))
    if k == "call":
        return "%s(%s)" % (e[1], show(e[2]))
    return "%s(%s)" % (k, ", ".join(show(x) for x in e[1:]))


class Model:
    """items: the normal forms of constraints, decision variables, goal and required overrides; par: parameters to be given."""

    def __init__(self, text, keep=None):
        """keep: the names of the reference's variables; others that are defined by an expression are replaced by it."""
        raw = Parser(text).model()
        n = Norm(raw, keep)
        INTEGRAL[0] = n.integral
        self.par, self.vars, self.includes = {}, {}, set()
        out = set()
        assigned = {x[1]: x[2] for x in raw if x[0] == "assign"}
        used = set()

        def final(e):
            return rename(n.simp(n.ev(e, {})), {}, 0)

        for x in raw:
            if x[0] == "include":
                self.includes.add(x[1])
            elif x[0] == "constraint":
                for y in conjuncts(final(x[1])):
                    out.add(("constraint", y))
            elif x[0] == "solve":
                out.add(("solve", x[1], final(x[2]) if x[2] is not None else None))
            elif x[0] == "decl":
                if x[2] == ("ann",) or x[2][0] == "ann":
                    continue
                v = x[3] if x[3] is not None else assigned.get(x[1])
                t = rename(n.sty(n.ty(x[2], {})), {}, 0)
                if x[1] in n.defs:
                    continue
                if isvar(x[2]):
                    self.vars[x[1]] = t
                    out.add(("variable", x[1], t))
                    if v is not None:
                        for y in conjuncts(rename(n.equal(("id", x[1]), n.simp(n.ev(v, {}))), {}, 0)):
                            out.add(("constraint", y))
                elif v is None:
                    self.par[x[1]] = t
                    out.add(("parameter", x[1], t))
            elif x[0] == "fun" and x[4] is not None:
                ps = {p: ("id", "@%d" % i) for i, (p, _) in enumerate(x[2])}
                for (p, t), q in zip(x[2], ps.values()):
                    if isvar(t):
                        n.vars.add(q[1])
                n.busy.append(x[1])
                e = rename(n.simp(n.ev(x[4], ps)), {}, 0)
                n.busy.pop()
                self.funs = getattr(self, "funs", {})
                self.funs[x[1]] = (tuple(rename(n.sty(n.ty(t, {})), {}, 0) for _, t in x[2]), e)
        self.funs = getattr(self, "funs", {})
        self.items = out


def load(path, keep=None):
    return Model(open(path, encoding="utf-8").read(), keep)
