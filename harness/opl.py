"""The integer program of the exact reference solver (P40): an interpreter of the part of OPL that such models use, and the
enumeration of all assignments of its variables.   --mode all | successors | data"""
import itertools, math
import numpy as np
from pylib import *

MODE = arg("--mode", "all")
MODEL = REPO + "/src/CplexSolver/TSPmtz.mod"


class Unsupported(AttributeError):
    """something that this interpreter does not know: nothing is said about the case"""


# ---------------------------------------------------------------- reading the model
TOK = re.compile(r"\s+|//[^\n]*|/\*.*?\*/|(?P<t>\.\.\.|\.\.|==|!=|<=|>=|=>|&&|\|\||\d+\.\d+(?:[eE][-+]?\d+)?|\d+(?:[eE][-+]?\d+)?|\"[^\"]*\"|[A-Za-z_]\w*|[-+*/%^(){}\[\];:,=<>!?|&])", re.S)


def tokens(text):
    out, p = [], 0
    while p < len(text):
        m = TOK.match(text, p)
        if not m or m.end() == p:
            raise Unsupported("character %r" % text[p:p + 20])
        if m.group("t"):
            out.append(m.group("t"))
        p = m.end()
    return out


TYPES = ("int", "float", "boolean", "string")


class Parser:
    def __init__(self, text):
        self.t, self.p = tokens(text), 0

    def peek(self, k=0):
        return self.t[self.p + k] if self.p + k < len(self.t) else ""

    def next(self):
        self.p += 1
        return self.t[self.p - 1] if self.p <= len(self.t) else ""

    def want(self, x):
        y = self.next()
        if y != x:
            raise Unsupported("%r instead of %r after %s" % (y, x, " ".join(self.t[max(0, self.p - 9):self.p - 1])))

    def accept(self, x):
        if self.peek() == x:
            self.p += 1
            return True
        return False

    def skip_block(self):
        self.want("{")
        d = 1
        while d:
            x = self.next()
            if x == "":
                raise Unsupported("block without end")
            d += (x == "{") - (x == "}")

    def model(self):
        out = []
        while self.peek():
            x = self.peek()
            if x == ";":
                self.next()
            elif x in ("execute", "main"):
                self.next()
                if self.peek() != "{":
                    self.next()
                self.skip_block()
            elif x in ("minimize", "maximize"):
                self.next()
                out.append(("objective", x, self.expr())); self.want(";")
            elif x == "subject" or x == "constraints":
                self.next()
                if x == "subject":
                    self.want("to")
                out.append(("constraints", self.block()))
                self.accept(";")
            elif x == "dvar":
                self.next()
                k = self.next()
                plus = self.accept("+")
                name, dims = self.name()
                dom = None
                if self.accept("in"):
                    dom = self.expr()
                out.append(("dvar", k + ("+" if plus else ""), name, dims, dom)); self.want(";")
            elif x == "dexpr":
                self.next(); self.next(); self.accept("+")
                name = self.next(); gens = []
                while self.peek() == "[":
                    self.next(); gens.append(self.generators("]")); self.want("]")
                self.want("=")
                out.append(("dexpr", name, gens, self.expr())); self.want(";")
            elif x == "range" or x == "{" or x in TYPES:
                if x == "{":
                    self.next(); self.next(); self.want("}")
                else:
                    self.next(); self.accept("+")
                name, dims = self.name()
                val = None
                if self.accept("="):
                    val = "..." if self.accept("...") else self.expr()
                out.append(("data", x, name, dims, val)); self.want(";")
            elif x == "assert":
                while self.next() not in (";", ""):
                    pass
            else:
                raise Unsupported("statement %s" % x)
        return out

    def name(self):
        n, dims = self.next(), []
        while self.accept("["):
            dims.append(self.expr())
            while self.accept(","):
                dims.append(self.expr())
            self.want("]")
        return n, dims

    def generators(self, end):
        """[(names, set, condition)]"""
        out = []
        while True:
            ordered = self.accept("ordered")
            names = [self.next()]
            while self.accept(","):
                names.append(self.next())
            self.want("in")
            s = self.expr()
            cond = self.cond() if self.accept(":") else None
            out.append((names, s, cond, ordered))
            if not self.accept(","):
                break
        if self.peek() != end:
            raise Unsupported("generator %s" % self.peek())
        return out

    def block(self):
        self.want("{")
        out = []
        while not self.accept("}"):
            out.append(self.constraint())
        return out

    def constraint(self):
        x = self.peek()
        if x == ";":
            self.next()
            return ("block", [])
        if x == "{":
            return ("block", self.block())
        if x == "forall":
            self.next(); self.want("(")
            g = self.generators(")"); self.want(")")
            return ("forall", g, self.constraint())
        if x == "if":
            self.next(); self.want("("); c = self.cond(); self.want(")")
            a = self.constraint()
            return ("if", c, a, self.constraint() if self.accept("else") else None)
        if re.match(r"[A-Za-z_]", x):
            # a label, with indices or not
            k = 1
            while self.peek(k) == "[":
                while self.peek(k) not in ("]", ""):
                    k += 1
                k += 1
            if self.peek(k) == ":":
                self.p += k + 1
                return self.constraint()
        e = [self.expr()]
        ops = []
        while self.peek() in ("==", "<=", ">="):
            ops.append(self.next()); e.append(self.expr())
        if not ops:
            raise Unsupported("constraint with %s" % self.peek())
        self.want(";")
        return ("rel", e, ops)

    # expressions
    def cond(self):
        a = self.conj()
        while self.accept("||"):
            a = ("or", a, self.conj())
        return a

    def conj(self):
        a = self.atom()
        while self.accept("&&"):
            a = ("and", a, self.atom())
        return a

    def atom(self):
        if self.accept("!"):
            return ("not", self.atom())
        if self.peek() == "(":
            p = self.p
            try:
                self.next(); c = self.cond(); self.want(")")
                if self.peek() not in ("==", "!=", "<=", ">=", "<", ">", "+", "-", "*", "/", "%"):
                    return c
            except Unsupported:
                pass
            self.p = p
        e, ops = [self.expr()], []
        while self.peek() in ("==", "!=", "<=", ">=", "<", ">", "in"):
            ops.append(self.next()); e.append(self.expr())
        return ("cmp", e, ops) if ops else e[0]

    def expr(self):
        a = self.additive()
        if self.accept(".."):
            return ("range", a, self.additive())
        while self.peek() in ("union", "inter", "diff", "symdiff"):
            a = (self.next(), a, self.additive())
        if self.accept("?"):
            b = self.expr(); self.want(":")
            return ("?", a, b, self.expr())
        return a

    def additive(self):
        a = self.mult()
        while self.peek() in ("+", "-"):
            a = (self.next(), a, self.mult())
        return a

    def mult(self):
        a = self.unary()
        while self.peek() in ("*", "/", "%", "div", "mod"):
            a = (self.next(), a, self.unary())
        return a

    def unary(self):
        x = self.peek()
        if x == "-":
            self.next()
            return ("neg", self.unary())
        if x == "+":
            self.next()
            return self.unary()
        if x in ("sum", "prod", "max", "min") and self.peek(1) == "(":
            p = self.p
            try:
                self.next(); self.next()
                g = self.generators(")"); self.want(")")
                return ("sum" if x == "sum" else x, g, self.mult())
            except Unsupported:
                self.p = p
        return self.primary()

    def primary(self):
        x = self.next()
        if x == "(":
            a = self.expr()
            if self.peek() in ("==", "!=", "<=", ">=", "<", ">"):
                ops, e = [], [a]
                while self.peek() in ("==", "!=", "<=", ">=", "<", ">"):
                    ops.append(self.next()); e.append(self.expr())
                a = ("cmp", e, ops)
            self.want(")")
            return a
        if re.match(r"\d", x):
            return ("num", float(x) if re.search(r"[.eE]", x) else int(x))
        if x == "{":
            if self.accept("}"):
                return ("set", [])
            a = self.expr()
            if self.accept("|"):
                g = self.generators("}"); self.want("}")
                return ("compr", a, g)
            e = [a]
            while self.accept(","):
                e.append(self.expr())
            self.want("}")
            return ("set", e)
        if re.match(r"[A-Za-z_]", x):
            if self.peek() == "(":
                self.next(); e = []
                while not self.accept(")"):
                    e.append(self.expr()); self.accept(",")
                return ("call", x, e)
            idx = []
            while self.accept("["):
                idx.append(self.expr())
                while self.accept(","):
                    idx.append(self.expr())
                self.want("]")
            return ("ref", x, idx)
        raise Unsupported("expression with %s" % x)


# ---------------------------------------------------------------- its meaning for given data: a linear program
class Lin:
    def __init__(self, c=0, v=None):
        self.c, self.v = c, v or {}


def lin(x):
    return x if isinstance(x, Lin) else Lin(x)


def num(x):
    if isinstance(x, Lin):
        if any(x.v.values()):
            raise Unsupported("a condition on a variable")
        return x.c
    return x


def add(a, b, s=1):
    if not isinstance(a, Lin) and not isinstance(b, Lin):
        return a + s * b
    a, b = lin(a), lin(b)
    v = dict(a.v)
    for k, q in b.v.items():
        v[k] = v.get(k, 0) + s * q
    return Lin(a.c + s * b.c, v)


def mul(a, b):
    if not isinstance(a, Lin) and not isinstance(b, Lin):
        return a * b
    if isinstance(a, Lin) and isinstance(b, Lin):
        if any(a.v.values()) and any(b.v.values()):
            raise Unsupported("a product of variables")
        if any(b.v.values()):
            a, b = b, a
        b = b.c
    elif isinstance(b, Lin):
        a, b = b, a
    return Lin(a.c * b, {k: q * b for k, q in a.v.items()})


class Program:
    """variables: {name: (type, lower, upper)}; rows: (coefficients, op, right hand side); objective: (sense, coefficients)"""
    def __init__(self, ast, data):
        self.var, self.rows, self.obj, self.env, self.external, self.arrays, self.dexpr = {}, [], None, {}, [], {}, {}
        for s in ast:
            if s[0] == "data":
                _, kind, name, dims, val = s
                if val == "...":
                    self.external.append(name)
                    if name not in data:
                        fail("the model reads %s, which the data files do not have" % name)
                    self.env[name] = data[name]
                    if dims and kind != "range":
                        dd = [list(self.ev(d, {})) for d in dims]
                        self.env[name] = self.array(data[name], dd, name)
                elif dims:
                    raise Unsupported("array %s" % name)
                else:
                    self.env[name] = self.ev(val, {})
            elif s[0] == "dvar":
                _, kind, name, dims, dom = s
                dd = [list(self.ev(d, {})) for d in dims]
                lo, hi = (0, None) if kind.endswith("+") else (0, 1) if kind == "boolean" else (None, None)
                if dom is not None:
                    r = list(self.ev(dom, {}))
                    lo, hi = min(r), max(r)
                if kind not in ("boolean", "int", "int+", "float", "float+"):
                    raise Unsupported("variables of type %s" % kind)
                self.arrays[name] = dd
                for ix in itertools.product(*dd):
                    self.var[(name,) + ix] = (kind, lo, hi)
            elif s[0] == "dexpr":
                self.dexpr[s[1]] = (s[2], s[3])
            elif s[0] == "objective":
                self.obj = (s[1], lin(self.ev(s[2], {})))
            else:
                for c in s[1]:
                    self.con(c, {})

    def array(self, v, dims, name):
        if not dims:
            return v
        if len(v) != len(dims[0]):
            fail("%s has %d elements for %d indices" % (name, len(v), len(dims[0])))
        return {k: self.array(x, dims[1:], name) for k, x in zip(dims[0], v)}

    def gen(self, gens, env):
        if not gens:
            yield env
            return
        names, s, cond, ordered = gens[0]
        vals = list(self.ev(s, env))
        for t in itertools.combinations(vals, len(names)) if ordered else itertools.product(vals, repeat=len(names)):
            e = dict(env, **dict(zip(names, t)))
            if cond is None or num(self.ev(cond, e)):
                yield from self.gen(gens[1:], e)

    def con(self, c, env):
        if c[0] == "block":
            for x in c[1]:
                self.con(x, env)
        elif c[0] == "forall":
            for e in self.gen(c[1], env):
                self.con(c[2], e)
        elif c[0] == "if":
            b = c[2] if num(self.ev(c[1], env)) else c[3]
            if b:
                self.con(b, env)
        else:
            e = [self.ev(x, env) for x in c[1]]
            for a, op, b in zip(e, c[2], e[1:]):
                d = lin(add(a, b, -1))
                self.rows.append(({k: q for k, q in d.v.items() if q}, op, -d.c))

    def ev(self, x, env):
        k = x[0]
        if k == "num":
            return x[1]
        if k == "ref":
            _, name, idx = x
            ix = [num(self.ev(i, env)) for i in idx]
            if name in env and not ix:
                return env[name]
            if name in self.arrays:
                if (name,) + tuple(ix) not in self.var:
                    fail("the model refers to %s%s, which does not exist" % (name, ix))
                return Lin(0, {(name,) + tuple(ix): 1})
            if name in self.dexpr:
                g, b = self.dexpr[name]
                names = [n for q in g for n in q[0][0]]
                return self.ev(b, dict(env, **dict(zip(names, ix))))
            if name not in self.env:
                raise Unsupported("name %s" % name)
            v = self.env[name]
            for i in ix:
                if i not in v:
                    fail("the model refers to %s%s, which does not exist" % (name, ix))
                v = v[i]
            return v
        if k == "+":
            return add(self.ev(x[1], env), self.ev(x[2], env))
        if k == "-":
            return add(self.ev(x[1], env), self.ev(x[2], env), -1)
        if k == "neg":
            return mul(self.ev(x[1], env), -1)
        if k == "*":
            return mul(self.ev(x[1], env), self.ev(x[2], env))
        if k == "/":
            b = num(self.ev(x[2], env))
            if not b:
                fail("the model divides by zero")
            return mul(self.ev(x[1], env), 1 / b)
        if k in ("%", "mod", "div"):
            a, b = num(self.ev(x[1], env)), num(self.ev(x[2], env))
            return int(math.fmod(a, b)) if k != "div" else int(a / b)
        if k == "range":
            return range(int(num(self.ev(x[1], env))), int(num(self.ev(x[2], env))) + 1)
        if k == "sum":
            t = 0
            for e in self.gen(x[1], env):
                t = add(t, self.ev(x[2], e))
            return t
        if k in ("prod", "max", "min"):
            v = [num(self.ev(x[2], e)) for e in self.gen(x[1], env)]
            return math.prod(v) if k == "prod" else max(v) if k == "max" else min(v)
        if k == "?":
            return self.ev(x[2] if num(self.ev(x[1], env)) else x[3], env)
        if k == "set":
            return [num(self.ev(e, env)) for e in x[1]]
        if k == "compr":
            return [num(self.ev(x[1], e)) for e in self.gen(x[2], env)]
        if k in ("union", "inter", "diff", "symdiff"):
            a, b = list(self.ev(x[1], env)), list(self.ev(x[2], env))
            return [q for q in a if q in b] if k == "inter" else [q for q in a if q not in b] + ([q for q in b if q not in a] if k != "diff" else []) + ([q for q in a if q in b] if k == "union" else [])
        if k == "cmp":
            e, ok = [self.ev(q, env) for q in x[1]], True
            for a, op, b in zip(e, x[2], e[1:]):
                if op == "in":
                    ok = ok and num(a) in list(b)
                    continue
                a, b = num(a), num(b)
                ok = ok and {"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
            return ok
        if k == "and":
            return num(self.ev(x[1], env)) and num(self.ev(x[2], env))
        if k == "or":
            return num(self.ev(x[1], env)) or num(self.ev(x[2], env))
        if k == "not":
            return not num(self.ev(x[1], env))
        if k == "call":
            a = [self.ev(q, env) for q in x[2]]
            if x[1] == "card":
                return len(list(a[0]))
            if x[1] == "asSet":
                return a[0]
            if x[1] in ("abs", "ceil", "floor", "maxl", "minl"):
                v = [num(q) for q in a]
                return {"abs": lambda: abs(v[0]), "ceil": lambda: math.ceil(v[0]), "floor": lambda: math.floor(v[0]), "maxl": lambda: max(v), "minl": lambda: min(v)}[x[1]]()
        raise Unsupported("%s" % (x[:2],))


def others_possible(rows, others):
    """can the variables that are not edges be chosen? rows: [({variable: coefficient}, op, b)]"""
    names = {v: k + 1 for k, v in enumerate(others)}
    arcs, general = [], []
    for co, op, b in rows:
        for sg in ([1, -1] if op == "==" else [1] if op == "<=" else [-1]):
            c = {v: sg * q for v, q in co.items() if q}
            r = sg * b
            if not c:
                if r < -1e-9:
                    return False
            elif len(c) == 1:
                (v, q), = c.items()
                arcs.append((0, names[v], r / q) if q > 0 else (names[v], 0, r / -q))      # v <= r/q  or  -v <= r/-q
            elif len(c) == 2 and sum(c.values()) == 0:
                (a, qa), (d, qd) = c.items()
                if qa < 0:
                    a, qa, d, qd = d, qd, a, qa
                arcs.append((names[d], names[a], r / qa))                                   # a - d <= r/q
            else:
                general.append((c, r))
    for v, (kind, lo, hi) in others.items():
        if lo is not None:
            arcs.append((names[v], 0, -lo))
        if hi is not None:
            arcs.append((0, names[v], hi))
    if not general:
        d = [0.0] * (len(names) + 1)
        for _ in range(len(d) + 1):
            ch = False
            for a, b, w in arcs:
                if d[a] + w < d[b] - 1e-9:
                    d[b] = d[a] + w
                    ch = True
            if not ch:
                return True
        return False
    from scipy.optimize import linprog
    n = len(names)
    A, B = [], []
    for a, b, w in arcs:
        r = [0] * (n + 1); r[b] += 1; r[a] -= 1
        A.append(r[1:]); B.append(w)
    for c, r in general:
        row = [0] * n
        for v, q in c.items():
            row[names[v] - 1] = q
        A.append(row); B.append(r)
    return linprog([0] * n, A_ub=A, b_ub=B, bounds=[(None, None)] * n).status == 0


class Checked:
    def __init__(self, n, cost):
        self.n, self.cost = n, cost
        P = Program(AST(), {"n": n, "Cost": cost})
        if P.obj is None:
            fail("the model has no objective")
        E = sorted({v[0] for v, q in P.obj[1].v.items() if q})
        if len(E) != 1 or [list(q) for q in P.arrays[E[0]]] != [list(range(1, n + 1))] * 2:
            raise Unsupported("the variables of the edges are not recognised")
        kinds = {P.var[v] for v in P.var if v[0] == E[0]}
        if any(k[0].startswith("float") for k in kinds):
            fail("the variables of the edges are not integer")
        if any(k[1] is None or k[1] > 0 or (k[2] is not None and k[2] < 1) for k in kinds):
            raise Unsupported("the range of the variables of the edges")
        self.P, self.x = P, E[0]
        self.others = {v: t for v, t in P.var.items() if v[0] != self.x}
        if any(t[0] == "boolean" for t in self.others.values()):
            raise Unsupported("other binary variables")
        self.pure = [r for r in P.rows if all(v[0] == self.x for v in r[0])]
        self.mixed = [r for r in P.rows if any(v[0] != self.x for v in r[0])]
        self.A = np.array([[r[0].get((self.x, i + 1, j + 1), 0) for i in range(n) for j in range(n)] for r in self.pure], dtype=float).reshape(len(self.pure), n * n)
        self.b = np.array([r[2] for r in self.pure], dtype=float)
        self.op = [r[1] for r in self.pure]
        sg = 1 if P.obj[0] == "minimize" else -1
        for i in range(n):
            for j in range(n):
                q = sg * P.obj[1].v.get((self.x, i + 1, j + 1), 0)
                if i != j and abs(q - cost[i][j]) > 1e-9 * (1 + abs(cost[i][j])):
                    fail("with %d cities and costs %s the edge from %d to %d counts %r in the objective instead of %r" % (n, cost, i + 1, j + 1, q, cost[i][j]))
                if i == j and q < -1e-9:
                    fail("staying in city %d makes the objective better" % (i + 1))

    def feasible(self, X):
        """which rows of X (a 0/1 matrix of edges each) are admitted"""
        V = X @ self.A.T - self.b
        ok = np.ones(len(X), dtype=bool)
        for k, op in enumerate(self.op):
            ok &= np.abs(V[:, k]) < 1e-9 if op == "==" else V[:, k] < 1e-9 if op == "<=" else V[:, k] > -1e-9
        n = self.n
        for k in np.nonzero(ok)[0]:
            rows = []
            for co, op, b in self.mixed:
                for v, q in co.items():
                    if v[0] == self.x:
                        b = b - q * X[k][(v[1] - 1) * n + v[2] - 1]
                rows.append(({v: q for v, q in co.items() if v[0] != self.x}, op, b))
            ok[k] = others_possible(rows, self.others)
        return ok


_AST = []


def AST():
    if not _AST:
        _AST.append(Parser(open(MODEL).read()).model())
    return _AST[0]


CHECKED = {}


def checked(n, k):
    if (n, k) not in CHECKED:
        CHECKED[n, k] = Checked(n, costs(n, k))
    return CHECKED[n, k]


def costs(n, k):
    """k = 0, 1: symmetric, the second with decimals; 2: asymmetric"""
    return [[0 if i == j else [(i - j) ** 2 + i + j, round(0.37 * abs(i - j) + 0.01 * (i * j), 4), (3 * i + 7 * j + i * j) % 11 + 1][k] for j in range(n)] for i in range(n)]


def is_tour(off):
    """off: set of edges (i, j) with i != j, as an n x n 0/1 array without its diagonal"""
    n = len(off)
    if (off.sum(0) != 1).any() or (off.sum(1) != 1).any():
        return False
    c, seen = 0, 0
    while True:
        c = int(np.argmax(off[c])); seen += 1
        if c == 0:
            return seen == n


def judge(C, X, what):
    n = C.n
    ok = C.feasible(X)
    M = X.reshape(len(X), n, n)
    diag = M[:, range(n), range(n)].any(axis=1)
    for k in range(len(X)):
        off = M[k] * (1 - np.eye(n))
        if not ok[k] and diag[k]:
            continue
        if not ok[k] and ((off.sum(0) != 1).any() or (off.sum(1) != 1).any()):
            continue
        t = is_tour(off)
        if t:
            count("tours")
        edges = [(int(a) + 1, int(b) + 1) for a, b in np.argwhere(M[k])]
        if ok[k] and not t:
            fail("with %d cities the model admits the edges %s, which are not a tour of all cities" % (n, edges))
        if t and not ok[k]:
            fail("with %d cities the model excludes the tour %s" % (n, edges))
        if t:
            outcome((n, edges))
    count("executions", len(X)); count("transitions", len(X) * (len(C.P.rows)))


CHUNK = 4096


def case_all(i, ctx=None):
    """every assignment of 0 and 1 to the edges"""
    n, k, bits, base = next((n, k, bits, base) for n, k, bits, base in reversed(ALLS) if base <= i)
    note("%d cities, all assignments, costs %d" % (n, k))
    C = checked(n, k)
    codes = np.arange((i - base) * CHUNK, min((i - base + 1) * CHUNK, 2 ** bits), dtype=np.int64)
    if bits == n * n:
        X = ((codes[:, None] >> np.arange(bits)[None]) & 1).astype(float)
    else:
        pos = [a * n + b for a in range(n) for b in range(n) if a != b]
        X = np.zeros((len(codes), n * n)); X[:, pos] = (codes[:, None] >> np.arange(bits)[None]) & 1
    judge(C, X, "all")
    if i % 50 == 1:
        sample("%d cities: assignments %d to %d" % (n, codes[0], codes[-1]))


def case_succ(i, ctx=None):
    """every function from the cities to their successors (or predecessors), or every permutation"""
    n, kind, total, base = next(s for s in reversed(SUCC) if s[3] <= i)
    C = checked(n, 2 if n % 2 else 0)
    lo, hi = (i - base) * CHUNK, min((i - base + 1) * CHUNK, total)
    note("%d cities, %s %d to %d" % (n, kind, lo, hi))
    codes = np.arange(lo, hi, dtype=np.int64)
    F = np.zeros((len(codes), n), dtype=np.int64)
    if kind == "permutations":
        rest = [list(range(n)) for _ in codes]
        c = codes.copy()
        for a in range(n):
            r = c % (n - a); c //= n - a
            for q in range(len(codes)):
                F[q, a] = rest[q].pop(int(r[q]))
    else:
        c = codes.copy()
        for a in range(n):
            F[:, a] = c % n; c //= n
    X = np.zeros((len(codes), n, n))
    for a in range(n):
        X[np.arange(len(codes)), a, F[:, a]] = 1
    if kind == "predecessors":
        X = X.transpose(0, 2, 1)
    judge(C, X.reshape(len(codes), n * n).copy(), kind)
    if i % 50 == 1:
        sample(S.note)


def case_data(i, ctx=None):
    """the data files in the repository, and the objective for every number of cities"""
    if i < len(DATS):
        t = open(DATS[i]).read()
        note(DATS[i])
        m = re.match(r"\s*n\s*=\s*(\d+)\s*;\s*Cost\s*=\s*\[(.*)\]\s*;\s*$", t, re.S)
        if not m:
            fail("%s does not give n and Cost" % DATS[i])
        n = int(m.group(1))
        M = [[float(q) for q in r.split(",")] for r in re.findall(r"\[([^\[\]]*)\]", m.group(2))]
        if len(M) != n or any(len(r) != n for r in M):
            fail("%s: n is %d, but there are %d rows of %s" % (DATS[i], n, len(M), sorted(set(map(len, M)))))
        C = Checked(n, M)
    else:
        n, k = 3 + (i - len(DATS)) // 3, (i - len(DATS)) % 3
        note("%d cities, costs %d" % (n, k))
        C = Checked(n, costs(n, k))
    # every rotation and every pair of subtours that splits the cities at one point
    X = []
    for s in range(1, n):
        if math.gcd(s, n) == 1:
            x = np.zeros((n, n)); x[range(n), [(q * 1 + s) % n for q in range(n)]] = 1; X.append(x)
    for s in range(2, n - 1):
        x = np.zeros((n, n))
        for q in range(n):
            x[q, (q + 1 if q + 1 < s else 0) if q < s else (q + 1 if q + 1 < n else s)] = 1
        X += [x, x[::-1, ::-1].copy()]
    judge(C, np.array(X).reshape(len(X), n * n), "data")
    if i % 10 == 0:
        sample(S.note)


if __name__ == "__main__":
    if MODE == "all":
        ALLS, total = [], 0
        for n, k, bits in ([(2, 0, 4), (2, 1, 4), (3, 0, 9), (3, 1, 9), (3, 2, 9), (4, 0, 16), (4, 2, 16), (5, 0, 20)]):
            ALLS.append((n, k, bits, total)); total += -(-2 ** bits // CHUNK)
        sys.exit(run("model all assignments", total, case_all))
    if MODE == "successors":
        SUCC, total = [], 0
        for n in [5, 6] + ([7] if argi("--deep") else []):
            for kind in ("successors", "predecessors"):
                SUCC.append((n, kind, n ** n, total)); total += -(-n ** n // CHUNK)
        for n in [7, 8] + ([9] if argi("--deep") else []):
            SUCC.append((n, "permutations", math.factorial(n), total)); total += -(-math.factorial(n) // CHUNK)
        sys.exit(run("model successors", total, case_succ))
    DATS = sorted(os.path.join(d, f) for d, _, fs in os.walk(REPO + "/src/CplexSolver") for f in fs if f.endswith(".dat"))
    sys.exit(run("model data", len(DATS) + 3 * (48 if argi("--deep") else 22), case_data))
