"""Expressions over the entry state of one instruction, as the manuals describe it.

An expression is a node with a width; it is emitted as JSON for the analysis
engine, which builds it in the same value graph as the program's results."""


class X:
    __slots__ = ("op", "w", "uses", "_id")
    table = {}

    def __new__(cls, op, w):
        key = repr(op) if False else (tuple(o if not isinstance(o, list) else tuple(o) for o in op), w)
        t = X.table.get(key)
        if t is None:
            t = object.__new__(cls)
            t.op, t.w = tuple(op), w
            X.table[key] = t
        return t

    def _c(self, o):
        if isinstance(o, bool):
            o = int(o)
        return C(self.w, o) if isinstance(o, int) else o

    def _b(self, op, o, w=None):
        o = self._c(o)
        return X((op, self, o), w or max(self.w, o.w))

    def __add__(self, o): return self._b("add", o)
    def __radd__(self, o): return self._c(o) + self
    def __sub__(self, o): return self._b("sub", o)
    def __rsub__(self, o): return self._c(o) - self
    def __and__(self, o): return self._b("and", o)
    def __or__(self, o): return self._b("or", o)
    def __xor__(self, o): return self._b("xor", o)
    def __mul__(self, o): return self._b("mul", o)
    def __lshift__(self, o): return self._b("shl", o, self.w)
    def __rshift__(self, o): return self._b("lshr", o, self.w)
    def __invert__(self): return X(("not", self), self.w)
    def eq(self, o): return self._b("eq", o, 1)
    def ne(self, o): return self._b("ne", o, 1)
    def ult(self, o): return self._b("ult", o, 1)
    def ule(self, o): return self._b("ule", o, 1)
    def ugt(self, o): return self._c(o)._b("ult", self, 1)
    def uge(self, o): return self._c(o)._b("ule", self, 1)
    def slt(self, o): return self._b("slt", o, 1)
    def sle(self, o): return self._b("sle", o, 1)
    def udiv(self, o): return self._b("udiv", o)
    def urem(self, o): return self._b("urem", o)
    def sdiv(self, o): return self._b("sdiv", o)
    def srem(self, o): return self._b("srem", o)
    def ashr(self, o): return self._b("ashr", o, self.w)

    def tr(self, w): return self if w == self.w else X(("tr", w, self), w)
    def zx(self, w): return self if w == self.w else X(("zx", w, self), w) if w > self.w else self.tr(w)
    def sx(self, w): return self if w == self.w else X(("sx", w, self), w)

    def bits(self, hi, lo):
        return self if (hi, lo) == (self.w - 1, 0) else X(("bits", hi, lo, self), hi - lo + 1)

    def bit(self, n): return self.bits(n, n)
    def par(self): return X(("par", self), 1)
    def z(self): return self.eq(0)
    def n(self): return self.bit(self.w - 1)


def C(w, v): return X(("c", w, v & ((1 << w) - 1)), w)
def F(name, w): return X(("f", name), w)
def FIN(name, w): return X(("fin", name), w)
def RD(space, addr, w=8): return X(("rd", space, addr), w)
def RDFIN(space, addr, w=8): return X(("rdfin", space, addr), w)
def CNT(name): return X(("cnt", name), 32)
def PC0(): return X(("pc0",), 32)
def SYM(name, w): return X(("sym", name, w), w)
def TAB(vals, w, ix): return X(("tab", tuple(vals), w, ix), w)


def _w(*a):
    w = max([x.w for x in a if isinstance(x, X)] or [1])
    return [C(w, x) if isinstance(x, int) else x for x in a]


def ite(c, a, b):
    a, b = _w(a, b)
    return X(("ite", c, a, b), max(a.w, b.w))


def cat(*p):
    p = [x if isinstance(x, X) else C(1, x) for x in p]
    return X(("cat",) + tuple(p), sum(x.w for x in p))


def and_(*p):
    r = p[0]
    for x in p[1:]:
        r = r & x
    return r


def or_(*p):
    r = p[0]
    for x in p[1:]:
        r = r | x
    return r


def setbits(base, **kw):
    """base with bit positions replaced: setbits(cc, b0=x, b7=y)"""
    parts = []
    for i in range(base.w - 1, -1, -1):
        k = "b%d" % i
        parts.append(_w(kw[k])[0] if k in kw else base.bit(i))
    return cat(*parts)


def addc(a, b, c, w):
    """(result, carry out, overflow, half carry) of a w bit addition"""
    a, b = a.tr(w) if a.w > w else a.zx(w), b.tr(w) if b.w > w else b.zx(w)
    c = c.zx(w + 1) if isinstance(c, X) else C(w + 1, c)
    s = a.zx(w + 1) + b.zx(w + 1) + c
    r = s.tr(w)
    v = ((a ^ r) & (b ^ r)).bit(w - 1)
    h = (a.bits(3, 0).zx(5) + b.bits(3, 0).zx(5) + c.tr(5)).bit(4)
    return r, s.bit(w), v, h


def subb(a, b, c, w):
    """(result, borrow out, overflow, half borrow) of a - b - c"""
    c = c.zx(w + 1) if isinstance(c, X) else C(w + 1, c)
    s = a.zx(w + 1) - b.zx(w + 1) - c
    r = s.tr(w)
    v = ((a ^ b) & (a ^ r)).bit(w - 1)
    h = (a.bits(3, 0).zx(5) - b.bits(3, 0).zx(5) - c.tr(5)).bit(4)
    return r, s.bit(w), v, h


class Emit:
    """turns a set of expressions into engine JSON, sharing common nodes"""

    def __init__(self):
        self.defs, self.names, self.cnt = [], {}, {}

    def count(self, x):
        k = id(x)
        self.cnt[k] = self.cnt.get(k, 0) + 1
        if self.cnt[k] > 1:
            return
        for o in x.op:
            if isinstance(o, X):
                self.count(o)

    def j(self, x):
        k = id(x)
        if k in self.names:
            return ["v", self.names[k]]
        r = [list(o) if isinstance(o, tuple) else self.j(o) if isinstance(o, X) else o for o in x.op]
        if self.cnt.get(k, 0) > 1 and x.op[0] not in ("c",):
            n = "e%d" % len(self.defs)
            self.defs.append([n, r])
            self.names[k] = n
            return ["v", n]
        return r


class Spec:
    """what one instruction does: registers, memory, counters"""

    def __init__(self, **kw):
        self.fields, self.mem, self.cnt, self.assume, self.vals = {}, {}, {}, [], []
        self.ret = kw.get("ret")
        self.ignore, self.ignore_mem = list(kw.get("ignore", [])), list(kw.get("ignore_mem", []))
        self.masks, self.frame = {}, kw.get("frame", True)

    def set(self, name, x, mask=None):
        self.fields[name] = x
        if mask is not None:
            self.masks[name] = mask

    def write(self, space, addr, val, guard=None):
        self.mem.setdefault(space, []).append((guard if guard is not None else C(1, 1), addr, val))

    def json(self):
        e = Emit()
        allx = list(self.fields.values()) + list(self.assume) + list(self.cnt.values())
        for l in self.mem.values():
            for t in l:
                allx += t
        for v in self.vals:
            allx += [v[1], v[2]]
        if isinstance(self.ret, X):
            allx.append(self.ret)
        for x in allx:
            e.count(x)
        r = {"fields": [[n, e.j(x)] + ([self.masks[n]] if n in self.masks else []) for n, x in self.fields.items()],
             "mem": [[s, [[e.j(g), e.j(a), e.j(v)] for g, a, v in l]] for s, l in self.mem.items()],
             "cnt": [[n, e.j(x)] for n, x in self.cnt.items()],
             "vals": [[n, e.j(a), e.j(b)] for n, a, b in self.vals],
             "assume": [e.j(x) for x in self.assume],
             "ignore": self.ignore, "ignore_mem": self.ignore_mem, "frame": self.frame}
        if self.ret is not None:
            r["ret"] = e.j(self.ret) if isinstance(self.ret, X) else ["c", 32, self.ret]
        r["defs"] = e.defs
        return r
