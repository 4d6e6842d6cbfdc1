"""Instruction lengths and calls, derived from the manual's descriptions in /verif/spec."""
import importlib, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec"))
import dsl, uc, isa
from dsl import X

AT = 0x140


def value(x, memo):
    """value at PC0 = AT of an expression that depends on nothing else, or None"""
    k = id(x)
    if k in memo:
        return memo[k]
    memo[k] = r = _value(x, memo)
    return r


def _value(x, memo):
    op, w = x.op, x.w
    m = (1 << w) - 1
    if op[0] == "c":
        return op[2]
    if op[0] == "pc0":
        return AT
    if op[0] in ("f", "fin", "rd", "rdfin", "cnt", "sym", "tab"):
        return None
    a = [value(o, memo) for o in op[1:] if isinstance(o, X)]
    if op[0] == "ite":
        return None if a[0] is None else a[1] if a[0] else a[2]
    if None in a:
        return None
    xs = [o for o in op[1:] if isinstance(o, X)]
    o = op[0]
    if o == "add": return (a[0] + a[1]) & m
    if o == "sub": return (a[0] - a[1]) & m
    if o == "and": return a[0] & a[1]
    if o == "or": return a[0] | a[1]
    if o == "xor": return a[0] ^ a[1]
    if o == "mul": return (a[0] * a[1]) & m
    if o == "shl": return (a[0] << a[1]) & m
    if o == "lshr": return a[0] >> a[1]
    if o == "not": return ~a[0] & m
    if o == "eq": return int(a[0] == a[1])
    if o == "ne": return int(a[0] != a[1])
    if o == "ult": return int(a[0] < a[1])
    if o == "ule": return int(a[0] <= a[1])
    if o in ("tr", "zx"): return a[0] & m
    if o == "sx":
        s = xs[0].w
        return (a[0] | (m & ~((1 << s) - 1)) if a[0] >> (s - 1) & 1 else a[0]) & m
    if o == "bits": return a[0] >> op[2] & m
    if o == "cat":
        r = 0
        for v, e in zip(a, xs):
            r = r << e.w | v
        return r
    return None


def nodes(x, seen):
    if id(x) not in seen:
        seen[id(x)] = x
        for o in x.op:
            if isinstance(o, X):
                nodes(o, seen)


def leaves(x):
    if x.op[0] == "ite":
        return leaves(x.op[2]) | leaves(x.op[3])
    return {x}


def of_spec(m, by, s, longest=6):
    """(length, kind) of the instruction a Spec describes; kind: call, plain (stores no return address) or None"""
    memo, seen = {}, {}
    pc = s.fields.get(m.CPU.kw.get("pc", "PC"))
    if pc is None:
        pc = s.fields.get("PC")
    go = {value(l, memo) for l in leaves(pc)} if pc is not None else {None}
    fall = {v - AT for v in go if v is not None and 0 < v - AT <= longest}
    exprs = list(s.fields.values()) + list(s.assume) + list(s.cnt.values())
    for l in s.mem.values():
        for t in l:
            exprs += t
    for v in s.vals:
        exprs += [v[1], v[2]]
    for e in exprs:
        nodes(e, seen)
    n = max([len(by)] + list(fall))
    for x in list(seen.values()):
        if x.op[0] == "rd" and x.op[1] == m.CPU.code:
            v = value(x.op[2], memo)
            if v is not None and 0 <= v - AT < longest:
                n = max(n, v - AT + 1)
    stored = [value(t[2], memo) for l in s.mem.values() for t in l] + [value(v[1], memo) for v in s.vals] + [value(v[2], memo) for v in s.vals]
    ret = any(v is not None and v in (AT + n, AT + n & 255, AT + n - 1 & 255) for v in stored)
    jumps = go != {AT + n}
    kind = "plain" if not (ret and jumps) else "call" if len(stored) <= 3 else None
    return n, kind


def runs_of(m, only_first=False):
    """opcode bytes -> (id, length, kind)"""
    r = {}
    for id_, by, specs, *_ in m.runs():
        ls = [of_spec(m, by, s) for s in specs]
        n = max(l[0] for l in ls)
        kinds = {l[1] for l in ls}
        k = kinds.pop() if len(kinds) == 1 else None
        key = tuple(by[:1] if only_first else by)
        if m.CPU.name == "avr":  # targets are constants there, and skips look at the next instruction
            op = by[0]
            n = 2 if "kkkk" in id_ else 1
            k = "call" if op & 0xfe0e == 0x940e or op & 0xf000 == 0xd000 or op == 0x9509 else "plain"
        if key not in r or r[key][1] < n:
            r[key] = (id_, n, k)
    return r


def check(modname, only_first=False):
    m = importlib.import_module(modname)
    table = runs_of(m, only_first)
    runs, want = [], {}
    for by, (id_, n, k) in table.items():
        x = dsl.Spec(ret=n, ignore=["cI"]).json()
        runs.append({"id": "length " + id_, "call": "inst_length", "args": ["PC0"], "bytes": list(by), "expect": [x]})
        if k:
            x = dsl.Spec(ret=int(k == "call"), ignore=["cI"]).json()
            runs.append({"id": "is_call " + id_, "call": "is_call", "args": ["PC0"], "bytes": list(by), "expect": [x]})
    return m, uc.analyse(m.CPU, runs)


if __name__ == "__main__":
    for a in sys.argv[1:]:
        m, res = check(a, a in ("isa_s51",))
        tot, vio, und = isa.deviations(res)
        print(a, tot)
        for v in vio + und:
            print("   ", v)
