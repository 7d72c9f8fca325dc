"""Equality of two integer expressions of the analysis: shown by the facts or by cases on the residue
of the lengths involved; refuted by values that satisfy every fact the state has."""
import os
import random
from eng import *

DEBUG = os.environ.get('VERIF_DEBUG')
WRAP = ('xb', 'div', 'rem', 'lin', 'wrap', 'b2i', 'mul', 'Div', 'Rem', 'BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr')


# atoms whose value is given from outside; others stand for values the analysis has joined
GIVEN = ('elem', 'fld', 'len', 'arg', 'deref', 'hc', 'q8')


def isl(x):
    return hasattr(x, 'm') and hasattr(x, 'c')


# ------------------------------------------------------------------ symbolic
class Norm:
    def __init__(self, sub, st=None):
        self.sub = sub
        self.st = st
        self.memo = {}

    def lin(self, l):
        r = K(l.c)
        for t, c in l.m:
            r = r + self.term(t).scale(c)
        return r

    def term(self, t):
        if t not in self.memo:
            self.memo[t] = self.term1(t)
        return self.memo[t]

    def term1(self, t):
        if t in self.sub:
            return self.sub[t]
        k = TERMS[t]
        if k[0] == 'lin':
            return self.lin(k[1])
        if k[0] == 'xb':
            return self.xb(self.term(k[1]), k[2], k[3])
        if k[0] in ('div', 'rem') and isinstance(k[2], int):
            l, d = self.term(k[1]), k[2]
            if all(c % d == 0 for _, c in l.m):
                return K(l.c % d) if k[0] == 'rem' else self.quo(l, d)
            return S(T(k[0], self.name(l), d))
        if k[0] == 'wrap':
            l = self.lin(k[1])
            w, sg = INT[k[2]][0], INT[k[2]][1]
            if not sg and all(c % (1 << w) == 0 for _, c in l.m):
                return K(l.c % (1 << w))
            return S(T('wrap', l, k[2]))
        if k[0] in ('BitOr', 'BitXor', 'BitAnd') and isl(k[1]) and isl(k[2]):
            x, y = self.lin(k[1]), self.lin(k[2])
            for a, b in ((x, y), (y, x)):
                # a multiple of a power of two, and a number below it
                z = min([(c & -c).bit_length() - 1 for _, c in a.m] + [(a.c & -a.c).bit_length() - 1 if a.c else 64])
                hi = interval(b)[1]
                for w in range(1, z + 1) if self.nonneg(a) and self.nonneg(b) else ():
                    if hi is not None and hi < 1 << w or self.st is not None and self.st.holds_le(b - ((1 << w) - 1)):
                        return K(0) if k[0] == 'BitAnd' else a + b
            if x.const() is not None and y.const() is not None:
                return K(ev1((k[0], x, y), {}))
            return S(T(k[0], *sorted([x, y])))
        return S(t)

    def nonneg(self, l):
        lo = interval(l)[0]
        return lo is not None and lo >= 0

    def quo(self, l, d):
        r = K(l.c // d)
        for t, c in l.m:
            r = r + S(t).scale(c // d)
        return r

    def name(self, l):
        return l.single() if l.single() is not None else T('lin', l)

    def xb(self, l, lo, n):
        M = 1 << (lo + n)
        if all(c % M == 0 for _, c in l.m):
            return K((l.c % M) >> lo)
        s = l.single()
        if s is not None and TERMS[s][0] == 'nxb':
            k = TERMS[s]
            return self.xb(k[1], k[2] + lo, min(n, k[3] - lo)) if lo < k[3] else K(0)
        if lo and l.m:
            # the bits below the lowest coefficient carry nothing up
            j = min([lo] + [(c & -c).bit_length() - 1 for _, c in l.m])
            if j:
                return self.xb(self.quo(l, 1 << j), lo - j, n)
        r = K(l.c % M)
        for t, c in l.m:
            r = r + S(t).scale(c % M)
        t = T('nxb', r, lo, n)
        bound(t, 0, (1 << n) - 1)
        return S(t)


def leaves(l, out, seen=None):
    seen = set() if seen is None else seen
    for t, _ in l.m:
        leaf_term(t, out, seen)
    return out


def leaf_term(t, out, seen):
    if t in seen:
        return
    seen.add(t)
    k = TERMS[t]
    if k[0] not in WRAP:
        out.add(t)
        return
    for x in k[1:]:
        if isl(x):
            leaves(x, out, seen)
        elif k[0] == 'b2i' and isinstance(x, tuple):
            cond_leaves(x, out, seen)
    if k[0] in ('xb', 'div', 'rem') and isinstance(k[1], int):
        leaf_term(k[1], out, seen)


def cond_leaves(c, out, seen):
    for x in c[1:]:
        if isl(x):
            leaves(x, out, seen)
        elif isinstance(x, tuple):
            cond_leaves(x, out, seen)
    if c[0] == 'p':
        out.add(('p', c[1]))


# ------------------------------------------------------------------ concrete
class No(Exception):
    pass


def ev_lin(l, env):
    return l.c + sum(c * ev(t, env) for t, c in l.m)


def ev(t, env):
    if t in env:
        return env[t]
    k = TERMS[t]
    if k[0] not in WRAP:
        raise No
    r = ev1(k, env)
    env[t] = r
    return r


def ev1(k, env):
    a = k[0]
    if a == 'lin':
        return ev_lin(k[1], env)
    if a == 'xb':
        return (ev(k[1], env) >> k[2]) & ((1 << k[3]) - 1)
    if a == 'div':
        return ev(k[1], env) // k[2]
    if a == 'rem':
        return ev(k[1], env) % k[2]
    if a == 'wrap':
        w, sg = INT[k[2]][0], INT[k[2]][1]
        v = ev_lin(k[1], env) & ((1 << w) - 1)
        return v - (1 << w) if sg and v >> (w - 1) else v
    if a == 'b2i':
        return int(ev_cond(k[1], env))
    x, y = (ev_lin(z, env) if isl(z) else ev(z, env) for z in k[1:3])
    if a == 'mul':
        return x * y
    if a in ('Div', 'Rem'):
        if y <= 0 or x < 0:
            raise No
        return x // y if a == 'Div' else x % y
    if x < 0 or y < 0 or a in ('Shl', 'Shr') and y > 64:
        raise No
    if a == 'Shl':
        raise No
    return {'BitAnd': x & y, 'BitOr': x | y, 'BitXor': x ^ y}[a] if a != 'Shr' else x >> y


def ev_cond(c, env):
    if c[0] == 'c':
        return c[1]
    if c[0] == 'le':
        return ev_lin(c[1], env) <= 0
    if c[0] == 'eq':
        return ev_lin(c[1], env) == 0
    if c[0] == 'ne':
        return ev_lin(c[1], env) != 0
    if c[0] in ('and', 'or'):
        xs = [ev_cond(x, env) for x in (c[1] if isinstance(c[1], (tuple, list)) and c[1] and isinstance(c[1][0], tuple) else c[1:])]
        return all(xs) if c[0] == 'and' else any(xs)
    if c[0] == 'p' and ('p', c[1]) in env:
        return bool(env[('p', c[1])]) == c[2]
    raise No


def facts(st, roots):
    """the facts connected with these atoms: (kind, lin, leaves)"""
    fs = [(k, f, leaves(f, set())) for k, s in (('eq', st.eq), ('le', st.le), ('ne', st.ne)) for f in s]
    use, todo = [], set(roots)
    while True:
        new = [x for x in fs if x[2] & todo]
        if not new:
            return use, todo
        fs = [x for x in fs if not x[2] & todo]
        use += new
        for x in new:
            todo |= x[2]


POOL = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 40, 63, 64, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513,
        1000, 4095, 4096, 65535, 65536, 65537, 70000, 1 << 20, (1 << 24) - 1, 1 << 24, (1 << 24) + 5, 1 << 26, 1 << 32, (1 << 32) + 1, 1 << 40, (1 << 48) + 3]


def holds(k, v):
    return v == 0 if k == 'eq' else v <= 0 if k == 'le' else v != 0


def witness(st, d, tries=400):
    """values of the atoms with all facts of the state and d not 0; None if none found"""
    lv = leaves(d, set())
    use, atoms = facts(st, lv)
    if any(isinstance(a, tuple) or TERMS[a][0] not in GIVEN for a in atoms) or len(atoms) > 40:
        return None
    rnd = random.Random(7)
    atoms = sorted(atoms)
    fixed = sorted(use, key=lambda x: len(x[2]))
    for n in range(tries):
        env = {}
        order = atoms[:]
        rnd.shuffle(order)
        try:
            for a in order:
                if a in env:
                    continue
                lo, hi = BND.get(a, (None, None))
                # tighter bounds from the facts whose other atoms are known
                for k, f, ls in fixed:
                    if k == 'ne' or a not in ls or any(x not in env for x in ls if x != a):
                        continue
                    cs = dict(f.m)
                    if a not in cs or any(a in leaves(S(t), set()) for t in cs if t != a):
                        continue
                    e2 = {x: v for x, v in env.items()}
                    rest = f.c + sum(c * ev(t, e2) for t, c in cs.items() if t != a)
                    c = cs[a]
                    if k == 'eq':
                        if rest % c:
                            raise No
                        lo = hi = -rest // c
                        break
                    if c > 0:
                        h = (-rest) // c
                        hi = h if hi is None else min(hi, h)
                    else:
                        l = -((-rest) // -c) if False else (rest + (-c) - 1) // (-c)
                        lo = l if lo is None else max(lo, l)
                if lo is not None and hi is not None and lo > hi:
                    raise No
                cand = [x for x in POOL if (lo is None or x >= lo) and (hi is None or x <= hi)]
                if lo is not None:
                    cand += [lo, lo + 1] if hi is None or lo + 1 <= hi else [lo]
                if hi is not None and hi < 1 << 62:
                    cand.append(hi)
                if not cand:
                    raise No
                env[a] = rnd.choice(cand)
            full = dict(env)
            if all(holds(k, ev_lin(f, full)) for k, f, _ in use) and ev_lin(d, full) != 0:
                for t, (lo, hi) in ((t, BND.get(t, (None, None))) for t in list(full)):
                    if lo is not None and full[t] < lo or hi is not None and full[t] > hi:
                        raise No
                return env
        except No:
            continue
    return None


def same(e, st, a, b, N=None):
    """True: equal in every state described; False: a state with both different is known; None: undecided"""
    d = a - b
    if d.const() == 0 or st.holds_eq(d):
        return True
    N = N or Norm({}, st)
    if N.lin(d).const() == 0 or impossible(st, N):
        return True
    if any(st.holds_eq(d - k) for j in range(1, 17) for k in (j, -j)):
        return False
    if DEBUG:
        print('SAME?', text(d), '| eq', [text(f) for f in st.eq][:9], '| le', [text(f) for f in st.le][:20])
    return False if witness(st, d) is not None else None


def impossible(st, N):
    return any(bad(k, N.lin(f)) for k, fs in (('eq', st.eq), ('le', st.le), ('ne', st.ne)) for f in fs)


def bad(k, l):
    if k == 'le':
        lo = interval(l)[0]
        return lo is not None and lo > 0
    c = l.const()
    return c is not None and not holds(k, c)


def text(l, d=7):
    """an expression for the developer"""
    return ' + '.join(([str(l.c)] if l.c or not l.m else []) + [(f'{c}*' if c != 1 else '') + tt(t, d) for t, c in l.m])


def tt(t, d):
    k = TERMS[t]
    if d == 0:
        return '..'
    if k[0] in ('arg', 'phi'):
        return f'{k[0]}{t}'
    if k[0] in ('xb', 'nxb'):
        return f'bits[{text(k[1], d - 1) if isl(k[1]) else tt(k[1], d - 1)}; {k[2]}, {k[3]}]'
    if k[0] == 'fld':
        return f'{tt(k[1], d - 1)}.{k[3]}'
    return k[0] + '(' + ', '.join(text(x, d - 1) if isl(x) else tt(x, d - 1) if isinstance(x, int) and not isinstance(x, bool) and k[0] not in ('phi',) else str(x)[:20] for x in k[1:]) + ')'
