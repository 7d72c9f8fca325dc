"""Interned terms, linear expressions over them and the linear-constraint part of the
abstract state (conjunctions of  lin <= 0 / lin == 0 / lin != 0, decided by exact
Fourier-Motzkin elimination with integer tightening)."""
from math import gcd

_ids = {}
TERMS = []
BND = {}            # term -> (lo, hi), None = unbounded
_fresh = [0]

BIG = 1 << 200


def T(head, *args):
    k = (head,) + args
    t = _ids.get(k)
    if t is None:
        t = len(TERMS)
        _ids[k] = t
        TERMS.append(k)
    return t


def fresh(hint='v', lo=None, hi=None):
    _fresh[0] += 1
    t = T('fresh', hint, _fresh[0])
    if lo is not None or hi is not None:
        BND[t] = (lo, hi)
    return t


def bound(t, lo, hi):
    """record a static bound of a symbol (intersection with what is known)"""
    o = BND.get(t)
    if o:
        lo = o[0] if lo is None else (lo if o[0] is None else max(lo, o[0]))
        hi = o[1] if hi is None else (hi if o[1] is None else min(hi, o[1]))
    BND[t] = (lo, hi)
    return t


def head(t):
    return TERMS[t][0]


def targs(t):
    return TERMS[t][1:]


class Lin:
    __slots__ = ('c', 'm', 'h')

    def __init__(self, c, m=()):
        self.c = c
        self.m = m
        self.h = hash((c, m))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o or (isinstance(o, Lin) and self.h == o.h and self.c == o.c and self.m == o.m)

    def __ne__(self, o):
        return not self == o

    def __lt__(self, o):
        return (self.c, self.m) < (o.c, o.m)

    def const(self):
        return self.c if not self.m else None

    def syms(self):
        return [s for s, _ in self.m]

    def single(self):
        """the symbol if this is exactly that symbol"""
        if self.c == 0 and len(self.m) == 1 and self.m[0][1] == 1:
            return self.m[0][0]
        return None

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.m)
        if not o.m:
            return Lin(self.c + o.c, self.m)
        if not self.m:
            return Lin(self.c + o.c, o.m)
        d = dict(self.m)
        for s, k in o.m:
            d[s] = d.get(s, 0) + k
        return mk(self.c + o.c, d)

    def __neg__(self):
        return Lin(-self.c, tuple((s, -k) for s, k in self.m))

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.m)
        return self + (-o)

    def scale(self, k):
        if k == 0:
            return Lin(0)
        return Lin(self.c * k, tuple((s, v * k) for s, v in self.m))

    def subst(self, env):
        """env: symbol -> Lin"""
        if not any(s in env for s, _ in self.m):
            return self
        r = Lin(self.c)
        for s, k in self.m:
            r = r + (env[s].scale(k) if s in env else Lin(0, ((s, k),)))
        return r

    def __repr__(self):
        r = []
        for s, k in self.m:
            r.append(('' if k == 1 else '-' if k == -1 else f'{k}*') + show(s))
        if self.c or not r:
            r.append(str(self.c))
        return '+'.join(r)


def mk(c, d):
    return Lin(c, tuple(sorted((s, k) for s, k in d.items() if k)))


def K(c):
    return Lin(c)


def S(t):
    return Lin(0, ((t, 1),))


def show(t, depth=4):
    if not isinstance(t, int):
        return repr(t)
    k = TERMS[t]
    if depth == 0:
        return f'#{t}'
    if k[0] == 'fresh':
        return f'{k[1]}{k[2]}'
    if k[0] == 'phi':
        return f'phi{t}'
    a = []
    for x in k[1:]:
        if isinstance(x, bool):
            a.append(str(x))
        elif isinstance(x, int):
            a.append(show(x, depth - 1) if 0 <= x < len(TERMS) else str(x))
        else:
            a.append(str(x)[:14].replace('\n', ' ') if not isinstance(x, tuple) else '(..)')
    return f"{k[0]}({','.join(a)})"


def interval(l):
    lo = hi = l.c
    for s, k in l.m:
        b = BND.get(s, (None, None))
        blo, bhi = b if k > 0 else (b[1], b[0])
        lo = None if lo is None or blo is None else lo + k * blo
        hi = None if hi is None or bhi is None else hi + k * bhi
    return lo, hi


def _norm(d, c):
    """normalise sum d[s]*s + c <= 0 ; returns (items, c) or True/False when trivial"""
    g = 0
    for k in d.values():
        g = gcd(g, k)
    if g == 0:
        return c <= 0
    if g > 1:
        # sum (k/g) s <= floor(-c/g)
        c = -((-c) // g)
        return (tuple(sorted((s, k // g) for s, k in d.items())), c)
    return (tuple(sorted(d.items())), c)


def infeasible(cons, cap=260):
    """cons: iterable of (dict, c) meaning sum+c<=0. True only if no integer solution exists
    (rational Fourier-Motzkin with integer tightening)."""
    best = {}

    def put(d, c):
        n = _norm(d, c)
        if n is True:
            return False
        if n is False:
            return True
        k, c2 = n
        o = best.get(k)
        if o is None or c2 > o:
            best[k] = c2
        return False
    for d, c in cons:
        if put({s: k for s, k in d.items() if k}, c):
            return True
    while best:
        # pick the variable with the fewest combinations
        pos, neg = {}, {}
        for k in best:
            for s, v in k:
                if v > 0:
                    pos[s] = pos.get(s, 0) + 1
                else:
                    neg[s] = neg.get(s, 0) + 1
        # direct contradiction k, -k
        var, cost = None, None
        for s in set(pos) | set(neg):
            p, n = pos.get(s, 0), neg.get(s, 0)
            c = p * n - p - n
            if cost is None or c < cost or (c == cost and s < var):
                var, cost = s, c
        ups, downs, rest = [], [], {}
        for k, c in best.items():
            d = dict(k)
            v = d.get(var)
            if v is None:
                rest[k] = c
            elif v > 0:
                ups.append((d, c, v))
            else:
                downs.append((d, c, -v))
        best = rest
        if len(rest) + len(ups) * len(downs) > cap:
            return False
        for du, cu, vu in ups:
            for dd, cd, vd in downs:
                g = gcd(vu, vd)
                a, b = vd // g, vu // g
                d = {}
                for s, k in du.items():
                    d[s] = k * a
                for s, k in dd.items():
                    d[s] = d.get(s, 0) + k * b
                d = {s: k for s, k in d.items() if k}
                if put(d, cu * a + cd * b):
                    return True
    return False


def relevant(goal_syms, facts, hops=6):
    """facts sharing symbols (transitively) with the goal"""
    seen = set(goal_syms)
    out = []
    todo = list(facts)
    for _ in range(hops):
        rest = []
        new = set()
        for f in todo:
            if any(s in seen for s, _ in f.m):
                out.append(f)
                new.update(s for s, _ in f.m)
            else:
                rest.append(f)
        todo = rest
        if new <= seen:
            break
        seen |= new
    return out, seen


_cache = {}


def entails(le, eq, goal, ne=()):
    """do the facts imply goal <= 0 ?"""
    if not goal.m:
        return goal.c <= 0
    hi = interval(goal)[1]
    if hi is not None and hi <= 0:
        return True
    if goal in le:
        return True
    f1, seen = relevant(goal.syms(), list(le) + list(eq))
    key = (goal, frozenset(f1), frozenset(ne) if ne else None)
    r = _cache.get(key)
    if r is not None:
        return r
    eqs = [f for f in f1 if f in eq]
    les = [f for f in f1 if f not in eq]
    r = _prove(goal, les, eqs, seen)
    if not r and ne:
        extra = []
        for n in ne:
            if all(s in seen for s, _ in n.m):
                if _prove(-n, les, eqs, seen):        # n >= 0
                    extra.append(K(1) - n)
                elif _prove(n, les, eqs, seen):       # n <= 0
                    extra.append(n + 1)
        if extra:
            r = _prove(goal, les + extra, eqs, seen)
    if len(_cache) > 200000:
        _cache.clear()
    _cache[key] = r
    return r


def _prove(goal, les, eqs, seen):
    # substitute equalities with a unit coefficient
    cons = [(K(1) - goal)] + list(les)
    eqs = list(eqs)
    bvars = [s for s in seen if s in BND]
    for s in bvars:
        lo, hi = BND[s]
        if lo is not None:
            cons.append(Lin(lo, ((s, -1),)))
        if hi is not None:
            cons.append(Lin(-hi, ((s, 1),)))
    i = 0
    while i < len(eqs):
        e = eqs[i]
        i += 1
        u = None
        for s, k in e.m:
            if k in (1, -1):
                u = (s, k)
                break
        if u is None:
            cons.append(e)
            cons.append(-e)
            continue
        s, k = u
        # s = -(e - k s)/k
        rest = e - Lin(0, ((s, k),))
        env = {s: rest.scale(-k)}
        cons = [c.subst(env) for c in cons]
        for j in range(i, len(eqs)):
            eqs[j] = eqs[j].subst(env)
    for c in cons:
        if not c.m and c.c > 0:
            return True
    return infeasible([(dict(c.m), c.c) for c in cons if c.m])


def congruent0(goal, eq, mod):
    """is goal == 0 (mod mod) implied by the equalities (with integer symbols)?"""
    eqs = [e for e in eq if e.m]
    goal = Lin(goal.c % mod, tuple((s, k % mod) for s, k in goal.m if k % mod))
    for _ in range(40):
        if not goal.m:
            return goal.c % mod == 0
        done = False
        for s, k in goal.m:
            for e in eqs:
                ce = dict(e.m).get(s, 0) % mod
                if ce and gcd(ce, mod) == 1:
                    f = (-k * pow(ce, -1, mod)) % mod
                    goal = goal + e.scale(f)
                    goal = Lin(goal.c % mod, tuple((x, v % mod) for x, v in goal.m if v % mod))
                    # use every equality once, by replacing it with its reduced form
                    eqs = [x for x in eqs if x is not e]
                    eqs = [(x + e.scale((-dict(x.m)[s] * pow(ce, -1, mod)) % mod)) if s in dict(x.m) else x for x in eqs]
                    done = True
                    break
            if done:
                break
        if not done:
            return False
    return False


def _rref(rows, order):
    """rows: dict sym/None -> int (homogeneous, None = constant column); echelon basis by symbol order,
    returned as [(pivot, row)]; integer rows kept primitive"""
    basis = {}
    todo = list(rows)
    out = []
    for r in todo:
        r = dict(r)
        for p, b in out:
            c = r.get(p)
            if c:
                q = b[p]
                g = gcd(c, q)
                x, y = q // g, c // g
                n = {s: v * x for s, v in r.items()}
                for s, v in b.items():
                    n[s] = n.get(s, 0) - v * y
                r = {s: v for s, v in n.items() if v}
        ps = [s for s in r if s is not None]
        if not ps:
            continue
        p = min(ps, key=order)
        g = 0
        for v in r.values():
            g = gcd(g, v)
        if g > 1:
            r = {s: v // g for s, v in r.items()}
        if max(abs(v) for v in r.values()) > 1 << 40:
            continue
        out.append((p, r))
        out.sort(key=lambda x: order(x[0]))
    return out


def _eliminate(rows, drop):
    """consequences of the equalities that do not mention the symbols in drop"""
    rows = [dict(r) for r in rows]
    for s in drop:
        piv = None
        for r in rows:
            if r.get(s):
                if piv is None or len(r) < len(piv):
                    piv = r
        if piv is None:
            continue
        out = []
        for r in rows:
            if r is piv:
                continue
            c = r.get(s)
            if c:
                q = piv[s]
                g = gcd(c, q)
                x, y = q // g, c // g
                n = {t: v * x for t, v in r.items()}
                for t, v in piv.items():
                    n[t] = n.get(t, 0) - v * y
                r = {t: v for t, v in n.items() if v}
            if r:
                out.append(r)
        rows = out
    return rows


def karr(ea, eb, limit=48):
    """the affine hull: equalities implied by both lists of equalities (Lin == 0)"""
    ea = [dict(l.m, **{}) | ({None: l.c} if l.c else {}) for l in ea]
    eb = [dict(l.m, **{}) | ({None: l.c} if l.c else {}) for l in eb]
    sa = {s for r in ea for s in r}
    sb = {s for r in eb for s in r}
    ea = _eliminate(ea, sorted(s for s in sa - sb if s is not None))
    eb = _eliminate(eb, sorted(s for s in sb - sa if s is not None))
    if not ea or not eb or len(ea) > limit or len(eb) > limit:
        return []
    # Zassenhaus: rows (a|a) and (b|0); those whose left half vanishes span the intersection
    rows = [{**{(0, s): v for s, v in r.items()}, **{(1, s): v for s, v in r.items()}} for r in ea]
    rows += [{(0, s): v for s, v in r.items()} for r in eb]

    def order(k):
        return (k[0], k[1] is None, k[1] if k[1] is not None else 0)
    res = []
    for p, r in _rref(rows, order):
        if p[0] == 1 and p[1] is not None:
            d = {s: v for (h, s), v in r.items() if s is not None}
            if not d:
                continue
            c = r.get((1, None), 0)
            if max([abs(v) for v in d.values()] + [0]) > 1 << 20:
                continue
            res.append(mk(c, d))
    return res
