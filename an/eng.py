"""Abstract interpreter over dumped MIR.

Values
  ('i', Lin, ty)              integer / char, ty is the type name
  ('b', cond)                 boolean (see cond_*)
  ('a', tyid, variant, flds)  struct or enum of a known variant
  ('t', flds)                 tuple
  ('cl', key, flds)           closure
  ('seq', pieces, ety)        contents of arrays, slices, str, Vec, String, BitVec
  ('x', v)                    Box
  ('s', term, tyid)           opaque value, expanded on demand
  ('r', loc, mut, ety)        reference; loc = (root, proj)
  ('fn', callee)              function item
  ('o', kind, ...)            object private to a model
Pieces of a sequence
  ('e', v)  ('s', term, off, len)  ('z', v, len)  ('k', text)
Conditions
  ('c', bool) ('le', lin) ('eq', lin) ('ne', lin) ('p', term, want) ('and', a, b) ('or', a, b)
"""
import sys
import time
from lin import *
from lin import _eliminate as lin_eliminate

sys.setrecursionlimit(100000)

INT = {}
for _b in (8, 16, 32, 64, 128):
    INT[f'u{_b}'] = (_b, False)
    INT[f'i{_b}'] = (_b, True)
INT['usize'] = (64, False)
INT['isize'] = (64, True)
INT['char'] = (32, False)


def trange(ty):
    b, s = INT[ty]
    if ty == 'char':
        return 0, 0x10FFFF
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)


UNIT = ('t', ())
TRUE = ('c', True)
FALSE = ('c', False)
MAXLEN = (1 << 63) - 1


class Bad(Exception):
    pass


def rebase(k, old, new):
    """the same part of another object"""
    if k == old:
        return new
    t = TERMS[k]
    if t[0] in ('fld', 'box', 'deref'):
        r = rebase(t[1], old, new)
        if r is not None:
            return T(t[0], r, *t[2:])
    return None


def neg(c):
    k = c[0]
    if k == 'c':
        return ('c', not c[1])
    if k == 'le':
        return ('le', K(1) - c[1])
    if k == 'eq':
        return ('ne', c[1])
    if k == 'ne':
        return ('eq', c[1])
    if k == 'p':
        return ('p', c[1], not c[2])
    if k == 'and':
        return ('or', neg(c[1]), neg(c[2]))
    return ('and', neg(c[1]), neg(c[2]))


def c_le(l):
    if not l.m:
        return ('c', l.c <= 0)
    lo, hi = interval(l)
    if hi is not None and hi <= 0:
        return TRUE
    if lo is not None and lo > 0:
        return FALSE
    return ('le', l)


def c_eq(l):
    if not l.m:
        return ('c', l.c == 0)
    lo, hi = interval(l)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return FALSE
    if l.m[0][1] < 0:
        l = -l
    return ('eq', l)


def c_and(a, b):
    if a == TRUE:
        return b
    if b == TRUE:
        return a
    if a == FALSE or b == FALSE:
        return FALSE
    return ('and', a, b)


def c_or(a, b):
    return neg(c_and(neg(a), neg(b)))


PRODUCTS = []


def bilinear(x, y):
    """the product of two linear expressions"""
    if x.const() is not None:
        return y.scale(x.c)
    if y.const() is not None:
        return x.scale(y.c)
    out = x.scale(y.c) + y.scale(x.c) - x.c * y.c
    for s, a in x.m:
        for t, b in y.m:
            p = T('mul', *sorted([S(s), S(t)]))
            if p not in BND:
                lx, ly = interval(S(s)), interval(S(t))
                if None not in lx + ly:
                    c = [u * v for u in lx for v in ly]
                    bound(p, min(c), max(c))
                elif lx[0] is not None and ly[0] is not None and lx[0] >= 0 and ly[0] >= 0:
                    bound(p, 0, None)
                else:
                    bound(p, None, None)
                PRODUCTS.append(p)
            out = out + S(p).scale(a * b)
    return out


def definition(f):
    """the equality defines a derived quantity, so it holds whatever its symbols stand for"""
    for s, c in f.m:
        k = TERMS[s]
        if k[0] == 'lin' and c in (1, -1) and f == (S(s) - k[1]).scale(c):
            return True
        if k[0] == 'rem' and c in (1, -1) and f == (S(s) + S(T('div', k[1], k[2])).scale(k[2]) - S(k[1])).scale(c):
            return True
        if k[0] == 'xb' and f.c == 0 and len(f.m) > 1:
            # a value and the contiguous groups of bits it is made of
            parts = sorted((TERMS[x][2], TERMS[x][3], d) for x, d in f.m if TERMS[x][0] == 'xb' and TERMS[x][1] == k[1])
            base = [d for x, d in f.m if x == k[1]]
            if len(base) == 1 and len(parts) == len(f.m) - 1:
                at = 0
                for lo, n, d in parts:
                    if lo != at or d != -base[0] << lo:
                        return False
                    at = lo + n
                return True
            return False
    return False


class State:
    __slots__ = ('mem', 'le', 'eq', 'ne', 'preds', 'mon')

    def __init__(self, mem=None, le=frozenset(), eq=frozenset(), ne=frozenset(), preds=None, mon=None):
        self.mem = mem if mem is not None else {}
        self.le = le
        self.eq = eq
        self.ne = ne
        self.preds = preds if preds is not None else {}
        self.mon = mon if mon is not None else {}

    def copy(self):
        return State(dict(self.mem), self.le, self.eq, self.ne, dict(self.preds), dict(self.mon))

    def canon(self):
        return (frozenset(self.mem.items()), self.le, self.eq, self.ne,
                frozenset(self.preds.items()), frozenset(self.mon.items()))

    # ---- facts
    def holds_le(self, l):
        if entails(self.le, self.eq, l, self.ne):
            return True
        if l.m and PRODUCTS:
            p = self.products(l)
            if p:
                return entails(self.le | p[0], self.eq | p[1], l, self.ne)
        return False

    def products(self, l):
        """facts multiplied by a nonnegative factor, where that yields products already in use"""
        f, seen = relevant(l.syms(), list(self.le) + list(self.eq) + list(self.ne))
        use = {}
        for s in seen:
            k = TERMS[s]
            if k[0] == 'mul':
                for x, y in ((k[1], k[2]), (k[2], k[1])):
                    d, z = x.single(), y.single()
                    if d is not None and z is not None:
                        use.setdefault(d, set()).add(z)
        if not use:
            return None
        le, eq = set(), set()
        for d, zs in use.items():
            if len(le) + len(eq) > 60:
                break
            if not entails(self.le, self.eq, -S(d), self.ne):
                continue
            for fs, out in ((self.le, le), (self.eq, eq)):
                for g in fs:
                    if len(g.m) <= 4 and any(s in zs for s, _ in g.m) and not any(TERMS[s][0] == 'mul' for s, _ in g.m):
                        out.add(bilinear(g, S(d)))
            for g in self.ne:
                if len(g.m) <= 4 and any(s in zs for s, _ in g.m):
                    for h in (g, -g):
                        if entails(self.le, self.eq, h):
                            le.add(bilinear(h + 1, S(d)))
        return frozenset(le), frozenset(eq)

    def holds_eq(self, l):
        if not l.m:
            return l.c == 0
        return self.holds_le(l) and self.holds_le(-l)

    def holds(self, c):
        """True / False / None"""
        k = c[0]
        if k == 'c':
            return c[1]
        if k == 'le':
            if self.holds_le(c[1]):
                return True
            if self.holds_le(K(1) - c[1]):
                return False
            return None
        if k == 'eq' or k == 'ne':
            l = c[1]
            r = None
            if self.holds_le(l) and self.holds_le(-l):
                r = True
            elif l in self.ne or -l in self.ne or self.holds_le(K(1) - l) or self.holds_le(l + 1):
                r = False
            if r is None and len(l.m) == 1 and TERMS[l.m[0][0]][0] == 'b2i':
                r = self._b2i(l)
            if r is None:
                return None
            return r if k == 'eq' else not r
        if k == 'p':
            v = self.preds.get(c[1])
            if v is None:
                return None
            return v == c[2]
        a = self.holds(c[1])
        b = self.holds(c[2])
        if k == 'and':
            if a is False or b is False:
                return False
            if a and b:
                return True
            return None
        if a or b:
            return True
        if a is False and b is False:
            return False
        return None

    def _b2i(self, l):
        # l == 0 for k*b2i(t)+c
        s, k = l.m[0]
        inner = TERMS[s][1]
        v = self.holds(inner) if isinstance(inner, tuple) else None
        if v is None:
            return None
        return l.c + k * (1 if v else 0) == 0

    def assume(self, c):
        """list of states (0..2)"""
        h = self.holds(c)
        if h is True:
            return [self]
        if h is False:
            return []
        k = c[0]
        if k == 'and':
            return [s2 for s in self.assume(c[1]) for s2 in s.assume(c[2])]
        if k == 'or':
            r = self.assume(c[1])
            r2 = [s2 for s in self.assume(neg(c[1])) for s2 in s.assume(c[2])]
            return r + r2
        s = self.copy()
        if k == 'p':
            s.preds[c[1]] = c[2]
            return [s]
        l = c[1]
        if k == 'le':
            s.add_le(l)
        elif k == 'eq':
            s.eq = s.eq | {l}
            if len(l.m) == 1 and TERMS[l.m[0][0]][0] == 'b2i':
                b, kk = l.m[0]
                if (-l.c) % kk == 0:
                    v = -l.c // kk
                    inner = TERMS[b][1]
                    return s.assume(inner if v == 1 else neg(inner))
        elif k == 'ne':
            # sharpen when one side is known
            if s.holds_le(-l):
                s.add_le(K(1) - l)
            elif s.holds_le(l):
                s.add_le(l + 1)
            else:
                s.ne = s.ne | {l}
            if len(l.m) == 1 and TERMS[l.m[0][0]][0] == 'b2i':
                b, kk = l.m[0]
                if abs(kk) == 1:
                    v = -l.c * kk
                    inner = TERMS[b][1]
                    return s.assume(neg(inner) if v == 1 else inner)
        return [s]

    def add_eq(self, l):
        if l.m:
            self.eq = self.eq | {l}

    def add_le(self, l):
        if l.m:
            if self.holds_le(-l):
                self.eq = self.eq | {l}
            else:
                self.le = self.le | {l}


def pretty(v, d=5):
    """readable value"""
    if isinstance(v, Lin):
        return repr(v)
    if not isinstance(v, tuple) or d == 0:
        return '…' if d == 0 else str(v)
    k = v[0] if v else None
    if k == 'i' and len(v) == 3:
        return f'{v[1]!r}:{v[2]}'
    if k == 's' and len(v) == 3 and isinstance(v[1], int):
        return show(v[1])
    if k == 's' and len(v) == 4 and isinstance(v[1], int):
        return f'{show(v[1])}[{v[2]!r};{v[3]!r}]'
    if k == 'r':
        return '&' + str([show(x) if isinstance(x, int) and i and v[1][0][0] == 'O' else x for i, x in enumerate(v[1][0])]) + ''.join('.' + pretty(e, d - 1) for e in v[1][1])
    if k == 'b':
        return 'b' + pretty(v[1], d - 1)
    if k == 'p' and len(v) == 3 and isinstance(v[1], int):
        return ('' if v[2] else '!') + show(v[1])
    return '(' + ', '.join(pretty(x, d - 1) for x in v) + ')'


# ---------------------------------------------------------------- program

class Prog:
    def __init__(self, d):
        self.d = d
        self.types = d['types']
        self.bodies = d['bodies']
        self.items = d['items']
        self.bykey = {i['key']: i for i in self.items if i.get('key')}
        self.derived = {i['path'] for i in self.items if i.get('derived')}
        self._cfg = {}
        self._rec = None
        self._back = None

    def ty(self, i):
        return self.types[i]

    def find_ty(self, s):
        for i, t in enumerate(self.types):
            if t['s'] == s:
                return i
        return None

    def cfg(self, key, body):
        c = self._cfg.get(key)
        if c is None:
            c = CFG(body)
            self._cfg[key] = c
        return c

    def callees(self, body):
        out = set()
        def cal(c):
            for k in ('body', 'default', 'closure'):
                if c.get(k):
                    out.add(c[k])
            for a in c.get('aux') or []:
                if a:
                    cal(a)
            for t in c.get('targs', []):
                tj = self.types[t]
                if tj['k'] == 'closure' and tj.get('body'):
                    out.add(tj['body'])
                elif tj['k'] == 'fndef':
                    cal(tj['callee'])
        def op(o):
            if 'const' in o and 'fn' in o['const']:
                cal(o['const']['fn'])
        for bl in body['blocks']:
            if bl['cleanup']:
                continue
            for s in bl['s']:
                if s[0] == '=':
                    rv = s[2]
                    if rv[0] == 'agg':
                        if rv[1][0] == 'closure' and rv[1][1]:
                            out.add(rv[1][1])
                        for o in rv[2]:
                            op(o)
                    elif rv[0] in ('use', 'repeat'):
                        op(rv[1])
                    elif rv[0] == 'cast':
                        op(rv[2])
            t = bl['t']
            if t[0] == 'call':
                op(t[1])
                for o in t[2]:
                    op(o)
        return out

    def takes_back(self):
        """does any body of the workspace take items from the back of an iterator, or put one in another's place"""
        if self._back is None:
            here = {i['path'].split('::')[0] for i in self.items}
            self._back = False
            for b in self.bodies.values():
                if b.get('krate') not in here and (b.get('path') or '').split('::')[0] not in here:
                    continue
                for bl in b['blocks']:
                    t = bl['t']
                    if t[0] == 'call' and 'const' in t[1] and 'fn' in t[1]['const']:
                        f = t[1]['const']['fn']
                        if f['name'] in ('next_back', 'nth_back', 'rfind', 'rfold', 'try_rfold', 'rposition') or f['path'] in ('core::mem::swap', 'core::mem::replace'):
                            self._back = True
        return self._back

    def recursive(self):
        """keys of bodies on a cycle of the call graph (workspace bodies only)"""
        if self._rec is not None:
            return self._rec
        g = {}
        for k, b in self.bodies.items():
            g[k] = [x for x in self.callees(b) if x in self.bodies]
        # Tarjan
        idx, low, st, on, out = {}, {}, [], set(), set()
        n = [0]
        for root in g:
            if root in idx:
                continue
            work = [(root, iter(g[root]))]
            idx[root] = low[root] = n[0]; n[0] += 1
            st.append(root); on.add(root)
            while work:
                v, it = work[-1]
                adv = False
                for w in it:
                    if w not in idx:
                        idx[w] = low[w] = n[0]; n[0] += 1
                        st.append(w); on.add(w)
                        work.append((w, iter(g[w])))
                        adv = True
                        break
                    elif w in on:
                        low[v] = min(low[v], idx[w])
                if adv:
                    continue
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    comp = []
                    while True:
                        w = st.pop(); on.discard(w); comp.append(w)
                        if w == v:
                            break
                    if len(comp) > 1 or v in g[v]:
                        out.update(comp)
        self._rec = out
        self._graph = g
        return out


def place_locals(p, acc):
    acc.add(p[0])
    for e in p[1]:
        if e[0] == 'index':
            acc.add(e[1])


def op_locals(o, acc):
    if 'copy' in o:
        place_locals(o['copy'], acc)
    elif 'move' in o:
        place_locals(o['move'], acc)


def rv_locals(rv, acc):
    k = rv[0]
    if k in ('use', 'repeat'):
        op_locals(rv[1], acc)
    elif k in ('ref',):
        place_locals(rv[2], acc)
    elif k in ('rawptr', 'discr'):
        place_locals(rv[1], acc)
    elif k == 'cast':
        op_locals(rv[2], acc)
    elif k == 'bin':
        op_locals(rv[2], acc)
        op_locals(rv[3], acc)
    elif k == 'un':
        op_locals(rv[2], acc)
    elif k == 'agg':
        for o in rv[2]:
            op_locals(o, acc)


class CFG:
    def __init__(self, body):
        bl = body['blocks']
        n = len(bl)
        self.succ = [self._succ(b) for b in bl]
        # rpo over reachable
        seen, order = set(), []
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        while stack:
            v, it = stack[-1]
            for w in it:
                if w not in seen:
                    seen.add(w)
                    stack.append((w, iter(self.succ[w])))
                    break
            else:
                order.append(v)
                stack.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        self.order = order
        self.pred = {b: [] for b in order}
        for b in order:
            for s in self.succ[b]:
                self.pred[s].append(b)
        # dominators (bitsets)
        allb = (1 << n) - 1
        dom = {b: allb for b in order}
        dom[0] = 1
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                d = allb
                for p in self.pred[b]:
                    d &= dom[p]
                d |= 1 << b
                if d != dom[b]:
                    dom[b] = d
                    ch = True
        self.loops = {}
        for b in order:
            for s in self.succ[b]:
                if self.rpo[s] <= self.rpo[b]:
                    # back edge (also used for irreducible graphs)
                    bodyset = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in bodyset:
                            continue
                        bodyset.add(x)
                        st.extend(self.pred[x])
        # liveness
        use, de = {}, {}
        for b in order:
            u, d = set(), set()
            for s in bl[b]['s']:
                if s[0] == '=':
                    a = set()
                    rv_locals(s[2], a)
                    if s[1][1]:
                        place_locals(s[1], a)
                    u |= a - d
                    if not s[1][1]:
                        d.add(s[1][0])
                elif s[0] == 'setdiscr':
                    if s[1][0] not in d:
                        u.add(s[1][0])
            t = bl[b]['t']
            a = set()
            if t[0] == 'switch':
                op_locals(t[1], a)
            elif t[0] == 'call':
                op_locals(t[1], a)
                for o in t[2]:
                    op_locals(o, a)
                if t[3][1]:
                    place_locals(t[3], a)
            elif t[0] == 'assert':
                op_locals(t[1], a)
                m = t[3]
                for o in m[1:]:
                    if isinstance(o, dict):
                        op_locals(o, a)
            elif t[0] == 'return':
                a.add(0)
            u |= a - d
            if t[0] == 'call' and not t[3][1]:
                d.add(t[3][0])
            use[b], de[b] = u, d
        self.livein = {b: set() for b in order}
        ch = True
        while ch:
            ch = False
            for b in reversed(order):
                o = set()
                for s in self.succ[b]:
                    o |= self.livein[s]
                i = use[b] | (o - de[b])
                if i != self.livein[b]:
                    self.livein[b] = i
                    ch = True

    def _succ(self, b):
        t = b['t']
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return list(dict.fromkeys([x[1] for x in t[2]] + [t[3]]))
        if k == 'drop':
            return [t[2]]
        if k == 'call':
            return [t[4]] if t[4] is not None else []
        if k == 'assert':
            return [t[4]]
        return []


class Frame:
    __slots__ = ('fid', 'key', 'body', 'cfg', 'parent', 'site', 'path')

    def __init__(self, fid, key, body, cfg, parent, site):
        self.fid = fid
        self.key = key
        self.body = body
        self.cfg = cfg
        self.parent = parent
        self.site = site
        self.path = body.get('path', key)


class Engine:
    CAP_BLOCK = 10        # states kept apart at a merge point (per partition key)
    CAP_LOOP = 12
    CAP_DECIDED = 64

    def __init__(self, prog, models, hooks=(), opts=None):
        self.p = prog
        self.models = models
        self.hooks = list(hooks)
        self.opts = opts or {}
        self.cur = []                 # events of the current pass
        self.frame = None
        self.nfid = 0
        self.joins = 0                # states generalised so far
        self.active = []              # body keys on the stack
        self.loopstack = []           # loops being executed, outermost first
        self.recmode = {}             # key -> dict for recursive bodies being analysed
        self.oty = {}                 # O-root term -> tyid
        self.dty = {}                 # discriminant term -> tyid
        self.stats = {'bodies': set(), 'calls': 0, 'blocks': 0, 'obligations': {}, 'unknown': {}, 'sites': set()}
        self.intree = set()
        self.links = self.opts.get('links')      # class invariants linking discriminants
        self.sticky = self.opts.get('sticky', ())
        self.keep = self.opts.get('keepconst', ())      # integers whose values keep states apart in any case
        self.fixvar = self.opts.get('fixvar')        # invariants fixing a discriminant: f(term, type) -> variant or None
        self.nodetypes = self.opts.get('nodetypes', ())
        self.writes = None
        self.loopmemo = {}
        self.steps = 0
        self.limit = self.opts.get('limit', 3_000_000)

    # ------------------------------------------------------------ reports
    def report(self, kind, site, detail, key=None):
        self.cur.append((kind, site, detail, key or detail))

    def here(self):
        """innermost workspace frame's function path and current span"""
        f = self.frame
        while f is not None:
            if f.body.get('krate') in ('huff', 'huff_coding'):
                return f
            f = f.parent
        return self.frame

    def wsite(self, site):
        """(function path, file:line) of the innermost workspace frame"""
        f = self.frame
        sp = site
        while f is not None and f.body.get('krate') not in ('huff', 'huff_coding'):
            sp = f.site
            f = f.parent
        if f is None:
            return (sp and '?' or 'end of main', sp)
        return (f.path, sp)

    # ------------------------------------------------------------ types
    def ty(self, i):
        return self.p.types[i]

    def tyname(self, i):
        return self.p.types[i]['s']

    def elem_of(self, tyid):
        t = self.ty(tyid)
        if t['k'] in ('ref', 'ptr', 'slice', 'array'):
            return t['elem']
        if t['k'] == 'adt' and t.get('args'):
            return t['args'][0]
        return None

    # ------------------------------------------------------------ opaque values
    def opaque(self, term, tyid, st=None):
        t = self.ty(tyid)
        k = t['k']
        if k == 'bool':
            return ('b', ('p', term, True))
        if k in ('int', 'char'):
            n = t['s']
            if n in INT:
                lo, hi = trange(n)
                bound(term, lo, hi)
                return ('i', S(term), n)
            return ('s', term, tyid)
        if k in ('ref', 'ptr'):
            root = T('deref', term)
            self.oty.setdefault(root, t['elem'])
            if term in self.intree:
                self.intree.add(root)
            return ('r', (('O', root), ()), t.get('mut', False), t['elem'])
        if k == 'tuple':
            return ('t', tuple(self.opaque(T('fld', term, 't', i), e) for i, e in enumerate(t['elems'])))
        if k in ('slice', 'array', 'str'):
            ety = t.get('elem')
            n = t.get('len') if k == 'array' else None
            ln = K(n) if n is not None else self.lenof(term)
            return ('seq', (('s', term, K(0), ln),), ety)
        if k == 'adt':
            p = t['path']
            if p == 'alloc::boxed::Box':
                b = T('box', term)
                if term in self.intree:
                    self.intree.add(b)
                return ('x', self.opaque(b, t['args'][0]))
            if p == 'alloc::vec::Vec':
                return ('seq', (('s', term, K(0), self.lenof(term)),), t['args'][0])
            if p in ('alloc::string::String', 'std::ffi::os_str::OsString'):
                return ('seq', (('s', term, K(0), self.lenof(term)),), None)
            if p.startswith('bitvec::vec::BitVec'):
                return ('seq', (('s', term, K(0), self.lenof(term)),), 'bit')
        return ('s', term, tyid)

    def lenof(self, term):
        l = T('len', term)
        if l not in BND:
            BND[l] = (0, MAXLEN)
        return S(l)

    def fld(self, term, tyid, variant, i, fj):
        nm = fj['name']
        t = T('fld', term, variant, nm)
        inv = self.opts.get('classinv')
        if inv:
            inv(self, term, tyid, variant, nm, t)
        if term in self.intree:
            self.intree.add(t)
        return self.opaque(t, fj['ty'])

    def expand(self, v, variant):
        """opaque ADT -> explicit fields"""
        _, term, tyid = v
        t = self.ty(tyid)
        if t['k'] == 'adt' and t.get('variants') is not None:
            vs = t['variants']
            if variant >= len(vs):
                raise Bad('variant')
            f = tuple(self.fld(term, tyid, variant, i, fj) for i, fj in enumerate(vs[variant]['fields']))
            return ('a', tyid, variant, f)
        if t['k'] == 'closure':
            return ('cl', t.get('body'), tuple(self.opaque(T('fld', term, 'up', i), e) for i, e in enumerate(t['upvars'])))
        return None

    def dkey(self, term, tyid):
        """(canonical discriminant term, map own variant -> canonical value)"""
        if self.links:
            r = self.links(self, term, tyid)
            if r:
                return r
        return (term, None)

    def variant(self, st, v):
        """variant index of a value if known"""
        if v[0] == 'a':
            return v[2]
        if v[0] == 's':
            t = self.ty(v[2])
            if t['k'] == 'adt' and not t.get('enum'):
                return 0
            key, m = self.dkey(v[1], v[2])
            r = st.preds.get(('var', key))
            if r is None:
                return self.fixvar(v[1], v[2]) if self.fixvar else None
            return m[r] if m else r
        return None

    def set_variant(self, st, v, idx):
        """new state where opaque enum v has the variant, or None"""
        if self.fixvar:
            x = self.fixvar(v[1], v[2])
            if x is not None:
                return st if x == idx else None
        key, m = self.dkey(v[1], v[2])
        c = m[idx] if m else idx     # links are involutions
        o = st.preds.get(('var', key))
        if o is not None:
            return st if o == c else None
        s = st.copy()
        s.preds[('var', key)] = c
        return s

    def assume(self, st, c):
        """State.assume, with comparisons of discriminants understood"""
        if c[0] == 'and':
            return [s2 for s in self.assume(st, c[1]) for s2 in self.assume(s, c[2])]
        if c[0] == 'or':
            return self.assume(st, c[1]) + [s2 for s in self.assume(st, neg(c[1])) for s2 in self.assume(s, c[2])]
        if c[0] in ('eq', 'ne') and len(c[1].m) == 1:
            sy, k = c[1].m[0]
            if TERMS[sy][0] == 'discr' and sy in self.dty:
                vs = self.ty(self.dty[sy])['variants']
                opq = ('s', TERMS[sy][1], self.dty[sy])
                can = [i for i, v in enumerate(vs) if (k * v['discr'] + c[1].c == 0) == (c[0] == 'eq')]
                cur = self.variant(st, opq)
                if cur is not None:
                    return [st] if cur in can else []
                if len(can) == 1:
                    s = self.set_variant(st, opq, can[0])
                    return [] if s is None else [s]
        return st.assume(c)

    def split(self, st, v):
        """[(state, explicit enum value)] for all variants v may have"""
        if v[0] == 'a':
            return [(st, v)]
        if v[0] != 's':
            raise Bad(f'split {v[0]}')
        t = self.ty(v[2])
        k = self.variant(st, v)
        out = []
        if t.get('variants') is None:
            raise Bad('split on ' + t['s'])
        for i in range(len(t['variants'])) if k is None else [k]:
            s = self.set_variant(st, v, i) if t.get('enum') else st
            if s is not None:
                out.append((s, self.expand(v, i)))
        return out

    # ------------------------------------------------------------ memory
    def root_value(self, st, root):
        v = st.mem.get(root)
        if v is None:
            if root[0] == 'O':
                tyid = self.oty.get(root[1])
                if tyid is None:
                    v = ('s', root[1], None)
                else:
                    v = self.opaque(root[1], tyid)
                st.mem[root] = v
            elif root[0] == 'L' and self.frame is not None and self.frame.fid == root[1]:
                # assignments of zero-sized values are optimised away
                v = self.opaque(fresh('uninit'), self.frame.body['locals'][root[2]])
            else:
                raise Bad(f'uninit {root}')
        return v

    def step(self, st, v, e):
        k = e[0]
        t = v[0]
        if k == 'f':
            if t == 'a':
                return v[3][e[1]]
            if t == 't':
                return v[1][e[1]]
            if t == 'cl':
                return v[2][e[1]]
            if t == 's':
                x = self.expand(v, 0) if v[2] is not None else None
                if x is not None:
                    return self.step(st, x, e)
                return ('s', T('fld', v[1], '?', e[1]), None)
            if t == 'o':
                return ('s', T('ofld', v, e[1]), None)
            if t == 'x':
                # Box internals, never inspected
                return ('s', T('boxf', self.term(v), e[1]), None)
            if t == 'seq':
                return ('s', T('seqf', self.term(v), e[1]), None)
            raise Bad(f'field of {t}')
        if k == 'd':
            if t == 'a':
                if v[2] != e[1]:
                    raise Bad('downcast')
                return v
            if t == 's' and v[2] is not None:
                x = self.expand(v, e[1])
                if x is not None:
                    return x
            return v
        if k == 'x':
            if t == 'x':
                return v[1]
            if t == 's':
                if v[2] is not None:
                    el = self.elem_of(v[2])
                    if el is not None:
                        return self.opaque(T('box', v[1]), el)
                return ('s', T('box', v[1]), None)
            raise Bad(f'box deref of {t}')
        if k == 'i':
            return self.seq_elem(st, v, e[1])
        if k == 'ss':
            return self.subseq(st, v, e[1], e[2])
        raise Bad(f'step {k}')

    def read(self, st, loc):
        v = self.root_value(st, loc[0])
        for e in loc[1]:
            v = self.step(st, v, e)
        return v

    def write(self, st, loc, val):
        root, proj = loc
        if self.writes is not None:
            self.writes.append(loc)
        for h in self.hooks:
            f = getattr(h, 'on_write', None)
            if f:
                f(self, st, loc, val)
        if not proj:
            st.mem[root] = val
            return
        st.mem[root] = self._upd(st, self.root_value(st, root), proj, val)

    def _upd(self, st, v, proj, val):
        if not proj:
            return val
        e = proj[0]
        k = e[0]
        t = v[0]
        if k == 'd':
            if t == 's' and v[2] is not None:
                x = self.expand(v, e[1])
                if x is not None:
                    v = x
            return self._upd(st, v, proj[1:], val)
        if k == 'f':
            if t == 's':
                x = self.expand(v, 0) if v[2] is not None else None
                if x is None:
                    return ('s', fresh('upd'), v[2])
                v = x
                t = v[0]
            if t == 'a':
                f = list(v[3])
                f[e[1]] = self._upd(st, f[e[1]], proj[1:], val)
                return ('a', v[1], v[2], tuple(f))
            if t == 't':
                f = list(v[1])
                f[e[1]] = self._upd(st, f[e[1]], proj[1:], val)
                return ('t', tuple(f))
            if t == 'cl':
                f = list(v[2])
                f[e[1]] = self._upd(st, f[e[1]], proj[1:], val)
                return ('cl', v[1], tuple(f))
            return ('s', fresh('upd'), None)
        if k == 'x':
            if t == 'x':
                return ('x', self._upd(st, v[1], proj[1:], val))
            return v
        if k == 'i':
            if proj[1:]:
                inner = self._upd(st, self.seq_elem(st, v, e[1]), proj[1:], val)
            else:
                inner = val
            return self.seq_store(st, v, e[1], inner)
        if k == 'ss':
            # write through a sub-slice
            sub = self.subseq(st, v, e[1], e[2])
            new = self._upd(st, sub, proj[1:], val)
            return self.seq_splice(st, v, e[1], e[2], new)
        raise Bad(f'write {k}')

    # ------------------------------------------------------------ sequences
    def plen(self, p):
        k = p[0]
        if k == 'e':
            return K(1)
        if k == 's':
            return p[3]
        if k == 'z':
            return p[2]
        return K(len(p[1]))

    def seq_len(self, v):
        if v[0] != 'seq':
            if v[0] == 's':
                return self.lenof(v[1])
            if v[0] == 'r':
                raise Bad('len of ref')
            return self.lenof(self.term(v))
        n = K(0)
        for p in v[1]:
            n = n + self.plen(p)
        return n

    def elemv(self, term, idx, ety):
        t = T('elem', term, idx)
        if term in self.intree:
            self.intree.add(t)
        if ety == 'bit':
            return ('b', ('p', t, True))
        if ety is None:
            bound(t, 0, 255)
            return ('i', S(t), 'u8')
        return self.opaque(t, ety)

    def seq_elem(self, st, v, i):
        if v[0] != 'seq':
            if v[0] == 's' and v[2] is not None:
                o = self.opaque(v[1], v[2])
                if o[0] == 'seq':
                    return self.seq_elem(st, o, i)
            return ('s', T('elem', self.term(v), i), None)
        off = K(0)
        for p in v[1]:
            d = i - off
            n = self.plen(p)
            if st is not None and st.holds_le(d - n + 1) if (d.m or n.m) else d.c < n.c:
                # d < n ; d >= 0 holds because earlier pieces were excluded
                if p[0] == 'e':
                    return p[1]
                if p[0] == 'z':
                    return p[1]
                if p[0] == 's':
                    return self.elemv(p[1], p[2] + d, v[2])
                if d.const() is not None:
                    return ('i', K(p[1][d.c] if isinstance(p[1], bytes) else ord(p[1][d.c])), 'u8')
                break
            if not (st is not None and st.holds_le(n - d) if (d.m or n.m) else d.c >= n.c):
                if len(v[1]) == 1 and p[0] == 's':
                    return self.elemv(p[1], p[2] + d, v[2])
                if len(v[1]) == 1 and p[0] == 'z':
                    return p[1]
                break
            off = off + n
        return self.elemv(self.term(v), i, v[2])

    def seq_store(self, st, v, i, val):
        if v[0] != 'seq':
            return ('s', fresh('store'), v[2] if v[0] == 's' else None)
        c = i.const()
        if c is not None:
            off = 0
            out = []
            ok = False
            for j, p in enumerate(v[1]):
                n = self.plen(p).const()
                if n is None and not (p[0] == 's'):
                    break
                if p[0] == 's' and n is None:
                    # only a known leading element can be split off
                    if st.holds_le(K(c - off + 1) - p[3]):
                        d = c - off
                        if d:
                            out.append(('s', p[1], p[2], K(d)))
                        out.append(('e', val))
                        out.append(('s', p[1], p[2] + (d + 1), p[3] - (d + 1)))
                        out.extend(v[1][j + 1:])
                        ok = True
                    break
                if c < off + n:
                    d = c - off
                    if p[0] == 'e':
                        out.append(('e', val))
                    else:
                        if d:
                            out.append(self.sub_piece(p, K(0), K(d)))
                        out.append(('e', val))
                        if n - d - 1:
                            out.append(self.sub_piece(p, K(d + 1), K(n - d - 1)))
                    out.extend(v[1][j + 1:])
                    ok = True
                    break
                out.append(p)
                off += n
            if ok and len(out) <= 40:
                return ('seq', tuple(out), v[2])
        return ('seq', (('s', fresh('store'), K(0), self.seq_len(v)),), v[2])

    def seq_splice(self, st, v, off, n, new):
        if v[0] != 'seq' or new[0] != 'seq':
            return ('s', fresh('splice'), v[2] if v[0] == 's' else None)
        tot = self.seq_len(v)
        if off == K(0) and st.holds_eq(n - tot):
            return new
        a = self.subseq(st, v, K(0), off)
        b = self.subseq(st, v, off + n, tot - off - n)
        return ('seq', self.norm_pieces(a[1] + new[1] + b[1]), v[2])

    def sub_piece(self, p, off, n):
        if p[0] == 's':
            return ('s', p[1], p[2] + off, n)
        if p[0] == 'z':
            return ('z', p[1], n)
        if p[0] == 'k':
            return ('k', p[1][off.c:off.c + n.c])
        return p

    def norm_pieces(self, ps):
        out = []
        for p in ps:
            n = self.plen(p)
            if n.const() == 0:
                continue
            if out and p[0] == 's' and out[-1][0] == 's' and out[-1][1] == p[1] and out[-1][2] + out[-1][3] == p[2]:
                out[-1] = ('s', p[1], out[-1][2], out[-1][3] + p[3])
                continue
            if out and p[0] == 'k' and out[-1][0] == 'k' and type(p[1]) == type(out[-1][1]):
                out[-1] = ('k', out[-1][1] + p[1])
                continue
            out.append(p)
        return tuple(out)

    def subseq(self, st, v, off, n):
        if v[0] != 'seq':
            if v[0] == 's' and v[2] is not None:
                o = self.opaque(v[1], v[2])
                if o[0] == 'seq':
                    return self.subseq(st, o, off, n)
            return ('seq', (('s', self.term(v), off, n),), None)
        tot = self.seq_len(v)
        if off == K(0) and (n == tot):
            return v
        ps = v[1]
        if len(ps) == 1 and ps[0][0] in ('s', 'z'):
            return ('seq', self.norm_pieces((self.sub_piece(ps[0], off, n),)), v[2])
        # exact alignment with constant pieces
        out = []
        pos = K(0)
        end = off + n
        ok = True
        for p in ps:
            l = self.plen(p)
            a, b = pos, pos + l
            pos = b
            # piece entirely before / after
            if st.holds_le(b - off):
                continue
            if st.holds_le(end - a):
                break
            lo = None
            if st.holds_le(off - a):
                lo = K(0)
            elif st.holds_le(a - off):
                lo = off - a
            hi = None
            if st.holds_le(b - end):
                hi = l
            elif st.holds_le(end - b):
                hi = end - a
            if lo is None or hi is None:
                ok = False
                break
            if lo == K(0) and hi == l:
                out.append(p)
            elif p[0] in ('s', 'z') or (lo.const() is not None and hi.const() is not None):
                out.append(self.sub_piece(p, lo, hi - lo))
            else:
                ok = False
                break
        if ok:
            return ('seq', self.norm_pieces(tuple(out)), v[2])
        return ('seq', (('s', self.term(v), off, n),), v[2])

    # ------------------------------------------------------------ terms
    def term(self, v):
        """hash-consed term naming a value"""
        k = v[0]
        if k == 's':
            return v[1]
        if k == 'i':
            s = v[1].single()
            return s if s is not None else T('num', v[1])
        if k == 'b':
            c = v[1]
            if c[0] == 'p' and c[2]:
                return c[1]
            return T('cond', c)
        if k == 'seq':
            if len(v[1]) == 1 and v[1][0][0] == 's' and v[1][0][2] == K(0) and v[1][0][3] == self.lenof(v[1][0][1]):
                return v[1][0][1]
            if all(p[0] == 'k' for p in v[1]):
                return T('str', ''.join(p[1] if isinstance(p[1], str) else p[1].decode('latin1') for p in v[1]))
            return T('seq', tuple(self.pterm(p) for p in v[1]))
        if k == 'r':
            return T('ref', v[1])
        if k == 'x':
            return T('boxof', self.term(v[1]))
        if k == 'a':
            return T('adt', self.tyname(v[1]), v[2], tuple(self.term(x) for x in v[3]))
        if k == 't':
            return T('tup', tuple(self.term(x) for x in v[1]))
        if k == 'cl':
            return T('clo', v[1], tuple(self.term(x) for x in v[2]))
        return T('val', v)

    def pterm(self, p):
        if p[0] in ('e', 'z'):
            return (p[0], self.term(p[1])) + p[2:]
        return p

    def deep(self, st, v, n=6):
        """follow references to the value they lead to"""
        while v[0] == 'r' and n:
            v = self.read(st, v[1])
            n -= 1
        return v

    def dterm(self, st, v):
        return self.term(self.deep(st, v))

    # ------------------------------------------------------------ havoc
    def havoc_value(self, st, v, tyid=None, hint='havoc'):
        """an arbitrary value of the same type"""
        k = v[0]
        if k == 'i':
            lo, hi = trange(v[2])
            return ('i', S(fresh(hint, lo, hi)), v[2])
        if k == 'b':
            return ('b', ('p', fresh(hint), True))
        if k == 'seq':
            t = fresh(hint)
            return ('seq', (('s', t, K(0), self.lenof(t)),), v[2])
        if k == 's':
            return ('s', fresh(hint), v[2]) if v[2] is None else self.opaque(fresh(hint), v[2])
        if k == 'a':
            return self.opaque(fresh(hint), v[1])
        if k == 't':
            return ('t', tuple(self.havoc_value(st, x, None, hint) for x in v[1]))
        if k == 'cl':
            return v
        if k == 'x':
            return ('x', self.havoc_value(st, v[1], None, hint))
        if k == 'r':
            if v[2]:
                self.havoc_ref(st, v)
            return v
        return ('s', fresh(hint), None) if tyid is None else self.opaque(fresh(hint), tyid)

    def other_iter(self, st, o, hint):
        """the iterator o at an unknown later position (nothing in the program takes from the back of a borrowed one)"""
        if o[1] != 'it' or len(o) != 6 or o[5] not in ('r', 'v') or self.p.takes_back():
            return None
        src = o[2]
        if src[0] == 'r':
            if src[1] is None:
                return None
            if src[2]:
                old = self.read(st, src[1])
                if old[0] not in ('seq', 's'):
                    return None
                n = self.seq_len(old)
                t = fresh(hint)
                new = ('seq', (('s', t, K(0), n),), old[2]) if old[0] == 'seq' else self.opaque(t, old[2])
                if old[0] == 's':
                    st.add_eq(self.seq_len(new) - n)
                self.write(st, src[1], new)
        p = S(fresh(hint, 0, MAXLEN))
        st.add_le(o[3] - p if hint != 'gen' else -p)
        st.add_le(p - o[4])
        return o[:3] + (p,) + o[4:]

    def havoc_ref(self, st, v):
        try:
            old = self.read(st, v[1])
        except Bad:
            return
        if old[0] == 'o':
            new = self.other_iter(st, old, 'havoc')
            if new is not None:
                self.write(st, v[1], new)
                return
        if old[0] == 'seq' and v[1][1] and v[1][1][-1][0] == 'ss':
            t = fresh('havoc')
            new = ('seq', (('s', t, K(0), v[1][1][-1][2]),), old[2])
        else:
            new = self.havoc_value(st, old)
        self.write(st, v[1], new)

    # ------------------------------------------------------------ places and operands
    def place(self, st, fr, p):
        """resolve to a location (root, proj)"""
        root = ('L', fr.fid, p[0])
        proj = ()
        tyid = fr.body['locals'][p[0]]
        for e in p[1]:
            k = e[0]
            if k == 'deref':
                t = self.ty(tyid)
                v = self.read(st, (root, proj))
                if t['k'] == 'adt':          # Box
                    proj = proj + (('x',),)
                    tyid = t['args'][0]
                    continue
                tyid = t.get('elem')
                if v[0] == 'r':
                    root, proj = v[1]
                elif v[0] == 's':
                    o = T('deref', v[1])
                    if tyid is not None:
                        self.oty.setdefault(o, tyid)
                    root, proj = ('O', o), ()
                elif v[0] == 'x':
                    proj = proj + (('x',),)
                else:
                    raise Bad(f'deref of {v[0]}')
            elif k == 'field':
                proj = proj + (('f', e[1]),)
                tyid = e[2]
            elif k == 'downcast':
                proj = proj + (('d', e[1]),)
            elif k == 'index':
                i = self.read(st, (('L', fr.fid, e[1]), ()))
                proj = proj + (('i', i[1] if i[0] == 'i' else S(fresh('idx', 0, None))),)
                tyid = self.elem_of(tyid)
            elif k == 'cindex':
                if e[3]:
                    n = self.seq_len(self.read(st, (root, proj)))
                    proj = proj + (('i', n - e[1]),)
                else:
                    proj = proj + (('i', K(e[1])),)
                tyid = self.elem_of(tyid)
            elif k == 'subslice':
                n = self.seq_len(self.read(st, (root, proj)))
                proj = proj + (('ss', K(e[1]), (n - e[2] - e[1]) if e[3] else K(e[2] - e[1])),)
            else:
                raise Bad('projection')
        return (root, proj), tyid

    def operand(self, st, fr, o):
        if 'copy' in o:
            return self.read(st, self.place(st, fr, o['copy'])[0])
        if 'move' in o:
            return self.read(st, self.place(st, fr, o['move'])[0])
        if 'const' in o:
            return self.const(st, fr, o['const'])
        raise Bad('operand')

    def const(self, st, fr, c):
        tyid = c['ty']
        t = self.ty(tyid)
        if 'fn' in c:
            return ('fn', FnRef(c['fn']))
        if 'promoted' in c:
            k = ('prom', fr.key, c['promoted'])
            body = fr.body['promoted'][c['promoted']] if c['promoted'] < len(fr.body.get('promoted', [])) else None
            if body is None:
                return self.opaque(T('prom', fr.key, c['promoted']), tyid)
            term = T('prom', fr.key, c['promoted'])
            r = self.run_body(k, body, [], st, fr.site, inplace=True)
            if r:
                s2, v = r[0]
                st.mem.update(s2.mem)
                return v
            return self.opaque(term, tyid)
        if 'int' in c:
            n = int(c['int'])
            if t['k'] == 'bool':
                return ('b', ('c', bool(n)))
            if t['k'] in ('int', 'char') and t['s'] in INT:
                return ('i', K(n), t['s'])
            return self.opaque(T('constint', n, t['s']), tyid)
        if 'str' in c:
            r = ('O', T('cstr', c['str']))
            st.mem[r] = ('seq', (('k', c['str']),) if c['str'] else (), None)
            return ('r', (r, ()), False, t.get('elem'))
        if 'bytes' in c or 'refbytes' in c:
            b = bytes(c.get('bytes') or c.get('refbytes') or [])
            el = t.get('elem')
            te = self.ty(el) if el is not None else None
            r = ('O', T('cbytes', b, t['s']))
            if te and te['k'] in ('array', 'slice') and self.tyname(te['elem']) in INT and te['elem'] is not None:
                n = self.tyname(te['elem'])
                w = INT[n][0] // 8
                if len(b) // w <= 64:
                    st.mem[r] = ('seq', tuple(('e', ('i', K(int.from_bytes(b[i:i + w], 'little', signed=INT[n][1])), n)) for i in range(0, len(b), w)), te['elem'])
                else:
                    st.mem[r] = ('seq', (('s', r[1], K(0), K(len(b) // w)),), te['elem'])
                return ('r', (r, ()), False, el)
            if te and te['k'] in ('int', 'char') and te['s'] in INT:
                st.mem[r] = ('i', K(int.from_bytes(b, 'little', signed=INT[te['s']][1])), te['s'])
                return ('r', (r, ()), False, el)
            if te and te['k'] == 'str':
                st.mem[r] = ('seq', (('k', b.decode('utf8', 'replace')),) if b else (), None)
                return ('r', (r, ()), False, el)
            return self.opaque(T('cref', b, t['s']), tyid)
        if 'agg' in c:
            var, fs = c['agg']
            f = tuple(self.const(st, fr, x['const']) for x in fs)
            if t['k'] == 'tuple':
                return ('t', f)
            if t['k'] == 'array':
                return ('seq', tuple(('e', x) for x in f), t['elem'])
            if t['k'] == 'adt':
                if t['path'] in ('alloc::vec::Vec', 'alloc::string::String'):
                    return ('seq', (), t['args'][0] if t['args'] and t['path'].endswith('Vec') else None)
                return ('a', tyid, var or 0, f)
        if 'zst' in c:
            if t['k'] == 'tuple':
                return UNIT
            if t['k'] == 'adt' and not t.get('enum') and t.get('variants') is not None:
                return self.expand(('s', T('zst', t['s']), tyid), 0)
            if t['k'] == 'closure':
                return ('cl', t.get('body'), ())
            return self.opaque(T('zst', t['s']), tyid)
        if 'item' in c or 'sym' in c or 'static' in c:
            return self.opaque(T('citem', c.get('static') or c.get('item') or c.get('sym'), t['s'], c.get('sym', '')), tyid)
        return self.opaque(T('cunk', t['s'], str(sorted(c.items()))), tyid)

    # ------------------------------------------------------------ integer operations
    def xb(self, s, lo, n):
        b = BND.get(s, (None, None))
        if b[0] is not None and b[0] >= 0 and b[1] is not None:
            w = b[1].bit_length()
            if lo >= w:
                return K(0)
            if lo + n >= w:
                n = w - lo
                if lo == 0:
                    return S(s)
        k = TERMS[s]
        if k[0] == 'xb':
            return self.xb(k[1], k[2] + lo, min(n, k[3] - lo))
        t = T('xb', s, lo, n)
        bound(t, 0, (1 << n) - 1)
        return S(t)

    def bits(self, st, l, w):
        """bit representation, low to high: 0, 1 or (symbol, i); None if unknown"""
        if l.c < 0:
            return None
        out = [0] * w
        for i in range(w):
            if (l.c >> i) & 1:
                out[i] = 1
        if l.c >> w:
            return None
        for s, k in l.m:
            if k <= 0 or k & (k - 1):
                return None
            sh = k.bit_length() - 1
            kk = TERMS[s]
            base, lo = s, 0
            b = BND.get(s, (None, None))
            if b[0] is None or b[0] < 0:
                return None
            nb = b[1].bit_length() if b[1] is not None else 200
            if sh + nb > w or len(l.m) > 1 or l.c:
                for g in (1, 2, 3, 4, 5, 6, 7, 8, 16, 32):
                    if g >= nb:
                        break
                    if st.holds_le(S(s) - ((1 << g) - 1)):
                        nb = g
                        break
            if kk[0] == 'xb':
                base, lo = kk[1], kk[2]
                nb = min(nb, kk[3])
            if sh + nb > w:
                return None
            for i in range(nb):
                if out[sh + i] != 0:
                    return None
                out[sh + i] = (base, lo + i)
        return out

    def unbits(self, bits):
        r = K(0)
        i = 0
        while i < len(bits):
            b = bits[i]
            if b == 0:
                i += 1
                continue
            if b == 1:
                r = r + (1 << i)
                i += 1
                continue
            s, lo = b
            n = 1
            while i + n < len(bits) and bits[i + n] == (s, lo + n):
                n += 1
            r = r + self.xb(s, lo, n).scale(1 << i)
            i += n
        return r

    def name(self, st, l):
        """a symbol equal to l"""
        s = l.single()
        if s is not None:
            return s
        t = T('lin', l)
        lo, hi = interval(l)
        bound(t, lo, hi)
        st.add_eq(S(t) - l)
        return t

    def divmod2(self, st, l, k, ty):
        """quotient and remainder by 2**k of a non-negative value"""
        if l.const() is not None:
            return K(l.c >> k), K(l.c & ((1 << k) - 1))
        if st.holds_le(l - ((1 << k) - 1)):
            return K(0), l
        b = self.bits(st, l, INT[ty][0]) if len(l.m) == 1 and l.c == 0 else None
        if b is not None and TERMS[l.m[0][0]][0] in ('xb', 'b2i'):
            return self.unbits(b[k:]), self.unbits(b[:k])
        s = self.name(st, l)
        w = INT[ty][0]
        q, r = self.xb(s, k, w - k), self.xb(s, 0, k)
        if q == K(0):
            return q, S(s)
        st.add_eq(S(s) - q.scale(1 << k) - r)
        return q, r

    def nonneg(self, st, l, ty):
        return not INT[ty][1] or st.holds_le(-l)

    def arith(self, st, op, a, b, ty):
        """exact (unbounded) result; may add facts to st (which must be a private copy)"""
        x, y = a[1], b[1]
        bits, sg = INT[ty]
        if op == 'Add':
            return x + y
        if op == 'Sub':
            return x - y
        if op == 'Mul':
            if y.const() is not None:
                return x.scale(y.c)
            if x.const() is not None:
                return y.scale(x.c)
            return bilinear(x, y)
        if op in ('Div', 'Rem'):
            c = y.const()
            if c is not None and c > 0 and self.nonneg(st, x, ty):
                if c & (c - 1) == 0:
                    q, r = self.divmod2(st, x, c.bit_length() - 1, ty)
                    return q if op == 'Div' else r
                if x.const() is not None:
                    return K(x.c // c) if op == 'Div' else K(x.c % c)
                if st.holds_le(x - (c - 1)):
                    return K(0) if op == 'Div' else x
                s = self.name(st, x)
                q = T('div', s, c)
                r = T('rem', s, c)
                hi = interval(x)[1]
                bound(q, 0, hi // c if hi is not None else None)
                bound(r, 0, c - 1)
                st.add_eq(S(s) - S(q).scale(c) - S(r))
                return S(q) if op == 'Div' else S(r)
            if x.const() is not None and c:
                qq = abs(x.c) // abs(c) * (1 if (x.c < 0) == (c < 0) else -1)
                return K(qq) if op == 'Div' else K(x.c - qq * c)
            if not sg:
                t = T(op, x, y)
                bound(t, 0, interval(x)[1])
                if op == 'Div':
                    # 0 <= q <= x, and q*y <= x
                    st.add_le(S(t) - x)
                    if st.holds_le(K(1) - y):
                        st.add_le(bilinear(S(t), y) - x)
                else:
                    st.add_le(S(t) - y + 1)
                    st.add_le(S(t) - x)
                return S(t)
            return S(fresh(op, *trange(ty)))
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if x.const() is not None and y.const() is not None and x.c >= 0 and y.c >= 0:
                return K({'BitAnd': x.c & y.c, 'BitOr': x.c | y.c, 'BitXor': x.c ^ y.c}[op])
            if op == 'BitAnd':
                for p, q in ((x, y), (y, x)):
                    c = q.const()
                    if c is not None and c >= 0 and (c & (c + 1)) == 0 and self.nonneg(st, p, ty):
                        if c == 0:
                            return K(0)
                        return self.divmod2(st, p, c.bit_length(), ty)[1]
            bx, by = self.bits(st, x, bits), self.bits(st, y, bits)
            if bx is not None and by is not None:
                out = []
                for p, q in zip(bx, by):
                    if op == 'BitAnd':
                        r = 0 if p == 0 or q == 0 else q if p == 1 else p if q == 1 or p == q else None
                    elif op == 'BitOr':
                        r = 1 if p == 1 or q == 1 else q if p == 0 else p if q == 0 or p == q else None
                    else:
                        r = q if p == 0 else p if q == 0 else 0 if p == q else None
                    out.append(r)
                if None not in out:
                    return self.unbits(out)
            t = T(op, *sorted([x, y]))
            lo, hi = trange(ty)
            if op == 'BitAnd' and not sg:
                hs = [h for h in (interval(x)[1], interval(y)[1]) if h is not None]
                hi = min(hs + [hi])
            elif not sg:
                hx, hy = interval(x)[1], interval(y)[1]
                if hx is not None and hy is not None:
                    hi = min(hi, (1 << max(hx.bit_length(), hy.bit_length())) - 1)
            bound(t, lo, hi)
            return S(t)
        if op in ('Shl', 'Shr'):
            c = y.const()
            if c is None:
                # a shift amount pinned by the facts
                for g in range(0, 8):
                    if st.holds_eq(y - g):
                        c = g
                        break
            if c is not None and 0 <= c < bits and not sg:
                if op == 'Shr':
                    return self.divmod2(st, x, c, ty)[0]
                bx = self.bits(st, x, bits)
                if bx is not None:
                    return self.unbits(([0] * c + bx)[:bits])
                if x.const() is not None:
                    return K((x.c << c) & ((1 << bits) - 1))
                if st.holds_le(-x) and st.holds_le(x.scale(1 << c) - ((1 << bits) - 1)):
                    return x.scale(1 << c)
            if c is not None and x.const() is not None:
                v = (x.c << c) if op == 'Shl' else (x.c >> c)
                lo, hi = trange(ty)
                if lo <= v <= hi:
                    return K(v)
            if op == 'Shr' and c is not None and self.nonneg(st, x, ty):
                return self.divmod2(st, x, c, ty)[0]
            t = T(op, x, y)
            bound(t, *trange(ty))
            if op == 'Shr' and not sg:
                bound(t, 0, interval(x)[1])
            return S(t)
        return S(fresh(op, *trange(ty)))

    def in_range(self, l, ty):
        lo, hi = trange(ty)
        return c_and(c_le(K(lo) - l), c_le(l - hi))

    def wrap(self, st, l, ty):
        lo, hi = trange(ty)
        if st.holds_le(K(lo) - l) and st.holds_le(l - hi):
            return l
        if l.const() is not None:
            v = l.c & ((1 << INT[ty][0]) - 1)
            if v > hi:
                v -= 1 << INT[ty][0]
            return K(v)
        t = T('wrap', l, ty)
        bound(t, lo, hi)
        return S(t)

    def cast_int(self, st, v, ty):
        if v[0] == 'b':
            return ('i', self.b2i(st, v[1]), ty)
        l = v[1]
        lo, hi = trange(ty)
        if st.holds_le(K(lo) - l) and st.holds_le(l - hi):
            return ('i', l, ty)
        if l.const() is not None:
            return ('i', self.wrap(st, l, ty), ty)
        w = INT[ty][0]
        if not INT[ty][1] and self.nonneg(st, l, v[2]):
            b = self.bits(st, l, INT[v[2]][0])
            if b is not None:
                return ('i', self.unbits(b[:w]), ty)
            return ('i', self.divmod2(st, l, w, v[2])[1], ty)
        return ('i', self.wrap(st, l, ty), ty)

    def b2i(self, st, c):
        h = st.holds(c)
        if h is not None:
            return K(1 if h else 0)
        if c[0] in ('eq', 'ne') and len(c[1].m) == 1:
            s, k = c[1].m[0]
            if BND.get(s) == (0, 1) and abs(k) == 1:
                # s == v
                v = -c[1].c * k
                if (v == 1) == (c[0] == 'eq') and v in (0, 1):
                    return S(s)
                if v in (0, 1):
                    return K(1) - S(s)
        if c[0] == 'p' and not c[2]:
            return K(1) - self.b2i(st, neg(c))
        t = T('b2i', c)
        bound(t, 0, 1)
        return S(t)

    # ------------------------------------------------------------ comparisons
    def compare(self, st, op, a, b):
        if a[0] == 'i' and b[0] == 'i':
            x, y = a[1], b[1]
            return {'Eq': lambda: c_eq(x - y), 'Ne': lambda: neg(c_eq(x - y)),
                    'Lt': lambda: c_le(x - y + 1), 'Le': lambda: c_le(x - y),
                    'Gt': lambda: c_le(y - x + 1), 'Ge': lambda: c_le(y - x)}[op]()
        if a[0] == 'b' and b[0] == 'b' and op in ('Eq', 'Ne'):
            for p, q in ((a[1], b[1]), (b[1], a[1])):
                if p[0] == 'c':
                    r = q if p[1] else neg(q)
                    return r if op == 'Eq' else neg(r)
            if a[1] == b[1]:
                return ('c', op == 'Eq')
        t = tuple(sorted([self.term(a), self.term(b)]))
        if op in ('Eq', 'Ne'):
            if t[0] == t[1]:
                return ('c', op == 'Eq')
            return ('p', T('eq', *t), op == 'Eq')
        return ('p', T('cmp', op, self.term(a), self.term(b)), True)

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, rv, dty, site):
        k = rv[0]
        if k == 'use':
            return self.operand(st, fr, rv[1])
        if k == 'ref':
            loc, ety = self.place(st, fr, rv[2])
            if not rv[1] and ety in self.nodetypes:
                # a shared reference to an unknown node of a tree: the node itself is the location
                try:
                    v = self.read(st, loc)
                except Bad:
                    v = None
                if v is not None and v[0] == 's' and v[2] == ety:
                    self.oty.setdefault(v[1], ety)
                    self.intree.add(v[1])
                    loc = (('O', v[1]), ())
            return ('r', loc, rv[1], ety)
        if k == 'rawptr':
            loc, ety = self.place(st, fr, rv[1])
            return ('r', loc, True, ety)
        if k == 'bin':
            return self.binop(st, fr, rv[1], self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3]), dty, site)
        if k == 'un':
            a = self.operand(st, fr, rv[2])
            if rv[1] == 'Not':
                if a[0] == 'b':
                    return ('b', neg(a[1]))
                if a[0] == 'i' and not INT[a[2]][1]:
                    return ('i', K(trange(a[2])[1]) - a[1], a[2])
            if rv[1] == 'Neg' and a[0] == 'i':
                return ('i', self.wrap(st, -a[1], a[2]), a[2])
            if rv[1] == 'PtrMetadata':
                v = self.read(st, a[1]) if a[0] == 'r' else a
                return ('i', self.seq_len(v), 'usize')
            return self.opaque(fresh('un'), dty)
        if k == 'cast':
            pl = rv[2].get('copy') or rv[2].get('move')
            if pl and rv[1] == 'BoxDerefTransmute' and pl[1] and pl[1][-1][0] == 'field' and self.ty(dty)['k'] in ('ref', 'ptr'):
                loc, _ = self.place(st, fr, (pl[0], pl[1][:-1]))
                return ('r', (loc[0], loc[1] + (('x',),)), True, self.ty(dty)['elem'])
            return self.cast(st, fr, rv[1], self.operand(st, fr, rv[2]), rv[3])
        if k == 'discr':
            loc, ety = self.place(st, fr, rv[1])
            v = self.read(st, loc)
            if v[0] == 'a':
                t = self.ty(v[1])
                if t.get('variants') is not None and t.get('enum'):
                    return ('i', K(t['variants'][v[2]]['discr']), self.tyname(dty))
                return ('i', K(0), self.tyname(dty))
            if v[0] == 's' and v[2] is not None:
                t = self.ty(v[2])
                i = self.variant(st, v)
                if i is not None and t.get('variants') is not None:
                    return ('i', K(t['variants'][i]['discr']), self.tyname(dty))
                d = T('discr', v[1])
                self.dty[d] = v[2]
                if t.get('variants'):
                    ds = [x['discr'] for x in t['variants']]
                    bound(d, min(ds), max(ds))
                return ('i', S(d), self.tyname(dty))
            return self.opaque(T('discr?', self.term(v)), dty)
        if k == 'agg':
            kind = rv[1]
            vs = tuple(self.operand(st, fr, o) for o in rv[2])
            if kind[0] == 'tuple':
                return ('t', vs)
            if kind[0] == 'array':
                return ('seq', tuple(('e', v) for v in vs), kind[1])
            if kind[0] == 'closure':
                return ('cl', kind[1], vs)
            if kind[0] == 'adt':
                v = ('a', kind[3], kind[2], vs)
                for h in self.hooks:
                    f = getattr(h, 'on_agg', None)
                    if f:
                        f(self, st, v, kind[1], site)
                return v
            return self.opaque(fresh('agg'), dty)
        if k == 'repeat':
            v = self.operand(st, fr, rv[1])
            t = self.ty(dty)
            if rv[2] is None:
                n = fresh('arrlen', 0, MAXLEN)
                return ('seq', (('z', v, S(n)),), t.get('elem'))
            if rv[2] <= 16:
                return ('seq', tuple(('e', v) for _ in range(rv[2])), t.get('elem'))
            return ('seq', (('z', v, K(rv[2])),), t.get('elem'))
        return self.opaque(fresh('rv'), dty)

    def binop(self, st, fr, op, a, b, dty, site):
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return ('b', self.compare(st, op, a, b))
        if op == 'Cmp' and a[0] == 'i' and b[0] == 'i':
            return ('o', 'ord', a[1], b[1])
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if a[0] == 'b' and b[0] == 'b':
            if base == 'BitAnd':
                return ('b', c_and(a[1], b[1]))
            if base == 'BitOr':
                return ('b', c_or(a[1], b[1]))
            if base == 'BitXor':
                for p, q in ((a[1], b[1]), (b[1], a[1])):
                    h = st.holds(p)
                    if h is not None:
                        return ('b', neg(q) if h else q)
            return self.opaque(fresh('bop'), dty)
        if a[0] == 'i' and b[0] == 'i':
            ty = a[2]
            r = self.arith(st, base, a, b, ty)
            if op.endswith('WithOverflow'):
                c = neg(self.in_range(r, ty))
                h = st.holds(c)
                if h is not None:
                    c = ('c', h)
                return ('t', (('i', r, ty), ('b', c)))
            return ('i', self.wrap(st, r, ty) if base in ('Add', 'Sub', 'Mul') else r, ty)
        return self.opaque(fresh('binop'), dty)

    def cast(self, st, fr, kind, v, tyid):
        t = self.ty(tyid)
        if kind == 'IntToInt' or kind.startswith('IntToInt'):
            if v[0] in ('i', 'b') and t['s'] in INT:
                return self.cast_int(st, v, t['s'])
            return self.opaque(fresh('cast'), tyid)
        if v[0] == 'r':
            if t['k'] in ('ref', 'ptr'):
                return ('r', v[1], v[2], t['elem'])
            return v
        if v[0] in ('x', 'fn', 'cl'):
            return v
        if v[0] == 'i' and t['s'] in INT and kind == 'Transmute':
            return self.cast_int(st, v, t['s'])
        if kind == 'Transmute' and v[0] == 's' and v[2] == tyid:
            return v
        return self.opaque(T('cast', self.term(v), tyid), tyid)

    # ------------------------------------------------------------ state pruning and joining
    def reach(self, st, roots):
        seen = set()
        todo = list(roots)
        while todo:
            r = todo.pop()
            if r in seen:
                continue
            seen.add(r)
            v = st.mem.get(r)
            if v is not None:
                self._refs(v, todo)
        return seen

    def _refs(self, v, out):
        k = v[0]
        if k == 'r':
            out.append(v[1][0])
        elif k == 'a':
            for x in v[3]:
                self._refs(x, out)
        elif k == 't':
            for x in v[1]:
                self._refs(x, out)
        elif k == 'cl':
            for x in v[2]:
                self._refs(x, out)
        elif k == 'x':
            self._refs(v[1], out)
        elif k == 'seq':
            for p in v[1]:
                if p[0] in ('e', 'z'):
                    self._refs(p[1], out)
        elif k == 'o':
            for x in v[2:]:
                if isinstance(x, tuple) and x and isinstance(x[0], str):
                    self._refs(x, out)

    def prune(self, st, fr, live):
        """drop the frame's dead locals and everything unreachable"""
        roots = []
        for r in st.mem:
            if r[0] == 'L':
                if r[1] == fr.fid:
                    if r[2] in live:
                        roots.append(r)
                elif r[1] < fr.fid and r[1] in self.livefids:
                    roots.append(r)
            elif r[0] == 'M' or (r[0] == 'P' and (r[2] != 'clo' or r[1] < fr.fid)):
                roots.append(r)
        seen = self.reach(st, roots)
        if len(seen) < len(st.mem):
            st.mem = {r: v for r, v in st.mem.items() if r in seen}
        return st

    BITOPS = frozenset(('Shl', 'Shr', 'BitAnd'))
    DERIVED = frozenset(('elem', 'fld', 'xb', 'len', 'wrap', 'rem', 'div'))

    def _derived(self, st, live):
        """quantities computed from live ones (elements, lengths, ...) are live too"""
        memo = {}

        def ok(t):
            if t in live:
                return True
            r = memo.get(t)
            if r is None:
                memo[t] = False
                k = TERMS[t]
                r = False
                if k[0] in self.BITOPS:
                    r = all(ok(s) for a in k[1:] if isinstance(a, Lin) for s, _ in a.m)
                elif k[0] in self.DERIVED:
                    a = k[1]
                    r = all(ok(s) for s, _ in a.m) if isinstance(a, Lin) else ok(a)
                    if k[0] == 'elem' and isinstance(k[2], Lin):
                        r = r and all(ok(s) for s, _ in k[2].m)
                memo[t] = r
            return r
        for f in (*st.le, *st.eq, *st.ne):
            for s, _ in f.m:
                if s not in live and (TERMS[s][0] in self.DERIVED or TERMS[s][0] in self.BITOPS) and ok(s):
                    live.add(s)

    def prune_facts(self, st):
        """drop facts about symbols nothing refers to any more"""
        if len(st.le) + len(st.eq) + len(st.ne) < 4:
            return st
        live = set()
        for v in st.mem.values():
            self._syms(v, live)
        self._derived(st, live)
        # project dead quantities out where an equality defines them
        eqs = list(st.eq)
        sub = []
        for i in range(len(eqs)):
            e = eqs[i]
            u = None
            for x, c in e.m:
                if c in (1, -1) and x not in live and TERMS[x][0] in ('phi', 'fresh'):
                    u = (x, c)
                    break
            if u is None:
                continue
            x, c = u
            env = {x: (e - Lin(0, ((x, c),))).scale(-c)}
            b = BND.get(x)
            eqs = [f.subst(env) if j != i else K(0) for j, f in enumerate(eqs)]
            sub.append((env, b))
        if sub:
            st.eq = frozenset(f for f in eqs if f.m)
            les, nes = list(st.le), list(st.ne)
            for env, b in sub:
                (x, l), = env.items()
                les = [f.subst(env) for f in les]
                nes = [f.subst(env) for f in nes]
                if l.m and b is not None:
                    if b[0] is not None:
                        les.append(K(b[0]) - l)
                    if b[1] is not None and b[1] < 1 << 20:
                        les.append(l - b[1])
            st.le = frozenset(f for f in les if f.m and (interval(f)[1] is None or interval(f)[1] > 0))
            st.ne = frozenset(f for f in nes if f.m)
        # quantities an equality ties to live ones count as live
        for e in st.eq:
            d = [s for s, _ in e.m if s not in live]
            if len(d) == 1 and len(e.m) > 1:
                live.add(d[0])
        # close over equalities/inequalities: keep facts connected through at most one dead symbol, and bounds on that symbol
        def keep(f):
            return sum(1 for s, _ in f.m if s not in live) <= 1 and any(s in live for s, _ in f.m)
        live |= {s for fs in (st.le, st.eq) for f in fs if len(f.m) > 1 and keep(f) for s, _ in f.m
                 if s not in live and any(len(g.m) == 1 and g.m[0][0] == s for gs in (st.le, st.ne) for g in gs)}
        st.le = frozenset(f for f in st.le if keep(f))
        st.eq = frozenset(f for f in st.eq if keep(f))
        st.ne = frozenset(f for f in st.ne if keep(f))
        return st

    def _syms(self, v, out):
        if isinstance(v, Lin):
            for s, _ in v.m:
                self._tsyms(s, out)
            return
        if isinstance(v, tuple):
            if len(v) >= 3 and v[0] == 's' and isinstance(v[1], int):
                out.add(v[1])
                out.add(T('len', v[1]))
            for x in v:
                if isinstance(x, (tuple, Lin)):
                    self._syms(x, out)

    def _tsyms(self, s, out):
        if s in out:
            return
        out.add(s)
        k = TERMS[s]
        if k[0] in ('xb', 'div', 'rem', 'lin', 'len', 'b2i', 'mul', 'Div', 'Rem'):
            for x in k[1:]:
                if isinstance(x, Lin):
                    self._syms(x, out)
        if k[0] in ('xb', 'div', 'rem'):
            self._tsyms(k[1], out)

    # shape of a value: partition key
    def shape(self, v, path, dropped, consts):
        k = v[0]
        if k == 'i':
            c = v[1].const()
            if c is None or (path not in self.keep and (not consts or path in dropped)):
                return 'i'
            self._cl.append((path, c))
            return c
        if k == 'b':
            return v[1][1] if v[1][0] == 'c' else 'b'
        if k == 'a':
            t = self.ty(v[1])
            c = consts
            if t['s'].startswith('core::ops::range::Range<') and v[3][1][0] == 'i' and v[3][1][1].const() is None:
                c = False
            return (k, v[1], v[2]) + tuple(self.shape(x, path + (i,), dropped, c) for i, x in enumerate(v[3]))
        if k == 't':
            return (k,) + tuple(self.shape(x, path + (i,), dropped, consts) for i, x in enumerate(v[1]))
        if k == 'cl':
            return (k, v[1]) + tuple(self.shape(x, path + (i,), dropped, consts) for i, x in enumerate(v[2]))
        if k == 'x':
            return (k, self.shape(v[1], path + ('x',), dropped, consts))
        if k == 'seq':
            if path in dropped or not consts:
                return 'seq'
            if v[2] is None and len(v[1]) <= 4 and self.opts.get('textshape'):
                return ('seq',) + tuple(p[1] if p[0] == 'k' else p[0] for p in v[1])
            return ('seq', 0) if not v[1] else 'seq'
        if k == 'r':
            r = v[1][0]
            if r[0] == 'O' and r[1] in self.intree:
                return ('r', 'O')
            return ('r', r if r[0] != 'O' else 'O', tuple(e if e[0] in ('f', 'd', 'x') else e[0] for e in v[1][1]))
        if k == 'o':
            c = consts
            if v[1] == 'it' and (not isinstance(v[4], Lin) or v[4].const() is None):
                c = False
            out = [k, v[1]]
            for i, x in enumerate(v[2:]):
                if isinstance(x, Lin):
                    cc = x.const()
                    p = path + (i,)
                    if cc is not None and c and p not in dropped:
                        self._cl.append((p, cc))
                        out.append(cc)
                    else:
                        out.append('l')
                elif isinstance(x, tuple) and x and isinstance(x[0], str):
                    out.append(self.shape(x, path + (i,), dropped, consts))
                elif v[1] == 'map' and isinstance(x, int) and i == 0:
                    out.append('m')
                else:
                    out.append(x)
            return tuple(out)
        if k == 'fn':
            return ('fn', v[1].full)
        return k

    def pkey(self, st, dropped=frozenset(), consts=True, oroots=None):
        self._cl = []
        out = []
        for r in sorted(st.mem, key=repr):
            if r[0] == 'O' and (oroots is None or r not in oroots):
                continue
            out.append((r, self.shape(st.mem[r], (r,), dropped, consts)))
        sp = tuple(sorted((k, v) for k, v in st.preds.items() if isinstance(k, int) and TERMS[k][0] in self.sticky))
        return (tuple(out), tuple(sorted(st.mon.items(), key=repr)), sp)

    def join(self, A, B, hid, widen=0, force=None, templates=(), record=None):
        """generalise two states of the same shape; returns (state, stable?)"""
        self.joins += 1
        J = State(mon=dict(A.mon))
        phis = {}             # sym -> (linA, linB)
        pairs = []            # (phi term, termA, termB)
        stable = [True]

        prefixes = set()
        for q in force or ():
            for i in range(len(q) + 1):
                prefixes.add(q[:i])
        made = record if record is not None else set()
        ordered = []          # positions of iterators minus their ends
        same_ref, same_seq = {}, {}

        def lin(a, b, path, lo=None, hi=None):
            if a == b and path not in prefixes:
                return a
            made.add(path)
            t = T('phi', hid, path)
            if a.single() != t:
                stable[0] = False
            if t not in BND:
                BND[t] = (lo, hi)
            phis[t] = (a, b)
            return S(t)

        def un(a, b, path):
            if a[0] == 'seq' and (a, b) in same_seq:
                return same_seq[a, b]
            if a == b and path not in prefixes:
                return a
            ka, kb = a[0], b[0]
            if a == b and ka not in ('i', 'a', 't', 'cl', 'x', 'o', 'seq'):
                return a
            if ka == kb:
                if ka == 'i' and a[2] == b[2]:
                    lo, hi = trange(a[2])
                    return ('i', lin(a[1], b[1], path, lo, hi), a[2])
                if ka == 'b':
                    t = T('phi', hid, path)
                    if a != ('b', ('p', t, True)):
                        stable[0] = False
                    return ('b', ('p', t, True))
                if ka == 'a' and a[1] == b[1] and a[2] == b[2]:
                    if len(a[3]) == 2 and a[3][0][0] == a[3][1][0] == 'i' and self.ty(a[1])['path'] == 'core::ops::range::Range':
                        r = tuple(un(x, y, path + (i,)) for i, (x, y) in enumerate(zip(a[3], b[3])))
                        ordered.append(r[0][1] - r[1][1])
                        return ('a', a[1], a[2], r)
                    return ('a', a[1], a[2], tuple(un(x, y, path + (i,)) for i, (x, y) in enumerate(zip(a[3], b[3]))))
                if ka == 't' and len(a[1]) == len(b[1]):
                    return ('t', tuple(un(x, y, path + (i,)) for i, (x, y) in enumerate(zip(a[1], b[1]))))
                if ka == 'cl' and a[1] == b[1]:
                    return ('cl', a[1], tuple(un(x, y, path + (i,)) for i, (x, y) in enumerate(zip(a[2], b[2]))))
                if ka == 'x':
                    return ('x', un(a[1], b[1], path + ('x',)))
                if ka == 'o' and a[1] == b[1] and len(a) == len(b):
                    f = []
                    for i, (x, y) in enumerate(zip(a[2:], b[2:])):
                        if x == y and path + (i,) not in prefixes:
                            f.append(x)
                        elif isinstance(x, Lin) and isinstance(y, Lin):
                            f.append(lin(x, y, path + (i,), 0 if a[1] == 'it' else None, None))
                        elif isinstance(x, tuple) and isinstance(y, tuple) and x and isinstance(x[0], str):
                            f.append(un(x, y, path + (i,)))
                        elif isinstance(x, int) and isinstance(y, int) and not isinstance(x, bool):
                            t = T('phi', hid, path + (i,))
                            if x != t:
                                stable[0] = False
                            f.append(t)
                        else:
                            f.append(('s', T('phi', hid, path + (i,)), None))
                            stable[0] = False
                    if a[1] == 'it' and len(f) >= 3 and isinstance(f[1], Lin) and isinstance(f[2], Lin):
                        ordered.append(f[1] - f[2])
                    return ('o', a[1]) + tuple(f)
                if ka == 'seq' and len(a[1]) == len(b[1]) <= 32 and a[2] == b[2] and all(p[0] == 'e' and q[0] == 'e' for p, q in zip(a[1], b[1])):
                    same_seq[a, b] = ('seq', tuple(('e', un(p[1], q[1], path + ('e', i))) for i, (p, q) in enumerate(zip(a[1], b[1]))), a[2])
                    return same_seq[a, b]
                if ka == 'seq':
                    t = T('phi', hid, path, 'seq')
                    la, lb = self.seq_len(a), self.seq_len(b)
                    if len(a[1]) == 1 and len(b[1]) == 1 and a[1][0][0] == 's' and b[1][0][0] == 's' and a[1][0][1] == b[1][0][1]:
                        p, q = a[1][0], b[1][0]
                        same_seq[a, b] = ('seq', (('s', p[1], lin(p[2], q[2], path + ('off',), 0, MAXLEN), lin(p[3], q[3], path + ('len',), 0, MAXLEN)),), a[2])
                        return same_seq[a, b]
                    n = lin(la, lb, path + ('len',), 0, MAXLEN)
                    if not (len(a[1]) == 1 and a[1][0][0] == 's' and a[1][0][1] == t):
                        stable[0] = False
                    same_seq[a, b] = ('seq', (('s', t, K(0), n),), a[2] if a[2] is not None else b[2])
                    return same_seq[a, b]
                if ka == 'r':
                    (ra, pa), (rb, pb) = a[1], b[1]
                    if ra == rb and len(pa) == len(pb) and all(x[0] == y[0] and (x == y or x[0] in ('ss', 'i')) for x, y in zip(pa, pb)):
                        pr = []
                        for i, (x, y) in enumerate(zip(pa, pb)):
                            if x == y:
                                pr.append(x)
                            else:
                                pr.append((x[0],) + tuple(lin(p, q, path + (i, j), 0, MAXLEN) for j, (p, q) in enumerate(zip(x[1:], y[1:]))))
                        return ('r', (ra, tuple(pr)), a[2], a[3])
                    # the same two objects met elsewhere in these states become the same object
                    t = same_ref.setdefault((a[1], b[1]), T('phi', hid, path, 'obj'))
                    if a[1] != (('O', t), ()):
                        stable[0] = False
                    ety = a[3] if a[3] is not None else b[3]
                    if ety is not None:
                        self.oty[t] = ety
                    if self.is_intree(A, a) and self.is_intree(B, b):
                        self.intree.add(t)
                    elif t in self.intree:
                        self.intree.discard(t)
                        stable[0] = False
                    if ra[0] == 'O' and rb[0] == 'O' and not pa and not pb:
                        pairs.append((t, ra[1], rb[1]))
                    return ('r', (('O', t), ()), a[2], ety)
                if ka == 's':
                    t = self.alt(a[1], b[1])
                    if t is not None:
                        if a[1] != t:
                            stable[0] = False
                        return ('s', t, a[2] if a[2] is not None else b[2])
                    t = T('phi', hid, path)
                    if a[1] != t:
                        stable[0] = False
                    pairs.append((t, a[1], b[1]))
                    if a[1] in self.intree and b[1] in self.intree:
                        self.intree.add(t)
                    return ('s', t, a[2] if a[2] is not None else b[2])
                if ka == 'fn':
                    return ('s', T('phi', hid, path), None)
            # different representations
            for x, y in ((a, b), (b, a)):
                if x[0] == 's' and y[0] == 'a' and x[2] == y[1] and len(path) < 12:
                    if not self.ty(y[1]).get('enum') or self.variant(A if x is a else B, x) == y[2]:
                        z = self.expand(x, y[2])
                        if z is not None and z[0] == 'a':
                            return un(z, b, path) if x is a else un(a, z, path)
            t = T('phi', hid, path)
            tyid = None
            for x in (a, b):
                if x[0] == 'a':
                    tyid = x[1]
                elif x[0] == 's' and x[2] is not None:
                    tyid = x[2]
            if a != ('s', t, tyid):
                stable[0] = False
            ta = a[1] if ka == 's' else None
            tb = b[1] if kb == 's' else None
            if ta is not None and tb is not None:
                pairs.append((t, ta, tb))
            return ('s', t, tyid)

        A, B = A.copy(), B.copy()      # root_value materialises lazily
        for r in sorted(A.mem, key=lambda r: (r,) not in prefixes) if prefixes else list(A.mem):
            if r in B.mem:
                J.mem[r] = un(A.mem[r], B.mem[r], (r,))
            elif r[0] == 'O':
                try:
                    vb = self.root_value(B, r)
                except Bad:
                    continue
                J.mem[r] = un(A.mem[r], vb, (r,))
        for r in list(B.mem):
            if r not in A.mem and r[0] == 'O' and r not in J.mem and r[1] in self.oty:
                va = self.root_value(A, r)
                if va != B.mem[r]:
                    J.mem[r] = un(va, B.mem[r], (r,))
                A.mem.pop(r, None)
        # predicates
        for k, v in A.preds.items():
            if B.preds.get(k) == v:
                J.preds[k] = v
        for t, ta, tb in pairs:
            va, vb = A.preds.get(('var', ta)), B.preds.get(('var', tb))
            if va is not None and va == vb:
                J.preds[('var', t)] = va
            if ta == t and tb == t:
                continue
            for k, v in A.preds.items():
                if isinstance(k, tuple) and k[0] == 'var' and isinstance(k[1], int):
                    r = rebase(k[1], ta, t)
                    if r is not None and r != t and B.preds.get(('var', rebase(k[1], ta, tb))) == v:
                        J.preds[('var', r)] = v
        # facts
        cand_le, cand_eq = [], []
        Af = list(A.le) + [x for e in A.eq for x in (e, -e)]
        Bf = list(B.le) + [x for e in B.eq for x in (e, -e)]
        envA = {t: a for t, (a, b) in phis.items()}
        envB = {t: b for t, (a, b) in phis.items()}
        syms_stable_cache = {}

        mention = {}

        def mentions(s):
            # a derived quantity that depends on a redefined phi
            if s in phis:
                return True
            r = mention.get(s)
            if r is None:
                k = TERMS[s]
                r = any(any(mentions(x) for x, _ in y.m) if isinstance(y, Lin) else mentions(y)
                        for i, y in enumerate(k[1:]) if isinstance(y, Lin) or (i == 0 and type(y) is int and k[0] in self.DERIVED))
                mention[s] = r
            return r

        def stable_lin(l):
            # mentions only symbols meaningful in both states (not redefined phis)
            return not any(mentions(s) for s, _ in l.m)

        before = set()

        def known_before(l):
            if not before:
                before.add(-1)
                for v in A.mem.values():
                    self._syms(v, before)
            return all(s in before for s, _ in l.m)

        def dsub(l, env):
            # substitution, also inside derived quantities; None if the result cannot be named
            out = K(l.c)
            for s, c in l.m:
                if s in env:
                    out = out + env[s].scale(c)
                elif mentions(s):
                    t = self.rename_derived(s, env, mentions)
                    if t is None:
                        return None
                    out = out + t.scale(c)
                else:
                    out = out + S(s).scale(c)
            return out
        kept_le, kept_eq = set(), set()
        loopjoin = hid[0] not in ('m', 'm2', 'r', 'r2')
        limits = set()

        def check(c):
            if any(s not in phis and mentions(s) for s, _ in c.m):
                x, y = dsub(c, envA), dsub(c, envB)
                return x is not None and y is not None and entails(A.le, A.eq, x, A.ne) and entails(B.le, B.eq, y, B.ne)
            return entails(A.le, A.eq, c.subst(envA), A.ne) and entails(B.le, B.eq, c.subst(envB), B.ne)
        # facts that do not involve generalised symbols
        for f in A.eq:
            if f in B.eq and (stable_lin(f) or definition(f)):
                kept_eq.add(f)
            else:
                cand_eq.append(f)
                if not widen and len(f.m) <= 3 and stable_lin(f):
                    cand_le += [f, -f]
        for f in B.eq if not widen else ():
            if f not in A.eq and len(f.m) <= 3 and stable_lin(f):
                cand_le += [f, -f]
        for f in A.le:
            if f in B.le and stable_lin(f):
                kept_le.add(f)
            else:
                cand_le.append(f)
        if phis:
            # facts of B rewritten from the old to the new value
            sub = {}
            ren = {}
            for t, (a, b) in phis.items():
                d = b - S(t)
                if stable_lin(d):
                    sub[t] = S(t) - d
                s = b.single()
                if s is not None and s != t:
                    ren.setdefault(s, S(t))
                elif len(b.m) == 1 and b.m[0][1] == 1 and b.m[0][0] != t:
                    ren.setdefault(b.m[0][0], S(t) - b.c)
                s = a.single()
                if s is not None and s != t:
                    ren.setdefault(s, S(t))
                elif len(a.m) == 1 and a.m[0][1] == 1 and a.m[0][0] != t:
                    ren.setdefault(a.m[0][0], S(t) - a.c)
            for f in (Bf + Af if not widen else ()):
                ss = [s for s, _ in f.m]
                if any(s in phis for s in ss) and all(s in sub for s in ss if s in phis):
                    cand_le.append(f.subst(sub))
                if any(s in ren for s in ss):
                    cand_le.append(f.subst(ren))
                    cand_le.append(f.subst({**sub, **ren}))
            items = list(phis.items())
            new = {t for t, (a, b) in items if a.single() != t}
            if loopjoin and not widen:
                # a bound found on the first round, when the counter was a constant
                late = [f for f in B.le if len(f.m) <= 2 and f not in A.le and stable_lin(f)][:12]
                for t, (a, b) in items[:8]:
                    if a.const() is not None and b.const() is not None:
                        cand_le.extend(f + (S(t) - b).scale(1 if b.c > a.c else -1) for f in late)
            # facts about an element at a generalised index
            if len(items) <= 12:
                for src, side in ((A, 0), (B, 1)):
                    for fs, cand in ((src.le, cand_le), (src.eq, cand_eq)):
                        for f in fs:
                            for s, c in f.m:
                                k = TERMS[s]
                                if k[0] == 'elem' and isinstance(k[2], Lin) and k[2].m and k[1] not in phis:
                                    for t, ab in items:
                                        d = k[2] - ab[side]
                                        if d.const() is not None:
                                            n = T('elem', k[1], S(t) + d.c)
                                            if n not in BND and s in BND:
                                                BND[n] = BND[s]
                                            if n != s:
                                                cand.append(f.subst({s: S(n)}))
            for t, (a, b) in items:
                if not widen or t in new:
                    for x in (a, b):
                        if stable_lin(x):
                            cand_le.append(S(t) - x)
                            cand_le.append(x - S(t))
                la, lb = interval(a), interval(b)
                los, his = {0, 1}, {7, 8, 255, 256}
                if not loopjoin:
                    los |= {la[0], lb[0]}
                    his |= {la[1], lb[1]}
                else:
                    if la[0] is not None and lb[0] is not None and la[0] <= lb[0]:
                        los.add(la[0])
                    if la[1] is not None and lb[1] is not None and lb[1] <= la[1]:
                        his.add(la[1])
                for lo in los:
                    if lo is not None and abs(lo) < 1 << 20:
                        limits.add(K(lo) - S(t))
                for hi in his:
                    if hi is not None and abs(hi) < 1 << 20:
                        limits.add(S(t) - hi)
            cand_le.extend(limits)
            if len(items) <= 24 and not (widen and (not new or force)):
                for i in range(len(items)):
                    for j in range(i):
                        (t, (a, b)), (u, (c, d)) = items[i], items[j]
                        if widen and t not in new and u not in new:
                            continue
                        e = a - c
                        if stable_lin(e):
                            cand_eq.append(S(t) - S(u) - e)
                            cand_le.append(S(t) - S(u) - e)
                            cand_le.append(-(S(t) - S(u) - e))
                        e = a + c
                        if stable_lin(e):
                            cand_eq.append(S(t) + S(u) - e)
                        if loopjoin and not widen:
                            # a quantity that moves by the same unknown amount whenever a counter moves by one
                            for (x, xa, xb_), (y, ya, yb_) in (((t, a, b), (u, c, d)), ((u, c, d), (t, a, b))):
                                st_, dx = yb_ - ya, xb_ - xa
                                if st_.const() in (1, -1) and dx.const() is None and stable_lin(dx) and stable_lin(xa) and stable_lin(ya) and known_before(dx):
                                    cand_eq.append(S(x) - xa - bilinear(S(y) - ya, dx).scale(st_.c))
                        da, dc = b - a, d - c
                        if da.const() and dc.const() and stable_lin(a) and stable_lin(c) and abs(da.c) != abs(dc.c):
                            cand_eq.append((S(t) - a).scale(dc.c) - (S(u) - c).scale(da.c))
                        cand_le.append(S(t) - S(u))
                        cand_le.append(S(u) - S(t))
        cand_le.extend(templates)
        limits.update(templates)
        cand_le.extend(ordered)
        limits.update(ordered)
        if len(phis) > 1:
            for c in self.hull(A.eq, B.eq, phis):
                if -c not in kept_eq:
                    kept_eq.add(c)
        for c in dict.fromkeys(cand_eq):
            if not c.m:
                continue
            if -c not in kept_eq and check(c) and check(-c):
                kept_eq.add(c)
        unit = {}
        other = []
        for c in dict.fromkeys(cand_le):
            if not c.m or c in kept_le:
                continue
            if widen and c not in A.le and c not in limits and (len(c.m) == 1 or widen > 1 or any(f.m == c.m for f in A.le)):
                continue
            h = interval(c)[1]
            if h is not None and h <= 0:
                continue
            if len(c.m) == 1:
                if c not in A.le and loopjoin and c not in limits:
                    continue
                unit.setdefault(c.m, []).append(c)
            else:
                other.append(c)
        for m, cs in unit.items():
            failed = False
            for c in sorted(cs, key=lambda c: -c.c):      # tightest first
                if failed and widen > 1:
                    break
                if check(c):
                    kept_le.add(c)
                    break
                failed = failed or c in A.le
        for c in other:
            if check(c) and not entails(frozenset(), frozenset(kept_eq), c):
                kept_le.add(c)
        J.le, J.eq = frozenset(kept_le), frozenset(-f if f.m and f.m[0][1] < 0 else f for f in kept_eq)
        J.ne = A.ne & B.ne
        if any(J.preds.get(k) != v for k, v in A.preds.items()):
            stable[0] = False
        if stable[0]:
            for f in A.eq:
                if f not in J.eq and not (entails(J.le, J.eq, f) and entails(J.le, J.eq, -f)):
                    stable[0] = False
                    break
            if stable[0]:
                for f in A.le:
                    if f not in J.le and not entails(J.le, J.eq, f):
                        stable[0] = False
                        break
            if stable[0] and J.ne != A.ne:
                stable[0] = False
        return J, stable[0]

    def rename_derived(self, s, env, mentions):
        def lin(l):
            i = K(l.c)
            for x, c in l.m:
                if x in env:
                    i = i + env[x].scale(c)
                elif mentions(x):
                    y = self.rename_derived(x, env, mentions)
                    if y is None:
                        return None
                    i = i + y.scale(c)
                else:
                    i = i + S(x).scale(c)
            return i
        k = TERMS[s]
        if k[0] == 'elem' and isinstance(k[2], Lin):
            i = lin(k[2])
            if mentions(k[1]) or i is None:
                return None
            t = T('elem', k[1], i)
        elif k[0] == 'mul':
            x, y = lin(k[1]), lin(k[2])
            return bilinear(x, y) if x is not None and y is not None else None
        elif k[0] == 'xb' and k[1] in env and env[k[1]].single() is not None:
            t = T('xb', env[k[1]].single(), *k[2:])
        else:
            return None
        if t not in BND and s in BND:
            BND[t] = BND[s]
        return S(t)

    def hull(self, ea, eb, phis):
        """affine relations between generalised quantities that hold on both sides"""
        ren = {t: S(T('old', t)) for t in phis}
        res = []
        seed = {s for t, p in phis.items() for x in (0, 1) for s in p[x].subst(ren).syms()}
        ea, eb = ([e.subst(ren) for e in es] for es in (ea, eb))
        if any(a.const() is not None and b.const() is not None for a, b in phis.values()):
            # quantities that are constant on both sides go with those generalised from constants
            ca, cb = ({s for f in es if f.c and len(f.m) <= 2 for s, _ in f.m} for es in (ea, eb))
            seed |= ca & cb
        seed = relevant(relevant(seed, ea, 4)[1], eb, 4)[1]
        for x, es in ((0, ea), (1, eb)):
            rows = [S(t) - p[x].subst(ren) for t, p in phis.items()]
            res.append((rows + relevant(seed, es, 4)[0])[:120])
        old = {s.single() for s in ren.values()}
        r = [None, None]
        for x in (0, 1):
            rows = [dict(l.m) | ({None: l.c} if l.c else {}) for l in res[x]]
            rows = lin_eliminate(rows, sorted(s for s in {s for r_ in rows for s in r_} if s in old))
            r[x] = [mk(q.pop(None, 0), q) for q in rows]
        return [c for c in karr(r[0], r[1]) if c.m]

    PATHS = ('argval', 'pathlit', 'pjoin', 'setfn', 'wext', 'wextv', 'cat', 'parent', 'canon')

    def alt(self, a, b):
        """one of several known paths"""
        out = set()
        for x in (a, b):
            k = TERMS[x]
            if k[0] == 'alt':
                out |= set(k[1:])
            elif k[0] in self.PATHS:
                out.add(x)
            else:
                return None
        return T('alt', *sorted(out)) if len(out) <= 6 else None

    def debug_join(self, A, B, J):
        print('---- join', file=sys.stderr)
        for r in J.mem:
            if A.mem.get(r) != J.mem[r]:
                print('  ', r, '\n    A', pretty(A.mem.get(r)), '\n    B', pretty(B.mem.get(r)), '\n    J', pretty(J.mem[r]), file=sys.stderr)
        for nm in ('le', 'eq', 'ne'):
            for f in getattr(A, nm) - getattr(J, nm):
                print('   lost', nm, f, file=sys.stderr)
            for f in getattr(J, nm) - getattr(A, nm):
                print('   new', nm, f, file=sys.stderr)
        for k, v in A.preds.items():
            if J.preds.get(k) != v:
                print('   lost pred', show(k) if isinstance(k, int) else k, v, file=sys.stderr)

    def is_intree(self, st, v):
        if v[0] == 'r':
            if v[1][0][0] == 'O' and v[1][0][1] in self.intree:
                return True
            try:
                x = self.read(st, v[1])
            except Bad:
                return False
            return x[0] == 's' and x[1] in self.intree
        return v[0] == 's' and v[1] in self.intree

    # ------------------------------------------------------------ execution
    def merge(self, fr, b, states):
        live = fr.cfg.livein[b]
        if len(states) == 1 and len(states[0].mem) < 80:
            return states
        out = {}
        for s in states:
            s = self.prune(s, fr, live)
            out[s.canon()] = s
        states = list(out.values())
        if len(states) <= self.opts.get('merge_min', 3):
            return states
        states = [self.prune_facts(s) for s in states]
        groups = {}
        for s in states:
            groups.setdefault(self.pkey(s, oroots=None), []).append(s)
        res = []
        for g in groups.values():
            while len(g) > self.opts.get('cap_merge', 2):
                J, _ = self.join(g[0], g[1], ('m', fr.fid, b, len(g), fresh('j')))
                g = [J] + g[2:]
            res.extend(g)
        if len(res) > self.opts.get('cap_block', 48):
            groups = {}
            for s in res:
                groups.setdefault(self.pkey(s, consts=False), []).append(s)
            res = []
            for g in groups.values():
                while len(g) > 2:
                    J, _ = self.join(g[0], g[1], ('m2', fr.fid, b, len(g), fresh('j')))
                    g = [J] + g[2:]
                res.extend(g)
        return res

    def exec_region(self, fr, blocks, start, states, head):
        """returns (back states, exits [(target, state)])"""
        pend = {start: list(states)}
        back, exits = [], []
        rpo = fr.cfg.rpo
        first = True

        def route(t, s):
            if t == head and head is not None:
                back.append(s)
            elif t == 'ret' or (blocks is not None and t not in blocks):
                exits.append((t, s))
            else:
                pend.setdefault(t, []).append(s)
        while pend:
            b = min(pend, key=lambda x: rpo[x])
            sts = pend.pop(b)
            if b in fr.cfg.loops and not (first and b == head):
                for t, s in self.exec_loop(fr, b, sts):
                    route(t, s)
                continue
            first = False
            for s in self.merge(fr, b, sts):
                for t, s2 in self.exec_block(fr, b, s):
                    route(t, s2)
        return back, exits

    def mkey(self, k):
        out = []
        for r, sh in k[0]:
            if r[0] != 'O':
                out.append((r, sh))
        return (tuple(out),)

    def callchain(self, fr):
        out = []
        f = fr
        while f is not None and len(out) < 8:
            out.append((f.key,))
            f = f.parent
        return out

    def exec_loop(self, fr, head, entries):
        self.loopstack.append((fr.key, head))
        try:
            return self.exec_loop1(fr, head, entries)
        finally:
            self.loopstack.pop()

    def exec_loop1(self, fr, head, entries):
        if 1 < len(entries) <= self.opts.get('loop_apart', 0):
            return [x for s in entries for x in self.exec_loop1(fr, head, [s])]
        hid = (fr.fid, head, fresh('loop'))
        blocks = fr.cfg.loops[head]
        live = fr.cfg.livein[head]
        arrive = [h.on_loop for h in self.hooks if hasattr(h, 'on_loop')]
        for f in arrive:        # a hook that answers 'stop' has nothing more to learn from that state
            self.frame = fr
            entries = [s for s in entries if f(self, s, fr, head, 'entry') != 'stop']
        if not entries:
            return []
        entries = [self.prune_facts(self.prune(s, fr, live)) for s in entries]
        oroots = set()
        for s in entries:
            oroots |= {r for r in s.mem if r[0] == 'O'}
        dropped = set(self.opts.get('noconst', ()))
        unroll = self.opts.get('unroll', True)
        invs, ver, outs = {}, {}, {}
        todo = []
        memo = self.loopmemo.setdefault((fr.key, tuple(x[0] for x in self.callchain(fr)), head), {})
        warmed, varied = set(), {}

        def add(s):
            k = self.pkey(s, dropped, unroll, oroots)
            o = invs.get(k)
            if o is None:
                m = memo.get(self.mkey(k)) if k not in warmed else None
                if m:
                    # an earlier execution of this loop tells which quantities vary
                    tpl = [f.subst({a: S(T('phi', hid, TERMS[a][2])) for a in f.syms() if a in m[2]}) for f in m[1]]
                    s, _ = self.join(s, s, hid, 1, force=m[0], templates=tpl, record=varied.setdefault(k, set()))
                    warmed.add(k)
                invs[k] = s
                todo.append(k)
                return
            if o.canon() == s.canon():
                return
            w = (ver.get(k, 0) >= 3) + (ver.get(k, 0) >= 8)
            J, stable = self.join(o, s, hid, max(w, int(k in warmed)), record=varied.setdefault(k, set()))
            if not stable:
                ver[k] = ver.get(k, 0) + 1
                if ver[k] > self.opts.get('debugver', 20) and self.opts.get('debug') and head == self.opts.get('debughead', head):
                    self.debug_join(o, s, J)
                if ver[k] > 25:
                    raise Bad('loop does not stabilise')
                invs[k] = J
                if k not in todo:
                    todo.append(k)

        def rekey():
            old = list(invs.values())
            invs.clear()
            outs.clear()
            todo.clear()
            for s in old:
                add(s)
        for s in entries:
            add(s)
        passes = 0
        while todo:
            k = todo.pop(0)
            if k not in invs:
                continue
            passes += 1
            if self.opts.get('trace'):
                print('  ' * len(self.active), 'pass', passes, fr.path, head, 'inv', len(invs), 'todo', len(todo), 'ver', ver.get(k, 0), 'warm', len(warmed), 'memo', len(memo), 'steps', self.steps, file=sys.stderr)
            if passes > 400:
                raise Bad('too many loop passes')
            save = self.cur
            self.cur = []
            try:
                back, exits = self.exec_region(fr, blocks, head, [invs[k].copy()], head)
                for f in arrive:
                    self.frame = fr
                    back = [s for s in back if f(self, s, fr, head, 'back') != 'stop']
                ev = self.cur
            except Bad:
                self.cur = save
                raise
            self.cur = save
            outs[k] = (exits, ev, bool(back) and bool(exits))
            for s in back:
                add(self.prune_facts(self.prune(s, fr, live)))
            undecided = sum(1 for o in outs.values() if o[2])
            if undecided > self.opts.get('cap_loop', self.CAP_LOOP) or len(invs) > self.opts.get('cap_decided', self.CAP_DECIDED):
                # the constants that vary most stop being kept apart
                vals = {}
                for s in invs.values():
                    self.pkey(s, dropped, True, oroots)
                    for p, c in self._cl:
                        vals.setdefault(p, set()).add(c)
                vary = {p: len(v) for p, v in vals.items() if len(v) > 1 and p not in self.keep}
                if vary:
                    m = max(vary.values())
                    dropped |= {p for p, n in vary.items() if n == m}
                    rekey()
                elif len(invs) > self.opts.get('cap_decided', self.CAP_DECIDED) + 100:
                    raise Bad('loop partitions')
        res = []
        for k in invs:
            if varied.get(k):
                phis = {T('phi', hid, q) for q in varied[k]}
                fs = [f for f in list(invs[k].le) + [x for e in invs[k].eq for x in (e, -e)] if any(x in phis for x in f.syms())]
                memo[self.mkey(k)] = (varied[k], fs, phis)
            if k in outs:
                ex, ev, _ = outs[k]
                res.extend(ex)
                self.cur.extend(ev)
        return res

    def exec_block(self, fr, b, st):
        """[(target, state)]"""
        self.steps += 1
        if self.steps > self.limit:
            raise Bad('step limit')
        if self.steps & 63 == 0 and self.opts.get('deadline') and time.time() > self.opts['deadline']:
            raise Bad('time limit')
        self.stats['blocks'] += 1
        bl = fr.body['blocks'][b]
        st = st.copy()
        self.frame = fr
        try:
            for s in bl['s']:
                k = s[0]
                if k == '=':
                    dty = None
                    if not s[1][1]:
                        dty = fr.body['locals'][s[1][0]]
                    loc, pty = self.place(st, fr, s[1])
                    v = self.rvalue(st, fr, s[2], dty if dty is not None else pty, s[3])
                    self.write(st, loc, v)
                elif k == 'setdiscr':
                    loc, pty = self.place(st, fr, s[1])
                    v = self.read(st, loc)
                    if v[0] == 'a':
                        self.write(st, loc, ('a', v[1], s[2], v[3]))
            return self.terminator(fr, b, bl, st)
        except Bad as e:
            if e.args and e.args[0] == 'downcast':
                return []          # contradicts the established variant: unreachable
            raise Bad(f'{e} [{fr.path} bb{b} {bl["sp"]}]') if '[' not in str(e) else e

    def terminator(self, fr, b, bl, st):
        t = bl['t']
        k = t[0]
        site = bl['sp']
        if k == 'goto':
            return [(t[1], st)]
        if k == 'drop':
            for h in self.hooks:
                f = getattr(h, 'on_drop', None)
                if f:
                    try:
                        loc, _ = self.place(st, fr, t[1])
                        f(self, st, self.read(st, loc), t[3], site)
                    except Bad:
                        pass
            return [(t[2], st)]
        if k == 'return':
            return [('ret', st)]
        if k in ('unreachable', 'resume', 'otherterm'):
            return []
        if k == 'switch':
            return self.switch(fr, t, st, site)
        if k == 'assert':
            c = self.operand(st, fr, t[1])[1]
            if not t[2]:
                c = neg(c)
            return self.do_assert(fr, t, st, c, site)
        if k == 'call':
            return self.do_call(fr, b, t, st, site)
        return []

    def switch(self, fr, t, st, site):
        v = self.operand(st, fr, t[1])
        out = []
        if v[0] == 'b':
            c = v[1]
            m = {int(x): bb for x, bb in t[2]}
            for val in (0, 1):
                cc = c if val else neg(c)
                tgt = m.get(val, t[3])
                for s in self.assume(st, cc):
                    if s is st:
                        s = st.copy()
                    for h in self.hooks:
                        f = getattr(h, 'on_branch', None)
                        if f:
                            f(self, s, cc, site, st)
                    out.append((tgt, s))
            return out
        if v[0] == 'i':
            l = v[1]
            sg = INT[v[2]][1]
            bits = INT[v[2]][0]
            sy = l.single()
            if sy is not None and sy in self.dty and TERMS[sy][0] == 'discr':
                tyid = self.dty[sy]
                tt = self.ty(tyid)
                opq = ('s', TERMS[sy][1], tyid)
                m = {}
                for x, bb in t[2]:
                    x = int(x)
                    if x >= 1 << (bits - 1) and sg:
                        x -= 1 << bits
                    m[x] = bb
                for i, vj in enumerate(tt['variants']):
                    s = self.set_variant(st, opq, i)
                    if s is None:
                        continue
                    out.append((m.get(vj['discr'], t[3]), s.copy() if s is st else s))
                return out
            rest = st
            for x, bb in t[2]:
                x = int(x)
                if sg and x >= 1 << (bits - 1):
                    x -= 1 << bits
                c = c_eq(l - x)
                for s in rest.assume(c):
                    s = s.copy() if s is rest else s
                    for h in self.hooks:
                        f = getattr(h, 'on_branch', None)
                        if f:
                            f(self, s, c, site, st)
                    out.append((bb, s))
                r = rest.assume(neg(c))
                if not r:
                    return out
                rest = r[0]
            out.append((t[3], rest.copy()))
            return out
        # unknown scrutinee
        for x, bb in t[2]:
            out.append((bb, st.copy()))
        out.append((t[3], st.copy()))
        return out

    def obligation(self, kind, site, ok):
        w = self.wsite(site)
        key = (kind, w[0], w[1])
        o = self.stats['obligations'].get(key)
        self.stats['obligations'][key] = ok if o is None else (o and ok)

    def do_assert(self, fr, t, st, c, site):
        h = st.holds(c)
        kind = t[3][0]
        w = self.wsite(site)
        self.obligation(kind, site, h is True)
        if h is not True:
            desc = {'bounds': 'index out of bounds', 'overflow': 'arithmetic overflow', 'divzero': 'division by zero',
                    'remzero': 'remainder by zero', 'overflowneg': 'negation overflow'}.get(kind, 'assertion')
            if kind == 'overflow':
                desc += ' in ' + t[3][1] + self.operand_type(fr, t[1])
            self.panic(st, desc, site, definite=(h is False))
        out = []
        for s in st.assume(c):
            out.append((t[4], s.copy() if s is st else s))
        return out

    def operand_type(self, fr, o):
        """' of <type>' for the flag of a checked operation"""
        try:
            pl = o.get('move') or o.get('copy')
            t = self.ty(fr.body['locals'][pl[0]])
            return ' of ' + self.ty((t.get('args') or t.get('elems'))[0])['s']
        except (KeyError, IndexError, TypeError, AttributeError):
            return ''

    def panic(self, st, desc, site, definite=False):
        w = self.wsite(site)
        for h in self.hooks:
            f = getattr(h, 'on_panic', None)
            if f:
                f(self, st, desc, w, definite)

    # ------------------------------------------------------------ calls
    def do_call(self, fr, b, t, st, site):
        f = self.operand(st, fr, t[1])
        args = [self.operand(st, fr, o) for o in t[2]]
        dty = fr.body['locals'][t[3][0]] if not t[3][1] else self.place(st, fr, t[3])[1]
        if f[0] != 'fn':
            res = self.call_value(st, f, args, dty, site)
        else:
            c = f[1]
            if t[4] is not None and c.j.get('body') and len(st.mem) > 40:
                live = set(fr.cfg.livein[t[4]])
                place_locals(t[3], live)
                if not t[3][1]:
                    live.discard(t[3][0])
                # keep what the arguments refer to
                tmp = ('P', fr.fid, 'args')
                st.mem[tmp] = ('t', tuple(args))
                st = self.prune(st, fr, live)
                st.mem.pop(tmp, None)
            res = self.call(st, c, args, dty, site)
        out = []
        self.frame = fr
        if t[4] is None:
            return []
        for s, v in res:
            if v is None:
                continue
            s = s.copy()
            loc, _ = self.place(s, fr, t[3])
            self.write(s, loc, v)
            out.append((t[4], s))
        return out

    def call_value(self, st, f, args, dty, site):
        """call a function value with unpacked arguments"""
        f = self.deep(st, f)
        if f[0] == 'fn':
            return self.call(st, f[1], args, dty, site)
        if f[0] == 'cl':
            root = ('P', self.newfid(), 'clo')
            st = st.copy()
            st.mem[root] = f
            return self.run_closure(st, f, ('r', (root, ()), True, None), args, site)
        st = st.copy()
        for a in args:
            if a[0] == 'r' and a[2]:
                self.havoc_ref(st, a)
        return [(st, self.opaque(fresh('dyncall'), dty))]

    def newfid(self):
        self.nfid += 1
        return self.nfid

    def run_closure(self, st, clo, selfref, args, site):
        """args: unpacked; selfref: reference to the closure"""
        key = clo[1]
        body = self.p.bodies.get(key)
        if body is None:
            raise Bad('closure body ' + str(key))
        t0 = self.ty(body['locals'][1]) if body['argc'] else None
        me = selfref if t0 and t0['k'] == 'ref' else clo
        a = [me] + list(args)
        if body.get('spread') is not None and len(args) != body['argc'] - 1:
            pass
        return self.run(key, a[:body['argc']], st, site)

    def call(self, st, c, args, dty, site):
        self.stats['calls'] += 1
        j = c.j
        name = j.get('rpath') or j['path']
        for h in self.hooks:
            f = getattr(h, 'pre_call', None)
            if f:
                r = f(self, st, name, c, args, dty, site)
                if r is not None:
                    return r
        res = self._call(st, c, name, args, dty, site)
        for h in self.hooks:
            f = getattr(h, 'post_call', None)
            if f:
                for s, v in res:
                    f(self, s, name, c, args, v, site)
        return res

    def _call(self, st, c, name, args, dty, site):
        j = c.j
        m = self.models.lookup(self, j, name)
        if m is not None:
            st = st.copy()
            r = m(self, st, c, args, dty, site)
            if r is not None:
                return r
        if j.get('ctor'):
            return [(st, ('a', dty, self._ctor_variant(j, dty), tuple(args)))]
        if j.get('closure') and j.get('trait', '').startswith('core::ops::function::Fn'):
            clo = self.deep(st, args[0])
            targs = args[1][1] if len(args) > 1 and args[1][0] == 't' else ()
            if clo[0] == 'cl':
                st = st.copy()
                if args[0][0] == 'r':
                    ref = args[0]
                    while True:
                        x = self.read(st, ref[1])
                        if x[0] != 'r':
                            break
                        ref = x
                else:
                    root = ('P', self.newfid(), 'clo')
                    st.mem[root] = clo
                    ref = ('r', (root, ()), True, None)
                return self.run_closure(st, clo, ref, targs, site)
        if j.get('trait', '').startswith('core::ops::function::Fn') and args:
            f = self.deep(st, args[0])
            targs = args[1][1] if len(args) > 1 and args[1][0] == 't' else ()
            if f[0] in ('fn', 'cl'):
                return self.call_value(st, f, list(targs), dty, site)
            tt = self.ty(j['targs'][0]) if j.get('targs') else None
            while tt is not None and tt['k'] == 'ref':
                tt = self.ty(tt['elem'])
            if tt is not None and tt['k'] == 'fndef':
                return self.call(st, FnRef(tt['callee']), list(targs), dty, site)
        key = j.get('default') or j.get('body')
        if key and key in self.p.bodies:
            return self.run(key, args, st, site)
        return self.unknown(st, c, name, args, dty, site)

    def _ctor_variant(self, j, dty):
        t = self.ty(dty)
        for i, v in enumerate(t.get('variants') or []):
            if v['name'] == j['name']:
                return i
        return 0

    def unknown(self, st, c, name, args, dty, site):
        st = st.copy()
        if not name.startswith('core::fmt') and not name.startswith('alloc::fmt'):
            self.stats['unknown'][name] = self.stats['unknown'].get(name, 0) + 1
        for h in self.hooks:
            f = getattr(h, 'on_unknown', None)
            if f:
                f(self, st, name, c, args, site)
        states = [st]
        for a in args:
            if a[0] == 'cl' or (a[0] == 'r' and self.deep(st, a)[0] == 'cl'):
                # a callback: may run any number of times
                clo = a if a[0] == 'cl' else self.deep(st, a)
                body = self.p.bodies.get(clo[1])
                if body is not None:
                    av = [self.opaque(fresh('cbarg'), ty) for ty in body['locals'][2:body['argc'] + 1]]
                    root = ('P', self.newfid(), 'clo')
                    s1 = st.copy()
                    s1.mem[root] = clo
                    for x in clo[2]:
                        if x[0] == 'r' and x[2]:
                            self.havoc_ref(s1, x)
                    self.run_closure(s1, clo, ('r', (root, ()), True, None), av, site)
                    for x in clo[2]:
                        if x[0] == 'r' and x[2]:
                            self.havoc_ref(st, x)
        for a in args:
            self.havoc_args(st, a)
        at = tuple(self.term(self.deep(st, a)) if a[0] != 'r' or not a[2] else fresh('m') for a in args) if len(args) <= 4 else (fresh('u'),)
        return [(st, self.opaque(T('ext', name, fresh('u'), at), dty))]

    def havoc_args(self, st, a):
        if a[0] == 'r' and a[2]:
            self.havoc_ref(st, a)
        elif a[0] in ('a', 't'):
            for x in (a[3] if a[0] == 'a' else a[1]):
                self.havoc_args(st, x)

    # ------------------------------------------------------------ function bodies
    def run(self, key, args, st, site):
        body = self.p.bodies[key]
        if key in self.p.recursive():
            if key in self.recmode:
                return self.rec_summary(key, body, args, st, site)
            if body.get('krate') in ('huff', 'huff_coding') and not any(k in self.recmode for k in self._scc(key)):
                return self.run_recursive(key, body, args, st, site)
        if len(self.active) > 60:
            raise Bad('call depth')
        return self.run_body(key, body, args, st, site)

    def _scc(self, key):
        self.p.recursive()
        return [key]

    def run_body(self, key, body, args, st, site, inplace=False):
        fid = self.newfid()
        cfg = self.p.cfg(key, body)
        parent = self.frame
        fr = Frame(fid, key, body, cfg, parent, site)
        if body.get('krate') in ('huff', 'huff_coding'):
            self.stats['bodies'].add(body.get('path', str(key)))
        s = st.copy()
        if len(args) != body['argc']:
            if body.get('spread') is not None and len(args) >= 1:
                args = list(args)
            else:
                raise Bad(f'arity {key} {len(args)} {body["argc"]}')
        for i, a in enumerate(args):
            s.mem[('L', fid, i + 1)] = a
        self.active.append(key)
        self.livefids.add(fid)
        self.frame = fr
        try:
            for h in self.hooks:
                f = getattr(h, 'on_enter', None)
                if f:
                    f(self, s, fr)
            if 0 in cfg.loops:
                exits = self.exec_loop(fr, 0, [s])
                more = []
                for t, x in exits:
                    if t == 'ret':
                        more.append((t, x))
                    else:
                        more.extend(self.exec_region(fr, None, t, [x], None)[1])
                exits = more
            else:
                _, exits = self.exec_region(fr, None, 0, [s], None)
        finally:
            self.active.pop()
            self.livefids.discard(fid)
            self.frame = parent
        out = {}
        for t, x in exits:
            r = x.mem.get(('L', fid, 0))
            if r is None:
                r = UNIT
            if inplace:
                return [(x, r)]
            tmp = ('P', fid, 'ret')
            x.mem[tmp] = r
            # drop this frame (except what the result still refers to)
            roots = [q for q in x.mem if q == tmp or q[0] in ('M', 'P') or (q[0] == 'L' and q[1] in self.livefids)]
            if parent is None:
                roots += [q for q in x.mem if q[0] == 'O' and q in st.mem]
            seen = self.reach(x, roots)
            x.mem = {q: v for q, v in x.mem.items() if q in seen or (q[0] == 'O' and q in st.mem)}
            out[x.canon()] = (x, tmp)
        states = list(out.values())
        if len(states) > 3:
            tmp = ('P', fid, 'ret')
            groups = {}
            for x, _ in states:
                groups.setdefault(self.pkey(x), []).append(x)
            states = []
            for g in groups.values():
                while len(g) > self.opts.get('cap_merge', 2):
                    J, _ = self.join(g[0], g[1], ('r', fid, len(g), fresh('j')))
                    g = [J] + g[2:]
                states.extend((x, tmp) for x in g)
            if len(states) > self.opts.get('cap_ret', 24):
                groups = {}
                for x, _ in states:
                    groups.setdefault(self.pkey(x, consts=False), []).append(x)
                states = []
                for g in groups.values():
                    while len(g) > 2:
                        J, _ = self.join(g[0], g[1], ('r2', fid, len(g), fresh('j')))
                        g = [J] + g[2:]
                    states.extend((x, tmp) for x in g)
        res = []
        for x, tmp in states:
            r = x.mem.pop(tmp)
            x = self.prune_facts2(x, r)
            for h in self.hooks:
                f = getattr(h, 'on_exit', None)
                if f:
                    f(self, x, fr, r)
            res.append((x, r))
        return res

    livefids = set()

    def prune_facts2(self, st, r):
        if len(st.le) + len(st.eq) + len(st.ne) < 24:
            return st
        st.mem[('P', 0, 'tmp')] = r
        st = self.prune_facts(st)
        st.mem.pop(('P', 0, 'tmp'))
        return st

    # ------------------------------------------------------------ recursion
    def generalise(self, st, v, tyid=None):
        k = v[0]
        if k == 'i':
            lo, hi = trange(v[2])
            return ('i', S(fresh('gen', lo, hi)), v[2])
        if k == 'b':
            return ('b', ('p', fresh('gen'), True))
        if k == 'r':
            t = fresh('gen')
            if v[3] is not None:
                self.oty[t] = v[3]
            if self.is_intree(st, v):
                self.intree.add(t)
            else:
                x = None
            try:
                old = self.read(st, v[1])
            except Bad:
                old = None
            if old is not None and v[3] is None:
                st.mem[('O', t)] = self.havoc_value(st, old, None, 'gen')
            if old is not None and old[0] in ('r', 'o', 'cl'):
                st.mem[('O', t)] = self.generalise(st, old) if old[0] != 'o' else self.other_iter(st, old, 'gen') or ('s', fresh('gen'), v[3])
            return ('r', (('O', t), ()), v[2], v[3])
        if k == 'a':
            return self.opaque(fresh('gen'), v[1])
        if k == 's':
            return self.opaque(fresh('gen'), v[2]) if v[2] is not None else ('s', fresh('gen'), None)
        if k == 't':
            return ('t', tuple(self.generalise(st, x) for x in v[1]))
        if k == 'cl':
            return ('cl', v[1], tuple(self.generalise(st, x) for x in v[2]))
        if k == 'x':
            return ('x', self.generalise(st, v[1]))
        if k == 'seq':
            t = fresh('gen')
            return ('seq', (('s', t, K(0), self.lenof(t)),), v[2])
        return ('s', fresh('gen'), tyid)

    def run_recursive(self, key, body, args, st, site):
        # every depth: arguments generalised, recursive calls replaced by their summary
        g = st.copy()
        gargs = []
        for i, a in enumerate(args):
            tyid = body['locals'][i + 1]
            t = self.ty(tyid)
            if t['k'] in ('int', 'bool', 'char', 'adt') and a[0] not in ('r', 'cl'):
                gargs.append(self.opaque(fresh('gen'), tyid))
            else:
                gargs.append(self.generalise(g, a, tyid))
        self.rec_entry = (args, st)
        ctx = {'mod': None, 'gargs': gargs, 'needintree': [self.is_intree(g, a) for a in gargs], 'calls': []}
        for h in self.hooks:
            f = getattr(h, 'on_rec_enter', None)
            if f:
                f(self, g, key, body, gargs)
        self.recmode[key] = ctx
        save = self.writes
        self.writes = []
        try:
            self.run_body(key, body, gargs, g, site)
        finally:
            w = self.writes
            self.writes = save
            del self.recmode[key]
        # first-level fields of each mutable argument's referent that the body writes directly
        mod = {}
        for i, a in enumerate(gargs):
            if a[0] == 'r' and a[2]:
                root = a[1][0]
                fs = set()
                for loc in w:
                    if loc[0] == root:
                        p = [e for e in loc[1] if e[0] == 'f']
                        fs.add(p[0][1] if p else None)
                mod[i] = fs
        if save is not None:
            save.extend(w)
        self.recmode[key] = {'mod': mod, 'gargs': gargs, 'calls': [], 'needintree': ctx['needintree'], 'top': True}
        try:
            return self.run_body(key, body, args, st, site)
        finally:
            del self.recmode[key]

    def rec_summary(self, key, body, args, st, site):
        ctx = self.recmode[key]
        st = st.copy()
        for i, need in enumerate(ctx['needintree']):
            if need and not self.is_intree(st, args[i]):
                self.report('intree', self.wsite(site), 'recursion on an object outside the tree', 'intree')
        for h in self.hooks:
            f = getattr(h, 'on_rec_call', None)
            if f:
                f(self, st, key, body, args, site)
        wr = self.writes
        self.writes = None       # effects of deeper levels are accounted for by their own analysis
        try:
            for i, a in enumerate(args):
                if a[0] == 'r' and a[2]:
                    fs = ctx['mod'].get(i) if ctx['mod'] is not None else None
                    old = self.deep(st, a)
                    if fs is not None and None not in fs and old[0] in ('a', 's') and a[1] is not None:
                        for f in fs:
                            loc = (a[1][0], a[1][1] + (('f', f),))
                            try:
                                o = self.read(st, loc)
                                self.write(st, loc, self.havoc_same(st, o))
                            except Bad:
                                self.havoc_ref(st, a)
                    else:
                        self.havoc_ref(st, a)
        finally:
            self.writes = wr
        rty = body['locals'][0]
        t = fresh('rec')
        self.recres = getattr(self, 'recres', set())
        self.recres.add(t)
        ret = self.opaque(t, rty)
        for h in self.hooks:
            f = getattr(h, 'on_rec_ret', None)
            if f:
                f(self, st, key, body, args, site, ret)
        return [(st, ret)]

    def havoc_same(self, st, o):
        """arbitrary value but, for enums, of the same variant"""
        if o[0] == 'a' and self.ty(o[1]).get('enum'):
            return ('a', o[1], o[2], tuple(self.havoc_value(st, x) for x in o[3]))
        if o[0] == 's' and o[2] is not None and self.variant(st, o) is not None and self.ty(o[2]).get('enum'):
            n = ('s', fresh('havoc'), o[2])
            st.preds[('var', n[1])] = self.variant(st, o)
            return n
        return self.havoc_value(st, o)

    # ------------------------------------------------------------ roots
    def analyse(self, key, args=None, st=None):
        """run a root function with arbitrary arguments"""
        body = self.p.bodies[key]
        st = st or State()
        if args is None:
            args = [self.opaque(T('arg', body.get('path', key), i, key), body['locals'][i + 1]) for i in range(body['argc'])]
        self.frame = None
        self.active = []
        self.livefids = set()
        self.recmode = {}
        return self.run(key, args, st, body['span'])


class FnRef:
    __slots__ = ('j', 'full')

    def __init__(self, j):
        self.j = j
        self.full = j.get('full', '')

    def __hash__(self):
        return hash(self.full)

    def __eq__(self, o):
        return isinstance(o, FnRef) and o.full == self.full

    def __repr__(self):
        return f'Fn({self.full})'
