"""C21: leaves and branches compare as their weights do, and the heap gives the lightest branch;
C22: a tree is built by joining, again and again, the two lightest branches."""
import re
from eng import *
import evalt
import libchk

WANT = {'cmp': 'ord', 'partial_cmp': 'ord', 'eq': 'eq', 'ne': 'ne', 'lt': 'lt', 'le': 'le', 'gt': 'gt', 'ge': 'ge'}
# what the functions that answer yes or no say of weights a, b: (yes requires, no requires) as signs of a - b
SIGN = {'eq': ((0,), (-1, 1)), 'ne': ((-1, 1), (0,)), 'lt': ((-1,), (0, 1)), 'le': ((-1, 0), (1,)), 'gt': ((1,), (-1, 0)), 'ge': ((0, 1), (-1,))}


def leaf_of(e, inv, st, v, tyid, d=0):
    """the leaf in a leaf, a branch, or a wrapper of either"""
    if v is None or d > 4:
        return None
    v = e.deep(st, v)
    if tyid in inv.leafs:
        return v, tyid
    t = e.ty(tyid)
    if t['k'] != 'adt' or t.get('enum') or not t.get('variants'):
        return None
    fs = t['variants'][0]['fields']
    if tyid in inv.br:
        i = [f['name'] for f in fs].index(inv.br[tyid][0])
    elif len(fs) == 1:
        i = 0
    else:
        return None
    if v[0] == 's':
        v = e.expand(v, 0)
    if v is None or v[0] != 'a':
        return None
    return leaf_of(e, inv, st, v[3][i], fs[i]['ty'], d + 1)


def branch_of(e, inv, st, v, tyid, d=0):
    """the branch in a branch or a wrapper of one: (value, type)"""
    if v is None or d > 4:
        return None
    v = e.deep(st, v)
    if tyid in inv.br:
        return v, tyid
    t = e.ty(tyid)
    if t['k'] != 'adt' or t.get('enum') or not t.get('variants') or len(t['variants'][0]['fields']) != 1:
        return None
    if v[0] == 's':
        v = e.expand(v, 0)
    if v is None or v[0] != 'a':
        return None
    return branch_of(e, inv, st, v[3][0], t['variants'][0]['fields'][0]['ty'], d + 1)


def fieldof(e, v, tyid, name):
    fs = [f['name'] for f in e.ty(tyid)['variants'][0]['fields']]
    if v[0] == 's':
        v = e.expand(v, 0)
    return v[3][fs.index(name)] if v is not None and v[0] == 'a' else None


def weight(e, inv, st, v, tyid):
    l = leaf_of(e, inv, st, v, tyid)
    if l is None or l[1] not in inv.weight:
        return None
    w = fieldof(e, l[0], l[1], inv.weight[l[1]])
    w = e.deep(st, w) if w is not None else None
    return w[1] if w is not None and w[0] == 'i' else None


def carries(inv, p, ty, d=0):
    """a type that is a leaf, a branch, or a wrapper of either"""
    if ty in inv.leafs or ty in inv.br:
        return True
    t = p.types[ty]
    if t['k'] != 'adt' or t.get('enum') or not t.get('variants') or d > 3:
        return False
    fs = t['variants'][0]['fields']
    return len(fs) == 1 and carries(inv, p, fs[0]['ty'], d + 1)


def comparisons(p, inv, heap):
    """(type, letter) of the leaves and branches, or of what the heaps of branches hold"""
    out = {}
    for i, t in enumerate(p.types):
        a = re.findall(r'<(u8|u16)>', t['s'])
        if not a:
            continue
        if heap:
            if t['k'] == 'adt' and t['path'].endswith('::BinaryHeap') and carries(inv, p, t['args'][0]):
                out[t['args'][0]] = a[-1]
        elif i in inv.br or i in inv.leafs:
            out[i] = a[-1]
    return out


def order(ctx, d, p, inv, heap):
    """(type, function, run, 1 or -1: ordered as the weights or against them) of every comparison of those types"""
    out = []
    for ty, inst in sorted(comparisons(p, inv, heap).items()):
        sign = -1 if heap else 1
        while p.types[ty]['path'] == 'core::cmp::Reverse':
            ty = p.types[ty]['args'][0]
            sign = -sign
        s = p.types[ty]['s']
        for k, b in sorted(d['bodies'].items()):
            m = re.match(re.escape('<' + s + ' as core::cmp::') + r'(?:Partial)?(?:Ord|Eq)>::(\w+) @', k)
            # std's heap asks for the partial order only
            if m and m.group(1) in WANT and not (heap and m.group(1) in ('cmp', 'eq', 'ne')):
                out.append((ty, m.group(1), libchk.one(ctx, d, p, inv, {'path': b.get('path', k), 'kind': 'AssocFn'}, inst, k, merge_min=400, cap_merge=400, cap_ret=400, cap_block=400), sign))
    return out


ORD = {0: -1, 1: 0, 2: 1}


def judge(inv, ty, fn, x, sign, ties=True):
    """list of (True fine | False wrong | None not understood, text) of the ends of a comparison"""
    e = x.E
    e.frame = None
    body = e.p.bodies[x.key]
    w = []
    out = []
    for i in (0, 1):
        at = e.ty(body['locals'][i + 1])
        a = T('arg', body.get('path', x.key), i, x.key)
        if at['k'] != 'ref':
            return [(None, 'does not take references')]
        w.append((T('deref', a), at['elem']))
    for st, ret in x.rets:
        e.frame = None
        ws = [weight(e, inv, st, e.opaque(t, u, st), u) for t, u in w]
        if None in ws:
            out.append((None, 'the weights compared are not found'))
            continue
        a, b = ws
        for s, got in results(e, st, ret, fn):
            if s.mon.get('unk'):
                out.append((None, f'a call to {s.mon["unk"]} is not modelled'))
            elif got is None:
                out.append((None, 'the result is not understood'))
            else:
                ok, msg = signs(e, s, a, b, got, sign, fn, ties)
                # a generalised state may stand for more than there is
                out.append((None if ok is False and e.joins else ok, msg))
    return out


def results(e, st, ret, fn):
    """(state, allowed signs of a - b) by what is returned"""
    ret = e.deep(st, ret)
    if WANT[fn] == 'ord':
        if fn == 'partial_cmp':
            i = e.variant(st, ret)
            if i == 0:
                return [(st, ())]
            if ret[0] != 'a':
                return [(st, None)]
            ret = e.deep(st, ret[3][0])
        i = e.variant(st, ret)
        return [(st, (ORD[i],) if i in ORD else None)]
    if ret[0] != 'b':
        return [(st, None)]
    y, n = split_cond(st, ret[1])
    return [(s, SIGN[fn][0]) for s in y] + [(s, SIGN[fn][1]) for s in n]


def split_cond(st, c):
    import models
    y, n = models.split_cond(st, c)
    return list(models.own(y, st)), list(models.own(n, st))


TXT = {-1: 'less than', 0: 'equal to', 1: 'greater than'}


def signs(e, st, a, b, got, sign, fn, ties):
    open_ = []
    for s in (-1, 0, 1):
        if s * sign in got or not s and not ties:
            continue
        # can a - b have the sign s here?
        for t in st.copy().assume(c_eq(a - b) if s == 0 else c_le((a - b).scale(-s) + 1)):
            if evalt.impossible(t, evalt.Norm({}, t)):
                continue
            v = evalt.witness(t, a - b if s else a - b + 1)
            if v is not None:
                x, y = evalt.ev_lin(a, dict(v)), evalt.ev_lin(b, dict(v))
                return (False, f'{fn} says {says(got, fn, sign)} of weights {x} and {y}')
            open_.append(s)
    return (None, 'the order of the weights is not shown') if open_ else (True, '')


def says(got, fn, sign):
    if WANT[fn] == 'ord':
        return 'nothing' if not got else TXT[got[0]].split()[0] + (' (the order being the reverse of the weights)' if sign < 0 else '')
    return 'yes' if got == SIGN[fn][0] else 'no'


LEAVES = ('M', 'leaves')

EVERY = 'whether every letter gets one branch is not shown'


def mits(st):
    """the iterators over maps"""
    def go(v, d):
        if v[0] == 'o' and v[1] == 'mit':
            out.append(v)
        elif v[0] == 'a' and d < 5:
            for x in v[3]:
                go(x, d + 1)
        elif v[0] == 't' and d < 5:
            for x in v[1]:
                go(x, d + 1)
    out = []
    for v in st.mem.values():
        if v is not None:
            go(v, 0)
    return out


class Heap:
    """follows what is pushed onto and popped from the heap of branches.
    Popped branches wait in mon['pend'] until they are joined, given back or returned."""

    def __init__(self, inv):
        self.inv = inv

    def rep(self, e, st, ok, msg, w):
        if st.mon.get('odd') and ok is not True:
            ok = None
        e.report('heap', None, (ok, msg, w, st.mon.get('unk')), ('heap', ok, msg, w, st.mon.get('unk')))

    def mine(self, e, h):
        return h[3] is not None and carries(self.inv, e.p, h[3])

    def count(self, e, st):
        v = st.mem.get(LEAVES)
        return v[1] if v is not None else K(0)

    def on_enter(self, e, st, fr):
        if LEAVES not in st.mem and fr.parent is None:
            st.mem[LEAVES] = ('i', K(0), 'usize')

    def on_effect(self, e, st, kind, info, site):
        if kind == 'heap.pop' and self.mine(e, info[0]):
            self.popped(e, st, info[0], info[1], e.wsite(site))
        elif kind == 'heap.push' and self.mine(e, info[0]):
            self.pushed(e, st, info[0], info[1], e.wsite(site))

    # ---- taking
    def popped(self, e, st, h, x, w):
        if self.at_first(e, st):
            self.complete(e, st, w)
        b = branch_of(e, self.inv, st, x, h[3])
        pend = st.mon.get('pend', ())
        if b is None or len(pend) >= 4:
            st.mon['odd'] = 1
            return self.rep(e, st, None, 'many branches are taken, or what is taken is not understood', w)
        st.mon['pend'] = pend + ((e.term(b[0]), b[1]),)
        one = st.holds_eq(h[2] - 1)
        st.mon['last'] = True if one else (False if st.holds_le(K(2) - h[2]) else None)
        self.rep(e, st, True, 'pop', w)

    def at_first(self, e, st):
        return st.mon.get('stage') == 'leaves'

    def complete(self, e, st, w):
        """all letters have been pushed"""
        st.mon['stage'] = 'joins'
        t = st.mon.get('map')
        if t is None or st.mon.get('skipped'):
            return
        n = self.count(e, st)
        d = n - S(T('len', T('map', t)))
        if st.holds_eq(d):
            self.rep(e, st, True, 'all', w)
        elif any(st.holds_eq(d - k) for k in (-1, -2, 1, 2)):
            self.rep(e, st, False, 'not every letter given gets one branch', w)
        else:
            self.rep(e, st, None, EVERY, w)

    # ---- giving
    def pushed(self, e, st, h, v, w):
        b = branch_of(e, self.inv, st, v, h[3])
        if b is None:
            st.mon['odd'] = 1
            return self.rep(e, st, None, 'what is pushed is not understood', w)
        v, ty = b
        pend = st.mon.get('pend', ())
        me = e.term(v)
        if (me, ty) in pend:
            # put back
            st.mon['pend'] = tuple(x for x in pend if x[0] != me)
            st.mon['back'] = st.mon.get('back', ()) + ((me, ty),)
            st.mon['order'] = st.mon.get('order') or tuple(x[0] for x in pend)
            return
        k = TERMS[me]
        if v[0] == 's' and k[0] in ('arg', 'deref'):
            st.mon['put'] = min(st.mon.get('put', 0) + 1, 3)
            return self.rep(e, st, True, 'push', w)
        kids = [fieldof(e, v, ty, n) for n in self.inv.br[ty][1]]
        kids = [e.deep(st, x) if x is not None else None for x in kids]
        vs = [e.variant(st, x) if x is not None else None for x in kids]
        if vs == [0, 0]:
            self.leaf(e, st, v, ty, w)
        elif vs == [1, 1]:
            self.join(e, st, v, ty, kids, w)
        else:
            st.mon['odd'] = 1
            self.rep(e, st, None, 'a branch that is neither taken from the heap nor new is pushed', w)

    def item(self, x):
        """(map, index Lin, field) of a part of an item of a map"""
        k = TERMS[x]
        if k[0] == 'fld':
            k2 = TERMS[k[1]]
            if k2[0] == 'mapitem':
                return k2[1], k2[2], k[3], k[1]
        return None

    def leaf(self, e, st, v, ty, w):
        st.mon.setdefault('stage', 'leaves')
        lv, lt = leaf_of(e, self.inv, st, v, ty)
        x = fieldof(e, lv, lt, self.inv.leafs[lt])
        x = e.deep(st, x) if x is not None else None
        wt = weight(e, self.inv, st, v, ty)
        it = None
        if x is not None and e.variant(st, x) == 1 and x[0] == 'a':
            y = e.deep(st, x[3][0])
            t = y[1].single() if y[0] == 'i' else y[1] if y[0] == 's' else None
            it = self.item(t) if t is not None else None
        n = self.count(e, st)
        st.mem[LEAVES] = ('i', n + 1, 'usize')
        if it is None or wt is None or it[2] != 0 or st.mon.get('map', it[0]) != it[0] or st.mon['stage'] != 'leaves':
            st.mon['odd'] = 1
            return self.rep(e, st, None, 'the letter or the weight of a new branch is not understood', w)
        st.mon['map'] = it[0]
        if not any(st.holds_eq(m[3] - it[1] - 1) for m in mits(st)):
            e.report('stale', None, True, ('stale', w))
        s = evalt.same(e, st, wt, S(T('fld', it[3], 't', 1)))
        self.rep(e, st, s, 'leaf' if s else 'the branch of a letter has another weight than the one given with it' if s is False
                 else 'the weight of a new branch is not shown to be the one given with its letter', w)
        d = it[1] - n
        if st.mon.get('skipped') or st.holds_eq(d):
            return
        if st.holds_eq(d + 1):
            self.rep(e, st, False, 'a letter gets two branches', w)
        st.mon['odd'] = 1
        self.rep(e, st, None, EVERY, w)

    def join(self, e, st, v, ty, kids, w):
        pend = st.mon.get('pend', ())
        got = []
        for k in kids:
            x = e.deep(st, k[3][0]) if k[0] == 'a' else None
            if x is not None and x[0] == 'x':
                x = e.deep(st, x[1])
            got.append(self.who(e, st, x, ty, pend) if x is not None else None)
        if len(pend) != 2 or None in got:
            st.mon['odd'] = 1
            st.mon.pop('back', None), st.mon.pop('order', None)
            st.mon['pend'] = ()
            return self.rep(e, st, None, 'the children of a joint branch are not understood', w)
        back = [b for b in st.mon.pop('back', ()) if b[0] not in (pend[0][0], pend[1][0])]
        order = st.mon.pop('order', ())
        if got[0] == got[1]:
            self.rep(e, st, False, 'one branch is used for both children of a joint branch', w)
        else:
            self.rep(e, st, True, 'join', w)
        ws = [weight(e, self.inv, st, e.opaque(t, y, st), y) for t, y in pend]
        wt = weight(e, self.inv, st, v, ty)
        st.mon['pend'] = ()
        for b in back:
            i = order.index(b[0]) if b[0] in order else 0
            after = [j for j, (t, y) in enumerate(pend) if t not in order[:i + 1]]
            wb = weight(e, self.inv, st, e.opaque(b[0], b[1], st), b[1])
            if wb is None or None in ws or not all(st.holds_eq(wb - ws[j]) for j in after):
                self.rep(e, st, False, 'a branch is joined while a lighter one, taken before it, is put back', w)
        if None in ws or wt is None:
            return self.rep(e, st, None, 'the weight of a joint branch is not understood', w)
        ss = set()
        for s in st.copy().assume(c_le(ws[0] - ws[1])):
            ss.add(evalt.same(e, s, wt, ws[0] + ws[1]))
        s = True if ss <= {True} else None if None in ss or True in ss else False
        self.rep(e, st, s, 'sum' if s else 'the weight of a joint branch is not the sum of the weights of its children' if s is False
                 else 'the weight of a joint branch is not shown to be the sum of its children\'s', w)

    def who(self, e, st, x, ty, pend):
        """which of the branches taken this is, codes aside"""
        for i, (t, y) in enumerate(pend):
            if self.alike(e, st, x, t, y):
                return i
        return None

    def alike(self, e, st, x, t, ty, d=0):
        """x is the branch t, with whatever codes"""
        x = e.deep(st, x)
        if x[0] == 'x':
            x = e.deep(st, x[1])
        if x[0] == 's' or e.term(x) == t:
            return e.term(x) == t
        if x[0] != 'a' or x[1] != ty or d > 4:
            return False
        lf, kids, lt = self.inv.br[ty]
        l = e.deep(st, fieldof(e, x, ty, lf))
        tl = T('fld', t, 0, lf)
        if l[0] == 'a':
            o = leaf_of(e, self.inv, st, e.opaque(t, ty, st), ty)
            for n in (lt, self.inv.weight.get(l[1])):
                a, b = fieldof(e, l, l[1], n), fieldof(e, o[0], o[1], n)
                if a is None or b is None:
                    return False
                a, b = e.deep(st, a), e.deep(st, b)
                if e.term(a) != e.term(b) and not (a[0] == b[0] == 'i' and st.holds_eq(a[1] - b[1])):
                    return False
        elif e.term(l) != tl:
            return False
        for n in kids:
            k = e.deep(st, fieldof(e, x, ty, n))
            tk = T('fld', t, 0, n)
            if k[0] == 's':
                if k[1] != tk and not (d and TERMS[k[1]][:2] == ('fresh', 'havoc')):
                    return False
            elif e.variant(st, k) == 0:
                if e.variant(st, ('s', tk, k[1])) != 0:
                    return False
            elif not self.alike(e, st, k[3][0], T('box', T('fld', tk, 1, '0')), ty, d + 1):
                return False
        return True

    # ---- loops and the end
    def on_loop(self, e, st, fr, head, kind):
        w = (fr.path, str(e.p.bodies[fr.key]['span']))
        if st.mon.get('pend') and kind == 'back' and not st.mon.get('odd'):
            st.mon['odd'] = 1
            st.mon['pend'] = ()
            self.rep(e, st, None, 'branches are kept from one round of a loop to the next', w)
        n = self.count(e, st)
        if st.mon.get('skipped'):
            return
        for v in mits(st):
            if not st.mon.get('odd'):
                if st.mon.get('stage') == 'joins' or st.holds_eq(v[3] - n):
                    continue
                if kind == 'back' and st.holds_eq(v[3] - n - 1):
                    e.report('skip', None, (False, 'a letter given gets no branch', w, st.mon.get('unk')), ('skip', w))
                    st.mon['skipped'] = 1
                    return

    def on_exit(self, e, st, fr, ret):
        if fr.parent is not None:
            return
        w = (fr.path, str(e.p.bodies[fr.key]['span']))
        pend = st.mon.get('pend', ())
        if st.mon.get('stage') == 'leaves' and not pend:
            self.complete(e, st, w)
        if st.mon.get('put'):
            self.rep(e, st, True, 'put', w)
        rty = e.p.bodies[fr.key]['locals'][0]
        if rty in self.inv.br or rty in self.inv.tree:
            self.given(e, st, ret, rty, pend, w)

    def given(self, e, st, ret, rty, pend, w):
        if len(pend) != 1:
            if len(pend) > 1:
                return self.rep(e, st, False, 'more branches are taken from the heap than used', w)
            return self.rep(e, st, None, 'what is returned is not understood', w)
        v = e.deep(st, ret)
        ty = rty
        if rty in self.inv.tree:
            v = fieldof(e, v, rty, self.inv.tree[rty])
            v = e.deep(st, v) if v is not None else None
            ty = pend[0][1]
            if st.mon.get('last') is not True:
                return self.rep(e, st, st.mon.get('last'), 'the root is taken while there are other branches' if st.mon.get('last') is False
                                else 'that the root is the last branch is not shown', w)
        if v is not None and self.who(e, st, v, ty, pend) == 0:
            return self.rep(e, st, True, 'gives', w)
        self.rep(e, st, None, 'what is returned is not shown to be the branch taken', w)
