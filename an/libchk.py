"""Analyses of the library: every exported function, for the concrete letter types the
program has instances of (and generic in the letter where it has none)."""
import os
import eng
import models
from eng import *
from inv import Inv

# errors of the kind "this cannot happen below 2^64 of something" are left out:
COUNTER = {'usize', 'u64', 'u128'}


def insts(d, item):
    """instances of an exported function to analyse: (letter, body key)"""
    mono = [(a, k) for a, k in (item.get('mono') or []) if a and a != 'L']
    if mono:
        return mono
    key = item['key']
    # generic in something else than the letter: instances made by the crate itself
    import re
    path = item['path']
    pat = re.escape(path).replace('::<L>', '::<(u8|u16)>', 1)
    out = []
    for k in d['bodies']:
        m = re.match(pat + r'(::<[^@]*>)? @', k)
        if m and k != key:
            a = re.findall(r'\b(u8|u16)\b', k.split(' @')[0])
            if a:
                out.append((a[0], k))
    return out or [('', key)]


class Run:
    """one exported function analysed for one instance"""

    def __init__(self, item, inst, key):
        self.item, self.inst, self.key = item, inst, key
        self.path = item['path']
        self.events = []
        self.rets = []
        self.error = None
        self.E = None
        self.h = None

    def name(self):
        return self.path + (f' [{self.inst}]' if self.inst else '')


class Lib:
    """events at the places the properties speak of"""

    def __init__(self, prog, inv):
        self.p = prog
        self.inv = inv
        self.rec = {}            # recursion: key -> entry arguments
        self.opaque = ()         # library functions taken by their contract

    def pre_call(self, e, st, name, c, args, dty, site):
        if name not in self.opaque:
            return None
        ts = tuple(e.term(e.deep(st, a)) for a in args)
        n = name.split('::')[-1]
        if n.startswith('build_weights_map'):
            n, ts = 'build_weights_map', ts[:1]
        t = T('hc', n, *ts)
        if n == 'from_weights':
            e.report('needs', None, (n, ts, e.wsite(site), self.taint(st)), ('needs', n, ts, e.wsite(site)))
        return [(st, e.opaque(t, dty))]

    def fixvar(self, e, term, tyid):
        k = TERMS[term]
        if k[0] == 'hc' and k[1] == 'compress_with_tree' and k[3] == T('hc', 'from_weights', T('hc', 'build_weights_map', k[2])):
            return 0        # every letter counted has a code
        return self.inv.fixvar(e, term, tyid)

    def taint(self, st):
        return st.mon.get('unk') if st is not None else None

    def on_unknown(self, e, st, name, c, args, site):
        if not name.startswith(('core::fmt', 'alloc::fmt')):
            st.mon.setdefault('unk', name)

    def on_panic(self, e, st, desc, w, definite):
        e.report('panic', None, (desc, w, self.taint(st), self.context(e, st)), ('panic', desc, w, self.taint(st), self.context(e, st)))

    # facts of the state that a documented panic may need
    def context(self, e, st):
        zero = []
        for f in st.eq:
            if len(f.m) == 1 and f.c == 0:
                zero.append(f.m[0][0])
        for k, v in st.preds.items():
            if isinstance(k, int) and TERMS[k][0] in ('is_empty',) and v is True:
                zero.append(k)
        return tuple(sorted([origin(z) for z in zero] + ['padding ' + st.mon['pad']] if 'pad' in st.mon else [origin(z) for z in zero]))

    def on_agg(self, e, st, v, kind, site):
        tyid = v[1]
        if tyid in self.inv.cd:
            bf, pf = self.inv.cd[tyid]
            why = self.bad_cd(e, st, v, tyid, bf, pf)
            e.report('cd', None, (why, e.wsite(site), self.taint(st)), ('cd', e.wsite(site), why))
        if tyid in self.inv.br:
            why, lib = self.bad_br(e, st, v, tyid)
            e.report('br', None, (why, lib, e.wsite(site), self.taint(st)), ('br', e.wsite(site), why, lib))
        if tyid in self.inv.idx:
            f, n = self.inv.idx[tyid]
            why = self.bad_idx(e, st, v, tyid, f, n)
            e.report('idx', None, (why, e.wsite(site), self.taint(st)), ('idx', e.wsite(site), why))

    def field(self, e, st, v, tyid, name):
        fs = e.ty(tyid)['variants'][0]['fields']
        i = [f['name'] for f in fs].index(name)
        if v[0] == 's':
            v = e.expand(v, 0)
        return v[3][i] if v is not None and v[0] == 'a' else None

    def bad_cd(self, e, st, v, tyid, bf, pf):
        b = self.field(e, st, v, tyid, bf)
        p = self.field(e, st, v, tyid, pf)
        out = []
        n = e.seq_len(e.deep(st, b)) if b is not None else None
        if n is None or not st.holds_le(K(1) - n):
            out.append('the compressed bytes are not shown to be non-empty')
        if p is None or p[0] != 'i' or not st.holds_le(p[1] - 7):
            out.append('the padding is not shown to be at most 7')
        return '; '.join(out) or None

    def bad_idx(self, e, st, v, tyid, f, n):
        x = self.field(e, st, v, tyid, f)
        if x is None or x[0] != 'i' or not st.holds_le(x[1] - n):
            return f'the position is not shown to be at most {n}'
        return None

    def bad_br(self, e, st, v, tyid):
        """(why the children are inconsistent, why the letter is inconsistent with them)"""
        lf, kids, lt = self.inv.br[tyid]
        ks = [self.field(e, st, v, tyid, k) for k in kids]
        ks = [e.deep(st, k) if k is not None else None for k in ks]
        vs = [e.variant(st, k) if k is not None else None for k in ks]
        why = None
        if None in vs:
            # the same unknown for both is fine only if linked
            if vs.count(None) == 1 and self.given(ks[vs.index(None)]):
                why = 'holds one child only (or keeps one)'
            elif vs != [None, None] or not self.linked(e, st, ks):
                why = 'not shown to hold both children or none'
        elif vs[0] != vs[1]:
            why = 'holds one child only'
        lib = None
        leaf = self.field(e, st, v, tyid, lf)
        leaf = e.deep(st, leaf) if leaf is not None else None
        if leaf is not None and leaf[0] in ('a', 's'):
            ltid = leaf[1] if leaf[0] == 'a' else leaf[2]
            x = self.field(e, st, leaf, ltid, lt)
            lv = e.variant(st, e.deep(st, x)) if x is not None else None
            if lv is None or vs[0] is None:
                lib = 'unknown'
            elif lv == vs[0]:
                lib = 'a branch with children holds a letter' if lv else 'a branch without children holds no letter'
        else:
            lib = 'unknown'
        return why, lib

    def given(self, k):
        """a child the caller's branch came with, which may be there or not"""
        if k is None or k[0] != 's':
            return False
        t = k[1]
        while TERMS[t][0] in ('fld', 'box', 'deref'):
            t = TERMS[t][1]
        return TERMS[t][0] == 'arg'

    def linked(self, e, st, ks):
        # both taken from one existing branch (a clone, a move)
        if all(k is not None and k[0] == 's' for k in ks):
            a, b = TERMS[ks[0][1]], TERMS[ks[1][1]]
            return a[0] == b[0] == 'fld' and a[1] == b[1] and a[3] != b[3]
        return False

    def on_enter(self, e, st, fr):
        # the padding that compressed data is made with
        rt = fr.body['locals'][0]
        if rt in self.inv.cd and fr.body['argc'] == 3:
            pads = [v for v in (st.mem.get(('L', fr.fid, i)) for i in (1, 2, 3)) if v is not None and v[0] == 'i']
            if len(pads) == 1:
                st.mon['pad'] = 'fits' if st.holds_le(pads[0][1] - K(7)) else 'beyond'
        # what the caller lent is looked at again at the end
        if fr.parent is None:
            for i in range(fr.body['argc']):
                v = st.mem.get(('L', fr.fid, i + 1))
                if v is not None and v[0] == 'r' and v[2]:
                    st.mem[('M', 'lent', i)] = v

    def on_exit(self, e, st, fr, ret):
        if fr.parent is None:
            self.escape(e, st, ret, (fr.path, str(e.p.bodies[fr.key]['span'])))

    def escape(self, e, st, v, w, d=0):
        """a mutable reference to a field that an invariant speaks of is handed out"""
        if v is None or d > 4:
            return
        if v[0] == 'a':
            for x in v[3]:
                self.escape(e, st, x, w, d + 1)
        elif v[0] == 't':
            for x in v[1]:
                self.escape(e, st, x, w, d + 1)
        elif v[0] == 'r' and v[2] and v[1] is not None and v[1][1] and v[1][1][-1][0] == 'f':
            root, path = v[1]
            try:
                o = e.read(st, (root, path[:-1]))
            except Bad:
                return
            ty = o[1] if o[0] == 'a' else o[2] if o[0] == 's' else None
            for kind, inv, what in (('cd', self.inv.cd, 'can be changed at will by the caller'), ('idx', self.inv.idx, 'can be changed at will by the caller'),
                                    ('br', self.inv.br, 'holds one child only when the caller takes the other')):
                if ty not in inv:
                    continue
                fs = e.ty(ty)['variants'][0]['fields']
                f = fs[path[-1][1]]
                names = inv[ty][1] if kind == 'br' else inv[ty]
                if f['name'] in names and (f['ty'] == v[3]):
                    why = f'the field {f["name"]} {what}' if kind != 'br' else what
                    det = (why, w, self.taint(st)) if kind != 'br' else (why, None, w, self.taint(st))
                    e.report(kind, None, det, (kind, w, why))

    # ---- recursion
    def on_rec_enter(self, e, st, key, body, gargs):
        a0, st0 = e.rec_entry
        start = {n: v for n, v in numbers(e, st0, a0)}
        small = {n for n, v in start.items() if st0.holds_le(v - DEPTH_MAX)}
        self.rec[key] = (gargs, {n: v for n, v in numbers(e, st, gargs)}, small)

    def on_rec_call(self, e, st, key, body, args, site):
        gargs, entry, small = self.rec.get(key, (None, {}, ()))
        if gargs is None or e.recmode[key].get('top'):
            return
        w = e.wsite(site)
        kind = self.child_arg(e, st, args, gargs)
        now = dict(numbers(e, st, args))
        steps = {}
        for n, l0 in entry.items():
            l1 = now.get(n)
            if l1 is None:
                continue
            up = st.holds_le(l0 + 1 - l1)
            down = st.holds_le(l1 + 1 - l0)
            cap = up and st.holds_le(l1 - DEPTH_MAX) or down and n in small
            steps[n] = ('up' if up else 'down' if down else 'same' if st.holds_eq(l1 - l0) else '?', bool(cap))
        e.report('rec', None, (body['path'], kind, tuple(sorted(steps.items())), w, self.taint(st)),
                 ('rec', body['path'], kind, tuple(sorted(steps.items())), w))

    def child_arg(self, e, st, args, gargs):
        for a, g in zip(args, gargs):
            if a[0] == 'r' and a[1] is not None and e.is_intree(st, a) and a != g:
                return 'child'
        return None


DEPTH_MAX = 4096


def numbers(e, st, args):
    """the integers among the arguments, directly or inside tuples, structs and referents"""
    out = []

    def go(v, path, d):
        if v is None or d > 3:
            return
        if v[0] == 'i':
            out.append((path, v[1]))
        elif v[0] == 't':
            for i, x in enumerate(v[1]):
                go(x, path + (i,), d + 1)
        elif v[0] == 'a':
            for i, x in enumerate(v[3]):
                go(x, path + (v[2], i), d + 1)
        elif v[0] == 'r' and v[1] is not None:
            try:
                x = e.read(st, v[1])
            except Bad:
                return
            if x != v:
                go(x, path + ('*',), d + 1)
        elif v[0] == 's' and v[2] is not None:
            t = e.ty(v[2])
            if t['k'] == 'adt' and not t.get('enum') and t['path'].startswith('huff_coding::'):
                x = e.expand(v, 0)
                if x is not None:
                    go(x, path, d + 1)
    for i, a in enumerate(args):
        go(a, (i,), 0)
    return out


def origin(t, d=6):
    if not isinstance(t, int):
        return str(t)
    k = TERMS[t]
    if d == 0:
        return '..'
    if k[0] == 'arg':
        return f'arg{k[2]}'
    if k[0] == 'fld':
        return f'{origin(k[1], d - 1)}.{k[3]}'
    return k[0] + '(' + ','.join(origin(x, d - 1) for x in k[1:] if isinstance(x, int)) + ')'


def run_all(ctx):
    return ctx.memo('lib', lambda: _run_all(ctx))


def _run_all(ctx):
    out = []
    d = ctx.dumps['huff_coding.lib']
    p = eng.Prog(d)
    inv = Inv(p)
    for i in d['items']:
        if not (i.get('exported') and 'Fn' in i['kind']):
            continue
        for inst, k in insts(d, i):
            out.append(one(ctx, d, p, inv, i, inst, k))
    return out


def one(ctx, d, p, inv, i, inst, k, hooks=(), opaque=(), **opts):
    r = Run(i, inst, k)
    h = Lib(p, inv)
    r.h = h
    if i['path'].split('::')[-1] == 'compress' and i['kind'] == 'Fn':
        h.opaque = {x['path'] for x in d['items'] if x.get('exported') and x['path'].split('::')[-1] in
                    ('from_weights', 'build_weights_map', 'build_weights_map_with_hasher', 'compress_with_tree')}
    if opaque:
        h.opaque = {x['path'] for x in d['items'] if x.get('exported') and x['path'].split('::')[-1] in opaque}
    o = {'unroll': False, 'merge_min': 1, 'cap_merge': 1, 'limit': 200000, 'deadline': ctx.deadline,
         'classinv': inv.classinv, 'links': inv.links, 'nodetypes': set(inv.br)}
    if any(t['k'] == 'ref' and t.get('mut') and (t['elem'] in inv.br or t['elem'] in inv.cd or t['elem'] in inv.idx)
           for t in (p.types[y['ty'] if isinstance(y, dict) else y] for y in d['bodies'][k]['locals'][1:d['bodies'][k]['argc'] + 1])):
        o.update(merge_min=4, cap_merge=16)
    o.update(opts)
    E = eng.Engine(p, models.M, list(hooks) + [h] if opaque else [h] + list(hooks), o)
    E.fixvar = lambda term, ty: h.fixvar(E, term, ty)
    r.E = E
    try:
        r.rets = E.analyse(k)
        exits(r, h)
        r.events = E.cur + [x for h in hooks for x in getattr(h, 'sure', ())]
    except Bad as ex:
        r.error = str(ex)
    except (LookupError, TypeError, ValueError, AttributeError, AssertionError, RecursionError, ArithmeticError) as ex:
        # a construct the analysis was not written for
        if os.environ.get('VERIF_DEBUG'):
            raise
        r.error = f'{type(ex).__name__} {ex}'
    return r


def exits(r, h):
    """the invariants of what the function was given to change, when it returns"""
    E = r.E
    body = E.p.bodies[r.key]
    w = (body['path'], str(body['span']))
    for st, ret in r.rets:
        E.frame = None
        for root, v in list(st.mem.items()):
            if root[0] != 'O' or v is None or v[0] != 'a':
                continue
            ty = v[1]
            if ty in h.inv.cd:
                why = h.bad_cd(E, st, v, ty, *h.inv.cd[ty])
                E.report('cd', None, (why, w, h.taint(st)), ('cd', w, why))
            if ty in h.inv.br:
                why, lib = h.bad_br(E, st, v, ty)
                E.report('br', None, (why, None, w, h.taint(st)), ('br', w, why))
            if ty in h.inv.idx:
                why = h.bad_idx(E, st, v, ty, *h.inv.idx[ty])
                E.report('idx', None, (why, w, h.taint(st)), ('idx', w, why))
