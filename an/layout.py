"""C18: the byte layout of serialised compressed data: byte 0 holds the padding bits of the tree form (high half) and
of the data (low half), bytes 1 to 4 the length of the tree form in bytes, big-endian, then the tree form, then the data."""
from eng import *
import evalt


def rep(e, st, ok, msg, w):
    e.report('lay', None, (ok, msg, w, st.mon.get('unk')), ('lay', ok, msg, w, st.mon.get('unk')))


# ------------------------------------------------------------------ reader
class Reader:
    def __init__(self, inv):
        self.inv = inv
        self.inp = None

    def on_enter(self, e, st, frame):
        if self.inp is None:
            b = e.p.bodies[frame.key]
            self.inp = T('deref', T('arg', b.get('path', frame.key), 0, frame.key))

    def byte(self, i):
        t = T('elem', self.inp, K(i))
        bound(t, 0, 255)
        return t

    def parts(self, e):
        x = lambda i: S(self.byte(i))
        L = x(1).scale(1 << 24) + x(2).scale(1 << 16) + x(3).scale(1 << 8) + x(4)
        return e.xb(self.byte(0), 4, 4), L, e.xb(self.byte(0), 0, 4)

    def pre_call(self, e, st, name, c, args, dty, site):
        if name.split('::')[-1] != 'try_from_bin':
            return None
        w = e.wsite(site)
        v = contents(e, st, args[0])
        tp, L, _ = self.parts(e)
        src = tree_bits(v)
        if src is None:
            rep(e, st, None, 'the bits the tree is read from are not of a known form', w)
            return None
        t, start, n = src
        if t is None:
            rep(e, st, evalt.same(e, st, K(0), L.scale(8) - tp), 'the number of bits of the tree', w)
        elif t != self.inp:
            rep(e, st, None, 'the bits the tree is read from are not those of the input', w)
        else:
            rep(e, st, evalt.same(e, st, start, K(40)), 'where the tree begins', w)
            rep(e, st, evalt.same(e, st, n, L.scale(8) - tp), 'the number of bits of the tree', w)
        return None

    def on_agg(self, e, st, v, kind, site):
        if v[1] not in self.inv.cd:
            return
        bf, pf = self.inv.cd[v[1]]
        w = e.wsite(site)
        fs = e.ty(v[1])['variants'][0]['fields']
        _, L, pad = self.parts(e)
        n = S(T('len', self.inp))
        for f, x in zip(fs, v[3]):
            if f['name'] == bf:
                x = contents(e, st, x)
                if x[0] != 'seq' or len(x[1]) != 1 or x[1][0][0] != 's':
                    rep(e, st, None, 'the data are not of a known form', w)
                elif x[1][0][1] != self.inp:
                    rep(e, st, None, 'the data are not those of the input', w)
                else:
                    rep(e, st, evalt.same(e, st, x[1][0][2], L + 5), 'where the data begin', w)
                    rep(e, st, evalt.same(e, st, x[1][0][3], n - L - 5), 'where the data end', w)
            elif f['name'] == pf:
                x = e.deep(st, x)
                rep(e, st, evalt.same(e, st, x[1], pad) if x[0] == 'i' else None, 'the padding of the data', w)
            elif f['ty'] in self.inv.tree:
                x = e.deep(st, x)
                rep(e, st, True if x[0] == 's' and 'try_from_bin' in heads(x[1]) else None, 'the tree', w)


def heads(t, d=6):
    k = TERMS[t]
    out = {k[1]} if k[0] == 'hc' else set()
    if k[0] in ('fld', 'deref', 'unbox', 'box') and d:
        out |= heads(k[1], d - 1)
    return out


def contents(e, st, v):
    v = e.deep(st, v)
    for _ in range(4):
        if v[0] != 'r' or v[1] is None:
            break
        v = e.deep(st, e.read(st, v[1]))
    if v[0] == 's' and v[2] is not None:
        v = e.opaque(v[1], v[2])
    return v


def tree_bits(v):
    """(bytes, first bit, number of bits)"""
    if v[0] != 'seq' or len(v[1]) > 1:
        return None
    if not v[1]:
        return None, K(0), K(0)
    q = v[1][0]
    if q[0] != 's' or TERMS[q[1]][0] != 'bitsof':
        return None
    t = TERMS[q[1]][1]
    u = TERMS[t]
    if u[0] == 'seq' and len(u[1]) == 1 and u[1][0][0] == 's':
        return u[1][0][1], u[1][0][2].scale(8) + q[2], q[3]
    return t, q[2], q[3]


# ------------------------------------------------------------------ writer
def writer(e, body, key, inv, st, v):
    """verdicts on one returned byte vector"""
    w = (body['path'], str(body['span']))
    v = contents(e, st, v)
    out = lambda ok, msg: rep(e, st, ok, msg, w)
    if v[0] != 'seq':
        return out(None, 'the bytes returned are not of a known form')
    P = T('deref', T('arg', body.get('path', key), 0, key))
    tid = next(iter(inv.cd))
    fs = {f['name']: (i, f) for i, f in enumerate(e.ty(tid)['variants'][0]['fields'])}
    bf, pf = inv.cd[tid]
    fld = lambda n: T('fld', P, 0, n)
    es, i = [], 0
    pieces = list(v[1])
    while i < len(pieces) and pieces[i][0] == 'e' and len(es) < 5:
        es.append(pieces[i][1])
        i += 1
    rest = pieces[i:]
    if len(es) < 5 or any(x[0] != 'i' for x in es) or len(rest) > 2 or any(q[0] != 's' for q in rest):
        return out(None, 'the bytes returned are not five bytes and two sequences')
    if len(rest) != 2 or TERMS[rest[0][1]][0] != 'bytesof' or rest[1][1] != fld(bf):
        if len(rest) == 2 and TERMS[rest[1][1]][0] == 'bytesof' and rest[0][1] == fld(bf):
            return out(False, 'the data come before the tree')
        return out(None, 'what follows the first five bytes is not the tree form and the data')
    B = TERMS[rest[0][1]][1]
    if 'as_bin' not in heads(B):
        return out(None, 'what follows the first five bytes is not the tree form')
    n = S(T('len', B))
    st = st.copy()
    st.add_le(K(9) - n)
    st.add_le(n - (1 << 32))
    q = T('q8', B)
    bound(q, 0, None)
    data = T('len', fld(bf))
    pad = S(T('fld', P, 0, pf))
    for r in range(8):
        # a tree form of 8q + r bits
        z = st.copy()
        z.add_eq(n - S(q).scale(8) - r)
        N = evalt.Norm({T('len', B): S(q).scale(8) + r}, z)
        if evalt.impossible(z, N):
            continue
        tp = (8 - r) % 8
        ln = S(q) + (1 if r else 0)
        name = ln.single() if ln.single() is not None else T('lin', ln)
        bound(name, 0, None)
        out(evalt.same(e, z, es[0][1], pad + 16 * tp, N), 'the first byte')
        for k in range(4):
            out(evalt.same(e, z, es[1 + k][1], S(T('xb', name, 24 - 8 * k, 8)), N), 'the length of the tree')
        for p, what, size in ((rest[0], 'the tree form', ln), (rest[1], 'the data', S(data))):
            out(evalt.same(e, z, p[2], K(0), N), what)
            out(evalt.same(e, z, p[3], size, N), what)
