"""C19: the binary form of a tree. Writer: a joint branch is the bit 1 and then the forms of its left and
right child, a letter branch is the bit 0 and then the letter's bytes in big-endian order, most significant
bit first. Reader: the same read back in the same order, and nothing left over."""
from eng import *
from codes import Codes


class Ser(Codes):
    def __init__(self, inv):
        super().__init__(inv)
        self.enc = {}         # term of a bit sequence after a recursive call -> pieces
        self.ret = {}         # result of a recursive call -> number of the call
        self.pos = {}         # position after a recursive call -> number
        self.kind = {}        # recursion key -> 'w' / 'r'

    # the events of Codes are not wanted
    def on_write(self, e, st, loc, val):
        pass

    def post_call(self, e, st, name, c, args, v, site):
        pass

    def rep(self, e, st, ok, msg, w):
        e.report('ser', None, (ok, msg, w, st.mon.get('unk')), ('ser', ok, msg, w))

    def branch_in(self, e, ty, d=0):
        t = e.ty(ty)
        return ty in self.inv.br or t['k'] == 'adt' and d < 3 and t['path'] in ('core::result::Result', 'core::option::Option', 'alloc::boxed::Box') and \
            any(self.branch_in(e, x, d + 1) for x in t['args'][:1])

    def bit_arg(self, e, st, args):
        for i, a in enumerate(args):
            if a[0] == 'r' and a[2] and a[1] is not None and a[3] is not None and self.is_bits(e, a[3]):
                return i
        return None

    def nodeterm(self, e, st, a, d=0):
        if a[0] == 'r':
            return self.nodeterm(e, st, e.read(st, a[1]), d + 1) if a[1] is not None and d < 4 else None
        if a[0] == 's' and a[2] in self.inv.br:
            return a[1], a[2]
        if a[0] == 'x':
            return self.nodeterm(e, st, a[1], d + 1)
        return None

    def node_in(self, e, st, args):
        for i, a in enumerate(args):
            n = self.nodeterm(e, st, a)
            if n:
                return i, n
        return None, None

    def position(self, e, st, args):
        """(bits read, position, end or None) from an iterator or an index among the arguments"""
        for a in args:
            while a[0] == 'r' and a[1] is not None:
                if a[2] and a[3] is not None and e.ty(a[3])['s'] == 'usize':
                    v = e.read(st, a[1])
                    if v[0] == 'i':
                        return None, v[1], None
                a = e.read(st, a[1])
            if a[0] == 'o' and a[1] == 'it' and len(a) == 6:
                return a[2], a[3], a[4]
        return None

    def current(self, e):
        for k, x in e.recmode.items():
            if k in self.kind:
                return k, self.kind[k], bool(x.get('top'))
        return None, None, None

    # ---- recursion
    def on_rec_enter(self, e, st, key, body, gargs):
        _, outer, _ = self.current(e)
        self.kind.pop(key, None)
        self.ctx[key] = {'top': e.rec_entry, 'gen': gargs}
        if outer:
            return
        st.mem[('M', 'args')] = ('t', tuple(gargs))
        rty = body['locals'][0]
        i, n = self.node_in(e, st, gargs)
        if n and (self.bit_arg(e, st, gargs) is not None or self.is_bits(e, rty)):
            self.kind[key] = 'w'
            self.base = self.content(e, st, gargs, None)
        elif self.branch_in(e, rty):
            self.kind[key] = 'r'
            self.start = self.position(e, st, gargs)
            st.mon.pop('rd', None)

    def content(self, e, st, args, ret):
        i = self.bit_arg(e, st, args)
        v = e.read(st, args[i][1]) if i is not None else ret
        if v is None:
            return ()
        b = self.bits(e, st, v)
        return '?' if b is None else b

    def expand_enc(self, b, d=0):
        if b == '?':
            return b
        out = ()
        for p in b:
            if p[0] == 's' and p[1] in self.enc and p[2].const() == 0 and d < 40:
                x = self.expand_enc(self.enc[p[1]], d + 1)
                if x == '?':
                    return x
                out += x
            else:
                out += (p,)
        return out

    def on_rec_call(self, e, st, key, body, args, site):
        k, kind, top = self.current(e)
        if k != key:
            return
        if kind == 'w':
            i, n = self.node_in(e, st, args)
            self.pre = (self.content(e, st, args, None), n)
        elif not top or True:
            self.read_call(e, st, args, site, top)

    def on_rec_ret(self, e, st, key, body, args, site, ret):
        k, kind, top = self.current(e)
        if k != key:
            return
        if kind == 'w':
            after = self.content(e, st, args, ret)
            before, n = self.pre
            if after != '?' and len(after) == 1 and after[0][0] == 's':
                self.enc[after[0][1]] = before + (('enc', n[0] if n else None),) if before != '?' else '?'
        else:
            n = st.mon.get('rd', 0)
            if ret[0] == 's':
                self.ret[ret[1]] = n
            p = self.position(e, st, args)
            if p and p[1].single() is not None:
                self.pos[p[1].single()] = n

    # ---- writer
    def letter(self, e, st, node, ty):
        lf, _, let = self.inv.br[ty]
        v = e.expand(('s', node, ty), 0)
        leaf = e.deep(st, v[3][self.ix(e, ty, lf)])
        lt = leaf[1] if leaf[0] == 'a' else leaf[2]
        if leaf[0] == 's':
            leaf = e.expand(leaf, 0)
        o = e.deep(st, leaf[3][self.ix(e, lt, let)])
        if o[0] == 's':
            o = e.expand(o, 1)
        return e.deep(st, o[3][0]) if o[0] == 'a' and o[2] == 1 else None

    def kids_of(self, e, st, node, ty):
        v = e.expand(('s', node, ty), 0)
        return e.variant(st, e.deep(st, v[3][self.ix(e, ty, self.inv.br[ty][1][0])]))

    def on_exit(self, e, st, fr, ret):
        if fr.parent is None and not e.recmode:
            return self.finished(e, st, fr, ret)
        k, kind, top = self.current(e)
        if k != fr.key:
            return
        ent = self.ctx[k]['gen' if not top else 'top']
        args = ent if not top else ent[0]
        if kind == 'r':
            return self.read_exit(e, st, fr, args, ret, top)
        if top:
            return
        i, n = self.node_in(e, st, args)
        w = (fr.path, str(e.p.bodies[fr.key]['span']))
        self.form(e, st, n, self.base, self.content(e, st, args, ret), w)

    def form(self, e, st, n, base, b, w):
        b = self.expand_enc(b)
        if n is None or base == '?' or b == '?':
            return self.rep(e, st, None, 'the bits written for a branch are not understood', w)
        node, ty = n
        if not self.same(base, b[:len(base)]):
            known = all(p[0] in ('e', 'enc') for p in b)
            return self.rep(e, st, False if known and base else None, 'the bits of a branch do not follow those written before', w)
        b = b[len(base):]
        kid = self.kids_of(e, st, node, ty)
        if any(p[0] not in ('e', 'enc') for p in b) or kid is None:
            return self.rep(e, st, None, 'the bits written for a branch are not understood', w)
        first = st.holds(b[0][1][1]) if b and b[0][0] == 'e' and b[0][1][0] == 'b' else None
        if kid == 1:
            enc = [p for p in b if p[0] == 'enc']
            sides = []
            for p in enc:
                k = self.kid_of_term(p[1]) if p[1] is not None else None
                sides.append(k[1] if k and k[0] == node else None)
            if None in sides:
                return self.rep(e, st, None, 'which children are written is not understood', w)
            if sides != [0, 1]:
                return self.rep(e, st, False, 'the children of a joint branch are not written left first, then right', w)
            if not b or b[0][0] == 'enc' or first is False:
                return self.rep(e, st, False, 'the form of a joint branch does not begin with 1', w)
            if first is None:
                return self.rep(e, st, None, 'the first bit of a joint branch is not understood', w)
            if len(b) != 3:
                return self.rep(e, st, False, 'the form of a joint branch holds more than a bit and its children', w)
            return self.rep(e, st, True, 'joint', w)
        if first is True:
            return self.rep(e, st, False, 'the form of a letter branch does not begin with 0', w)
        if first is None or any(p[0] == 'enc' for p in b):
            return self.rep(e, st, None, 'the form of a letter branch is not understood', w)
        l = self.letter(e, st, node, ty)
        if l is None or l[0] != 'i':
            return self.rep(e, st, None, 'the letter written is not understood', w)
        n = INT[l[2]][0]
        if len(b) != n + 1:
            return self.rep(e, st, False, f'the form of a letter branch of {l[2]} has {len(b)} bits', w)
        x = e.bits(st, l[1], n)
        if x is None:
            return self.rep(e, st, None, 'the letter written is not understood', w)
        bit = [e.unbits([y]) for y in x]          # low to high
        for j, p in enumerate(b[1:]):
            which = self.which(e, st, p[1], bit, n - 1 - j)
            if which is None:
                return self.rep(e, st, None, 'a bit of the letter written is not understood', w)
            if which != n - 1 - j:
                return self.rep(e, st, False, f'bit {j} of the letter ({l[2]}) is not its bit of that significance', w)
        self.rep(e, st, True, 'letter ' + l[2], w)

    def which(self, e, st, v, bit, want):
        """the number of the bit of the letter that v is; -1 for something else that is known"""
        if v[0] != 'b':
            return None
        c = v[1]
        if st.holds(c) is not None:
            return -1
        for i in [want] + [i for i in range(len(bit)) if i != want]:
            if bit[i].const() is not None:
                continue
            t, f = st.copy(), st.copy()
            t.add_eq(bit[i] - 1)
            f.add_eq(bit[i])
            a, b = t.holds(c), f.holds(c)
            if a is True and b is False:
                return i
            if a is False and b is True:
                return -1
        return None

    # ---- reader
    def bit_at(self, st, i):
        for t, val in st.preds.items():
            if isinstance(t, int) and TERMS[t][0] == 'elem' and isinstance(TERMS[t][2], Lin) and (TERMS[t][2] - i).const() == 0:
                return val
        return None

    def off(self, st, a, b):
        """a - b if known"""
        d = a - b
        if d.const() is not None:
            return d.c
        if st.holds_eq(d):
            return 0
        return None

    def read_call(self, e, st, args, site, top):
        w = e.wsite(site)
        n = st.mon.get('rd', 0)
        st.mon['rd'] = n + 1
        p, s = self.position(e, st, args), self.entry_pos(e, top)
        if p is None or s is None:
            return self.rep(e, st, None, 'the position in the bits read is not understood', w)
        if n == 0:
            bit = self.bit_at(st, s[1])
            if bit is False:
                return self.rep(e, st, False, 'a branch whose form begins with 0 is read as a joint branch', w)
            d = self.off(st, p[1], s[1])
            if bit is None or d is None:
                return self.rep(e, st, None, 'the position in the bits read is not understood', w)
            if d != 1:
                return self.rep(e, st, False, f'the first child is read {d} bits after the branch begins', w)
            return self.rep(e, st, True, 'first', w)
        t = p[1] - p[1].c
        q = t.single()
        if q in self.pos and self.pos[q] == n and p[1].c == 0:
            return self.rep(e, st, True, 'next', w)
        self.rep(e, st, False if q in self.pos else None, 'the second child is not read where the first one ends', w)

    def entry_pos(self, e, top):
        k, _, _ = self.current(e)
        if not top:
            return self.start
        args, st = self.ctx[k]['top']
        return self.position(e, st, args) if not any(a[0] == 'r' and a[2] for a in args) else getattr(self, 'top', None)

    def on_enter(self, e, st, fr):
        k, kind, top = self.current(e)
        if k == fr.key and kind == 'r' and top:
            st.mon.pop('rd', None)
            self.top = self.position(e, st, self.ctx[k]['top'][0])
            if self.top is None or self.top[1].const() is None:
                self.rep(e, st, None, 'where the reading begins is not understood', (fr.path, ''))
            elif self.top[1].c:
                self.rep(e, st, False, 'the reading does not begin at the first bit', (fr.path, ''))

    def unwrap(self, e, st, v, d=0):
        """the branch in the result, 'err' or None"""
        v = e.deep(st, v)
        if v[0] == 'x':
            return self.unwrap(e, st, v[1], d + 1)
        ty = v[1] if v[0] == 'a' else v[2] if v[0] == 's' else None
        if ty in self.inv.br:
            return v
        if v[0] == 'a' and self.branch_in(e, ty) and d < 4:
            ok = 0 if e.ty(ty)['path'] == 'core::result::Result' else 1
            return self.unwrap(e, st, v[3][0], d + 1) if v[2] == ok else 'err'
        return None

    def call_of(self, v):
        while v[0] == 'x':
            v = v[1]
        if v[0] != 's':
            return None
        t = v[1]
        for _ in range(6):
            if t in self.ret:
                return self.ret[t]
            k = TERMS[t]
            if k[0] in ('fld', 'box') and isinstance(k[1], int):
                t = k[1]
            else:
                return None
        return None

    def read_exit(self, e, st, fr, args, ret, top):
        w = (fr.path, str(e.p.bodies[fr.key]['span']))
        b = self.unwrap(e, st, ret)
        if b == 'err':
            return
        p, s = self.position(e, st, args), self.start if not top else getattr(self, 'top', None)
        if top:
            if p is not None and p[2] is not None:
                st.mem[('M', 'end')] = ('t', (('i', p[1], 'usize'), ('i', p[2], 'usize')))
            return
        if b is None or b[0] != 'a' or p is None or s is None:
            return self.rep(e, st, None, 'the branch read is not understood', w)
        ty = b[1]
        lf, kids, let = self.inv.br[ty]
        ks = [e.deep(st, b[3][self.ix(e, ty, k)]) for k in kids]
        var = [e.variant(st, k) for k in ks]
        n = st.mon.get('rd', 0)
        if var == [1, 1]:
            calls = [self.call_of(k[3][0]) if k[0] == 'a' else None for k in ks]
            if None in calls:
                return self.rep(e, st, None, 'where the children come from is not understood', w)
            if calls != [1, 2]:
                return self.rep(e, st, False, 'the first form read is not made the left child and the second the right', w)
            q = p[1].single()
            if q in self.pos and self.pos[q] == 2:
                return self.rep(e, st, True, 'joint', w)
            q = (p[1] - p[1].c).single()
            return self.rep(e, st, False if q in self.pos else None, 'reading does not go on where the second child ends', w)
        if var != [0, 0]:
            return self.rep(e, st, None, 'the branch read is not understood', w)
        bit = self.bit_at(st, s[1])
        if bit is True:
            return self.rep(e, st, False, 'a branch whose form begins with 1 is read as a letter', w)
        leaf = e.deep(st, b[3][self.ix(e, ty, lf)])
        if bit is None or leaf[0] != 'a':
            return self.rep(e, st, None, 'the letter read is not understood', w)
        o = e.deep(st, leaf[3][self.ix(e, leaf[1], let)])
        l = e.deep(st, o[3][0]) if o[0] == 'a' and o[2] == 1 else None
        if l is None or l[0] != 'i':
            return self.rep(e, st, None, 'the letter read is not understood', w)
        n = INT[l[2]][0]
        d = self.off(st, p[1], s[1])
        if d is None:
            return self.rep(e, st, None, 'the length of the letter read is not understood', w)
        if d != n + 1:
            return self.rep(e, st, False, f'a letter branch of {l[2]} takes {d} bits', w)
        m = self.places(l[1], s[1])
        if m is None:
            return self.rep(e, st, None, 'the letter read is not understood', w)
        if m != {n - 1 - j: j + 1 for j in range(n)}:
            return self.rep(e, st, False, f'the bits of a letter ({l[2]}) are not read in their order', w)
        self.rep(e, st, True, 'letter ' + l[2], w)

    def places(self, l, start):
        """which bit read is which bit of the number: {significance: offset}"""
        out = {}
        todo = [(l, 1)]
        while todo:
            x, f = todo.pop()
            if x.c:
                return None
            for t, c in x.m:
                k = TERMS[t]
                c *= f
                if k[0] == 'lin':
                    todo.append((k[1], c))
                    continue
                if k[0] == 'xb' and isinstance(k[1], int) and TERMS[k[1]][0] == 'lin':
                    return None
                if k[0] != 'b2i' or c <= 0 or c & (c - 1) or k[1][0] != 'p' or k[1][2] is not True:
                    return None
                q = TERMS[k[1][1]]
                if q[0] != 'elem' or not isinstance(q[2], Lin) or (q[2] - start).const() is None:
                    return None
                s = c.bit_length() - 1
                if s in out:
                    return None
                out[s] = (q[2] - start).c
        return out

    # ---- results
    def finished(self, e, st, fr, ret):
        w = (fr.path, str(e.p.bodies[fr.key]['span']))
        b = self.bits(e, st, ret)
        body = e.p.bodies[fr.key]
        if b is not None and fr.path.split('::')[-1] == 'as_bin':
            a = e.opaque(T('arg', body.get('path', fr.key), 0, fr.key), body['locals'][1])
            t = e.read(st, a[1])
            if t[0] == 's' and t[2] in self.inv.tree:
                t = e.expand(t, 0)
                root = e.deep(st, t[3][self.ix(e, t[1], self.inv.tree[t[1]])])
                if root[0] == 's':
                    x = self.expand_enc(b)
                    if x != '?' and len(x) == 1 and x[0] == ('enc', root[1]):
                        return
                    return self.form(e, st, (root[1], root[2]), (), b, w)
            return self.rep(e, st, None, 'the tree written is not understood', w)
        v = e.deep(st, ret)
        if v[0] == 'a' and v[2] == 0 and self.trees(e, st, v, 0):
            g = st.mem.get(('M', 'end'))
            if g is None:
                return self.rep(e, st, None, 'where the reading ends is not understood', w)
            p, end = g[1][0][1], g[1][1][1]
            if st.holds_eq(p - end):
                return self.rep(e, st, True, 'all read', w)
            if any(TERMS[t][0] == 'phi' for t in (p - end).syms()):
                return self.rep(e, st, None, 'whether all bits have been read is not decided', w)
            self.rep(e, st, False, 'a tree is returned though bits may be left over', w)
