"""C20: decoding. A specification is run beside the program over ghost state: the branch reached, the position
in the compressed bits (byte, bit from the most significant) and the letters given out so far. At every arrival
at a loop head and at the end the specification takes the steps the program has taken since; the letters must agree."""
import models
from eng import *
from ser import Ser

CUR, OUT, BYTE, BIT, ALT = ('M', 'cur'), ('M', 'out'), ('M', 'byte'), ('M', 'bit'), ('M', 'other')
PAD, LEN = ('M', 'pad'), ('M', 'len')


class Walk(Ser):
    def __init__(self, inv):
        super().__init__(inv)
        self.root = None
        self.outroot = None
        self.outty = None
        self.mention = {}
        self.gave = None
        self.outer = set()        # loops with loops in them

    def on_write(self, e, st, loc, val):
        pass

    def rep(self, e, st, ok, msg, w):
        if ok is False and 'odd' in st.mon:
            ok, msg = None, 'bits are tested in a way that is not understood, and perhaps: ' + msg
        e.report('walk', None, (ok, msg, w, st.mon.get('unk')), ('walk', ok, msg, w, st.mon.get('unk')))

    def on_rec_enter(self, e, st, key, body, gargs):
        pass

    def on_rec_call(self, e, st, key, body, args, site):
        pass

    def on_rec_ret(self, e, st, key, body, args, site, ret):
        pass

    # ---- where things are
    def on_enter(self, e, st, fr):
        if self.outty is None:
            b = e.p.bodies[fr.key]
            t = e.ty(b['locals'][0])
            if t['k'] == 'adt' and t['path'] == 'alloc::vec::Vec':
                self.outty = b['locals'][0]
                self.key, self.path = fr.key, b.get('path', fr.key)

    def post_call(self, e, st, name, c, args, v, site):
        if name.split('::')[-1] == 'root' and v is not None and v[0] == 'r' and v[3] in self.inv.br and CUR not in st.mem:
            self.root = v
            st.mem[CUR] = v
            st.mem[ALT] = v
            st.mem[BIT] = ('i', K(0), 'u8')
            self.start(e, st)
        self.padfact(e, st)

    def start(self, e, st):
        src, pad = self.source(e)
        st.mem[BYTE] = ('i', K(0), 'usize')
        st.mem[PAD] = ('i', S(pad), 'u8')        # what is known of it has to last
        st.mem[LEN] = ('i', S(T('len', src)), 'usize')

    def whole_length(self, e, st):
        """the bits of all bytes"""
        return st.mem[LEN][1].scale(8)

    def source(self, e):
        P = T('deref', T('arg', self.path, 0, self.key))
        tid = next(iter(self.inv.cd))
        return T('fld', P, 0, self.inv.cd[tid][0]), T('fld', P, 0, self.inv.cd[tid][1])

    def letter_type(self, e):
        return e.ty(self.outty)['args'][0]

    def output(self, e, st):
        """the sequence of letters made so far"""
        if self.outroot is None:
            for r, v in st.mem.items():
                if r[0] == 'L' and v[0] == 'seq' and not v[1] and v[2] == self.letter_type(e):
                    self.outroot = r
        v = st.mem.get(self.outroot)
        return v if v is not None and v[0] == 'seq' else None

    # ---- the specification
    def node(self, e, st):
        r = st.mem[CUR]
        v = e.deep(st, e.read(st, r[1]))
        return (v[1], r[3]) if v[0] == 's' else None

    def kids(self, e, st):
        n = self.node(e, st)
        return self.kids_of(e, st, *n) if n else None

    def child(self, e, st, side):
        r = st.mem[CUR]
        n = self.node(e, st)[0]
        for root, i in ((CUR, side), (ALT, 1 - side)):
            t = T('box', T('fld', T('fld', n, 0, self.inv.br[r[3]][1][i]), 1, '0'))
            e.oty.setdefault(t, r[3])
            e.intree.add(t)
            st.mem[root] = ('r', (('O', t), ()), r[2], r[3])

    def on_branch(self, e, st, cond, site, before):
        self.padfact(e, st)
        if CUR in st.mem:
            if 'odd' not in st.mon and self.oddcond(e, st, cond):
                st.mon['odd'] = 1
            if st.mon.get('tests', 0) < 20 and self.bittest(e, st, cond):
                st.mon['tests'] = st.mon.get('tests', 0) + 1

    def bittest(self, e, st, cond):
        if cond[0] in ('and', 'or'):
            return self.bittest(e, st, cond[1]) or self.bittest(e, st, cond[2])
        if cond[0] == 'p':
            return isinstance(cond[1], int)
        return cond[0] in ('le', 'eq', 'ne') and any(self.byte(t) for t, _ in cond[1].m)

    def byte(self, t):
        hi = interval(S(t))[1]
        return TERMS[t][0] in ('xb', 'BitAnd', 'elem', 'wrap', 'rem', 'div', 'hc') or TERMS[t][0] == 'phi' and hi is not None and hi < 256

    def oddcond(self, e, st, cond):
        """a test of bits in a way that is not understood: the walk cannot be followed for certain from here"""
        k = cond[0]
        if k in ('and', 'or'):
            return self.oddcond(e, st, cond[1]) or self.oddcond(e, st, cond[2])
        if k == 'p':
            t = TERMS[cond[1]] if isinstance(cond[1], int) else ('',)
            return t[0] == 'phi' or t[0] == 'elem' and TERMS[t[1]][0] != 'bitsof'
        if k in ('le', 'eq', 'ne'):
            for t, _ in cond[1].m:
                x = TERMS[t]
                if x[0] in ('xb', 'BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr', 'wrap', 'rem', 'div', 'hc'):
                    at = self.tested(t)
                    u = TERMS[at[0]] if at else ('',)
                    if u[0] != 'elem' or not self.is_source(e, st, u[1], self.source(e)[0]):
                        return True
        return False

    def insync(self, e, st, fr, head):
        """the branches the program holds at a loop head are the one the specification is at, the last letter given out and the root"""
        live = fr.cfg.livein[head]
        held = []
        for r, v in st.mem.items():
            if r[0] == 'L' and (r[1] != fr.fid or r[2] in live):
                self.branches(v, held)
        here, root = st.mem[CUR][1], self.root[1]
        last = self.gave or here
        return bool(held) and all(x in (here, last, root) for x in held) and (here in held or here == root)

    def branches(self, v, out):
        if isinstance(v, tuple):
            if len(v) == 4 and v[0] == 'r':
                if v[3] in self.inv.br:
                    out.append(v[1])
                return
            for x in v:
                self.branches(x, out)

    def elsewhere(self, e, st, side):
        """a bit beyond the next one, of the same byte or of another when a byte is at its end, has been tested and leads to that side"""
        by, bi = st.mem[BYTE][1], st.mem[BIT][1]
        if self.is8(st):
            by, bi = by + 1, K(0)
        src = self.source(e)[0]
        for t in {t for f in list(st.eq) + list(st.ne) + list(st.le) for t, _ in f.m}:
            at = self.tested(t)
            k = TERMS[at[0]] if at else ('',)
            if k[0] == 'elem' and self.is_source(e, st, k[1], src) and isinstance(k[2], Lin):
                v = st.holds(c_eq(S(t)))
                d = K(7) - at[1] - bi
                if v is (not side) and (self.same(st, k[2], by) and d.const() is not None and 0 < d.const() < 8 or bi.const() == 0 and st.holds_le(by + 1 - k[2])):
                    return True
        return False

    def astray(self, e, st, fr, head, w):
        """the program has gone to a child because of a bit that is not the next one"""
        if self.kids(e, st) != 1:
            return False
        live = fr.cfg.livein[head]
        held = []
        for r, v in st.mem.items():
            if r[0] == 'L' and (r[1] != fr.fid or r[2] in live):
                self.branches(v, held)
        old = {r: st.mem.get(r) for r in (CUR, ALT)}
        for side in (0, 1):
            if self.elsewhere(e, st, bool(side)):
                self.child(e, st, side)
                at = st.mem[CUR][1]
                st.mem.update({r: v for r, v in old.items() if v is not None})
                if at in held:
                    self.rep(e, st, False, 'a bit that is not the next one decides', w)
                    return True
        return False

    def wrong(self, e, st, x):
        """why a letter given out at a branch with children is certainly wrong, or None"""
        old = {r: st.mem.get(r) for r in (CUR, ALT)}
        if st.mon.get('tests', 0) <= self.taken and x[0] in 'is' and self.chain(x[1].single() if x[0] == 'i' else x[1]):
            return 'a letter is given out without a bit that leads to it'
        for side in (0, 1):
            if self.elsewhere(e, st, bool(side)):
                self.child(e, st, side)
                m = self.node(e, st)
                l = self.letter(e, st, *m) if m else None
                st.mem.update({r: v for r, v in old.items() if v is not None})
                if l == x:
                    return 'a bit that is not the next one decides'
        return None

    def chain(self, t):
        """known by how it is reached: no element of an array, no result of a call that is not looked into"""
        k = TERMS[t]
        return k[0] not in ('elem', 'hc') and all(self.chain(x) for x in k[1:] if isinstance(x, int) and k[0] in ('box', 'fld', 'deref'))

    def padfact(self, e, st):
        if CUR in st.mem and 'pad' not in st.mon:
            pad = self.source(e)[1]
            if any(self.about(t, pad) for x in (st.le, st.eq, st.ne) for f in x for t, _ in f.m):
                st.mon['pad'] = 1

    def about(self, t, pad):
        r = self.mention.get(t)
        if r is None:
            r = self.mention[t] = t == pad or any(self.about(s, pad) for x in TERMS[t][1:] if isinstance(x, Lin) for s, _ in x.m)
        return r

    def bit(self, e, st):
        """the value of the bit the specification is at, if the state tells"""
        by, bi = st.mem[BYTE][1], st.mem[BIT][1]
        if self.is8(st):
            by, bi = by + 1, K(0)
        src = self.source(e)[0]
        seen = set()
        for f in list(st.eq) + list(st.ne) + list(st.le):
            for t, _ in f.m:
                if t in seen:
                    continue
                seen.add(t)
                at = self.tested(t)
                if at is None:
                    continue
                k = TERMS[at[0]]
                if k[0] == 'elem' and self.is_source(e, st, k[1], src) and isinstance(k[2], Lin) and self.same(st, k[2], by) and self.same(st, at[1] + bi, K(7)):
                    v = st.holds(c_eq(S(t)))
                    if v is not None:
                        return not v
        for t, v in st.preds.items():
            if isinstance(t, int) and TERMS[t][0] == 'elem' and TERMS[TERMS[t][1]][0] == 'bitsof':
                u = TERMS[TERMS[t][1]][1]
                x = TERMS[t][2]
                if self.is_source(e, st, u, src) and isinstance(x, Lin) and st.holds_eq(x - by.scale(8) - bi):
                    return v
        return None

    def same(self, st, a, b):
        d = a - b
        return d.const() == 0 if d.const() is not None else st.holds_eq(d)

    def tested(self, t):
        """(byte, position from the least significant) when t is not 0 exactly if that bit of the byte is 1"""
        k = TERMS[t]
        if k[0] == 'xb' and k[3] == 1:
            u = TERMS[k[1]]
            if u[0] == 'Shr' and u[1].single() is not None:
                return u[1].single(), u[2] + k[2]
            return k[1], K(k[2])
        if k[0] == 'BitAnd':
            for x, m in ((k[1], k[2]), (k[2], k[1])):
                m = TERMS[m.single()] if m.single() is not None else ('',)
                if x.single() is not None and m[0] == 'Shl' and m[1].const() == 1:
                    return x.single(), m[2]
                if x.single() is not None and m[0] == 'Shr' and m[1].const() == 128:
                    return x.single(), K(7) - m[2]
        return None

    def is8(self, st):
        b = st.mem[BIT][1]
        return b.const() == 8 if b.const() is not None else st.holds_eq(b - 8)

    def whole(self, st):
        """the end of a byte is the start of the next; not said at once in a loop without loops in it, so that one that
        counts the bits of a byte arrives with the position it counts"""
        if self.is8(st):
            st.mem[BYTE] = ('i', st.mem[BYTE][1] + 1, 'usize')
            st.mem[BIT] = ('i', K(0), 'u8')

    def advance(self, st):
        self.whole(st)
        st.mem[BIT] = ('i', st.mem[BIT][1] + 1, 'u8')

    def is_source(self, e, st, t, src):
        return t == src

    def on_loop(self, e, st, fr, head, kind):
        if CUR not in st.mem:
            return
        o = self.output(e, st)
        if OUT not in st.mem:
            if o is not None and o[1]:
                return
            st.mem[OUT] = ('seq', (), self.letter_type(e))
        w = (fr.path, str(e.p.bodies[fr.key]['span']))
        if not self.catch_up(e, st, o, w):
            return 'stop'
        st.mon.pop('tests', None)
        if not self.insync(e, st, fr, head):
            if not self.astray(e, st, fr, head, w):
                st.mon['odd'] = 1
        if kind == 'entry':
            self.outer |= set(e.loopstack[:-1])
        if kind == 'entry' or (fr.key, head) in self.outer:
            self.whole(st)
        if (fr.key, head) in self.outer:
            b = st.mem[BIT][1]
            if b.const() is not None and st.holds_eq(st.mem[PAD][1] + b - 8):
                st.mem[BIT] = ('i', K(8) - st.mem[PAD][1], 'u8')      # behind the last bit that is not padding, however many there are

    def catch_up(self, e, st, o, w):
        """take the steps the program has taken; False if it went wrong"""
        self.gave = None
        ok, msg = self.steps(e, st, o)
        if ok is not True:
            self.rep(e, st, ok, msg, w)
        elif msg:
            self.rep(e, st, True, msg, w)
        return ok is True

    def steps(self, e, st, o):
        old = st.mem[OUT]
        o = o or ('seq', (), old[2])
        if o[1][:len(old[1])] != old[1]:
            return None, 'what is done to the letters made is not understood'
        new = list(o[1][len(old[1]):])
        if any(p[0] != 'e' for p in new):
            return None, 'what is added to the letters made is not understood'
        pend = st.mon.get('walk') == 'leaf'
        self.taken = 0
        did = ''
        for _ in range(64):
            k = self.kids(e, st)
            b = self.bit(e, st)
            if new and k is None:
                x = e.deep(st, new[0][1])
                r = st.mem[ALT]
                v = e.deep(st, e.read(st, r[1]))
                if v[0] == 's' and self.kids_of(e, st, v[1], r[3]) == 0 and self.letter(e, st, v[1], r[3]) == x:
                    return False, 'the letter given out is the one at the other side of the branch'
            if new and k == 0:
                n = self.node(e, st)
                l = self.letter(e, st, *n)
                x = e.deep(st, new.pop(0)[1])
                if l is None:
                    return None, 'the letter given out is not understood'
                if x != l and not (x[0] == l[0] == 'i' and st.holds_eq(x[1] - l[1])):
                    return self.other(e, st, x, l)
                self.gave = st.mem[CUR][1]
                st.mem[CUR] = self.root
                if not pend:
                    self.advance(st)         # the tree is a single letter
                    did = 'single'
                else:
                    did = 'letter'
                pend = False
                continue
            if b is not None:
                if k == 1:
                    self.child(e, st, 1 if b else 0)
                    self.advance(st)
                    self.taken += 1
                    pend = self.kids(e, st) == 0
                    did = did or 'step'
                    continue
                if k == 0 and pend:
                    return False, 'a bit is read after a letter was reached, which is not given out'
                if k == 0:
                    break                    # the tree is a single letter, which this bit gives
                return None, 'whether the branch reached has children is not known'
            break
        else:
            return None, 'too many steps at once'
        if new:
            m = self.wrong(e, st, e.deep(st, new[0][1])) if k == 1 else None
            if m:
                return False, m
            if k == 1:
                return None, 'a letter is given out where it is not known whether one is reached'
            return None, 'a letter is given out at a branch that is not known to be a letter'
        st.mem[OUT] = o
        st.mon.pop('walk', None)
        if self.kids(e, st) == 0 and pend:
            st.mon['walk'] = 'leaf'
        return True, did

    def other(self, e, st, x, l):
        if x[0] == 'i' and (x[1] - l[1]).const() not in (None, 0):
            return False, 'the letter given out is not the one reached'
        if x[0] == 'i' and x[1].single() is not None and l[1].single() is not None and TERMS[x[1].single()][0] == TERMS[l[1].single()][0] == 'fld':
            return False, 'the letter given out is not the one reached'
        return None, 'the letter given out is not understood'

    def on_exit(self, e, st, fr, ret):
        if fr.parent is not None or CUR not in st.mem or OUT not in st.mem:
            return
        w = (fr.path, str(e.p.bodies[fr.key]['span']))
        o = e.deep(st, ret)
        if o[0] != 'seq':
            return self.rep(e, st, None, 'what is returned is not understood', w)
        if not self.catch_up(e, st, o, w):
            return
        if st.mon.get('walk') == 'leaf':
            return self.rep(e, st, False, 'the last letter reached is not given out', w)
        self.ending(e, st, w)

    def ending(self, e, st, w):
        pad = st.mem[PAD][1].single()
        at = st.mem[BYTE][1].scale(8) + st.mem[BIT][1]
        d = at - self.whole_length(e, st) + S(pad)
        if st.holds_eq(d):
            return self.rep(e, st, True, 'end', w)
        if 'pad' not in st.mon and st.holds_eq(d - S(pad)):
            return self.rep(e, st, False, 'the padding at the end of the data is decoded', w)
        for c in range(1, 17):
            if st.holds_eq(d - c):
                return self.rep(e, st, False, f'{c} bits beyond the end of the data are decoded', w)
            if st.holds_eq(d + c):
                return self.rep(e, st, False, f'{c} bits at the end of the data are not decoded', w)
        if st.holds_le(d + 1):
            return self.rep(e, st, False, 'bits at the end of the data are not decoded', w)
        if st.holds_le(K(1) - d):
            return self.rep(e, st, False, 'bits beyond the end of the data are decoded', w)
        self.rep(e, st, None, 'how many bits are decoded is not understood', w)
