"""C23: encoding. A specification runs beside the program: the letters begun so far, the bits taken of the code of the
last one, and the bits of the byte being filled, each under a name of its own. The names are the same in all states in
which as many bits of a byte are taken, so what the program has made of them stays exact; a byte it puts out is compared
with the specification's for every value of these bits."""
import itertools
import models
from eng import *
from evalt import ev_lin, leaves, No, GIVEN
import evalt

NB, LET, BIT, CLEN = ('M', 'bytes'), ('M', 'letters'), ('M', 'bit'), ('M', 'codelen')


def obit(gen, k):
    return T('obit', gen, k)


def possible(st, d, both=False):
    """d < 0 (or d > 0) may be: it speaks of lengths given only, and nothing the state knows forbids it"""
    for _ in range(6):
        odd = [t for t, _ in d.m if TERMS[t][0] not in GIVEN]
        if not odd:
            break
        for f in st.eq:
            c = dict(f.m).get(odd[0])
            if c in (1, -1) and not any(TERMS[t][0] not in GIVEN for t, _ in f.m if t != odd[0]):
                d = d - f.scale(dict(d.m)[odd[0]] * c)
                break
        else:
            return False
    if any(TERMS[t][0] not in GIVEN for t, _ in d.m) or not d.m:
        return d.const() is not None and (d.const() < 0 or both and d.const() > 0)
    return bool(st.copy().assume(c_le(d + 1))) or both and bool(st.copy().assume(c_le(K(1) - d)))


class Enc:
    def __init__(self, inv):
        self.inv = inv
        self.roots = set()
        self.fn = None
        self.sure = []

    def rep(self, e, st, ok, msg, w=None):
        w = w or ((self.fn.path, str(e.p.bodies[self.fn.key]['span'])) if self.fn else ('', ''))
        if ok is False and ('odd' in st.mon or len(self.roots) > 1):
            ok, msg = None, f'({st.mon.get("odd", "several vectors")}) ' + msg
        x = ('enc', None, (ok, msg, w, st.mon.get('unk')), ('enc', ok, msg, w, st.mon.get('unk')))
        if ok is False:
            self.sure.append(x)          # what happens before a loop's states are joined for good does happen
        e.report(*x)

    # ---- what is encoded
    def on_enter(self, e, st, fr):
        if fr.parent is None and fr.path.split('::')[-1] == 'compress_with_tree':
            self.fn = fr
            z = lambda t: ('i', K(0), t)
            st.mem[LET], st.mem[BIT], st.mem[CLEN] = z('usize'), z('usize'), z('usize')
            st.mem[NB] = ('seq', (), self.byte_type(e))
            st.mon.update(g=0, gen=0, due=0, part=0)

    def on(self, st):
        return NB in st.mem

    def letters(self):
        return T('deref', T('arg', self.fn.path, 0, self.fn.key))

    def pre_call(self, e, st, name, c, args, dty, site):
        if not self.on(st):
            return None
        n = name.split('::')[-1]
        if n in ('read_codes', 'read_codes_with_hasher') and 'huff_coding' in name:
            t = T('hc', 'codes', e.term(e.deep(st, args[0])))
            return [(st, e.opaque(t, dty))]
        if n in ('next', 'next_back') and args and args[0][0] == 'r':
            it = e.read(st, args[0][1])
            if it[0] == 'o' and it[1] == 'it' and it[5] in ('r', 'v'):
                code = self.code_of(e, st, it)
                if code is not None:
                    return self.draw(e, st, it, code, args, dty, site, c, n)
        if n == 'index' and len(args) == 2 and args[0][0] == 'r' and args[1][0] == 'i':
            code = self.code_of(e, st, (0, 0, args[0]))
            if code is not None:
                return self.at(e, st, code, args[1][1], dty, site)
        if n == 'push' and 'Vec' in name and 'Bit' not in name and len(args) == 2:
            v = e.deep(st, args[1])
            if v[0] == 'i' and v[2] == 'u8' and args[0][0] == 'r':
                self.push(e, st, args[0][1], v, e.wsite(site))
        return None

    def code_of(self, e, st, it):
        """the letter whose code an iterator runs over"""
        v = it[2]
        if v[0] == 'r':
            v = e.deep(st, e.read(st, v[1]))
        if v[0] == 's':
            t, off = v[1], K(0)
        elif v[0] == 'seq' and len(v[1]) == 1 and v[1][0][0] == 's':
            t, off = v[1][0][1], v[1][0][2]
        else:
            return None
        while TERMS[t][0] in ('deref', 'box'):
            t = TERMS[t][1]
        k = TERMS[t]
        if k[0] == 'mapval' and TERMS[k[1]][0] == 'hc' and TERMS[k[1]][1] == 'codes':
            return k[2], t, off
        return None

    def on_effect(self, e, st, kind, info, site):
        if not self.on(st) or kind != 'map.get':
            return
        m, kt, t = info
        if TERMS[m[2]][0] != 'hc' or TERMS[m[2]][1] != 'codes':
            return
        self.letter(e, st, kt, t, e.wsite(site))

    def index_of(self, kt):
        k = TERMS[kt]
        while k[0] in ('deref', 'box'):
            kt = k[1]
            k = TERMS[kt]
        if k[0] == 'elem' and k[1] == self.letters() and isinstance(k[2], Lin):
            return k[2]
        return None

    def differs(self, st, d):
        """both certain and possible: the two are not the same"""
        if d.const() is not None:
            return d.const() != 0
        if st.holds_le(d + 1) or st.holds_le(K(1) - d):
            return True
        return possible(st, d, True)

    def letter(self, e, st, kt, t, w):
        i = self.index_of(kt)
        if i is None:
            st.mon['odd'] = 'a letter from elsewhere'
            return self.rep(e, st, None, 'the letter whose code is looked up is not understood', w)
        n = st.mem[LET][1]
        if st.holds_eq(i - n + 1):
            return          # the same letter again
        if not st.holds_eq(i - n):
            ok = False if self.differs(st, i - n) else None
            self.rep(e, st, ok, 'the letters are not taken one after another', w)
            st.mon['odd'] = 'letters out of order'
            return
        self.finished(e, st, w)
        ln = self.length(e, st, t)
        st.mem[LET] = ('i', n + 1, 'usize')
        st.mem[BIT] = ('i', K(0), 'usize')
        st.mem[CLEN] = ('i', ln, 'usize')
        self.rep(e, st, True, 'letter', w)

    def length(self, e, st, t):
        return e.lenof(t)

    def finished(self, e, st, w):
        """all bits of the last code are taken"""
        d = st.mem[BIT][1] - st.mem[CLEN][1]
        if st.holds_eq(d):
            return True
        if possible(st, d):
            self.rep(e, st, False, 'bits at the end of a code are left out', w)
        else:
            self.rep(e, st, None, 'whether every bit of a code is taken is not understood', w)
        st.mon['odd'] = 'a code left early'

    def draw(self, e, st, it, code, args, dty, site, c, n):
        kt, t, off = code
        w = e.wsite(site)
        out = []
        res = models._NX(e, st, c, args, dty, site) if n == 'next' else models._NB(e, st, c, args, dty, site)
        for s, v in res:
            if not (v[0] == 'a' and v[2] == 1):
                out.append((s, v))
                continue
            j = (it[3] if n == 'next' else it[4] - 1) + off
            self.one(e, s, kt, j, w)
            b = obit(s.mon['gen'], s.mon['g'] - 1)
            x = v[3][0]
            if x[0] == 'r':
                root = ('O', b)
                s.mem[root] = ('b', ('p', b, True))
                x = ('r', (root, ()), False, x[3])
            else:
                x = ('b', ('p', b, True))
            out.append((s, v[:3] + ((x,),)))
        return out

    def at(self, e, st, code, j, dty, site):
        kt, t, off = code
        J = st.mem[BIT][1]
        out = []
        for s in models.check(e, st, c_le(j - e.lenof(t) + 1), 'index', 'index out of bounds', site):
            if s.holds_eq(j + off - J + 1) and s.mon['g']:
                pass                     # the same bit again
            else:
                self.one(e, s, kt, j + off, e.wsite(site))
            b = obit(s.mon['gen'], s.mon['g'] - 1)
            s.mem[('O', b)] = ('b', ('p', b, True))
            out.append((s, ('r', (('O', b), ()), False, e.ty(dty).get('elem'))))
        return out

    def one(self, e, s, kt, j, w):
        i = self.index_of(kt)
        if i is None or not s.holds_eq(i - s.mem[LET][1] + 1):
            s.mon['odd'] = 'a code from elsewhere'
            self.rep(e, s, None, 'the code taken is not understood', w)
        J = s.mem[BIT][1]
        if not s.holds_eq(j - J):
            self.rep(e, s, False if self.differs(s, j - J) else None, 'the bits of a code are not taken one after another', w)
            s.mon['odd'] = 'bits out of order'
        s.mem[BIT] = ('i', J + 1, 'usize')
        self.take(e, s, w)

    def on_loop(self, e, st, fr, head, kind):
        if self.on(st) and kind == 'back' and 'missed' not in st.mon:
            for t, v in st.preds.items():
                k = TERMS[t] if isinstance(t, int) else ('',)
                if v is False and k[0] == 'has' and isinstance(k[2], int) and self.index_of(k[2]) is not None and TERMS[k[1]][:2] == ('hc', 'codes'):
                    st.mon['missed'] = 1         # may still be made an error

    def take(self, e, st, w):
        """the next bit of the byte"""
        m = st.mon
        if m['part']:
            self.rep(e, st, False, 'a byte is put out before it is full', w)
            m['odd'] = 'part'
            m['part'] = 0
            m['g'] = 0
        if m['g'] == 8:
            if m['due'] > 1:
                self.rep(e, st, None, 'bits are kept back in a way that is not understood', w)
                m['odd'] = 'kept back'
            m['due'] = 2 if m['due'] else 0
            m['g'] = 0
            m['gen'] ^= 1
        if m['g'] == 0:
            # what was known under these names is another byte's
            for k in range(8):
                st.preds.pop(obit(m['gen'], k), None)
        m['any'] = 1
        m['g'] += 1
        if m['g'] == 8 and not m['due']:
            m['due'] = 1

    def push(self, e, st, loc, v, w):
        m = st.mon
        self.roots.add(loc[0] if loc is not None else None)
        cur = e.deep(st, e.read(st, loc)) if loc is not None else ('',)
        if cur[0] != 'seq' or cur[1] != e.deep(st, st.mem[NB])[1]:
            m['odd'] = 'bytes are put out in another way as well'
        if m['due']:
            gen = m['gen'] if m['due'] == 1 else m['gen'] ^ 1
            ok, msg = self.byte(st, v[1], gen, 8)
            m['due'] = 0
        elif 'any' not in m:
            ok, msg = None, 'a byte is put out while no bits of a code were seen to be taken'
        elif m['part'] or m['g'] in (0, 8):
            ok, msg = False, 'a byte is put out that no bits were taken for'
        else:
            ok, msg = self.byte(st, v[1], m['gen'], m['g'])
            m['part'] = 1
        self.rep(e, st, ok, msg, w)
        if ok is False:
            m['odd'] = 'wrong already'
        o = st.mem[NB]
        st.mem[NB] = ('seq', o[1] + (('e', v),), o[2])

    def byte_type(self, e):
        return next(i for i, t in enumerate(e.p.types) if t and t.get('s') == 'u8') if isinstance(e.p.types, list) else next(i for i, t in e.p.types.items() if t.get('s') == 'u8')

    def byte(self, st, x, gen, n):
        """the byte put out against the one made of the bits of this generation"""
        names = {}
        for t in self.bits_in(x):
            names[t] = None
        mine = [obit(gen, k) for k in range(n)]
        free = [t for t in names if t not in mine]
        try:
            for vals in itertools.product((0, 1), repeat=n):
                if any(st.preds.get(t) not in (None, bool(b)) for t, b in zip(mine, vals)):
                    continue
                for junk in ((0,) * len(free), (1,) * len(free)):
                    env = {('p', t): b for t, b in zip(mine, vals)}
                    env.update({('p', t): b for t, b in zip(free, junk)})
                    if self.ev(x, env) != sum(b << (7 - k) for k, b in enumerate(vals)):
                        return False, 'the byte put out does not hold the bits taken' + (', most significant first' if n == 8 else ', filled up with 0')
        except No:
            return None, 'the byte put out is not understood'
        return True, 'byte' if n == 8 else 'last'

    def bits_in(self, x):
        return [t[1] for t in leaves(x, set()) if isinstance(t, tuple)]

    def ev(self, x, env):
        env = dict(env)
        return ev_lin(x, env)

    # ---- the end
    def on_agg(self, e, st, v, kind, site):
        if not self.on(st) or v[1] not in self.inv.cd:
            return
        w = e.wsite(site)
        if 'missed' in st.mon:
            st.mon.pop('odd', None)
            return self.rep(e, st, False, 'a letter without a code is passed over', w)
        if not st.holds_eq(st.mem[LET][1] - e.lenof(self.letters())):
            d = st.mem[LET][1] - e.lenof(self.letters())
            ok = False if st.holds_le(d + 1) or possible(st, d) else None
            self.rep(e, st, ok, 'letters at the end are left out', w)
            return
        self.finished(e, st, w)
        bf, pf = self.inv.cd[v[1]]
        fs = [f['name'] for f in e.ty(v[1])['variants'][0]['fields']]
        by, pad = e.deep(st, v[3][fs.index(bf)]), e.deep(st, v[3][fs.index(pf)])
        if by[0] != 'seq' or by[1] != e.deep(st, st.mem[NB])[1]:
            return self.rep(e, st, None, 'the bytes of the compressed data are not understood', w)
        m = st.mon
        if m['due'] or m['g'] % 8 and not m['part']:
            return self.rep(e, st, False, 'the last bits taken are not put out', w)
        if pad[0] != 'i':
            return self.rep(e, st, None, 'the padding is not understood', w)
        d = pad[1] - (-m['g']) % 8
        if st.holds_eq(d):
            return self.rep(e, st, True, 'end', w)
        self.rep(e, st, False if d.const() is not None or st.holds_le(d + 1) or st.holds_le(K(1) - d) else None, 'the padding is not the number of bits missing to a whole byte', w)
