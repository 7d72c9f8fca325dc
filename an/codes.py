"""C17: a branch's code is its parent's code and one bit, 0 to the left and 1 to the right;
the code table gives every leaf letter the code of its leaf."""
from eng import *
from libchk import origin


class Codes:
    def __init__(self, inv):
        self.inv = inv
        self.ctx = {}         # recursion key -> {'top': (args, st), 'gen': gargs}
        self.nodet = set(inv.br)

    # ---- shapes
    def ix(self, e, tyid, name):
        return [f['name'] for f in e.ty(tyid)['variants'][0]['fields']].index(name)

    def kid_of_loc(self, e, base, loc, tyid):
        """name of the child of the node at base that loc is, else None"""
        if base[0] != loc[0] or loc[1][:len(base[1])] != base[1]:
            return None
        rest = loc[1][len(base[1]):]
        if len(rest) != 4 or rest[0][0] != 'f' or rest[1][0] != 'd' or rest[3][0] != 'x':
            return None
        kids = self.inv.br[tyid][1]
        nm = e.ty(tyid)['variants'][0]['fields'][rest[0][1]]['name']
        return kids.index(nm) if nm in kids else None

    def kid_of_term(self, t):
        """(parent term, child number) of a node reached by a link"""
        k = TERMS[t]
        if k[0] == 'box' and TERMS[k[1]][0] == 'fld' and TERMS[k[1]][2] == 1:
            k2 = TERMS[TERMS[k[1]][1]]
            if k2[0] == 'fld':
                for _, kids, _ in self.inv.br.values():
                    if k2[3] in kids:
                        return k2[1], kids.index(k2[3])
        return None

    def node_arg(self, e, args):
        for i, a in enumerate(args):
            if a[0] == 'r' and a[3] in self.nodet and a[1] is not None:
                return i
        return None

    def bits(self, e, st, v, d=0):
        """content of a bit sequence or an optional one: tuple of pieces; None if it is none, '?' if unknown"""
        v = e.deep(st, v)
        if v[0] == 'r' and v[1] is not None:
            return self.bits(e, st, e.read(st, v[1]), d + 1) if d < 4 else None
        if v[0] == 'seq':
            return v[1] if v[2] == 'bit' else None
        if v[0] in ('a', 's'):
            ty = v[1] if v[0] == 'a' else v[2]
            if ty is None:
                return None
            t = e.ty(ty)
            if t['k'] == 'adt' and t['path'] == 'core::option::Option' and self.is_bits(e, t['args'][0]):
                i = e.variant(st, v)
                if i is None:
                    return '?'
                if i == 0:
                    return ()
                if v[0] == 's':
                    v = e.expand(v, 1)
                return self.bits(e, st, v[3][0], d + 1) if d < 4 else None
            if t['k'] == 'adt' and self.is_bits(e, ty) and v[0] == 's':
                return (('s', v[1], K(0), e.lenof(v[1])),)
        return None

    def is_bits(self, e, ty):
        t = e.ty(ty)
        while t['k'] == 'ref':
            t = e.ty(t['elem'])
        return 'BitVec' in t['s'] or 'BitSlice' in t['s']

    def params(self, e, st, args):
        out = {}
        for i, a in enumerate(args):
            b = self.bits(e, st, a)
            if b is not None:
                out[i] = b
        return out

    def last_bit(self, st, b):
        if b == '?' or not b or b[-1][0] != 'e' or b[-1][1][0] != 'b':
            return None
        c = b[-1][1][1]
        return st.holds(c)

    def extends(self, e, st, base, new):
        """the bit by which new is longer than base, 'no' if it is known not to be base and one bit, None if unknown"""
        if base == '?' or new == '?':
            return None
        if self.same(base, new):
            return 'no'
        if len(new) and self.same(base, new[:-1]) and new[-1][0] == 'e':
            return self.last_bit(st, new)
        if all(p[0] == 'e' for p in new) and all(p[0] == 'e' for p in base) and len(new) != len(base) + 1:
            return 'no'
        if len(new) and new[-1][0] == 'e' and new[0][0] == 'e' and base and base[0][0] == 's':
            return 'no'       # the parent's code is missing
        if len(new) >= 2 and self.same(base, new[:-2]) and new[-1][0] == new[-2][0] == 'e':
            return 'no'
        return None

    def same(self, a, b):
        return len(a) == len(b) and all(x == y for x, y in zip(a, b))

    def code_of(self, e, st, loc, tyid):
        lf = self.inv.br[tyid][0]
        lt = e.ty(tyid)['variants'][0]['fields'][self.ix(e, tyid, lf)]['ty']
        p = (('f', self.ix(e, tyid, lf)), ('f', self.ix(e, lt, self.inv.code[lt])))
        return self.bits(e, st, e.read(st, (loc[0], loc[1] + p)))

    # ---- events
    def on_rec_enter(self, e, st, key, body, gargs):
        self.ctx[key] = {'top': e.rec_entry, 'gen': gargs}
        st.mon.pop('kids', None)
        st.mon.pop('vis', None)
        a0, st0 = e.rec_entry
        n = self.node_arg(e, a0)
        if n is not None and self.outer(e) is None:
            self.seen(e, st0, self.node_term(e, st0, a0[n]))

    def node_term(self, e, st, a):
        v = e.read(st, a[1])
        return v[1] if v[0] == 's' else None

    def outer(self, e):
        """the outermost recursion over branches"""
        for k in e.recmode:
            if k in self.ctx and self.node_arg(e, self.ctx[k]['gen']) is not None:
                return k
        return None

    def entry(self, e, key):
        c = self.ctx.get(key)
        if c is None or self.outer(e) != key or any(not x.get('top') for k, x in e.recmode.items() if k != key and self.node_arg(e, self.ctx[k]['gen']) is not None):
            return None, None, None
        if e.recmode[key].get('top'):
            return c['top'][0], c['top'][1], 'top'
        return c['gen'], None, 'gen'

    def on_rec_call(self, e, st, key, body, args, site):
        ent, st0, mode = self.entry(e, key)
        if ent is None:
            return
        n = self.node_arg(e, ent)
        if n is None or args[n][0] != 'r' or args[n][1] is None:
            return
        w = e.wsite(site)
        ty = args[n][3]
        if not args[n][2]:             # not allowed to change it
            self.seen(e, st, self.node_term(e, st, args[n]))
            return
        kid = self.kid_of_loc(e, ent[n][1], args[n][1], ty)
        fn = body['path'].split('::')[-1]
        rep = lambda ok, msg: e.report('code', None, (ok, fn, msg, w, st.mon.get('unk')), ('code', ok, fn, msg, w))
        if kid is None:
            return rep(None, 'recursion on something that is not a child')
        side = ('left', 'right')[kid]
        old, new = self.params(e, st0 or st, ent), self.params(e, st, args)
        stored = self.code_of(e, st, args[n][1], ty)
        ok = None
        if set(old) & set(new):
            j = min(set(old) & set(new))
            b = self.extends(e, st, old[j], new[j])
            if b is None:
                return rep(None, f'the code passed on for the {side} child is not understood')
            if b == 'no':
                return rep(False, f'the code passed on for the {side} child is not the code of its parent and one bit')
            if b is not bool(kid):
                return rep(False, f'the code of a {side} child ends in {int(b)}')
            if stored != '?' and stored is not None:
                if self.same(stored, new[j]):
                    ok = True
                elif stored == () or stored and stored[0][0] == 's' and len(stored) == 1 and stored != old[j]:
                    ok = 'own' if st.mon.get('own') else None
                else:
                    return rep(False, f'the code stored in the {side} child is not the one passed on')
        else:
            base = self.code_of(e, st, ent[n][1], ty)
            b = self.extends(e, st, base, stored) if base is not None and stored is not None else None
            if b == 'no':
                return rep(False, f'the code of the {side} child is not the code of its parent and one bit')
            if b is not None and b is not bool(kid):
                return rep(False, f'the code of a {side} child ends in {int(b)}')
            ok = True if b is not None else None
        if ok is None:
            return rep(None, f'the code stored in the {side} child is not understood')
        st.mon['kids'] = tuple(sorted(set(st.mon.get('kids', ())) | {kid}))
        rep(True, side)

    def on_write(self, e, st, loc, val):
        # a branch's own code set to the one passed in
        if not loc[1] or loc[1][-1][0] != 'f':
            return
        for key, x in e.recmode.items():
            if x.get('top') or key not in self.ctx:
                continue
            ent = self.ctx[key]['gen']
            n = self.node_arg(e, ent)
            if n is None or loc[0] != ent[n][1][0]:
                continue
            b = self.bits(e, st, val)
            if b is None:
                continue
            ty = ent[n][3]
            lf = self.inv.br[ty][0]
            lt = e.ty(ty)['variants'][0]['fields'][self.ix(e, ty, lf)]['ty']
            p = (('f', self.ix(e, ty, lf)), ('f', self.ix(e, lt, self.inv.code[lt])))
            if loc[1] == ent[n][1][1] + p and any(self.same(b, q) for q in self.params(e, st, ent).values() if q != '?'):
                st.mon['own'] = True

    def on_exit(self, e, st, fr, ret):
        if fr.parent is None and e.recmode == {}:
            return self.at_end(e, st, fr, ret)
        c = self.ctx.get(fr.key)
        x = e.recmode.get(fr.key)
        if c is None or x is None or x.get('top') or self.outer(e) != fr.key:
            return
        ent = c['gen']
        n = self.node_arg(e, ent)
        if n is None:
            return
        if not ent[n][2]:
            return self.reached(e, st, self.node_term(e, st, ent[n]), ent[n][3], fr)
        ty = ent[n][3]
        k0 = self.inv.br[ty][1][0]
        v = e.read(st, (ent[n][1][0], ent[n][1][1] + (('f', self.ix(e, ty, k0)),)))
        i = e.variant(st, v)
        fn = fr.path.split('::')[-1]
        w = (fr.path, e.p.bodies[fr.key]['span'])
        if i == 0:
            return
        kids = st.mon.get('kids', ())
        if i is None:
            if len(kids) < 2:
                e.report('code', None, (None, fn, 'whether both children are reached is not decided', w, None), ('code', fn, 'exit?'))
            return
        for k in (0, 1):
            if k not in kids:
                side = ('left', 'right')[k]
                e.report('code', None, (False, fn, f'a path through the recursion sets no code for the {side} child', w, st.mon.get('unk')), ('code', fn, 'exit', side))

    # ---- the table
    def letter_leaf(self, e, st, v):
        v = e.deep(st, v)
        while v[0] == 'r' and v[1] is not None:
            v = e.deep(st, e.read(st, v[1]))
        if v[0] == 'i':
            if len(v[1].m) != 1 or v[1].c or v[1].m[0][1] != 1:
                return None
            t = v[1].m[0][0]
        elif v[0] == 's':
            t = v[1]
        else:
            return None
        k = TERMS[t]
        while k[0] in ('deref', 'clone'):
            k = TERMS[k[1]]
        if k[0] == 'fld' and k[2] == 1:
            k1 = TERMS[k[1]]
            if k1[0] == 'fld' and k1[3] in self.inv.leafs.values():
                return k1[1]
        return None

    def code_leaf(self, b):
        if b and len(b) == 1 and b[0][0] == 's':
            k = TERMS[b[0][1]]
            while k[0] in ('deref', 'clone'):
                k = TERMS[k[1]]
            if k[0] == 'fld' and k[2] == 1:
                k1 = TERMS[k[1]]
                if k1[0] == 'fld' and k1[3] in self.inv.code.values():
                    full = b[0][2].const() == 0 and b[0][3] == S(T('len', b[0][1]))
                    return k1[1], full
        return None, False

    def post_call(self, e, st, name, c, args, v, site):
        if not name.endswith(('Map::<K, V, S, A>::insert', 'Map::<K, V, S>::insert')) or len(args) != 3:
            return
        b = self.bits(e, st, args[2])
        if b is None:
            return
        w = e.wsite(site)
        rep = lambda ok, msg: e.report('table', None, (ok, msg, w, st.mon.get('unk')), ('table', ok, msg, w))
        lk = self.letter_leaf(e, st, args[1])
        if lk is None:
            return rep(None, 'the letter entered is not understood')
        lv, full = self.code_leaf(b) if b != '?' else (None, False)
        node = TERMS[lk][1] if TERMS[lk][0] == 'fld' else None
        if lv is not None:
            if lv != lk:
                return rep(False, 'a letter is entered with the code of another leaf')
            if not full:
                return rep(False, 'a letter is entered with part of its code')
            self.seen(e, st, node)
            return rep(True, 'stored')
        if b == '?' or not all(p[0] == 'e' for p in b) or node is None:
            return rep(None, 'the code entered is not understood')
        gen = any(not x.get('top') for x in e.recmode.values())
        kid = self.kid_of_term(node)
        bs = [st.holds(p[1][1]) if p[1][0] == 'b' else None for p in b]
        self.seen(e, st, node)
        if kid is None and TERMS[node][0] == 'fld' and TERMS[node][3] in self.inv.tree.values():
            if bs == [False]:
                return rep(True, 'single')
            return rep(None if None in bs else False, 'the letter of a tree of one branch is not entered with the code 0')
        if gen:
            return            # decided for the nodes it is called with
        if kid is not None and TERMS[kid[0]][0] == 'fld' and TERMS[kid[0]][3] in self.inv.tree.values():
            if bs == [bool(kid[1])]:
                return rep(True, 'first level')
            return rep(None if None in bs else False, 'a child of the root is not entered with the code of its side')
        rep(None, 'the code entered is not understood')

    def seen(self, e, st, node):
        """a branch is entered in the table, or handed to the recursion that does"""
        if node is None:
            return
        o = self.outer(e)
        n = None
        if o is not None and not e.recmode[o].get('top'):
            ent = self.ctx[o]['gen']
            n = self.node_term(e, st, ent[self.node_arg(e, ent)])
        k = self.kid_of_term(node)
        own = n is not None and node == n or n is None and self.is_root(node)
        if own:
            x = 'own'
        elif k is not None and (k[0] == n if n is not None else self.is_root(k[0])):
            x = k[1]
        else:
            return
        st.mon['vis'] = tuple(sorted(set(st.mon.get('vis', ())) | {x}, key=str))

    def is_root(self, t):
        k = TERMS[t]
        return k[0] == 'fld' and k[3] in self.inv.tree.values()

    def reached(self, e, st, node, ty, fr):
        if node is None:
            return
        k0 = self.inv.br[ty][1][0]
        v = e.expand(('s', node, ty), 0)
        i = e.variant(st, e.deep(st, v[3][self.ix(e, ty, k0)]))
        vis = st.mon.get('vis', ())
        fn = fr.path.split('::')[-1]
        w = (fr.path, str(e.p.bodies[fr.key]['span']))
        miss = ['own'] if i == 0 else [0, 1]
        miss = [m for m in miss if m not in vis]
        if 'own' in vis and i != 0 or i is None:
            e.report('table', None, (None, f'{fn}: whether every letter is entered is not decided', w, None), ('table', fn, 'exit?'))
        elif miss:
            what = {'own': 'its own letter', 0: 'the left child', 1: 'the right child'}
            e.report('table', None, (False, f'a path through {fn} leaves out ' + ' and '.join(what[m] for m in miss), w, st.mon.get('unk')), ('table', fn, 'exit', tuple(miss)))
        else:
            e.report('table', None, (True, f'{fn}: all reached', w, None), ('table', fn, 'exit'))

    def at_end(self, e, st, fr, ret):
        """a finished tree or table"""
        w = (fr.path, str(e.p.bodies[fr.key]['span']))
        for v in self.trees(e, st, ret, 0):
            ty = v[1] if v[0] == 'a' else v[2]
            rn = self.inv.tree[ty]
            root = e.deep(st, v[3][self.ix(e, ty, rn)])
            bt = e.ty(ty)['variants'][0]['fields'][self.ix(e, ty, rn)]['ty']
            if root[0] == 's':
                root = e.expand(root, 0)
            i = e.variant(st, e.deep(st, root[3][self.ix(e, bt, self.inv.br[bt][1][0])]))
            leaf = e.deep(st, root[3][self.ix(e, bt, self.inv.br[bt][0])])
            lt = leaf[1] if leaf[0] == 'a' else leaf[2]
            if leaf[0] == 's':
                leaf = e.expand(leaf, 0)
            b = self.bits(e, st, leaf[3][self.ix(e, lt, self.inv.code[lt])])
            if i == 0:
                bs = [st.holds(p[1][1]) if p[0] == 'e' and p[1][0] == 'b' else None for p in b] if b not in (None, '?') else [None]
                if bs == [False]:
                    e.report('code', None, (True, fr.path.split('::')[-1], 'single', w, None), ('code', 'single'))
                else:
                    e.report('code', None, (None if None in bs else False, fr.path.split('::')[-1], 'the code of a tree of one branch is not 0', w, st.mon.get('unk')), ('code', 'single', None in bs))
            elif i is None:
                e.report('code', None, (None, fr.path.split('::')[-1], 'whether the tree is a single branch is not known', w, None), ('code', 'single?'))
            elif st.mon.get('kids') != (0, 1):
                e.report('code', None, (False, fr.path.split('::')[-1], 'a tree is returned whose codes have not all been set', w, st.mon.get('unk')), ('code', 'unset'))
            else:
                e.report('code', None, (True, fr.path.split('::')[-1], 'many', w, None), ('code', 'many'))
        if fr.path.split('::')[-1].startswith('read_codes'):
            body = e.p.bodies[fr.key]
            a = e.opaque(T('arg', body.get('path', fr.key), 0, fr.key), body['locals'][1])
            t = e.read(st, a[1])
            ty = t[2] if t[0] == 's' else t[1]
            if ty in self.inv.tree:
                t = e.expand(t, 0) if t[0] == 's' else t
                root = e.deep(st, t[3][self.ix(e, ty, self.inv.tree[ty])])
                if root[0] == 's':
                    self.reached(e, st, root[1], root[2], fr)

    def trees(self, e, st, v, d):
        v = e.deep(st, v)
        if v[0] == 'x':
            v = v[1]
        ty = v[1] if v[0] == 'a' else v[2] if v[0] == 's' else None
        if ty in self.inv.tree:
            return [v if v[0] == 'a' else e.expand(v, 0)]
        if v[0] == 'a' and d < 4:
            return [x for f in v[3] for x in self.trees(e, st, f, d + 1)]
        return []
