"""Class invariants of the library types, recognised by the shape of the types.

They are assumed for values built elsewhere (a caller's tree, the result of a library call)
and are themselves properties checked at every construction and mutation (lib.py):
  compressed data is never empty and its padding is at most 7
  a branch has both children or none, and holds a letter exactly when it has none"""
from eng import *


class Inv:
    def __init__(self, prog):
        self.p = prog
        self.cd = {}          # tyid -> (bytes field, padding field)
        self.br = {}          # branch tyid -> (leaf field, [child fields], letter field)
        self.leafs = {}       # leaf tyid -> letter field
        self.code = {}        # leaf tyid -> code field
        self.weight = {}      # leaf tyid -> weight field
        self.idx = {}         # iterator over a fixed table: tyid -> (position field, table length)
        self.tree = {}        # tree tyid -> root field
        ts = prog.types
        for i, t in enumerate(ts):
            if t['k'] != 'adt' or t.get('enum') or not t.get('variants') or not t['path'].startswith('huff_coding::'):
                continue
            fs = t['variants'][0]['fields']
            by = [f['name'] for f in fs if self.is_bytes(f['ty'])]
            u8 = [f['name'] for f in fs if ts[f['ty']]['s'] == 'u8']
            tr = [f['name'] for f in fs if ts[f['ty']]['k'] == 'adt' and 'Tree' in ts[f['ty']]['path']]
            if len(by) == 1 and len(u8) == 1 and tr:
                self.cd[i] = (by[0], u8[0])
            kids = [f['name'] for f in fs if self.opt_box(f['ty']) is not None and self.opt_box(f['ty']) == t['path']]
            if len(kids) == 2:
                for f in fs:
                    l = ts[f['ty']]
                    if l['k'] == 'adt' and l.get('variants') and l['path'].startswith('huff_coding::'):
                        for g in l['variants'][0]['fields']:
                            o = ts[g['ty']]
                            if o['k'] == 'adt' and o['path'] == 'core::option::Option' and o['args'][0] in t.get('args', ()) or \
                                    (o['k'] == 'adt' and o['path'] == 'core::option::Option' and t.get('args') and ts[o['args'][0]]['s'] == ts[t['args'][0]]['s']):
                                self.br[i] = (f['name'], kids, g['name'])
                                self.leafs[f['ty']] = g['name']
                        if f['ty'] in self.leafs:
                            for g in l['variants'][0]['fields']:
                                o = ts[g['ty']]
                                if o['k'] == 'adt' and o['path'] == 'core::option::Option' and 'BitVec' in ts[o['args'][0]]['s']:
                                    self.code[f['ty']] = g['name']
                                if o['s'] == 'usize':
                                    self.weight[f['ty']] = g['name']
            us = [f['name'] for f in fs if ts[f['ty']]['s'] == 'usize']
            tb = [n for n in (self.table(f['ty']) for f in fs) if n]
            if len(us) == 1 and len(tb) == 1 and len(fs) == 2:
                self.idx[i] = (us[0], tb[0])
        for i, t in enumerate(ts):
            if t['k'] == 'adt' and not t.get('enum') and t.get('variants') and t['path'].startswith('huff_coding::'):
                fs = t['variants'][0]['fields']
                rt = [f['name'] for f in fs if f['ty'] in self.br]
                if len(rt) == 1 and len([f for f in fs if not self.zst(f['ty'])]) == 1 and not self.in_heap(t):
                    self.tree[i] = rt[0]

    def zst(self, i):
        return 'PhantomData' in self.p.types[i]['s']

    def in_heap(self, t):
        return 'eap' in t['path']

    def table(self, i):
        """length of the array in the struct a field holds or refers to"""
        ts = self.p.types
        t = ts[i]
        if t['k'] == 'ref':
            t = ts[t['elem']]
        if t['k'] == 'adt' and not t.get('enum') and t.get('variants') and t['path'].startswith('huff_coding::'):
            for f in t['variants'][0]['fields']:
                a = ts[f['ty']]
                if a['k'] == 'array' and isinstance(a.get('len'), int) and a['len'] > 1:
                    return a['len']
        return None

    def is_child(self, eng, t):
        """the node of a term is reached through a child link"""
        k = TERMS[t]
        if k[0] == 'box':
            k1 = TERMS[k[1]]
            if k1[0] == 'fld' and k1[2] == 1:
                k2 = TERMS[k1[1]]
                return k2[0] == 'fld' and any(k2[3] in kids for _, kids, _ in self.br.values())
        return t in eng.intree

    def fixvar(self, eng, term, tyid):
        """every branch reached through a child link carries a code"""
        k = TERMS[term]
        if k[0] == 'fld' and k[2] == 0 and k[3] in self.code.values():
            k1 = TERMS[k[1]]
            if k1[0] == 'fld' and k1[2] == 0 and any(k1[3] == b[0] for b in self.br.values()) and self.is_child(eng, k1[1]):
                return 1
        return None

    def is_bytes(self, i):
        t = self.p.types[i]
        return t['k'] == 'adt' and t['path'] == 'alloc::vec::Vec' and self.p.types[t['args'][0]]['s'] == 'u8'

    def opt_box(self, i):
        ts = self.p.types
        t = ts[i]
        if t['k'] == 'adt' and t['path'] == 'core::option::Option':
            b = ts[t['args'][0]]
            if b['k'] == 'adt' and b['path'] == 'alloc::boxed::Box':
                x = ts[b['args'][0]]
                if x['k'] == 'adt':
                    return x['path']
        return None

    def classinv(self, eng, term, tyid, variant, fieldname, t):
        x = self.idx.get(tyid)
        if x and fieldname == x[0]:
            bound(t, 0, x[1])
        c = self.cd.get(tyid)
        if c:
            if fieldname == c[0]:
                bound(T('len', t), 1, MAXLEN)
            elif fieldname == c[1]:
                bound(t, 0, 7)

    def links(self, eng, term, tyid):
        k = TERMS[term]
        if k[0] != 'fld' or k[2] != 0:
            return None
        ow, nm = k[1], k[3]
        # a child of a branch
        ob = self.opt_box(tyid)
        if ob is not None:
            for i, (lf, kids, lt) in self.br.items():
                if nm in kids and self.p.types[i]['path'] == ob:
                    return (T('fld', ow, 0, kids[0]), {0: 0, 1: 1})
            return None
        # the letter of a branch's leaf
        k2 = TERMS[ow]
        if k2[0] == 'fld' and k2[2] == 0:
            for i, (lf, kids, lt) in self.br.items():
                if nm == lt and k2[3] == lf:
                    return (T('fld', k2[1], 0, kids[0]), {0: 1, 1: 0})
        return None
