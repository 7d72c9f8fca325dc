"""The command line program: one whole-program analysis from main() with monitors.

Every abstract path from main() to its end carries a small record of what happened to the
source and the destination (State.mon); the rules below look at it at each file operation and
at the end of main().  Events:  ('V', prop, key, message, where)  a violation
                                ('U', prop, message, where)       not decided"""
import re
import eng as engine
import models
from eng import *
from inv import Inv

STICKY = {'main': ('present', 'hasext'),
          'block': ('streq',)}
UNITS = {'': 1, 'k': 10 ** 3, 'm': 10 ** 6, 'g': 10 ** 9, 'ki': 2 ** 10, 'mi': 2 ** 20, 'gi': 2 ** 30}
SRC, DST, BLOCK = 'SRC_FILE', 'DST_FILE', 'block-size'
_memo = {}


def within(x, pred):
    """some subterm of term x satisfies pred(term tuple)"""
    if isinstance(x, Lin):
        return any(within(s, pred) for s in x.syms())
    if isinstance(x, int):
        if x >= len(TERMS):
            return False
        if pred(TERMS[x]):
            return True
        k = TERMS[x]
        return any(within(y, pred) for y in k[1:] if isinstance(y, (Lin, tuple)) or (isinstance(y, int) and not isinstance(y, bool) and k[0] not in ('fresh',)))
    if isinstance(x, tuple):
        return any(within(y, pred) for y in x if isinstance(y, (Lin, tuple)) or (isinstance(y, int) and not isinstance(y, bool) and len(x) and isinstance(x[0], str) and x[0] in ('s',) and y is x[1]))
    return False


def is_answer(x):
    k = ('ans', x)
    r = _memo.get(k)
    if r is None:
        r = within(x, lambda t: t[0] == 'answer')
        _memo[k] = r
    return r


def argname(t):
    k = TERMS[t]
    return k[1] if k[0] == 'argval' else None


def origin(p):
    """names of the arguments a path is made from"""
    out = set()
    if not isinstance(p, int):
        return out
    k = TERMS[p]
    if k[0] == 'argval':
        out.add(k[1])
    else:
        for y in k[1:]:
            if isinstance(y, int) and not isinstance(y, bool) and k[0] in ('alt', 'pjoin', 'setfn', 'wext', 'wextv', 'cat', 'ext', 'fname', 'stem', 'parent', 'canon', 'cow', 'seq', 's', 'obj', 'str'):
                out |= origin(y)
    return out


def alts(p):
    k = TERMS[p]
    return k[1:] if k[0] == 'alt' else (p,)


def plain_src(p):
    """the path is exactly the source argument (or its canonical form)"""
    k = TERMS[p]
    if k[0] == 'alt':
        return any(plain_src(x) for x in k[1:])
    if k[0] == 'canon':
        return plain_src(k[1])
    if k[0] == 'pjoin' and TERMS[k[1]] in (('pathlit', '.'), ('pathlit', './')):
        return plain_src(k[2])
    return k[0] == 'argval' and k[1] == SRC


def name_form(t):
    """how an output name is made: 'base' (the destination given, or the source's file name in its directory), 'added', 'stripped', None"""
    k = TERMS[t]
    if k == ('argval', DST):
        return 'base'
    if k[0] == 'pjoin' and isinstance(k[2], int) and TERMS[k[2]] == ('fname', T('argval', SRC)) and SRC not in origin(k[1]):
        return 'base'
    if k[0] == 'alt':
        fs = {name_form(x) for x in k[1:]}
        return fs.pop() if len(fs) == 1 else None
    if k[0] == 'cat':
        return 'added' if name_form(k[1]) else None
    if k[0] == 'wext':
        return 'stripped' if name_form(k[1]) == 'base' and k[2] == '' else None
    return None


class Cli:
    def __init__(self, prog, names, mode):
        self.p = prog
        self.names = names
        self.mode = mode
        self.libcalls = {}
        self.writes = set()
        self.seen = {'present': set(), 'value': set(), 'effects': {}, 'lib': set(), 'creates': set(), 'removes': set()}
        self._opq = {}
        self.st = None
        self.decomp = T('present', 'decompress')
        self.noask = T('present', 'noask')
        self.replace = T('present', 'replace')

    # ---- library calls
    def opaque_call(self, key):
        r = self._opq.get(key)
        if r is None:
            self.p.recursive()
            seen, st, r = set(), [key], False
            while st and not r:
                k = st.pop()
                if k in seen:
                    continue
                seen.add(k)
                b = self.p.bodies.get(k)
                if b is None:
                    continue
                if k in self.p.recursive() or (b.get('krate') == 'huff_coding' and self.p.cfg(k, b).loops):
                    r = True
                st += [x for x in self.p.callees(b)]
            self._opq[key] = r
        return r

    def pre_call(self, e, st, name, c, args, dty, site):
        j = c.j
        if (j.get('rkrate') or j.get('krate')) != 'huff_coding':
            return None
        w = e.wsite(site)
        self.st = st
        self.seen['lib'].add(name)
        key = j.get('default') or j.get('body')
        self.lib_mode(e, st, j, name, w, site)
        if key in self.p.bodies and not self.opaque_call(key):
            return None
        st = st.copy()
        for a in args:
            e.havoc_args(st, a)
        ats = tuple(e.term(e.deep(st, a)) if not (a[0] == 'r' and a[2]) else fresh('m') for a in args)
        return [(st, e.opaque(T('hc', j.get('name') or name, *ats), dty))]

    def lib_mode(self, e, st, j, name, w, site):
        d = st.preds.get(self.decomp)
        n = j.get('name') or ''
        if d is True and (n.startswith('compress') or n in ('from_weights', 'build_from_weights')):
            self.v(e, 'C08', f'{n} in decompress mode', f'{n} is called although the decompress flag is given', site)
        if d is False and (n.startswith('decompress') or n.startswith('try_from_b')):
            self.v(e, 'C08', f'{n} in compress mode', f'{n} is called although the decompress flag is not given', site)

    # ---- reporting (pass-scoped)
    def v(self, e, prop, key, msg, site):
        if (prop == 'C09') != (self.mode == 'block'):
            return
        if self.st is not None and self.st.mon.get('unk'):
            self.u(e, prop, f'{msg} (after a call to {self.st.mon["unk"]}, which is not modelled)', site)
            return
        w = e.wsite(site) if site is not None else ('main', '')
        e.report('V', site, (prop, key, msg, w), ('V', prop, key, w[0]))

    def u(self, e, prop, msg, site):
        if (prop == 'C09') != (self.mode == 'block'):
            return
        w = e.wsite(site) if site is not None else ('main', '')
        e.report('U', site, (prop, msg, w), ('U', prop, msg, w[0]))

    def n(self, e, what, info, site):
        w = e.wsite(site)
        e.report('N', site, (what, info, w), ('N', what, info, w[0], w[1]))

    # ---- monitor helpers
    @staticmethod
    def add(st, k, x):
        if k in ('distinct', 'ansch') and 'created' in st.mon:
            return
        st.mon[k] = st.mon.get(k, frozenset()) | {x}

    @staticmethod
    def sub(st, k, x):
        r = frozenset(y for y in st.mon.get(k, frozenset()) if y != x)
        if r:
            st.mon[k] = r
        else:
            st.mon.pop(k, None)

    def failed(self, e, st, kind, site):
        if self.mode == 'block':
            st.mon['fail'] = ('any', '', '')
        elif 'fail' not in st.mon:
            st.mon['fail'] = (kind,) + e.wsite(site)

    def answer(self, st):
        """('yes'|'no'|'other'|'none'|'?', detail)"""
        pos, negs, odd = [], 0, 0
        for k, v in st.preds.items():
            if isinstance(k, int) and TERMS[k][0] in ('streq', 'starts_with', 'ends_with', 'contains', 'eq_ignore_ascii_case') and is_answer(k):
                t = TERMS[k]
                h = t[0]
                ts = [a for a in t[1:] if isinstance(a, str) and a != h]
                lit = ts[-1] if ts else None
                if v is not True:
                    negs += 1
                elif lit is None:
                    odd += 1
                else:
                    pos.append((h, lit))
            elif isinstance(k, int) and is_answer(k):
                odd += 1
        for op, c in st.mon.get('ansch', ()):
            if op == 'eq':
                pos.append(('first char', chr(c) if 0 <= c < 0x110000 else '?'))
            else:
                negs += 1
        for k, lit in st.mon.get('anseq', ()):
            pos.append((k, lit))
        for h, lit in pos:
            if lit[:1] in ('y', 'Y') and h in ('streq', 'starts_with', 'eq_ignore_ascii_case', 'first char'):
                return ('yes', lit)
        if pos:
            return ('other', f'{pos[0][0]} {pos[0][1]!r}')
        if odd:
            return ('?', '')
        return ('no', '') if negs else ('none', '')

    def on_branch(self, e, s, cond, site, before):
        if self.mode == 'block':
            return
        self.fold(s)
        for f in s.ne - before.ne:
            self.fact(s, f, 'ne')
        for f in s.eq - before.eq:
            self.fact(s, f, 'eq')

    def fold(self, s):
        """once overwriting p is in order, forget why"""
        if 'consent' in s.mon or 'created' in s.mon:
            return
        p = None
        for k, v in s.preds.items():
            if isinstance(k, int) and TERMS[k][0] == 'exists' and not plain_src(TERMS[k][1]):
                if v is False:
                    p = TERMS[k][1]
                    break
                if s.preds.get(self.noask) is True or (s.mon.get('asked') and self.answer(s)[0] == 'yes'):
                    p = TERMS[k][1]
        if p is None:
            return
        s.mon['consent'] = p
        s.mon.pop('asked', None)
        s.mon.pop('ansch', None)
        s.preds.pop(self.noask, None)
        s.mem.pop(('M', 'answers'), None)
        for k in [k for k in s.preds if isinstance(k, int) and is_answer(k)]:
            del s.preds[k]

    def fact(self, s, f, op):
        if len(f.m) == 2:
            a, b = (TERMS[x] for x, _ in f.m)
            if a[0] in ('dev', 'ino') and a[0] == b[0] and op == 'ne' and f.c == 0:
                fa, fb = (self.meta_path(x) for x, _ in f.m)
                if fa is not None and fb is not None:
                    self.add(s, 'distinct', tuple(sorted((fa, fb))))
        if len(f.m) == 1 and abs(f.m[0][1]) == 1:
            t = f.m[0][0]
            if is_answer(t) and TERMS[t][0] in ('char', 'elem', 'el', 'byte'):
                c = -f.c * f.m[0][1]
                self.add(s, 'ansch', (op, c))
            k = TERMS[t]
            if k[0] == 'discr' and TERMS[k[1]][0] == 'ekind' and op == 'eq':
                s.mon['ekind'] = -f.c * f.m[0][1]

    @staticmethod
    def meta_path(t):
        k = TERMS[TERMS[t][1]]
        if k[0] == 'meta' and TERMS[k[1]][0] == 'fh':
            return TERMS[k[1]][1]
        return None

    # ---- effects
    def on_unknown(self, e, st, name, c, args, site):
        if not name.startswith('core::fmt') and not name.startswith('alloc::fmt'):
            st.mon.setdefault('unk', name)

    def on_effect(self, e, st, kind, info, site):
        self.st = st
        f = getattr(self, 'ef_' + kind.replace('.', '_'), None)
        if f:
            f(e, st, info, site)
        elif kind in ('rename', 'copy', 'hard_link', 'symlink', 'soft_link', 'create_dir', 'create_dir_all', 'set_permissions'):
            self.v(e, 'C07', kind, f'performs fs::{kind}', site)
            if not info[-1]:
                self.failed(e, st, kind, site)
        elif kind.startswith('before_'):
            pass
        elif kind in ('flush', 'sync'):
            pass

    def block_source(self, e, st, site, early=False):
        """at the first file operation: what has become of the block size argument"""
        if self.mode != 'block' or 'blk' in st.mon:
            return
        vals = set()
        for r, v in st.mem.items():
            self._ints(v, vals)
        ps = {s for l in vals for s in l.syms() if TERMS[s][0] == 'parse'}
        unit, others = None, 0
        drop = []
        for k, v in st.preds.items():
            if isinstance(k, int) and TERMS[k][0] in ('streq', 'eq_ignore_ascii_case') and self.unit_text(k):
                drop.append(k)
                if v:
                    unit = [a for a in TERMS[k][1:] if isinstance(a, str)][-1]
                else:
                    others += 1
            elif isinstance(k, tuple) and k[0] == 'str' and self.unit_text(k[1]):
                drop.append(k)
                unit = v
        if early:
            # with everything in order there is no need to keep the units apart any longer
            l = S(min(ps)) if len(ps) == 1 else None
            m = UNITS.get(unit)
            if l is None or m is None or not any(st.holds_eq(x - l.scale(m)) for x in vals) \
                    or not st.holds_le(K(1) - l) or not st.holds_le(l.scale(m) - ((1 << 64) - 1)) \
                    or any(x.syms() and min(ps) in x.syms() and not st.holds_eq(x - l.scale(m)) and not st.holds_eq(x - l) for x in vals):
                return
        st.mon['blk'] = True
        if len(ps) != 1:
            self.u(e, 'C09', 'the block size argument is not parsed in a recognised way', site)
            st.mon['blk'] = False
            return
        p, = ps
        l = S(p)
        vals = {x for x in vals if p in x.syms()}
        m = UNITS.get(unit)
        if unit is None:
            if others:
                self.v(e, 'C09', 'unknown unit', 'a block size with an unknown unit is accepted', site)
            else:
                self.u(e, 'C09', 'units are not compared with literals', site)
            m = None
        elif m is None:
            self.v(e, 'C09', f'unit {unit}', f'accepts the undocumented unit {unit!r}', site)
        if not st.holds_le(K(1) - l):
            self.v(e, 'C09', 'zero', 'a block size of zero is accepted', site)
        if m is not None:
            self.n(e, 'unit', unit, site)
            if not st.holds_le(l.scale(m) - ((1 << 64) - 1)):
                self.v(e, 'C09', f'overflow {unit}', f'a block size (unit {unit!r}) that does not fit in a usize is not rejected', site)
            eqs = [x for x in vals if st.holds_eq(x - l.scale(m))]
            odd = [x for x in vals if x not in eqs and not st.holds_eq(x - l)]
            if odd:
                if len(odd[0].m) == 1:
                    self.v(e, 'C09', f'factor {unit}', f'with unit {unit!r} the number given is multiplied by {odd[0].m[0][1]}, not by {m}', site)
                else:
                    self.u(e, 'C09', f'a block size of {odd[0]}', site)
            elif not eqs:
                if any(x == l for x in vals):
                    self.v(e, 'C09', f'factor {unit}', f'with unit {unit!r} the number given is used unscaled', site)
            # from here on only the block size itself matters
            blk = T('blk')
            bound(blk, 1, (1 << 64) - 1)
            sub = {x: S(blk) for x in eqs + odd}
            for r in list(st.mem):
                st.mem[r] = self._replace(st.mem[r], sub)
        for k in drop:
            del st.preds[k]
        for a in ('le', 'eq', 'ne'):
            setattr(st, a, frozenset(f for f in getattr(st, a) if p not in f.syms()))

    @staticmethod
    def unit_text(k):
        return not within(k, lambda t: t[0] in ('ext', 'answer', 'fname', 'stem') or (t[0] == 'argval' and t[1] != BLOCK))

    def _isyms(self, v):
        out = set()
        self._ints(v, out)
        return {s for l in out for s in l.syms()}

    def _ints(self, v, out):
        if isinstance(v, tuple) and v:
            if v[0] == 'i' and isinstance(v[1], Lin):
                out.add(v[1])
            elif v[0] != 'r':
                for x in v[1:]:
                    if isinstance(x, tuple):
                        self._ints(x, out)

    def _replace(self, v, sub):
        if isinstance(v, tuple) and v:
            if v[0] == 'i' and isinstance(v[1], Lin):
                return ('i', sub[v[1]], v[2]) if v[1] in sub else v
            if v[0] == 'r':
                return v
            return tuple(self._replace(x, sub) if isinstance(x, tuple) else x for x in v)
        return v

    def ef_cli_present(self, e, st, info, site):
        n = info[0]
        self.block_source(e, st, site, True)
        self.n(e, 'present', n, site)
        if n is None:
            self.u(e, 'C08', 'name of a consulted option is not constant', site)
        elif n not in self.names:
            self.v(e, 'C08', f'undeclared {n}', f'consults option {n!r}, which the argument description does not declare', site)

    def ef_cli_value(self, e, st, info, site):
        n = info[0]
        self.n(e, 'value', n, site)
        if n is None:
            self.u(e, 'C08', 'name of a consulted option is not constant', site)
        elif n not in self.names:
            self.v(e, 'C08', f'undeclared {n}', f'consults option {n!r}, which the argument description does not declare', site)

    def ef_open(self, e, st, info, site):
        p, mode, fh, ok = info
        self.block_source(e, st, site)
        if mode == 'r':
            self.n(e, 'open', origin_name(p), site)
            if not plain_src(p):
                self.v(e, 'C07', f'open {origin_name(p)}', f'opens {origin_name(p)} for reading', site)
            if ok:
                st.mon['src'] = fh
            else:
                self.failed(e, st, 'open', site)
            return
        if ok:
            self.add(st, 'created', fh)
            # what was asked has been checked; forget how the path got here
            for k in [k for k in st.preds if isinstance(k, int) and TERMS[k][0] in ('exists', 'is_dir', 'is_file', 'patheq', 'starts_with', 'streq', 'eq_ignore_ascii_case', 'contains', 'hasext')]:
                if TERMS[k][0] != 'streq' or self.mode == 'main':
                    del st.preds[k]
            for k in ('distinct', 'ansch', 'anseq', 'asked', 'consent'):
                st.mon.pop(k, None)
        else:
            self.failed(e, st, 'create', site)

    def ef_before_create(self, e, st, info, site):
        p, mode, fh = info
        pn = origin_name(p)
        self.n(e, 'create', pn, site)
        og = origin(p)
        src = T('argval', SRC)
        # C07: only the destination
        if plain_src(p):
            self.v(e, 'C05', 'create src', 'opens the source file for writing', site)
        elif DST not in og:
            self.v(e, 'C07', f'create {pn}', f'creates {pn}, which is not the destination', site)
        else:
            for x in alts(p):
                k = TERMS[x]
                if k[0] == 'wext' and k[2] not in ('', 'hff') or k[0] == 'cat' and not all(y in ('.hff', 'hff', 'dot') for y in k[2:] if isinstance(y, str)):
                    self.v(e, 'C07', f'create {pn}', f'creates {pn}, which is not the destination', site)
            q = st.mon.get('createdp')
            if q is not None and q != p:
                self.v(e, 'C07', 'second output', f'creates {pn} in addition to {origin_name(q)}', site)
            st.mon['createdp'] = p
        if mode in ('append', 'update'):
            self.v(e, 'C01', 'stale content', 'opens the destination without truncating it, so bytes of a replaced file can remain', site)
        # C05: known to be another file
        s = self.same_guard(st, p, src)
        if not s and mode != 'create_new':
            self.v(e, 'C05', 'same file', f'creates {pn} although nothing on the path shows that it is not the source file itself', site)
        # C04
        if mode != 'create_new':
            self.consent(e, st, p, pn, site)
        # C06: the source was accepted
        if 'src' not in st.mon:
            self.v(e, 'C06', 'src not open', 'creates the destination before the source file has been opened', site)
        # C10
        d = st.preds.get(self.decomp)
        ex = T('ext', src)
        if d is True:
            v = self.ext_fact(st, ex)
            if v is None:
                self.v(e, 'C10', 'decompress any', 'decompresses without checking that the source has the .hff extension', site)
            elif v is False:
                self.v(e, 'C10', 'decompress other', 'decompresses a source whose extension is not .hff', site)
        if d is True:
            for x in alts(p):
                f = name_form(x)
                if f == 'added':
                    self.v(e, 'C10', 'decompress name', f'the decompressed output is named {origin_name(x)}, with an extension added to the destination', site)
                elif f not in ('base', 'stripped'):
                    self.u(e, 'C10', f'form of the output name {pn}', site)
        if d is False:
            ks = [TERMS[x] for x in alts(p)]
            if not all(k[0] == 'cat' and k[2:] in (('.hff',), ('hff', 'dot')) for k in ks):
                if any(k[0] == 'wextv' for k in ks):
                    self.u(e, 'C10', f'form of the output name {pn}', site)
                else:
                    self.v(e, 'C10', 'name', f'the compressed output is named {pn}, not <destination>.hff', site)
            elif any(name_form(k[1]) != 'base' for k in ks):
                self.u(e, 'C10', f'base of the output name {pn}', site)

    def ext_fact(self, st, ex):
        """is the source's extension known to be / not to be hff"""
        if st.preds.get(('str', ex)) == 'hff' or st.preds.get(T('streq', ex, 'hff')) is True:
            return True
        for k, v in st.preds.items():
            if isinstance(k, tuple) and k[0] == 'str' and within(k[1], lambda t: t == TERMS[ex]):
                return v == 'hff'
        for k, v in st.preds.items():
            if isinstance(k, int) and TERMS[k][0] == 'streq' and within(k, lambda t: t == TERMS[ex]):
                if v is True:
                    return TERMS[k][-1] == 'hff'
        return None

    def same_guard(self, st, p, src):
        d = st.mon.get('distinct', frozenset())
        if tuple(sorted((p, src))) in d or 'gone' in d:
            return True
        for k, v in st.preds.items():
            if not isinstance(k, int):
                continue
            t = TERMS[k]
            if t[0] == 'patheq' and v is False and {t[1], t[2]} == {T('canon', p), T('canon', src)}:
                return True
            if t[0] == 'exists' and t[1] == p and v is False:
                return True
        if TERMS[p][0] == 'alt':
            return all(self.same_guard(st, q, src) for q in TERMS[p][1:])
        return False

    def consent(self, e, st, p, pn, site):
        if self.exists_fact(st, p) is False or st.mon.get('consent') == p:
            return
        if st.preds.get(self.noask) is True:
            return
        if not st.mon.get('asked'):
            self.v(e, 'C04', 'no question', f'may overwrite {pn} without asking', site)
            return
        a, det = self.answer(st)
        if a == 'yes':
            return
        if a == '?':
            self.u(e, 'C04', 'the test on the answer is not of a recognised form', site)
        elif a == 'other':
            self.v(e, 'C04', f'answer {det}', f'overwrites {pn} after an answer that does not start with y or Y ({det})', site)
        else:
            self.v(e, 'C04', 'any answer', f'overwrites {pn} whatever the answer is', site)

    def exists_fact(self, st, p):
        for k, v in st.preds.items():
            if isinstance(k, int) and TERMS[k][0] == 'exists' and TERMS[k][1] == p:
                return v
        for k, v in st.preds.items():
            if isinstance(k, int) and TERMS[k][0] == 'is_file' and TERMS[k][1] == p and v:
                return True
        return None

    def ef_metadata(self, e, st, info, site):
        self.block_source(e, st, site, True)
        p, how, ok = info
        if how == 'file':
            if not ok:
                self.failed(e, st, 'metadata', site)
            return
        self.gone(e, st, p, ok)

    def gone(self, e, st, p, ok):
        self.fold(st)
        if not ok:
            src = T('argval', SRC)
            self.add(st, 'distinct', tuple(sorted((p, src))) if not plain_src(p) else 'gone')

    def ef_canonicalize(self, e, st, info, site):
        p, ok = info
        self.gone(e, st, p, ok)

    def ef_read(self, e, st, info, site):
        fh, n, ok, how = info
        self.n(e, 'read', how, site)
        if not ok:
            self.failed(e, st, 'read', site)
            return
        if how == 'exact':
            st.mem[('M', 'last', fh)] = ('i', K(1), 'usize')
        elif how == 'end':
            st.mem[('M', 'last', fh)] = ('i', K(0), 'usize')
        else:
            # the number of bytes read is the distance the position moved
            st.mem[('M', 'last', fh)] = ('i', K(1), 'usize')
            st.mon['partial'] = True
        self.block_read(e, st, n, site)

    def block_read(self, e, st, n, site):
        if not st.mon.get('blk') or n.const() is not None:
            return
        if within(n, lambda t: t[0] == 'fdata'):
            return
        if st.holds_le(n - S(T('blk'))):
            self.n(e, 'blockread', '', site)
            return
        self.u(e, 'C09', 'a read whose length is not bounded by the block size', site)

    def ef_write(self, e, st, info, site):
        fh, v, ok, mode = info
        self.n(e, 'write', mode, site)
        if fh not in st.mon.get('created', ()):
            self.v(e, 'C05', 'write elsewhere', 'writes to a file that was not opened as the destination', site)
        if ok is False:
            self.failed(e, st, 'write', site)
            return
        n = e.seq_len(v)
        sh = st.mem.get(('M', 'short', fh))
        if sh is not None and st.mon.get('short'):
            if st.holds_eq(sh[1] - n):
                st.mon.pop('short')
                st.mem.pop(('M', 'short', fh))
        if ok == 'short':
            st.mon['short'] = e.wsite(site)
            # what is left is  n - (bytes written): the position has not moved yet
            left = fresh('unwritten', 1, MAXLEN)
            st.mem[('M', 'short', fh)] = ('i', S(left), 'usize')
        if mode == 'buf':
            self.add(st, 'dirty', fh)

    def ef_flush(self, e, st, info, site):
        fh, ok = info
        self.n(e, 'flush', 'flush', site)
        if ok:
            self.sub(st, 'dirty', fh)
        else:
            self.failed(e, st, 'flush', site)

    def ef_sync(self, e, st, info, site):
        if not info[1]:
            self.failed(e, st, 'sync', site)

    def ef_seek(self, e, st, info, site):
        fh, new, ok = info
        if not ok:
            self.failed(e, st, 'seek', site)
            return
        if fh in st.mon.get('created', ()):
            self.sub(st, 'dirty', fh)      # BufWriter flushes before it seeks
        else:
            st.mem.pop(('M', 'last', fh), None)

    def ef_tell(self, e, st, info, site):
        if not info[-1]:
            self.failed(e, st, 'stream_position', site)

    def ef_set_len(self, e, st, info, site):
        fh, n, ok = info
        if not ok:
            self.failed(e, st, 'set_len', site)
        if fh not in st.mon.get('created', ()):
            self.v(e, 'C05', 'set_len src', 'changes the length of a file that is not the destination', site)

    def ef_before_remove(self, e, st, info, site):
        p, how = info
        pn = origin_name(p)
        self.n(e, 'remove', pn, site)
        if how != 'remove_file' or not plain_src(p):
            self.v(e, 'C03', f'remove {pn}', f'deletes {pn}', site)
            return
        if st.preds.get(self.replace) is not True:
            self.v(e, 'C03', 'remove unasked', 'deletes the source file although the replace flag is not known to be given', site)
        why = self.incomplete(e, st)
        if why:
            self.v(e, 'C03', 'remove early', f'deletes the source file when {why}', site)

    def ef_remove(self, e, st, info, site):
        p, how, ok = info
        if ok:
            st.mon['removed'] = True
        else:
            self.failed(e, st, 'remove', site)

    def ef_stdin(self, e, st, info, site):
        t, ok = info
        self.n(e, 'stdin', '', site)
        if not ok:
            self.failed(e, st, 'stdin', site)
        st.mon['asked'] = True
        if st.preds.get(self.noask) is not False:
            self.v(e, 'C04', 'asks despite noask', 'asks a question although the noask flag is not known to be absent', site)
        if not any(isinstance(k, int) and TERMS[k][0] == 'exists' and v and not plain_src(TERMS[k][1]) for k, v in st.preds.items()) \
                and not any(isinstance(k, int) and TERMS[k][0] == 'is_file' and v for k, v in st.preds.items()):
            self.v(e, 'C04', 'asks always', 'asks whether to replace a destination that is not known to exist', site)

    def ef_elapsed(self, e, st, info, site):
        self.n(e, 'elapsed', '', site)
        st.mon['elapsed'] = True

    def ef_stdout(self, e, st, info, site):
        if st.mon.get('elapsed'):
            st.mon['timed'] = True

    def ef_print(self, e, st, info, site):
        self.n(e, 'print', info[0], site)
        if st.mon.get('elapsed'):
            st.mon['timed'] = True
            if st.preds.get(T('present', 'time')) is not True:
                self.v(e, 'C08', 'time unasked', 'prints something after taking the time although the time flag is not known to be given', site)

    def ef_exit(self, e, st, info, site):
        code = info[0]
        if code == 0:
            self.at_ok(e, st, site, 'process::exit(0)')
        elif code is not None:
            self.at_err(e, st, None, site)
        else:
            self.u(e, 'C01', 'exit with a computed status', site)

    # ---- ends
    def source_left(self, e, st):
        fh = st.mon.get('src')
        if fh is None:
            return 'the source file was never opened'
        pos = st.mem.get(('M', 'pos', fh))
        last = st.mem.get(('M', 'last', fh))
        if last is not None and last[0] == 'i' and st.holds_eq(last[1]):
            return None
        fl = T('flen', T('meta', fh))
        if pos is not None and st.holds_eq(pos[1] - S(fl)):
            return None
        if pos is not None and st.holds_le(S(fl) - pos[1]):
            return None
        return 'the source file may not have been read to its end'

    def incomplete(self, e, st):
        f = st.mon.get('fail')
        if f:
            return f'the {f[0]} call in {f[1]} failed'
        if not st.mon.get('created'):
            return 'no output has been created'
        if st.mon.get('short'):
            return 'a short write was not completed'
        if st.mon.get('dirty'):
            return 'output may still be in a buffer that has not been flushed'
        return self.source_left(e, st)

    def at_ok(self, e, st, site, how='main returns Ok'):
        self.st = st
        f = st.mon.get('fail')
        if f:
            pr = 'C02' if f[0] == 'read' else 'C01'
            if st.mon.get('ekind') is not None:
                self.u(e, pr, 'an error whose kind was inspected', site)
            else:
                e.report('U' if st.mon.get('unk') else 'V', site, (pr, f'{f[0]} result', (f[1], f[2])) if st.mon.get('unk') else (pr, f'ignored {f[0]}', f'{how} although a {f[0]} call failed', (f[1], f[2])), ('V', pr, f[0], f[1], f[2]))
            return
        if st.mon.get('dirty'):
            self.v(e, 'C01', 'not flushed', f'{how} while buffered output has not been flushed with its result checked', site)
        if st.mon.get('short'):
            w = st.mon['short']
            if not st.mon.get('unk'):
                e.report('V', site, ('C01', 'short write', 'the number of bytes written is not checked: a short write loses data', w), ('V', 'C01', 'short') + w)
        if not st.mon.get('created'):
            a = self.answer(st)
            if not st.mon.get('asked'):
                self.v(e, 'C01', 'no output', f'{how} without having created the destination', site)
            elif a[0] == 'yes':
                self.v(e, 'C04', 'yes ignored', f'the answer {a[1]!r} does not lead to the file being replaced', site)
            elif st.mon.get('removed'):
                self.v(e, 'C03', 'removed without output', 'the source is deleted although nothing was written', site)
            return
        why = self.source_left(e, st)
        if why:
            self.v(e, 'C02', 'source left', f'{how} although {why}', site)
        r = st.preds.get(self.replace)
        if r is True and not st.mon.get('removed'):
            self.v(e, 'C03', 'not removed', f'{how} with the replace flag given, but the source file is not deleted', site)
        if st.preds.get(T('present', 'time')) is not False and not st.mon.get('timed'):
            self.v(e, 'C08', 'time ignored', f'{how} without having printed the time taken, with the time flag not known to be absent', site)
        self.n(e, 'ok', repr((st.preds.get(self.decomp), r, st.preds.get(self.noask))), site)

    def at_err(self, e, st, kind, site):
        self.st = st
        if st.mon.get('created') and not st.mon.get('fail') and kind != 'Io':
            self.v(e, 'C06', 'rejected late', f'reports an error of kind {kind or "?"} for its input after the destination has already been created', site)
        self.n(e, 'err', kind or '', site)

    def on_panic(self, e, st, desc, w, definite):
        if st is not None and st.mon.get('unk'):
            e.report('U', None, ('C12', f'{desc} (after a call to {st.mon["unk"]}, which is not modelled)', w), ('U', 'C12', desc) + w)
            return
        e.report('V', None, ('C12', desc, f'{desc}: the program can panic here', w), ('V', 'C12', desc) + w)


def origin_name(p, d=4):
    if not isinstance(p, int):
        return str(p)
    k = TERMS[p]
    if k[0] == 'argval':
        return f'<{k[1]}>'
    if k[0] == 'pathlit':
        return repr(k[1])
    if k[0] == 'alt':
        return ' or '.join(origin_name(x, d - 1) for x in k[1:])
    if d and k[0] == 'pjoin':
        return f'{origin_name(k[1], d - 1)}/{origin_name(k[2], d - 1)}'
    if d and k[0] == 'cat':
        return f'{origin_name(k[1], d - 1)}+{k[2]!r}'
    if d and k[0] == 'setfn':
        return f'{origin_name(k[1], d - 1)} with file name {origin_name(k[2], d - 1)}'
    if d and k[0] in ('wext', 'wextv'):
        return f'{origin_name(k[1], d - 1)} with extension {k[2] if isinstance(k[2], str) else origin_name(k[2], d - 1)}'
    if d and k[0] in ('fname', 'ext', 'stem', 'parent', 'canon'):
        return f'{k[0]}({origin_name(k[1], d - 1)})'
    return k[0]


def yaml_args(dump):
    """declared arguments {name: spec} from the argument description compiled into the program"""
    import yaml
    found = []
    for b in dump['bodies'].values():
        if b.get('krate') != 'huff':
            continue
        for s in strings(b['blocks']):
            if 'args:' in s:
                try:
                    y = yaml.safe_load(s)
                except Exception:
                    continue
                if isinstance(y, dict) and isinstance(y.get('args'), list):
                    found.append(y)
    if len(found) != 1:
        raise Bad(f'{len(found)} argument descriptions')
    out = {}
    for a in found[0]['args']:
        for k, v in a.items():
            out[k] = v or {}
    return out


def strings(x):
    if isinstance(x, dict):
        s = x.get('str')
        if isinstance(s, str):
            yield s
        for v in x.values():
            yield from strings(v)
    elif isinstance(x, list):
        for v in x:
            yield from strings(v)


def run(dump, mode='main', limit=2000000, deadline=None):
    """analyse the program; returns a result dict"""
    names = yaml_args(dump)
    always = {n for n, v in names.items() if v.get('required') or 'default_value' in v}
    models.ARGS['always'] = always
    p = engine.Prog(dump)
    inv = Inv(p)
    h = Cli(p, names, mode)
    E = engine.Engine(p, models.M, [h], {'unroll': False, 'merge_min': 1, 'cap_merge': 1, 'textshape': True, 'limit': limit, 'deadline': deadline, 'sticky': STICKY[mode], 'classinv': inv.classinv, 'links': inv.links, 'nodetypes': set(inv.br)})
    keys = [k for k, b in p.bodies.items() if b['path'] == 'huff::main' and b['krate'] == 'huff']
    if len(keys) != 1:
        raise Bad('no main')
    res = E.analyse(keys[0])
    nok = nerr = 0
    for st, r in res:
        E.frame = None
        if r[0] == 't':
            h.at_ok(E, st, None)
            nok += 1
            continue
        for s, v in E.split(st, r):
            nm = E.ty(v[1])['variants'][v[2]]['name']
            if nm == 'Ok':
                h.at_ok(E, s, None)
                nok += 1
            else:
                nerr += 1
                kind = None
                x = v[3][0]
                if x[0] == 'x':
                    x = x[1]
                if x[0] == 's':
                    x = E.expand(x, 0) or x
                if x[0] == 'a':
                    for y in x[3]:
                        if y[0] in ('a', 's') and y[-1 if y[0] == 's' else 1] is not None:
                            ty = E.ty(y[2] if y[0] == 's' else y[1])
                            if ty['k'] == 'adt' and ty.get('enum') and ty['path'].startswith('huff::'):
                                vi = E.variant(s, y)
                                kind = ty['variants'][vi]['name'] if vi is not None else None
                h.at_err(E, s, kind, None)
    if mode == 'block':
        got = {d[1] for k, _, d, _ in E.cur if k == 'N' and d[0] == 'unit'}
        und = any(k == 'U' for k, *_ in E.cur)
        for x in sorted(set(UNITS) - got):
            if not und:
                h.st = None
                E.frame = None
                h.v(E, 'C09', f'no unit {x}', f'block sizes with the documented unit {x!r} are not accepted', None)
    return {'events': E.cur, 'stats': E.stats, 'ok': nok, 'err': nerr, 'names': names, 'seen': h.seen, 'engine': E}
