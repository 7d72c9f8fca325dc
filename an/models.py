"""Models of the library functions whose bodies are not interpreted.

A model gets (eng, st, callee, args, dty, site) and returns [(state, value)]; st is private.
`None` means: treat the call as unknown."""
import re
from lin import *
from eng import *

MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


# ------------------------------------------------------------------ names
def _bal(s, i):
    """index just after the bracket group starting at s[i] == '<'"""
    d = 0
    while i < len(s):
        c = s[i]
        if c in '<([{':
            d += 1
        elif c in ')]}' or (c == '>' and s[i - 1] not in '-='):
            d -= 1
            if d == 0:
                return i + 1
        i += 1
    return i


def _split_top(s, sep):
    d = 0
    i = 0
    while i < len(s):
        c = s[i]
        if c in '<([{':
            d += 1
        elif c in ')]}' or (c == '>' and s[i - 1] not in '-='):
            d -= 1
        elif d == 0 and s.startswith(sep, i):
            return s[:i], s[i + len(sep):]
        i += 1
    return None


def _strip(s):
    """remove generic argument groups"""
    out = ''
    i = 0
    while i < len(s):
        if s[i] == '<':
            i = _bal(s, i)
            continue
        out += s[i]
        i += 1
    return out.replace('::::', '::')


def short(ty):
    ty = ty.strip()
    while True:
        m = re.match(r"^(&(mut )?|'\w+ |mut )", ty)
        if not m:
            break
        ty = ty[m.end():]
    if ty.startswith('['):
        return '[T;N]' if _split_top(ty[1:-1], ';') else '[T]'
    if ty.startswith('('):
        return '()' if ty == '()' else '(..)'
    return _strip(ty).split('::')[-1]


_norm = {}


def norm(name):
    r = _norm.get(name)
    if r is None:
        r = _norm[name] = _normalise(name)
    return r


def _normalise(name):
    if name.startswith('<'):
        e = _bal(name, 0)
        inside, rest = name[1:e - 1], name[e:]
        p = _split_top(inside, ' as ')
        meth = _strip(rest).split('::')[-1]
        if p:
            return f'{short(p[0])}.{short(p[1])}.{meth}'
        return f'{short(inside)}.{meth}'
    i = name.find('<impl ')
    if i >= 0:
        e = _bal(name, i)
        body, rest = name[i + 6:e - 1], name[e:]
        meth = _strip(rest).split('::')[-1]
        if body.startswith('<'):
            pass
        p = _split_top(body, ' for ')
        if p:
            return f'{short(p[1])}.{short(p[0])}.{meth}'
        return f'{short(body)}.{meth}'
    parts = [x for x in _strip(name).split('::') if x]
    return '.'.join(parts[-2:])


INTS = {'u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize'}


def lookup(eng, j, name):
    if (j.get('rkrate') or j.get('krate')) in ('huff', 'huff_coding'):
        t = j.get('trait')
        if t and not j.get('body') and not j.get('ctor'):
            # a trait of the library called on an unknown implementation
            return MODELS.get('ws.' + t.split('::')[-1].split('<')[0] + '.' + j['name'])
        return None
    n = norm(name)
    m = MODELS.get(n)
    if m is None:
        a, _, b = n.partition('.')
        if a in INTS:
            m = MODELS.get('int.' + b)
        if m is None and '.' in b:
            # any type, this trait method
            m = MODELS.get('*.' + b)
        if m is None and not j.get('body') and not j.get('default'):
            m = MODELS.get('?.' + n.split('.', 1)[1]) if '.' in n else None
    return m


# ------------------------------------------------------------------ helpers
def some(dty, v):
    return ('a', dty, 1, (v,))


def none(dty):
    return ('a', dty, 0, ())


def ok(dty, v):
    return ('a', dty, 0, (v,))


def err(dty, v):
    return ('a', dty, 1, (v,))


def arg0(eng, dty, i=0):
    t = eng.ty(dty)
    a = t.get('args') or []
    return a[i] if i < len(a) else None


def usz(l):
    return ('i', l, 'usize')


def split_cond(st, c):
    return st.assume(c), st.assume(neg(c))


def own(states, st):
    return [s.copy() if s is st else s for s in states]


def check(eng, st, c, kind, desc, site):
    """the call panics unless c holds"""
    h = st.holds(c)
    eng.obligation(kind, site, h is True)
    if h is not True:
        eng.panic(st, desc, site, definite=(h is False))
    return own(st.assume(c), st)


def target(eng, st, r):
    """the innermost reference of a chain of references"""
    n = 0
    while r[0] == 'r' and n < 8:
        v = eng.read(st, r[1])
        if v[0] != 'r':
            return r
        r = v
        n += 1
    return r


def contents(eng, st, v):
    return eng.deep(st, v)


def slen(eng, st, v):
    return eng.seq_len(contents(eng, st, v))


def sub_ref(eng, st, r, off, n):
    r = target(eng, st, r)
    loc = r[1]
    cur = eng.read(st, loc)
    if off == K(0) and cur[0] == 'seq' and eng.seq_len(cur) == n:
        return r
    if loc[1] and loc[1][-1][0] == 'ss':
        o, _ = loc[1][-1][1:]
        return ('r', (loc[0], loc[1][:-1] + (('ss', o + off, n),)), r[2], r[3])
    return ('r', (loc[0], loc[1] + (('ss', off, n),)), r[2], r[3])


def elem_ref(eng, st, r, i, ety=None):
    r = target(eng, st, r)
    loc = r[1]
    if loc[1] and loc[1][-1][0] == 'ss':
        o = loc[1][-1][1]
        return ('r', (loc[0], loc[1][:-1] + (('i', o + i),)), r[2], ety)
    return ('r', (loc[0], loc[1] + (('i', i),)), r[2], ety)


def fresh_ref(eng, st, term, v, mut=False, ety=None):
    root = ('O', term)
    st.mem[root] = v
    if ety is not None:
        eng.oty.setdefault(term, ety)
    return ('r', (root, ()), mut, ety)


def seqterm(eng, term, ety):
    return ('seq', (('s', term, K(0), eng.lenof(term)),), ety)


def as_str(eng, st, v):
    """python string of a constant text value, or None"""
    v = contents(eng, st, v)
    if v[0] == 'seq':
        if not v[1]:
            return ''
        if all(p[0] == 'k' for p in v[1]):
            return ''.join(p[1] if isinstance(p[1], str) else p[1].decode('latin1') for p in v[1])
        if all(p[0] == 'k' or (p[0] == 'e' and p[1][0] == 'i' and p[1][1].const() is not None) for p in v[1]):
            return ''.join(p[1] if p[0] == 'k' else chr(p[1][1].c) for p in v[1])
    return None


def effect(eng, st, kind, info, site):
    for h in eng.hooks:
        f = getattr(h, 'on_effect', None)
        if f:
            f(eng, st, kind, info, site)


def unit(eng, st, c, args, dty, site):
    return [(st, UNIT)]


def identity(eng, st, c, args, dty, site):
    return [(st, args[0])]


def same_target(eng, st, c, args, dty, site):
    """&mut X -> &Y over the same storage"""
    r = target(eng, st, args[0])
    if r[0] != 'r':
        return [(st, r)]
    return [(st, ('r', r[1], r[2], eng.elem_of(dty) if eng.ty(dty)['k'] in ('ref', 'ptr') else r[3]))]


def copy_of(eng, st, c, args, dty, site):
    return [(st, contents(eng, st, args[0]))]


def opq(eng, st, c, args, dty, site):
    """a pure function of its arguments"""
    ts = tuple(eng.dterm(st, a) for a in args)
    return [(st, eng.opaque(T('pure', norm(c.j.get('rpath') or c.j['path']), *ts), dty))]


def pred(name):
    def f(eng, st, c, args, dty, site):
        ts = tuple(eng.dterm(st, a) for a in args)
        return fork_bool(st, T(name, *ts))
    return f


def fork_bool(st, term):
    v = st.preds.get(term)
    if v is not None:
        return [(st, ('b', ('c', v)))]
    a, b = st.copy(), st.copy()
    a.preds[term] = True
    b.preds[term] = False
    return [(a, ('b', TRUE)), (b, ('b', FALSE))]


# ------------------------------------------------------------------ core: misc
for n in ('hint.must_use', 'hint.black_box', 'convert.identity', 'ManuallyDrop.new'):
    MODELS[n] = identity
for n in ('intrinsics.cold_path', 'mem.drop', 'mem.forget', 'precondition_check', 'unreachable_unchecked.precondition_check',
          'unchecked_add.precondition_check', 'u8.precondition_check', 'usize.precondition_check', 'unchecked_sub.precondition_check', 'hint.assert_unchecked', 'intrinsics.assume', 'thread.yield_now',
          'Vec.reserve', 'Vec.reserve_exact', 'Vec.shrink_to_fit', 'String.reserve', 'String.shrink_to_fit',
          'BitVec.reserve', 'HashMap.reserve', 'BinaryHeap.reserve', 'OsString.reserve', 'String.reserve_exact'):
    MODELS[n] = unit


@model('u8.unchecked_add', 'precond')
def _na(eng, st, c, args, dty, site):
    return None


@model('mem.size_of')
def size_of(eng, st, c, args, dty, site):
    t = eng.ty(c.j['targs'][0])
    return [(st, usz(size_lin(eng, c.j['targs'][0])))]


def size_lin(eng, tyid):
    t = eng.ty(tyid)
    if t['s'] in INT:
        return K(INT[t['s']][0] // 8)
    if t['k'] == 'bool':
        return K(1)
    if t['k'] in ('ref', 'ptr'):
        return K(16 if eng.ty(t['elem'])['k'] in ('str', 'slice') else 8)
    s = T('size_of', t['s'])
    bound(s, 0, 1 << 32)
    return S(s)


@model('mem.replace', 'ptr.replace')
def mem_replace(eng, st, c, args, dty, site):
    r = target1(eng, st, args[0])
    old = eng.read(st, r[1])
    eng.write(st, r[1], args[1])
    return [(st, old)]


def target1(eng, st, r):
    return r


@model('mem.swap')
def mem_swap(eng, st, c, args, dty, site):
    a, b = eng.read(st, args[0][1]), eng.read(st, args[1][1])
    eng.write(st, args[0][1], b)
    eng.write(st, args[1][1], a)
    return [(st, UNIT)]


def default_value(eng, tyid):
    t = eng.ty(tyid)
    if t['s'] in INT:
        return ('i', K(0), t['s'])
    if t['k'] == 'bool':
        return ('b', FALSE)
    if t['k'] == 'adt':
        if t['path'] == 'core::option::Option':
            return ('a', tyid, 0, ())
        if t['path'] == 'alloc::vec::Vec':
            return ('seq', (), t['args'][0])
        if t['path'].startswith('bitvec::vec::BitVec'):
            return ('seq', (), 'bit')
        if t['path'] in ('alloc::string::String', 'std::ffi::os_str::OsString'):
            return ('seq', (), None)
    if t['k'] == 'tuple':
        f = [default_value(eng, e) for e in t['elems']]
        return ('t', tuple(f)) if None not in f else None
    return None


@model('mem.take', 'Option.take_')
def mem_take(eng, st, c, args, dty, site):
    d = default_value(eng, dty)
    if d is None:
        return None
    old = eng.read(st, args[0][1])
    eng.write(st, args[0][1], d)
    return [(st, old)]


@model('PhantomData.Default.default', 'PhantomData.Clone.clone')
def phantom(eng, st, c, args, dty, site):
    return [(st, eng.opaque(T('zst', 'phantom'), dty))]


@model('*.Default.default')
def dflt(eng, st, c, args, dty, site):
    if c.j.get('body'):
        return None
    d = default_value(eng, dty)
    if d is None:
        return [(st, eng.opaque(T('default', eng.tyname(dty), fresh('d')), dty))]
    return [(st, d)]


@model('Default.default')
def dflt_generic(eng, st, c, args, dty, site):
    return dflt(eng, st, c, args, dty, site)


@model('Vec.Clone.clone', 'String.Clone.clone', 'BitVec.Clone.clone', 'PathBuf.Clone.clone', 'OsString.Clone.clone', 'Box.Clone.clone',
       'BinaryHeap.Clone.clone', 'HashMap.Clone.clone', 'Clone.clone', '[T].to_vec', '[T].to_owned', '[T].ToOwned.to_owned', 'str.to_owned',
       'str.ToOwned.to_owned', 'str.to_string', 'OsStr.to_os_string', 'OsStr.ToOwned.to_owned', 'Path.to_path_buf', 'Path.ToOwned.to_owned', '[T;N].Clone.clone',
       'String.From.from', 'str.ToString.to_string', 'OsStr.to_owned', 'Vec.From.from', '[T].into_vec', 'BitSlice.to_bitvec', 'BitVec.from_bitslice',
       'BitSlice.to_owned', 'BitSlice.ToOwned.to_owned', 'ToOwned.to_owned', 'String.clone', 'str.into_string', 'OsString.From.from', 'String.into_bytes', 'str.to_vec',
       'Box.From.from_', 'String.into_boxed_str', 'PathBuf.into_os_string', 'Path.as_os_str', 'BitVec.into_boxed_bitslice', 'BitSlice.Clone.clone',
       'Iter.Clone.clone', 'IntoIter.Clone.clone', 'Chars.Clone.clone', 'Chars.as_str_')
def clone(eng, st, c, args, dty, site):
    if c.j.get('closure') and c.j.get('body'):
        return None
    v = args[0]
    # clone takes &self: exactly one level of reference is removed unless the type is unsized data
    if v[0] == 'r':
        x = eng.read(st, v[1])
        t = eng.ty(dty)
        while x[0] == 'r' and t['k'] not in ('ref', 'ptr'):
            x = eng.read(st, x[1])
        return [(st, retype(eng, x, dty))]
    return [(st, retype(eng, v, dty))]


def retype(eng, v, dty):
    """the same contents at another sequence type"""
    if v[0] == 's':
        t = eng.ty(dty)
        if t['k'] in ('int', 'char', 'bool') or (t['k'] == 'adt' and t['path'] in ('alloc::vec::Vec', 'alloc::string::String')):
            o = eng.opaque(v[1], dty)
            return o
        return ('s', v[1], dty) if t['k'] == 'adt' and v[2] is None else v
    if v[0] == 'seq' and eng.ty(dty)['k'] == 'adt' and eng.ty(dty)['path'] == 'std::path::PathBuf':
        return ('s', pathterm_of(eng, v), dty)
    return v


# deref-like conversions that keep the storage
for n in ('Vec.Deref.deref', 'Vec.DerefMut.deref_mut', 'String.Deref.deref', 'String.DerefMut.deref_mut', 'OsString.Deref.deref', 'PathBuf.Deref.deref',
          'Vec.as_slice', 'Vec.as_mut_slice', 'String.as_str', 'String.as_mut_str', 'Vec.AsRef.as_ref', 'Vec.AsMut.as_mut', 'String.AsRef.as_ref',
          '[T].AsRef.as_ref', '[T].AsMut.as_mut', 'str.AsRef.as_ref', 'OsStr.AsRef.as_ref', 'OsString.AsRef.as_ref', 'Path.AsRef.as_ref', 'PathBuf.AsRef.as_ref',
          'PathBuf.as_path', 'OsString.as_os_str', 'BitVec.Deref.deref', 'BitVec.DerefMut.deref_mut', 'BitVec.as_bitslice', 'BitVec.as_mut_bitslice',
          'Vec.Borrow.borrow', 'Vec.BorrowMut.borrow_mut', 'String.Borrow.borrow', 'PathBuf.Borrow.borrow', '[T;N].as_slice', '[T;N].as_mut_slice', '[T;N].AsRef.as_ref',
          '[T;N].AsMut.as_mut', '[T;N].Borrow.borrow', 'str.as_bytes', 'String.as_bytes', 'str.borrow', 'OsStr.new', 'T.Borrow.borrow', '&T.Borrow.borrow',
          'BitVec.AsRef.as_ref', 'BitVec.Borrow.borrow', 'OsString.Borrow.borrow', 'str.as_ref', 'OsStr.as_ref', 'Path.as_ref', 'ptr.addr_of', 'OsStr.as_bytes',
          'OsStr.OsStrExt.as_bytes', '[T;N].each_ref_'):
    MODELS[n] = same_target


@model('Box.Deref.deref', 'Box.DerefMut.deref_mut', 'Box.AsRef.as_ref', 'Box.AsMut.as_mut', 'Box.Borrow.borrow', 'Box.as_ref', 'Box.as_mut')
def box_deref(eng, st, c, args, dty, site):
    r = args[0]
    v = eng.read(st, r[1])
    n = 0
    while v[0] == 'r' and n < 6:
        r = v
        v = eng.read(st, r[1])
        n += 1
    loc = (r[1][0], r[1][1] + (('x',),))
    return [(st, ('r', loc, r[2], eng.elem_of(dty)))]


@model('Box.new', 'Box.pin', 'Rc.new', 'Arc.new', 'boxed.box_new', 'Box.From.from', 'Box.into_pin')
def box_new(eng, st, c, args, dty, site):
    t = eng.ty(dty)
    if t['k'] == 'adt' and t.get('args') and eng.ty(t['args'][0])['k'] in ('dyn', 'other', 'str') or 'dyn' in t['s']:
        return [(st, eng.opaque(T('boxed', eng.term(args[0]) if args[0][0] != 'r' else fresh('b')), dty))]
    return [(st, ('x', args[0]))]


@model('Box.into_inner', 'Box.leak_')
def box_into(eng, st, c, args, dty, site):
    v = args[0]
    if v[0] == 'x':
        return [(st, v[1])]
    return [(st, eng.step(st, v, ('x',)))]


@model('Cow.Deref.deref', 'Cow.AsRef.as_ref', 'Cow.Borrow.borrow')
def cow_deref(eng, st, c, args, dty, site):
    r = args[0]
    v = eng.deep(st, r)
    if v[0] == 's':
        t = v[1]
        el = eng.elem_of(dty)
        return [(st, fresh_ref(eng, st, T('cow', t), eng.opaque(T('cow', t), el) if el is not None else seqterm(eng, T('cow', t), None), False, el))]
    if v[0] == 'a' and v[3]:
        inner = v[3][0]
        if inner[0] == 'r':
            return [(st, inner)]
        loc = target(eng, st, r)[1]
        return [(st, ('r', (loc[0], loc[1] + (('d', v[2]), ('f', 0))), False, None))]
    return same_target(eng, st, c, args, dty, site)


@model('Cow.into_owned', 'Cow.to_string', 'Cow.ToString.to_string')
def cow_owned(eng, st, c, args, dty, site):
    v = eng.deep(st, args[0])
    if v[0] == 's':
        return [(st, retype(eng, seqterm(eng, T('cow', v[1]), None), dty))]
    if v[0] == 'a' and v[3]:
        return [(st, retype(eng, eng.deep(st, v[3][0]), dty))]
    return [(st, retype(eng, v, dty))]


# ------------------------------------------------------------------ core: integers
@model('intrinsics.integer_max', 'intrinsics.integer_min')
def imax(eng, st, c, args, dty, site):
    a, b = args
    mx = 'max' in (c.j.get('rpath') or c.j['path'])
    out = []
    le, gt = split_cond(st, c_le(a[1] - b[1]))
    for s in own(le, st):
        out.append((s, b if mx else a))
    for s in own(gt, st):
        out.append((s, a if mx else b))
    return out


@model('Ord.max', 'Ord.min', 'cmp.max', 'cmp.min', 'int.Ord.max', 'int.Ord.min')
def ordmax(eng, st, c, args, dty, site):
    if len(args) == 2 and args[0][0] == 'i' and args[1][0] == 'i':
        class F:
            j = {'path': 'max' if c.j['name'] == 'max' else 'min'}
        return imax(eng, st, F, args, dty, site)
    return None


@model('int.Ord.clamp', 'int.clamp')
def clamp(eng, st, c, args, dty, site):
    v, lo, hi = args
    if not all(x[0] == 'i' for x in args):
        return None
    out = []
    for s in check(eng, st, c_le(lo[1] - hi[1]), 'call', 'clamp with min > max', site):
        a, b = split_cond(s, c_le(v[1] - lo[1] + 1))
        for x in own(a, s):
            out.append((x, lo))
        for x in own(b, s):
            p, q = split_cond(x, c_le(hi[1] - v[1] + 1))
            out += [(y, hi) for y in own(p, x)]
            out += [(y, v) for y in own(q, x)]
    return out


@model('int.Ord.cmp', 'int.PartialOrd.partial_cmp', 'Ord.cmp', 'PartialOrd.partial_cmp')
def ordcmp(eng, st, c, args, dty, site):
    a, b = eng.deep(st, args[0]), eng.deep(st, args[1])
    part = c.j['name'] == 'partial_cmp'
    t = eng.ty(dty)
    ordty = t['args'][0] if part else dty
    names = [v['name'] for v in eng.ty(ordty)['variants']]
    out = []

    def put(s, nm):
        v = ('a', ordty, names.index(nm), ())
        out.append((s, some(dty, v) if part else v))
    if a[0] == 'i' and b[0] == 'i':
        d = a[1] - b[1]
        for nm, cc in (('Less', c_le(d + 1)), ('Equal', c_eq(d)), ('Greater', c_le(K(1) - d))):
            for s in own(st.assume(cc), st):
                put(s, nm)
        return out
    t1, t2 = eng.term(a), eng.term(b)
    for nm in names:
        k = ('ord', t1, t2)
        o = st.preds.get(k)
        if o is not None and o != nm:
            continue
        s = st.copy()
        s.preds[k] = nm
        put(s, nm)
    return out


def _cmpop(op):
    def f(eng, st, c, args, dty, site):
        if c.j.get('body') and (c.j.get('rkrate') or c.j.get('krate')) not in ('core', 'alloc', 'std'):
            return None
        a, b = eng.deep(st, args[0]), eng.deep(st, args[1])
        if a[0] in ('i', 'b') and b[0] in ('i', 'b'):
            return [(st, ('b', eng.compare(st, op, a, b)))]
        if op in ('Eq', 'Ne') and (a[0] == 'seq' or b[0] == 'seq') and text_like(eng, st, a, b):
            return str_eq_vals(eng, st, a, b, op == 'Eq')
        if c.j.get('body') or c.j.get('default'):
            return None
        if op in ('Eq', 'Ne'):
            return veq(eng, st, a, b, op == 'Eq')
        return fork_bool(st, T('cmp', op, eng.term(a), eng.term(b)))
    return f


def text_like(eng, st, a, b):
    return any(x[0] == 'seq' and (not x[1] or any(p[0] == 'k' for p in x[1])) for x in (a, b))


def veq(eng, st, a, b, want=True):
    t = tuple(sorted([eng.term(a), eng.term(b)]))
    if t[0] == t[1]:
        return [(st, ('b', ('c', want)))]
    r = fork_bool(st, T('eq', *t))
    return [(s, v if want else ('b', neg(v[1]))) for s, v in r]


for _t in ('*.PartialEq', '?.PartialEq', 'PartialEq', 'int.PartialEq', 'int.PartialOrd', '*.PartialOrd', 'PartialOrd'):
    for _m, _o in (('eq', 'Eq'), ('ne', 'Ne'), ('lt', 'Lt'), ('le', 'Le'), ('gt', 'Gt'), ('ge', 'Ge')):
        if _t.endswith('Eq') == (_m in ('eq', 'ne')):
            MODELS[f'{_t}.{_m}'] = _cmpop(_o)


@model('[T;N].PartialEq.eq', '[T].PartialEq.eq', 'Vec.PartialEq.eq', 'BitVec.PartialEq.eq', 'BitSlice.PartialEq.eq', '[T;N].PartialEq.ne', 'Vec.PartialEq.ne', '[T].PartialEq.ne')
def seq_eq(eng, st, c, args, dty, site):
    a, b = eng.deep(st, args[0]), eng.deep(st, args[1])
    return veq(eng, st, a, b, c.j['name'] == 'eq')


def _checked(op):
    def f(eng, st, c, args, dty, site):
        a, b = args[0], args[1]
        ty = a[2]
        if op in ('Div', 'Rem'):
            out = []
            z, nz = split_cond(st, c_eq(b[1]))
            for s in own(z, st):
                out.append((s, none(dty)))
            for s in own(nz, st):
                out.append((s, some(dty, ('i', eng.arith(s, op, a, b, ty), ty))))
            return out
        r = eng.arith(st, op, a, b, ty)
        c2 = eng.in_range(r, ty)
        y, n = split_cond(st, c2)
        return [(s, some(dty, ('i', r, ty))) for s in own(y, st)] + [(s, none(dty)) for s in own(n, st)]
    return f


def _overflowing(op):
    def f(eng, st, c, args, dty, site):
        a, b = args[0], args[1]
        ty = a[2]
        r = eng.arith(st, op, a, b, ty)
        return [(st, ('t', (('i', eng.wrap(st, r, ty), ty), ('b', neg(eng.in_range(r, ty))))))]
    return f


def _wrapping(op):
    def f(eng, st, c, args, dty, site):
        a, b = args[0], args[1]
        ty = a[2]
        return [(st, ('i', eng.wrap(st, eng.arith(st, op, a, b, ty), ty), ty))]
    return f


def _saturating(op):
    def f(eng, st, c, args, dty, site):
        a, b = args[0], args[1]
        ty = a[2]
        lo, hi = trange(ty)
        r = eng.arith(st, op, a, b, ty)
        out = []
        for cc, v in ((eng.in_range(r, ty), r), (c_le(K(hi + 1) - r), K(hi)), (c_le(r - lo + 1), K(lo))):
            for s in own(st.assume(cc), st):
                out.append((s, ('i', v, ty)))
        return out
    return f


for _m, _o in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mul'), ('div', 'Div'), ('rem', 'Rem')):
    MODELS[f'int.checked_{_m}'] = _checked(_o)
    MODELS[f'int.wrapping_{_m}'] = _wrapping(_o)
    MODELS[f'int.saturating_{_m}'] = _saturating(_o)
    MODELS[f'int.overflowing_{_m}'] = _overflowing(_o)


@model('int.unchecked_add', 'int.unchecked_sub', 'int.Step.forward_unchecked', 'int.Step.forward', 'int.Step.backward', 'int.Step.backward_unchecked', 'Step.forward_unchecked',
       'usize.forward_unchecked', 'u8.forward_unchecked')
def step_fwd(eng, st, c, args, dty, site):
    a, b = args
    if a[0] != 'i':
        return None
    n = c.j['name']
    l = a[1] - b[1] if ('backward' in n or 'sub' in n) else a[1] + b[1]
    return [(st, ('i', l, a[2]))]


@model('int.wrapping_shl', 'int.wrapping_shr', 'int.checked_shl', 'int.checked_shr')
def shifts(eng, st, c, args, dty, site):
    n = c.j['name']
    ty = args[0][2]
    op = 'Shl' if n.endswith('shl') else 'Shr'
    w = INT[ty][0]
    out = []
    for s in own(st.assume(c_le(args[1][1] - (w - 1))), st):
        v = ('i', eng.arith(s, op, args[0], args[1], ty), ty)
        out.append((s, some(dty, v) if n.startswith('checked') else v))
    for s in own(st.assume(c_le(K(w) - args[1][1])), st):
        out.append((s, none(dty) if n.startswith('checked') else eng.opaque(fresh('shw'), dty)))
    return out


@model('int.rotate_left', 'int.rotate_right', 'int.pow', 'int.leading_zeros', 'int.trailing_zeros', 'int.count_ones', 'int.swap_bytes',
       'int.reverse_bits', 'int.isqrt', 'int.abs', 'int.is_power_of_two', 'int.wrapping_neg', 'int.checked_pow', 'int.ilog2', 'int.checked_ilog2')
def int_pure(eng, st, c, args, dty, site):
    n = c.j['name']
    if n == 'pow' and args[0][1].const() is not None and args[1][1].const() is not None:
        v = args[0][1].c ** args[1][1].c
        lo, hi = trange(args[0][2])
        if lo <= v <= hi:
            return [(st, ('i', K(v), args[0][2]))]
    if n in ('reverse_bits',) and args[0][0] == 'i' and not INT[args[0][2]][1]:
        w = INT[args[0][2]][0]
        b = eng.bits(st, S(eng.name(st, args[0][1])), w)
        if b is not None:
            return [(st, ('i', eng.unbits(list(reversed(b))), args[0][2]))]
    if n in ('leading_zeros', 'trailing_zeros', 'count_ones'):
        t = T('pure', n, *[eng.term(a) for a in args])
        bound(t, 0, INT[args[0][2]][0])
        return [(st, ('i', S(t), 'u32'))]
    if n in ('pow', 'isqrt', 'abs'):
        check(eng, st, ('p', T('nopanic', n, fresh('q')), True), 'call', f'overflow in {n}', site)
    return opq(eng, st, c, args, dty, site)


@model('int.div_ceil', 'int.next_multiple_of', 'int.is_multiple_of')
def div_ceil(eng, st, c, args, dty, site):
    a, b = args
    n = c.j['name']
    ty = a[2]
    k = b[1].const()
    if k is None or k <= 0:
        return opq(eng, st, c, args, dty, site)
    q = eng.arith(st, 'Div', a, b, ty)
    r = eng.arith(st, 'Rem', a, b, ty)
    if n == 'is_multiple_of':
        return [(st, ('b', c_eq(r)))]
    out = []
    z, nz = split_cond(st, c_eq(r))
    for s in own(z, st):
        out.append((s, ('i', q if n == 'div_ceil' else a[1], ty)))
    for s in own(nz, st):
        l = q + 1 if n == 'div_ceil' else (q + 1).scale(k)
        if n != 'div_ceil':
            for s2 in check(eng, s, eng.in_range(l, ty), 'overflow', 'arithmetic overflow in next_multiple_of', site):
                out.append((s2, ('i', l, ty)))
        else:
            out.append((s, ('i', l, ty)))
    return out


@model('int.abs_diff')
def abs_diff(eng, st, c, args, dty, site):
    a, b = args
    ty = eng.tyname(dty)
    x, y = split_cond(st, c_le(b[1] - a[1]))
    return [(s, ('i', a[1] - b[1], ty)) for s in own(x, st)] + [(s, ('i', b[1] - a[1], ty)) for s in own(y, st)]


@model('int.to_be_bytes', 'int.to_le_bytes', 'int.to_ne_bytes')
def to_bytes(eng, st, c, args, dty, site):
    v = args[0]
    w = INT[v[2]][0] // 8
    le = 'be' not in c.j['name']
    el = eng.ty(dty).get('elem')
    l = v[1]
    out = []
    if l.const() is not None:
        b = (l.c & ((1 << (8 * w)) - 1)).to_bytes(w, 'little' if le else 'big')
        return [(st, ('seq', tuple(('e', ('i', K(x), 'u8')) for x in b), el))]
    if INT[v[2]][1]:
        s = eng.name(st, l)
        t = T('asuns', s)
        bound(t, 0, (1 << (8 * w)) - 1)
        TW[t] = (s, v[2])
        l = S(t)
    n = S(eng.name(st, l))
    if w == 1:
        return [(st, ('seq', (('e', ('i', n, 'u8')),), el))]
    for i in range(w):
        out.append(('e', ('i', eng.xb(n.single(), 8 * i, 8), 'u8')))
    if not le:
        out.reverse()
    return [(st, ('seq', tuple(out), el))]


TW = {}


@model('int.from_be_bytes', 'int.from_le_bytes', 'int.from_ne_bytes')
def from_bytes(eng, st, c, args, dty, site):
    v = contents(eng, st, args[0])
    ty = eng.tyname(dty)
    w = INT[ty][0] // 8
    le = 'be' not in c.j['name']
    bs = [eng.seq_elem(st, v, K(i)) for i in range(w)]
    if not le:
        bs.reverse()
    if not all(b[0] == 'i' for b in bs):
        return opq(eng, st, c, args, dty, site)
    bits = []
    for b in bs:
        x = eng.bits(st, b[1], 8)
        if x is None:
            x = eng.bits(st, S(eng.name(st, b[1])), 8)
        bits += x
    l = eng.unbits(bits)
    if INT[ty][1]:
        s = l.single()
        if s in TW and TW[s][1] == ty:
            return [(st, ('i', S(TW[s][0]), ty))]
        if l.const() is not None:
            return [(st, ('i', eng.wrap(st, l, ty), ty))]
        t = T('assig', eng.name(st, l), ty)
        bound(t, *trange(ty))
        return [(st, ('i', S(t), ty))]
    if len(l.m) > 1:
        n = T('lin', l)
        bound(n, 0, (1 << (8 * w)) - 1)
        st.add_eq(S(n) - l)
        l = S(n)
    return [(st, ('i', l, ty))]


@model('int.is_ascii_digit', 'char.is_ascii_digit', 'char.is_numeric_', 'u8.is_ascii_digit')
def is_digit(eng, st, c, args, dty, site):
    v = eng.deep(st, args[0])
    return [(st, ('b', c_and(c_le(K(48) - v[1]), c_le(v[1] - 57))))]


@model('char.is_digit')
def is_digit_r(eng, st, c, args, dty, site):
    if args[1][1].const() == 10:
        return is_digit(eng, st, c, args, dty, site)
    return opq(eng, st, c, args, dty, site)


for n in ('char.is_numeric', 'char.is_alphabetic', 'char.is_ascii_alphabetic', 'char.is_whitespace', 'char.is_ascii', 'char.is_alphanumeric', 'char.is_ascii_whitespace',
          'char.to_ascii_lowercase', 'char.to_ascii_uppercase', 'char.to_digit', 'char.len_utf8', 'u8.to_ascii_lowercase', 'char.is_uppercase', 'char.is_lowercase'):
    MODELS[n] = opq


# ------------------------------------------------------------------ ranges
@model('Range.Iterator.next', 'Range.RangeIteratorImpl.spec_next')
def range_next(eng, st, c, args, dty, site):
    r = target(eng, st, args[0])
    v = eng.read(st, r[1])
    if v[0] == 's':
        v = eng.expand(v, 0)
        eng.write(st, r[1], v)
    lo, hi = v[3]
    if lo[0] != 'i':
        return None
    out = []
    y, n = split_cond(st, c_le(lo[1] - hi[1] + 1))
    for s in own(y, st):
        eng.write(s, r[1], ('a', v[1], v[2], (('i', lo[1] + 1, lo[2]), hi)))
        out.append((s, some(dty, lo)))
    for s in own(n, st):
        out.append((s, none(dty)))
    return out


@model('Range.DoubleEndedIterator.next_back', 'Range.RangeIteratorImpl.spec_next_back')
def range_next_back(eng, st, c, args, dty, site):
    r = target(eng, st, args[0])
    v = eng.read(st, r[1])
    lo, hi = v[3]
    out = []
    y, n = split_cond(st, c_le(lo[1] - hi[1] + 1))
    for s in own(y, st):
        h = ('i', hi[1] - 1, hi[2])
        eng.write(s, r[1], ('a', v[1], v[2], (lo, h)))
        out.append((s, some(dty, h)))
    for s in own(n, st):
        out.append((s, none(dty)))
    return out


@model('Range.ExactSizeIterator.len', 'Range.Iterator.count_')
def range_len(eng, st, c, args, dty, site):
    v = eng.deep(st, args[0])
    lo, hi = v[3]
    out = []
    y, n = split_cond(st, c_le(lo[1] - hi[1]))
    return [(s, usz(hi[1] - lo[1])) for s in own(y, st)] + [(s, usz(K(0))) for s in own(n, st)]


@model('RangeFrom.Iterator.next')
def rangefrom_next(eng, st, c, args, dty, site):
    r = target(eng, st, args[0])
    v = eng.read(st, r[1])
    lo = v[3][0]
    eng.write(st, r[1], ('a', v[1], v[2], (('i', lo[1] + 1, lo[2]),)))
    return [(st, some(dty, lo))]


@model('RangeInclusive.new')
def rincl_new(eng, st, c, args, dty, site):
    return [(st, ('a', dty, 0, (args[0], args[1], ('b', FALSE))))]


def _rincl(back):
    def f(eng, st, c, args, dty, site):
        r = target(eng, st, args[0])
        v = eng.read(st, r[1])
        if v[0] == 's':
            v = eng.expand(v, 0)
        lo, hi, ex = v[3]
        out = []
        for s in own(st.assume(ex[1]), st):
            out.append((s, none(dty)))
        for s in own(st.assume(neg(ex[1])), st):
            for s2 in own(s.assume(c_le(hi[1] - lo[1] + 1)), s):
                out.append((s2, none(dty)))
            for s2 in own(s.assume(c_eq(hi[1] - lo[1])), s):
                eng.write(s2, r[1], ('a', v[1], v[2], (lo, hi, ('b', TRUE))))
                out.append((s2, some(dty, lo)))
            for s2 in own(s.assume(c_le(lo[1] - hi[1] + 1)), s):
                if back:
                    eng.write(s2, r[1], ('a', v[1], v[2], (lo, ('i', hi[1] - 1, hi[2]), ex)))
                    out.append((s2, some(dty, hi)))
                else:
                    eng.write(s2, r[1], ('a', v[1], v[2], (('i', lo[1] + 1, lo[2]), hi, ex)))
                    out.append((s2, some(dty, lo)))
        return out
    return f


MODELS['RangeInclusive.Iterator.next'] = MODELS['RangeInclusive.RangeInclusiveIteratorImpl.spec_next'] = _rincl(False)
MODELS['RangeInclusive.DoubleEndedIterator.next_back'] = MODELS['RangeInclusive.RangeInclusiveIteratorImpl.spec_next_back'] = _rincl(True)


@model('Range.contains', 'RangeInclusive.contains', 'RangeFrom.contains', 'RangeTo.contains')
def range_contains(eng, st, c, args, dty, site):
    v, x = eng.deep(st, args[0]), eng.deep(st, args[1])
    n = short_ty(eng, v[1])
    f = [eng.deep(st, y) for y in v[3]]
    if x[0] != 'i':
        return None
    if n == 'Range':
        cc = c_and(c_le(f[0][1] - x[1]), c_le(x[1] - f[1][1] + 1))
    elif n == 'RangeInclusive':
        cc = c_and(c_le(f[0][1] - x[1]), c_le(x[1] - f[1][1]))
    elif n == 'RangeFrom':
        cc = c_le(f[0][1] - x[1])
    else:
        cc = c_le(x[1] - f[0][1] + 1)
    return [(st, ('b', cc))]


def short_ty(eng, tyid):
    return short(eng.tyname(tyid))


def range_bounds(eng, st, v, n):
    """(start, end, conditions) of an index range over length n"""
    if v[0] == 's':
        v = eng.expand(v, 0)
    nm = short_ty(eng, v[1])
    f = v[3]
    if nm == 'Range':
        return f[0][1], f[1][1], [('start after end', c_le(f[0][1] - f[1][1])), ('end out of range', c_le(f[1][1] - n))]
    if nm == 'RangeFrom':
        return f[0][1], n, [('start out of range', c_le(f[0][1] - n))]
    if nm == 'RangeTo':
        return K(0), f[0][1], [('end out of range', c_le(f[0][1] - n))]
    if nm == 'RangeFull':
        return K(0), n, []
    if nm == 'RangeInclusive':
        return f[0][1], f[1][1] + 1, [('start after end', c_le(f[0][1] - f[1][1] - 1)), ('end out of range', c_le(f[1][1] + 1 - n))]
    if nm == 'RangeToInclusive':
        return K(0), f[0][1] + 1, [('end out of range', c_le(f[0][1] + 1 - n))]
    return None


# ------------------------------------------------------------------ slices
@model('[T].len', 'Vec.len', 'str.len', 'String.len', 'BitVec.len', 'BitSlice.len', 'OsStr.len', 'OsString.len', '[T;N].len', 'BitSlice.ExactSizeIterator.len')
def seq_len(eng, st, c, args, dty, site):
    return [(st, usz(slen(eng, st, args[0])))]


@model('[T].is_empty', 'Vec.is_empty', 'str.is_empty', 'String.is_empty', 'BitVec.is_empty', 'BitSlice.is_empty', 'OsStr.is_empty', 'OsString.is_empty')
def seq_is_empty(eng, st, c, args, dty, site):
    return [(st, ('b', c_eq(slen(eng, st, args[0]))))]


def _index(eng, st, c, args, dty, site):
    r = target(eng, st, args[0])
    v = eng.read(st, r[1])
    n = eng.seq_len(v)
    i = args[1]
    if i[0] == 'i':
        out = []
        for s in check(eng, st, c_le(i[1] - n + 1), 'bounds', 'index out of bounds', site):
            out.append((s, elem_ref(eng, s, r, i[1], eng.elem_of(dty))))
        return out
    b = range_bounds(eng, st, i, n)
    if b is None:
        return None
    states = [st]
    for d, cc in b[2]:
        states = [s2 for s in states for s2 in check(eng, s, cc, 'bounds', 'slice ' + d, site)]
    return [(s, sub_ref(eng, s, r, b[0], b[1] - b[0])) for s in states]


for n in ('[T].Index.index', '[T].IndexMut.index_mut', 'Vec.Index.index', 'Vec.IndexMut.index_mut', '[T;N].Index.index', '[T;N].IndexMut.index_mut',
          'BitSlice.Index.index', 'BitVec.Index.index', 'BitVec.IndexMut.index_mut', 'BitSlice.IndexMut.index_mut', 'BitArray.Index.index'):
    MODELS[n] = _index


@model('String.Index.index', 'str.Index.index')
def str_index(eng, st, c, args, dty, site):
    v = args[1]
    if v[0] in ('a', 's') and short_ty(eng, v[1] if v[0] == 'a' else v[2]) == 'RangeFull':
        return same_target(eng, st, c, args, dty, site)
    # a char boundary is needed as well
    r = target(eng, st, args[0])
    n = eng.seq_len(eng.read(st, r[1]))
    b = range_bounds(eng, st, v, n)
    if b is None:
        return None
    text = as_str(eng, st, r)
    for d, cc in b[2]:
        h = st.holds(cc)
    ok_ = all(st.holds(cc) is True for d, cc in b[2]) and (b[0].const() == 0 or text is not None and text.isascii()) and (b[1] == n or text is not None and text.isascii())
    eng.obligation('bounds', site, ok_)
    if not ok_:
        eng.panic(st, 'string slice out of range or off a char boundary', site)
    return [(st, sub_ref(eng, st, r, b[0], b[1] - b[0]))]


@model('[T].get', '[T].get_mut', 'Vec.get', 'BitSlice.get', 'str.get', 'BitSlice.get_mut')
def seq_get(eng, st, c, args, dty, site):
    r = target(eng, st, args[0])
    n = eng.seq_len(eng.read(st, r[1]))
    i = args[1]
    out = []
    if i[0] == 'i':
        y, no = split_cond(st, c_le(i[1] - n + 1))
        for s in own(y, st):
            out.append((s, some(dty, elem_ref(eng, s, r, i[1], eng.elem_of(arg0(eng, dty))))))
        for s in own(no, st):
            out.append((s, none(dty)))
        return out
    b = range_bounds(eng, st, i, n)
    if b is None:
        return None
    cc = TRUE
    for _, x in b[2]:
        cc = c_and(cc, x)
    for s in own(st.assume(cc), st):
        out.append((s, some(dty, sub_ref(eng, s, r, b[0], b[1] - b[0]))))
    for s in own(st.assume(neg(cc)), st):
        out.append((s, none(dty)))
    return out


@model('[T].get_unchecked', '[T].get_unchecked_mut')
def get_unchecked(eng, st, c, args, dty, site):
    return _index(eng, st, c, args, dty, site)


@model('[T].first', '[T].last', '[T].first_mut', '[T].last_mut', 'BitSlice.first', 'BitSlice.last')
def first_last(eng, st, c, args, dty, site):
    r = target(eng, st, args[0])
    n = eng.seq_len(eng.read(st, r[1]))
    y, no = split_cond(st, c_le(K(1) - n))
    out = []
    for s in own(y, st):
        i = K(0) if 'first' in c.j['name'] else n - 1
        out.append((s, some(dty, elem_ref(eng, s, r, i, eng.elem_of(arg0(eng, dty))))))
    for s in own(no, st):
        out.append((s, none(dty)))
    return out


@model('[T].split_first', '[T].split_last', '[T].split_last_mut', '[T].split_first_mut')
def split_fl(eng, st, c, args, dty, site):
    r = target(eng, st, args[0])
    n = eng.seq_len(eng.read(st, r[1]))
    y, no = split_cond(st, c_le(K(1) - n))
    out = []
    for s in own(y, st):
        if 'first' in c.j['name']:
            p = (elem_ref(eng, s, r, K(0)), sub_ref(eng, s, r, K(1), n - 1))
        else:
            p = (elem_ref(eng, s, r, n - 1), sub_ref(eng, s, r, K(0), n - 1))
        out.append((s, some(dty, ('t', p))))
    for s in own(no, st):
        out.append((s, none(dty)))
    return out


@model('[T].split_at', '[T].split_at_mut', 'BitSlice.split_at')
def split_at(eng, st, c, args, dty, site):
    r = target(eng, st, args[0])
    n = eng.seq_len(eng.read(st, r[1]))
    i = args[1][1]
    return [(s, ('t', (sub_ref(eng, s, r, K(0), i), sub_ref(eng, s, r, i, n - i))))
            for s in check(eng, st, c_le(i - n), 'bounds', 'split_at out of range', site)]


@model('[T].copy_from_slice', '[T].clone_from_slice')
def copy_from_slice(eng, st, c, args, dty, site):
    d = target(eng, st, args[0])
    n = eng.seq_len(eng.read(st, d[1]))
    src = contents(eng, st, args[1])
    out = []
    for s in check(eng, st, c_eq(n - eng.seq_len(src)), 'call', 'copy_from_slice of another length', site):
        eng.write(s, d[1], src)
        out.append((s, UNIT))
    return out


@model('[T].fill')
def fill(eng, st, c, args, dty, site):
    d = target(eng, st, args[0])
    cur = eng.read(st, d[1])
    eng.write(st, d[1], ('seq', (('z', args[1], eng.seq_len(cur)),), cur[2] if cur[0] == 'seq' else None))
    return [(st, UNIT)]


@model('[T].reverse', '[T].sort', '[T].sort_unstable', '[T].sort_by', '[T].sort_by_key', '[T].rotate_left', '[T].rotate_right', '[T].swap', 'BitSlice.reverse', '[T].sort_unstable_by', '[T].sort_unstable_by_key')
def permute(eng, st, c, args, dty, site):
    d = target(eng, st, args[0])
    cur = eng.read(st, d[1])
    if c.j['name'] == 'swap':
        n = eng.seq_len(cur)
        out = []
        for s in check(eng, st, c_and(c_le(args[1][1] - n + 1), c_le(args[2][1] - n + 1)), 'bounds', 'swap out of bounds', site):
            a, b = eng.seq_elem(s, cur, args[1][1]), eng.seq_elem(s, cur, args[2][1])
            v = eng.seq_store(s, cur, args[1][1], b)
            v = eng.seq_store(s, v, args[2][1], a)
            eng.write(s, d[1], v)
            out.append((s, UNIT))
        return out
    if c.j['name'].startswith('rotate'):
        n = eng.seq_len(cur)
        check(eng, st, c_le(args[1][1] - n), 'call', 'rotate out of range', site)
    if c.j['name'] == 'reverse' and cur[0] == 'seq' and all(p[0] == 'e' for p in cur[1]):
        eng.write(st, d[1], ('seq', tuple(reversed(cur[1])), cur[2]))
        return [(st, UNIT)]
    t = fresh('perm')
    eng.write(st, d[1], ('seq', (('s', t, K(0), eng.seq_len(cur)),), cur[2] if cur[0] == 'seq' else None))
    return [(st, UNIT)]


@model('[T].contains', '[T].starts_with', '[T].ends_with', '[T].iter_any')
def slice_pred(eng, st, c, args, dty, site):
    return fork_bool(st, T('slicepred', c.j['name'], *[eng.dterm(st, a) for a in args]))


@model('[T].concat', '[T].join')
def concat(eng, st, c, args, dty, site):
    v = contents(eng, st, args[0])
    if c.j['name'] == 'concat' and v[0] == 'seq' and all(p[0] == 'e' for p in v[1]):
        ps = []
        for p in v[1]:
            x = contents(eng, st, p[1])
            if x[0] != 'seq':
                return None
            ps += list(x[1])
        return [(st, ('seq', eng.norm_pieces(ps), arg0(eng, dty)))]
    return opq(eng, st, c, args, dty, site)


# iterators over sequences: ('o','it', source, pos, end, mode[, n])
@model('[T].iter', '[T].iter_mut', '[T].IntoIterator.into_iter', 'Vec.IntoIterator.into_iter', 'BitVec.IntoIterator.into_iter', 'BitSlice.IntoIterator.into_iter',
       'BitSlice.iter', 'BitSlice.iter_mut', 'BitVec.iter', 'str.chars', 'str.bytes', 'String.bytes', '[T;N].IntoIterator.into_iter', 'Vec.drain', 'BitSlice.iter_', 'str.char_indices',
       '[T;N].IntoIter.into_iter', 'IntoIter.new')
def seq_iter(eng, st, c, args, dty, site):
    a = args[0]
    if eng.tyname(dty).find('Copied') >= 0:
        return None
    n = c.j['name']
    if n == 'drain':
        r = target(eng, st, a)
        v = eng.read(st, r[1])
        b = range_bounds(eng, st, args[1], eng.seq_len(v))
        if b is None:
            return None
        for d, cc in b[2]:
            check(eng, st, cc, 'bounds', 'drain ' + d, site)
        part = eng.subseq(st, v, b[0], b[1] - b[0])
        rest = eng.subseq(st, v, K(0), b[0])[1] + eng.subseq(st, v, b[1], eng.seq_len(v) - b[1])[1]
        eng.write(st, r[1], ('seq', eng.norm_pieces(rest), v[2]))
        return [(st, ('o', 'it', part, K(0), eng.seq_len(part), 'v'))]
    if a[0] == 'r':
        r = target(eng, st, a)
        v = eng.read(st, r[1])
        mode = 'r'
        if n in ('chars', 'bytes', 'char_indices'):
            mode = n
            # text is iterated by value
            return [(st, ('o', 'it', v, K(0), eng.seq_len(v), mode))]
        return [(st, ('o', 'it', r, K(0), eng.seq_len(v), mode))]
    v = contents(eng, st, a)
    if v[0] == 'x':
        v = v[1]
    if v[0] == 's' and v[2] is not None:
        v = eng.opaque(v[1], v[2])
    return [(st, ('o', 'it', v, K(0), eng.seq_len(v), 'v'))]


@model('[T].chunks', '[T].chunks_exact', '[T].windows', '[T].chunks_mut', '[T].rchunks')
def chunks(eng, st, c, args, dty, site):
    r = target(eng, st, args[0])
    v = eng.read(st, r[1])
    out = []
    for s in check(eng, st, c_le(K(1) - args[1][1]), 'call', 'chunk size of zero', site):
        out.append((s, ('o', 'it', r, K(0), eng.seq_len(v), c.j['name'], args[1][1])))
    return out


def it_elem(eng, st, it, i, dty):
    src, mode = it[2], it[5]
    ety = arg0(eng, dty)
    if mode == 'r':
        el = eng.elem_of(ety) if ety is not None and eng.ty(ety)['k'] in ('ref', 'ptr') else None
        return elem_ref(eng, st, src, i, el)
    v = contents(eng, st, src)
    x = eng.seq_elem(st, v, i)
    if mode == 'chars':
        if x[0] == 'i' and x[2] != 'char':
            t = T('char', eng.term(v), i)
            bound(t, 0, 0x10FFFF)
            if x[1].const() is not None:
                return ('i', x[1], 'char')
            return ('i', S(t), 'char')
        return x
    if mode == 'char_indices':
        t = T('char', eng.term(v), i)
        bound(t, 0, 0x10FFFF)
        return ('t', (usz(i), ('i', S(t), 'char')))
    return x


def _it_next(back):
    def f(eng, st, c, args, dty, site):
        r = target(eng, st, args[0])
        it = eng.read(st, r[1])
        if it[0] != 'o' or it[1] != 'it':
            return unknown_next(eng, st, c, args, dty, site)
        src, pos, end, mode = it[2], it[3], it[4], it[5]
        out = []
        y, n = split_cond(st, c_le(pos - end + 1))
        for s in own(y, st):
            if mode in ('chunks', 'chunks_exact', 'windows', 'chunks_mut', 'rchunks'):
                k = it[6]
                if mode == 'windows' or mode == 'rchunks' or back:
                    m = fresh('chunk', 0, MAXLEN)
                    if mode == 'windows':
                        m = k
                    np = S(fresh('pos', 0, MAXLEN))
                    s.add_le(np - end)
                    eng.write(s, r[1], ('o', 'it', src, np, end, mode, k))
                    out.append((s, some(dty, sub_ref(eng, s, src, pos, m if isinstance(m, Lin) else S(m)))))
                    continue
                full, part = split_cond(s, c_le(pos + k - end))
                for s2 in own(full, s):
                    eng.write(s2, r[1], ('o', 'it', src, pos + k, end, mode, k))
                    out.append((s2, some(dty, sub_ref(eng, s2, src, pos, k))))
                for s2 in own(part, s):
                    eng.write(s2, r[1], ('o', 'it', src, end, end, mode, k))
                    if mode == 'chunks_exact':
                        out.append((s2, none(dty)))
                    else:
                        out.append((s2, some(dty, sub_ref(eng, s2, src, pos, end - pos))))
                continue
            if back:
                v = it_elem(eng, s, it, end - 1, dty)
                eng.write(s, r[1], it[:4] + (end - 1,) + it[5:])
            else:
                v = it_elem(eng, s, it, pos, dty)
                eng.write(s, r[1], it[:3] + (pos + 1,) + it[4:])
            out.append((s, some(dty, v)))
        for s in own(n, st):
            out.append((s, none(dty)))
        return out
    return f


def unknown_next(eng, st, c, args, dty, site):
    a, b = st.copy(), st
    eng.havoc_ref(a, args[0])
    return [(a, some(dty, eng.opaque(fresh('item'), arg0(eng, dty)))), (b, none(dty))]


_NX, _NB = _it_next(False), _it_next(True)
for n in ('Iter', 'IterMut', 'IntoIter', 'Chars', 'Bytes', 'Chunks', 'ChunksExact', 'Windows', 'ChunksMut', 'RChunks', 'Drain', 'CharIndices'):
    MODELS[f'{n}.Iterator.next'] = _NX
    MODELS[f'{n}.DoubleEndedIterator.next_back'] = _NB


@model('Iter.ExactSizeIterator.len', 'IterMut.ExactSizeIterator.len', 'IntoIter.ExactSizeIterator.len', 'Drain.ExactSizeIterator.len', 'Iter.len', 'IterMut.len', 'IntoIter.len')
def it_len(eng, st, c, args, dty, site):
    it = eng.deep(st, args[0])
    if it[0] == 'o' and it[1] == 'it' and it[5] in ('r', 'v', 'bytes'):
        return [(st, usz(it[4] - it[3]))]
    return [(st, usz(S(fresh('len', 0, MAXLEN))))]


@model('Iter.Iterator.count', 'IntoIter.Iterator.count', 'IterMut.Iterator.count')
def it_count(eng, st, c, args, dty, site):
    return it_len(eng, st, c, args, dty, site)


@model('Iter.Iterator.size_hint', 'IterMut.Iterator.size_hint', 'IntoIter.Iterator.size_hint')
def it_hint(eng, st, c, args, dty, site):
    it = eng.deep(st, args[0])
    if it[0] == 'o' and it[1] == 'it' and it[5] in ('r', 'v', 'bytes'):
        n = it[4] - it[3]
    else:
        n = S(fresh('len', 0, MAXLEN))
    oty = eng.ty(dty)['elems'][1]
    return [(st, ('t', (usz(n), some(oty, usz(n)))))]


@model('Iter.Iterator.nth', 'IntoIter.Iterator.nth')
def it_nth(eng, st, c, args, dty, site):
    r = target(eng, st, args[0])
    it = eng.read(st, r[1])
    if it[0] != 'o' or it[1] != 'it' or it[5] not in ('r', 'v', 'bytes'):
        return None
    n = args[1][1]
    out = []
    y, no = split_cond(st, c_le(it[3] + n - it[4] + 1))
    for s in own(y, st):
        v = it_elem(eng, s, it, it[3] + n, dty)
        eng.write(s, r[1], it[:3] + (it[3] + n + 1,) + it[4:])
        out.append((s, some(dty, v)))
    for s in own(no, st):
        eng.write(s, r[1], it[:3] + (it[4],) + it[4:])
        out.append((s, none(dty)))
    return out


@model('Iter.as_slice', 'Iter.AsRef.as_ref', 'IntoIter.as_slice')
def it_slice(eng, st, c, args, dty, site):
    it = eng.deep(st, args[0])
    if it[0] == 'o' and it[1] == 'it' and it[5] == 'r':
        return [(st, sub_ref(eng, st, it[2], it[3], it[4] - it[3]))]
    return None


@model('Chars.as_str')
def chars_str(eng, st, c, args, dty, site):
    it = eng.deep(st, args[0])
    if it[0] == 'o' and it[1] == 'it':
        v = contents(eng, st, it[2])
        sub = eng.subseq(st, v, it[3], it[4] - it[3])
        return [(st, fresh_ref(eng, st, T('rest', eng.term(sub)), sub))]
    return None


@model('BitRef.Deref.deref', 'BitRef.DerefMut.deref_mut')
def bitref_deref(eng, st, c, args, dty, site):
    v = eng.read(st, args[0][1])
    return [(st, v if v[0] == 'r' else args[0])]


@model('Zip.Iterator.next', 'Zip.ZipImpl.next', 'Zip.SpecZip.next')
def zip_next(eng, st, c, args, dty, site):
    aux = c.j.get('aux') or []
    if len([a for a in aux if a]) < 2:
        return unknown_next(eng, st, c, args, dty, site)
    r = target(eng, st, args[0])
    tup = arg0(eng, dty)
    ta, tb = eng.ty(tup)['elems']
    oa, ob = opt_ty(eng, ta), opt_ty(eng, tb)
    if oa is None or ob is None:
        return unknown_next(eng, st, c, args, dty, site)
    out = []
    ra = ('r', (r[1][0], r[1][1] + (('f', 0),)), True, None)
    rb = ('r', (r[1][0], r[1][1] + (('f', 1),)), True, None)
    for s, a in eng.call(st, FnRef(aux[0]), [ra], oa, site):
        for s1, a1 in eng.split(s, a):
            if a1[2] == 0:
                out.append((s1, none(dty)))
                continue
            for s2, b in eng.call(s1, FnRef(aux[1]), [rb], ob, site):
                for s3, b1 in eng.split(s2, b):
                    out.append((s3, none(dty) if b1[2] == 0 else some(dty, ('t', (a1[3][0], b1[3][0])))))
    return out


def opt_ty(eng, tyid):
    m = getattr(eng.p, '_opts', None)
    if m is None:
        m = {}
        for i, t in enumerate(eng.p.types):
            if t['k'] == 'adt' and t.get('path') == 'core::option::Option':
                m[t['args'][0]] = i
        eng.p._opts = m
    return m.get(tyid)


# collect / extend: run the iterator to its end
def drain(eng, st, aux, itv, site, sink, acc):
    """sink(state, acc, item) -> [(state, acc)]; the accumulator lives in memory"""
    into, nxt = (list(aux) + [None, None])[:2]
    return None


def collect_model(eng, st, c, args, dty, site, dest=None):
    """FromIterator/Extend over an arbitrary iterator: a loop `while let Some(x) = it.next() { push }`"""
    aux = c.j.get('aux') or []
    src = args[1] if dest is not None else args[0]
    # plain sequence iterators: exact
    def fin(s, v):
        if dest is None:
            return (s, v)
        cur = eng.read(s, dest[1])
        ps = (cur[1] if cur[0] == 'seq' else (('s', eng.term(cur), K(0), eng.seq_len(cur)),)) + v[1]
        eng.write(s, dest[1], ('seq', eng.norm_pieces(ps), cur[2] if cur[0] == 'seq' else v[2]))
        return (s, UNIT)
    t = eng.ty(dty) if dest is None else None
    ety = None
    if dest is None and t['k'] == 'adt' and t.get('args') and t['path'] == 'alloc::vec::Vec':
        ety = t['args'][0]
    v = eng.deep(st, src) if src[0] == 'r' else src
    if v[0] == 'seq' and (src[0] != 'r' or dest is not None):
        return [fin(st, v)]
    if v[0] == 'x' and v[1][0] == 'seq':
        return [fin(st, v[1])]
    if v[0] == 'o' and v[1] == 'it' and v[5] in ('v', 'r', 'chars', 'bytes'):
        if v[5] != 'r' or dest is not None:
            x = contents(eng, st, v[2])
            if src[0] == 'r' and src[2]:
                rr = target(eng, st, src)
                eng.write(st, rr[1], v[:3] + (v[4],) + v[4:])
            return [fin(st, eng.subseq(st, x, v[3], v[4] - v[3]))]
    if v[0] == 'a' and short_ty(eng, v[1]) in ('Cloned', 'Copied') and v[3][0][0] == 'o' and v[3][0][1] == 'it' and v[3][0][5] == 'r':
        w = v[3][0]
        x = contents(eng, st, w[2])
        return [fin(st, eng.subseq(st, x, w[3], w[4] - w[3]))]
    if len(aux) > 1 and aux[1]:
        r = run_iterator(eng, st, aux[0], aux[1], src, ety, site)
        if r is not None:
            return [fin(s, x) for s, x in r]
    return None


def run_iterator(eng, st, into, nxt, src, ety, site):
    """collect the items of an iterator through a synthetic loop; the items become one piece per
    iteration when the loop is bounded by constants, else an opaque piece of the same length"""
    itv = src
    states = [(st, src)]
    if into:
        ity = None
        c = FnRef(into)
        states = eng.call(st, c, [src], guess_ret(eng, into, src), site) if into.get('body') or models_has(eng, into) else [(st, src)]
    # type of next()'s result
    oty = None
    for k in ('ret',):
        oty = nxt.get('ret')
    b = eng.p.bodies.get(nxt.get('body'))
    if b is not None:
        oty = b['locals'][0]
    if oty is None:
        return None
    out = []
    for s, v in states:
        root = ('P', eng.newfid(), 'iter')
        acc = ('P', eng.newfid(), 'acc')
        s = s.copy()
        s.mem[root] = v
        s.mem[acc] = ('seq', (), ety)
        # unroll a little, then generalise
        frontier = [s]
        done = []
        for rnd in range(12):
            nf = []
            for x in frontier:
                for x2, o in eng.call(x, FnRef(nxt), [('r', (root, ()), True, None)], oty, site):
                    for x3, o1 in eng.split(x2, o):
                        if o1[2] == 0:
                            done.append(x3)
                        else:
                            x3 = x3.copy()
                            a = x3.mem[acc]
                            x3.mem[acc] = ('seq', a[1] + (('e', o1[3][0]),), ety)
                            nf.append(x3)
            frontier = nf
            if not frontier or len(frontier) > 8:
                break
        if frontier:
            # not exhausted: item count unknown
            s2 = s.copy()
            t = fresh('collected')
            s2.mem[acc] = ('seq', (('s', t, K(0), eng.lenof(t)),), ety)
            # one arbitrary step for its effects and panics
            s3 = s2.copy()
            s3.mem[root] = eng.havoc_value(s3, v) if v[0] != 'o' else ('s', fresh('iter'), None)
            done = [s2]
            for r in closures_refs(eng, s2, v):
                eng.havoc_ref(s2, r)
        for x in done:
            x = x.copy()
            a = x.mem.pop(acc)
            x.mem.pop(root, None)
            out.append((x, a))
    return out


def closures_refs(eng, st, v):
    out = []

    def go(v):
        if v[0] == 'r' and v[2]:
            out.append(v)
        elif v[0] in ('a',):
            for x in v[3]:
                go(x)
        elif v[0] == 't':
            for x in v[1]:
                go(x)
        elif v[0] == 'cl':
            for x in v[2]:
                go(x)
        elif v[0] == 'o':
            for x in v[2:]:
                if isinstance(x, tuple) and x and isinstance(x[0], str):
                    go(x)
    go(v)
    return out


def guess_ret(eng, j, src):
    b = eng.p.bodies.get(j.get('body'))
    return b['locals'][0] if b else 0


def models_has(eng, j):
    return lookup(eng, j, j.get('rpath') or j['path']) is not None


@model('Vec.FromIterator.from_iter', 'String.FromIterator.from_iter', 'BitVec.FromIterator.from_iter', 'OsString.FromIterator.from_iter', 'Box.FromIterator.from_iter', 'PathBuf.FromIterator.from_iter_')
def from_iter(eng, st, c, args, dty, site):
    r = collect_model(eng, st, c, args, dty, site)
    if r is None:
        return None
    if norm(c.j.get('rpath') or c.j['path']).startswith('Box'):
        return [(s, ('x', v)) for s, v in r]
    return r


@model('Vec.Extend.extend', 'String.Extend.extend', 'BitVec.Extend.extend', 'OsString.Extend.extend')
def extend(eng, st, c, args, dty, site):
    d = target(eng, st, args[0])
    r = collect_model(eng, st, c, args, dty, site, dest=d)
    if r is None:
        cur = eng.read(st, d[1])
        t = fresh('ext')
        eng.write(st, d[1], ('seq', (('s', t, K(0), eng.lenof(t)),), cur[2] if cur[0] == 'seq' else None))
        return [(st, UNIT)]
    return r


# ------------------------------------------------------------------ Vec / String
@model('Vec.new', 'Vec.with_capacity')
def vec_new(eng, st, c, args, dty, site):
    return [(st, ('seq', (), arg0(eng, dty)))]


@model('String.new', 'String.with_capacity', 'OsString.new', 'OsString.with_capacity')
def string_new(eng, st, c, args, dty, site):
    return [(st, ('seq', (), None))]


@model('BitVec.new', 'BitVec.with_capacity')
def bitvec_new(eng, st, c, args, dty, site):
    return [(st, ('seq', (), 'bit'))]


@model('vec.from_elem')
def from_elem(eng, st, c, args, dty, site):
    n = args[1][1]
    if n.const() is not None and n.c <= 16:
        return [(st, ('seq', tuple(('e', args[0]) for _ in range(n.c)), arg0(eng, dty)))]
    return [(st, ('seq', (('z', args[0], n),), arg0(eng, dty)))]


def _pieces(eng, v):
    if v[0] == 'seq':
        return v[1]
    return (('s', eng.term(v), K(0), eng.seq_len(v)),)


def append_to(eng, st, ref, pieces, ety=None):
    d = target(eng, st, ref)
    cur = eng.read(st, d[1])
    e = cur[2] if cur[0] == 'seq' else ety
    ps = eng.norm_pieces(_pieces(eng, cur) + tuple(pieces))
    eng.write(st, d[1], ('seq', ps, e if e is not None else ety))


@model('Vec.push', 'BitVec.push', 'String.push', 'Vec.push_within_capacity_')
def vec_push(eng, st, c, args, dty, site):
    v = args[1]
    if c.j['name'] == 'push' and norm(c.j.get('rpath') or c.j['path']) == 'String.push' and v[0] == 'i' and v[1].const() is not None and v[1].c < 128:
        append_to(eng, st, args[0], (('k', chr(v[1].c)),))
    else:
        append_to(eng, st, args[0], (('e', v),))
    return [(st, UNIT)]


@model('String.push_str', 'Vec.extend_from_slice', 'OsString.push', 'BitVec.extend_from_bitslice', 'Vec.extend_from_slice_', 'BitVec.extend_from_slice')
def push_str(eng, st, c, args, dty, site):
    v = contents(eng, st, args[1])
    if v[0] == 's' and v[2] is not None:
        v = eng.opaque(v[1], v[2])
    append_to(eng, st, args[0], _pieces(eng, v))
    return [(st, UNIT)]


@model('Vec.append', 'BitVec.append')
def vec_append(eng, st, c, args, dty, site):
    o = target(eng, st, args[1])
    v = eng.read(st, o[1])
    append_to(eng, st, args[0], _pieces(eng, v))
    eng.write(st, o[1], ('seq', (), v[2] if v[0] == 'seq' else None))
    return [(st, UNIT)]


@model('Vec.clear', 'String.clear', 'BitVec.clear', 'OsString.clear', 'PathBuf.clear_')
def vec_clear(eng, st, c, args, dty, site):
    d = target(eng, st, args[0])
    v = eng.read(st, d[1])
    eng.write(st, d[1], ('seq', (), v[2] if v[0] == 'seq' else None))
    return [(st, UNIT)]


@model('Vec.pop', 'BitVec.pop')
def vec_pop(eng, st, c, args, dty, site):
    d = target(eng, st, args[0])
    v = eng.read(st, d[1])
    n = eng.seq_len(v)
    out = []
    y, no = split_cond(st, c_le(K(1) - n))
    for s in own(y, st):
        x = eng.seq_elem(s, v, n - 1)
        if x[0] == 's' and x[2] is None and arg0(eng, dty) is not None:
            x = eng.opaque(x[1], arg0(eng, dty))
        eng.write(s, d[1], eng.subseq(s, v, K(0), n - 1))
        out.append((s, some(dty, x)))
    for s in own(no, st):
        out.append((s, none(dty)))
    return out


@model('Vec.truncate', 'BitVec.truncate')
def vec_truncate(eng, st, c, args, dty, site):
    d = target(eng, st, args[0])
    v = eng.read(st, d[1])
    n = eng.seq_len(v)
    k = args[1][1]
    out = []
    y, no = split_cond(st, c_le(k - n))
    for s in own(y, st):
        eng.write(s, d[1], eng.subseq(s, v, K(0), k))
        out.append((s, UNIT))
    for s in own(no, st):
        out.append((s, UNIT))
    return out


@model('Vec.resize', 'BitVec.resize')
def vec_resize(eng, st, c, args, dty, site):
    d = target(eng, st, args[0])
    v = eng.read(st, d[1])
    n = eng.seq_len(v)
    k = args[1][1]
    out = []
    y, no = split_cond(st, c_le(k - n))
    for s in own(y, st):
        eng.write(s, d[1], eng.subseq(s, v, K(0), k))
        out.append((s, UNIT))
    for s in own(no, st):
        append_to(eng, s, d, (('z', args[2], k - n),))
        out.append((s, UNIT))
    return out


@model('Vec.insert')
def vec_insert(eng, st, c, args, dty, site):
    d = target(eng, st, args[0])
    v = eng.read(st, d[1])
    n = eng.seq_len(v)
    i = args[1][1]
    out = []
    for s in check(eng, st, c_le(i - n), 'bounds', 'insert out of bounds', site):
        ps = eng.subseq(s, v, K(0), i)[1] + (('e', args[2]),) + eng.subseq(s, v, i, n - i)[1]
        eng.write(s, d[1], ('seq', eng.norm_pieces(ps), v[2] if v[0] == 'seq' else None))
        out.append((s, UNIT))
    return out


@model('Vec.remove', 'Vec.swap_remove')
def vec_remove(eng, st, c, args, dty, site):
    d = target(eng, st, args[0])
    v = eng.read(st, d[1])
    n = eng.seq_len(v)
    i = args[1][1]
    out = []
    for s in check(eng, st, c_le(i - n + 1), 'bounds', 'remove out of bounds', site):
        x = eng.seq_elem(s, v, i)
        if c.j['name'] == 'remove':
            ps = eng.subseq(s, v, K(0), i)[1] + eng.subseq(s, v, i + 1, n - i - 1)[1]
        else:
            ps = (('s', fresh('sr'), K(0), n - 1),)
        eng.write(s, d[1], ('seq', eng.norm_pieces(ps), v[2] if v[0] == 'seq' else None))
        out.append((s, x))
    return out


@model('Vec.split_off')
def split_off(eng, st, c, args, dty, site):
    d = target(eng, st, args[0])
    v = eng.read(st, d[1])
    n = eng.seq_len(v)
    i = args[1][1]
    out = []
    for s in check(eng, st, c_le(i - n), 'bounds', 'split_off out of bounds', site):
        a, b = eng.subseq(s, v, K(0), i), eng.subseq(s, v, i, n - i)
        eng.write(s, d[1], a)
        out.append((s, b))
    return out


@model('Vec.into_boxed_slice', 'BitVec.into_boxed_slice')
def into_boxed(eng, st, c, args, dty, site):
    return [(st, ('x', args[0]))]


@model('Vec.capacity', 'String.capacity', 'BitVec.capacity')
def capacity(eng, st, c, args, dty, site):
    return [(st, usz(S(fresh('cap', 0, MAXLEN))))]


@model('[T;N].TryFrom.try_from', '[T;N].TryInto.try_into')
def array_try_from(eng, st, c, args, dty, site):
    v = contents(eng, st, args[0])
    at = arg0(eng, dty)
    if at is None or eng.ty(at)['k'] != 'array':
        return None
    n = eng.ty(at)['len']
    out = []
    y, no = split_cond(st, c_eq(eng.seq_len(v) - n))
    for s in own(y, st):
        if n <= 64:
            x = ('seq', tuple(('e', eng.seq_elem(s, v, K(i))) for i in range(n)), eng.ty(at)['elem'])
        else:
            x = eng.subseq(s, v, K(0), K(n))
        out.append((s, ok(dty, x)))
    for s in own(no, st):
        out.append((s, err(dty, eng.opaque(fresh('tryerr'), arg0(eng, dty, 1)))))
    return out


@model('int.TryFrom.try_from', 'int.TryInto.try_into')
def int_try_from(eng, st, c, args, dty, site):
    a = args[0]
    if a[0] != 'i':
        return None
    ty = eng.tyname(arg0(eng, dty))
    if ty not in INT:
        return None
    cc = eng.in_range(a[1], ty)
    return ([(s, ok(dty, ('i', a[1], ty))) for s in own(st.assume(cc), st)] +
            [(s, err(dty, eng.opaque(fresh('tryerr'), arg0(eng, dty, 1)))) for s in own(st.assume(neg(cc)), st)])


@model('int.From.from')
def int_from(eng, st, c, args, dty, site):
    n = eng.tyname(dty)
    if n in INT and args[0][0] in ('i', 'b'):
        return [(st, eng.cast_int(st, args[0], n))]
    return None


# ------------------------------------------------------------------ str
def str_eq_vals(eng, st, a, b, want=True):
    ka, kb = as_str(eng, st, a), as_str(eng, st, b)
    if ka is not None and kb is not None:
        return [(st, ('b', ('c', (ka == kb) == want)))]
    if ka is None and kb is None:
        return veq(eng, st, a, b, want)
    v, k = (b, ka) if ka is not None else (a, kb)
    if k == '':
        out = []
        for r, cc in ((True, c_eq(eng.seq_len(v))), (False, neg(c_eq(eng.seq_len(v))))):
            for s in own(st.assume(cc), st):
                if r and ('str', eng.term(v)) not in s.preds:
                    s.preds[('str', eng.term(v))] = ''
                out.append((s, ('b', ('c', r == want))))
        return out
    t = eng.term(v)
    o = st.preds.get(('str', t))
    if o is not None:
        return [(st, ('b', ('c', (o == k) == want)))]
    pt = T('streq', t, k)
    p = st.preds.get(pt)
    if p is not None:
        return [(st, ('b', ('c', p == want)))]
    yes, no = st.copy(), st
    out = []
    n = eng.seq_len(v)
    yy = yes.assume(c_le(K(1) - n))
    # a constant first element that differs decides it
    if v[0] == 'seq' and v[1] and v[1][0][0] == 'k' and not k.startswith(v[1][0][1]):
        yy = []
    if v[0] == 'seq' and v[1] and v[1][0][0] == 'e' and v[1][0][1][0] == 'i':
        yy = [y2 for y in yy for y2 in y.assume(c_eq(v[1][0][1][1] - ord(k[0])))]
    for y in own(yy, yes):
        y.preds[('str', t)] = k
        y.preds[pt] = True
        out.append((y, ('b', ('c', want))))
    no.preds[pt] = False
    out.append((no, ('b', ('c', not want))))
    return out


@model('str.PartialEq.eq', 'String.PartialEq.eq', 'str.PartialEq.ne', 'String.PartialEq.ne', 'OsStr.PartialEq.eq', 'OsStr.PartialEq.ne', 'OsString.PartialEq.eq', 'OsString.PartialEq.ne', 'Cow.PartialEq.eq', 'str.eq')
def str_eq(eng, st, c, args, dty, site):
    return str_eq_vals(eng, st, textual(eng, st, args[0]), textual(eng, st, args[1]), c.j['name'] == 'eq')


def textual(eng, st, v):
    v = contents(eng, st, v)
    if v[0] == 's':
        k = TERMS[v[1]]
        if k[0] == 'pathlit':
            return ('seq', (('k', k[1]),) if k[1] else (), None)
        if v[2] is not None and short_ty(eng, v[2]) == 'Cow':
            return seqterm(eng, T('cow', v[1]), None)
        return seqterm(eng, v[1], None)
    return v


def cow_norm(eng, v):
    return v


@model('str.parse', 'FromStr.from_str', 'int.FromStr.from_str', 'int.from_str_radix')
def parse(eng, st, c, args, dty, site):
    v = textual(eng, st, args[0])
    k = as_str(eng, st, v)
    ity = arg0(eng, dty)
    if ity is None or eng.tyname(ity) not in INT:
        return opq(eng, st, c, args, dty, site)
    ty = eng.tyname(ity)
    if k is not None and re.fullmatch(r'[0-9]+', k) and trange(ty)[0] <= int(k) <= trange(ty)[1]:
        return [(st, ok(dty, ('i', K(int(k)), ty)))]
    e = eng.opaque(fresh('parseerr'), arg0(eng, dty, 1))
    if k is not None:
        return [(st, err(dty, e))]
    t = T('parse', eng.term(v), ty)
    bound(t, *trange(ty))
    return [(st.copy(), ok(dty, ('i', S(t), ty))), (st, err(dty, e))]


@model('str.to_lowercase', 'str.to_uppercase', 'str.to_ascii_lowercase', 'str.to_ascii_uppercase', 'String.to_lowercase')
def lower(eng, st, c, args, dty, site):
    v = textual(eng, st, args[0])
    k = as_str(eng, st, v)
    lo = 'lower' in c.j['name']
    if k is not None:
        k = k.lower() if lo else k.upper()
        return [(st, ('seq', (('k', k),) if k else (), None))]
    return [(st, seqterm(eng, T('lower' if lo else 'upper', eng.term(v)), None))]


@model('str.trim', 'str.trim_start', 'str.trim_end', 'str.trim_matches', 'str.trim_end_matches', 'str.trim_start_matches')
def trim(eng, st, c, args, dty, site):
    v = textual(eng, st, args[0])
    k = as_str(eng, st, v)
    ex = tuple(eng.dterm(st, a) for a in args[1:])
    t = T('trim', c.j['name'], eng.term(v), *ex)
    return [(st, fresh_ref(eng, st, t, seqterm(eng, t, None), False, eng.elem_of(dty)))]


@model('str.starts_with', 'str.ends_with', 'str.contains', 'str.eq_ignore_ascii_case', 'OsStr.eq_ignore_ascii_case')
def starts_with(eng, st, c, args, dty, site):
    v = textual(eng, st, args[0])
    p = eng.deep(st, args[1])
    nm = c.j['name']
    pats = None
    if p[0] == 'i' and p[1].const() is not None:
        pats = [chr(p[1].c)]
    elif p[0] == 'seq':
        k = as_str(eng, st, p)
        if k is not None and (nm == 'eq_ignore_ascii_case' or not all(q[0] == 'e' for q in p[1]) or not p[1]):
            pats = [k]
        elif all(q[0] == 'e' and q[1][0] == 'i' and q[1][1].const() is not None for q in p[1]):
            pats = [chr(q[1][1].c) for q in p[1]]
    if pats is None:
        return fork_bool(st, T('strpred', nm, eng.term(v), fresh('pat')))
    # one sticky fact per pattern; a disjunction over char sets
    out = []
    rest = [st]
    tv = eng.term(v)
    for k in pats:
        nr = []
        for s in rest:
            for s2, r in fork_bool(s, T(nm, tv, k)):
                if r[1] == TRUE:
                    out.append((s2, ('b', TRUE)))
                else:
                    nr.append(s2)
        rest = nr
    return out + [(s, ('b', FALSE)) for s in rest]


@model('str.split_at', 'str.find', 'str.rfind', 'str.split', 'str.splitn', 'str.lines', 'str.split_whitespace', 'str.strip_prefix', 'str.strip_suffix', 'str.repeat', 'str.replace', 'str.rsplit_once', 'str.split_once')
def str_misc(eng, st, c, args, dty, site):
    v = textual(eng, st, args[0])
    ts = (eng.term(v),) + tuple(eng.dterm(st, a) if a[0] != 'cl' else eng.term(a) for a in args[1:])
    if c.j['name'] == 'split_at':
        check(eng, st, ('p', T('nopanic', fresh('q')), True), 'call', 'split_at off a char boundary', site)
    r = eng.opaque(T('strop', c.j['name'], *ts), dty)
    if c.j['name'] in ('find', 'rfind') :
        n = T('strpos', c.j['name'], *ts)
        bound(n, 0, MAXLEN)
        s2 = st.copy()
        s2.add_le(S(n) - eng.seq_len(v) + 1)
        return [(st, none(dty)), (s2, some(dty, usz(S(n))))]
    return [(st, r)]


@model('String.pop', 'String.remove', 'String.truncate', 'String.insert', 'String.insert_str')
def string_mut(eng, st, c, args, dty, site):
    d = target(eng, st, args[0])
    t = fresh('strmut')
    eng.write(st, d[1], seqterm(eng, t, None))
    if eng.ty(dty)['k'] == 'tuple':
        return [(st, UNIT)]
    return [(st, eng.opaque(fresh('popped'), dty))]


@model('alloc.fmt.format', 'fmt.format', 'fmt.format_inner', '*.ToString.to_string', 'T.ToString.to_string', 'T.SpecToString.spec_to_string')
def fmt_format(eng, st, c, args, dty, site):
    t = fresh('text')
    return [(st, seqterm(eng, t, None))]


@model('OsStr.to_string_lossy', 'Path.to_string_lossy', 'Path.display', 'OsStr.display', 'String.from_utf8_lossy')
def lossy(eng, st, c, args, dty, site):
    return [(st, eng.opaque(T('lossy', eng.dterm(st, args[0])), dty))]


@model('OsStr.to_str', 'Path.to_str')
def to_str(eng, st, c, args, dty, site):
    v = contents(eng, st, args[0])
    k = as_str(eng, st, v)
    t = eng.term(v)
    el = eng.elem_of(arg0(eng, dty))
    if k is not None:
        return [(st, some(dty, args[0]))]
    s2 = st.copy()
    return [(st, some(dty, fresh_ref(eng, st, T('utf8', t), seqterm(eng, T('utf8', t), None), False, el))), (s2, none(dty))]


# ------------------------------------------------------------------ formatting
def opaque_fresh(eng, st, c, args, dty, site):
    return [(st, eng.opaque(fresh('fmt'), dty))]


for n in ('Argument.new_debug', 'Argument.new_display', 'Argument.new_lower_hex', 'Argument.new_upper_hex', 'Argument.new_binary', 'Argument.none', 'Arguments.new', 'Arguments.from_str',
          'Arguments.new_const', 'Arguments.new_v1', 'any.type_name', 'Arguments.as_str', 'Argument.new_octal', 'Argument.from_usize', 'rt.Placeholder', 'Placeholder.new', 'Arguments.new_v1_formatted', 'UnsafeArg.new', 'Argument.new_pointer'):
    MODELS[n] = opaque_fresh


@model('Formatter.write_fmt', 'Formatter.write_str', 'Formatter.debug_struct_field1_finish', 'Formatter.debug_struct_field2_finish', 'Formatter.debug_struct_field3_finish',
       'Formatter.debug_struct_field4_finish', 'Formatter.debug_struct_field5_finish', 'Formatter.debug_tuple_field1_finish', 'Formatter.debug_tuple_field2_finish', 'Formatter.debug_struct_fields_finish',
       'Formatter.debug_tuple_fields_finish', 'Formatter.pad', '*.Debug.fmt', '*.Display.fmt', 'Debug.fmt', 'Display.fmt', 'Formatter.write_char', 'fmt.write')
def fmt_write(eng, st, c, args, dty, site):
    if c.j.get('body') and (c.j.get('rkrate') or c.j.get('krate')) in ('huff', 'huff_coding'):
        return None
    return [(st, eng.opaque(fresh('fmtres'), dty))]


# ------------------------------------------------------------------ panics
@model('panicking.panic', 'panicking.panic_fmt', 'panicking.panic_display', 'panicking.panic_str_2015', 'panicking.panic_explicit', 'panicking.begin_panic', 'panicking.unreachable_display',
       'panicking.assert_failed', 'panicking.assert_failed_inner', 'panicking.panic_str', 'panicking.panic_nounwind', 'rt.begin_panic', 'panicking.panic_bounds_check', 'panicking.panic_const_', 'panicking.unreachable')
def panic(eng, st, c, args, dty, site):
    eng.obligation('panic', site, False)
    msg = 'panic'
    for a in args:
        k = as_str(eng, st, a) if a[0] == 'r' else None
        if k:
            msg = f'panic "{k}"'
    eng.panic(st, msg, site)
    return []


@model('option.unwrap_failed', 'option.expect_failed', 'result.unwrap_failed', 'unwrap_failed.unwrap_failed_inner', 'result.unwrap_failed_inner')
def unwrap_failed(eng, st, c, args, dty, site):
    n = c.j.get('rpath') or c.j['path']
    what = 'None' if 'option' in n else 'Err'
    eng.obligation('unwrap', site, False)
    eng.panic(st, f'unwrap of {what}', site)
    return []


@model('process.exit', 'process.abort')
def p_exit(eng, st, c, args, dty, site):
    effect(eng, st, 'exit', (args[0][1].const() if args and args[0][0] == 'i' else None,), site)
    return []


@model('intrinsics.unreachable', 'hint.unreachable_unchecked')
def unreach(eng, st, c, args, dty, site):
    return []


# ------------------------------------------------------------------ bit vectors
@model('BitVec.from_vec', 'BitVec.from_slice', 'BitVec.from_element_')
def bits_from_vec(eng, st, c, args, dty, site):
    v = contents(eng, st, args[0])
    n = eng.seq_len(v).scale(8)
    return [(st, ('seq', (('s', T('bitsof', eng.term(v)), K(0), n),) if n.const() != 0 else (), 'bit'))]


@model('BitVec.into_vec', 'BitVec.as_raw_slice', 'BitVec.to_vec')
def bits_into_vec(eng, st, c, args, dty, site):
    v = contents(eng, st, args[0])
    n = ('i', eng.seq_len(v), 'usize')
    q = eng.arith(st, 'Div', ('i', n[1] + 7, 'usize'), ('i', K(8), 'usize'), 'usize')
    u8 = eng.p.find_ty('u8')
    r = ('seq', (('s', T('bytesof', eng.term(v)), K(0), q),), u8)
    if c.j['name'] == 'as_raw_slice':
        return [(st, fresh_ref(eng, st, T('raw', eng.term(v)), r))]
    return [(st, r)]


@model('internal.u8_from_be_bits', 'internal.u8_from_le_bits')
def from_be_bits(eng, st, c, args, dty, site):
    # the values written between the brackets of bitvec!, most significant first
    vs = list(args)
    if len(vs) == 1:
        v = contents(eng, st, vs[0])
        vs = [eng.seq_elem(st, v, K(i)) for i in range(8)]
    if 'le_bits' in c.j['name']:
        vs = list(reversed(vs))
    r = K(0)
    for i, b in enumerate(vs):
        if b[0] == 'b':
            r = r + eng.b2i(st, b[1]).scale(1 << (7 - i))
            continue
        l = b[1]
        if l.const() is not None:
            r = r + (0 if l.c == 0 else 1 << (7 - i))
        else:
            z = st.holds(c_eq(l))
            t = T('nz', l)
            bound(t, 0, 1)
            bb = interval(l)
            if bb == (0, 1):
                r = r + l.scale(1 << (7 - i))
            else:
                r = r + S(t).scale(1 << (7 - i))
    return [(st, ('i', r, 'u8'))]


@model('BitArray.new')
def bitarray_new(eng, st, c, args, dty, site):
    v = contents(eng, st, args[0])
    ps = []
    if v[0] == 'seq' and all(p[0] == 'e' for p in v[1]):
        for p in v[1]:
            l = p[1][1]
            for i in range(7, -1, -1):
                if l.const() is not None:
                    ps.append(('e', ('b', ('c', bool((l.c >> i) & 1)))))
                    continue
                co = [s for s, k in l.m if k == 1 << i]
                if (len(co) == 1 and interval(S(co[0])) == (0, 1) and all(k & (k - 1) == 0 for _, k in l.m)):
                    ps.append(('e', ('b', c_eq(S(co[0]) - 1))))
                elif all(interval(S(s)) == (0, 1) for s, _ in l.m):
                    ps.append(('e', ('b', ('c', bool((l.c >> i) & 1)))))
                else:
                    ps.append(('e', ('b', ('p', T('bit', l, i), True))))
        return [(st, ('seq', tuple(ps), 'bit'))]
    return [(st, ('seq', (('s', T('bitsof', eng.term(v)), K(0), eng.seq_len(v).scale(8)),), 'bit'))]


@model('BitVec.set', 'BitSlice.set')
def bit_set(eng, st, c, args, dty, site):
    d = target(eng, st, args[0])
    v = eng.read(st, d[1])
    n = eng.seq_len(v)
    out = []
    for s in check(eng, st, c_le(args[1][1] - n + 1), 'bounds', 'bit index out of bounds', site):
        eng.write(s, d[1], eng.seq_store(s, v, args[1][1], args[2]))
        out.append((s, UNIT))
    return out


# ------------------------------------------------------------------ BinaryHeap
@model('BinaryHeap.new', 'BinaryHeap.with_capacity')
def heap_new(eng, st, c, args, dty, site):
    return [(st, ('o', 'heap', K(0), arg0(eng, dty)))]


def heap_val(eng, st, r):
    v = eng.read(st, r[1])
    if v[0] == 's':
        ety = arg0(eng, v[2]) if v[2] is not None else None
        return ('o', 'heap', eng.lenof(T('heap', v[1])), ety)
    return v


@model('BinaryHeap.push')
def heap_push(eng, st, c, args, dty, site):
    r = target(eng, st, args[0])
    h = heap_val(eng, st, r)
    effect(eng, st, 'heap.push', (h, args[1]), site)
    eng.write(st, r[1], ('o', 'heap', h[2] + 1, h[3]))
    return [(st, UNIT)]


@model('BinaryHeap.pop')
def heap_pop(eng, st, c, args, dty, site):
    r = target(eng, st, args[0])
    h = heap_val(eng, st, r)
    out = []
    y, n = split_cond(st, c_le(K(1) - h[2]))
    for s in own(y, st):
        t = fresh('heapmin')
        for hk in eng.hooks:
            f = getattr(hk, 'heap_item', None)
            if f:
                f(eng, s, t)
        eng.write(s, r[1], ('o', 'heap', h[2] - 1, h[3]))
        x = eng.opaque(t, h[3] if h[3] is not None else arg0(eng, dty))
        effect(eng, s, 'heap.pop', (h, x), site)
        out.append((s, some(dty, x)))
    for s in own(n, st):
        out.append((s, none(dty)))
    return out


@model('BinaryHeap.peek')
def heap_peek(eng, st, c, args, dty, site):
    r = target(eng, st, args[0])
    h = heap_val(eng, st, r)
    y, n = split_cond(st, c_le(K(1) - h[2]))
    out = []
    for s in own(y, st):
        t = fresh('heappeek')
        el = h[3]
        out.append((s, some(dty, fresh_ref(eng, s, t, eng.opaque(t, el), False, el))))
    return out + [(s, none(dty)) for s in own(n, st)]


@model('BinaryHeap.len')
def heap_len(eng, st, c, args, dty, site):
    return [(st, usz(heap_val(eng, st, target(eng, st, args[0]))[2]))]


@model('BinaryHeap.is_empty')
def heap_empty(eng, st, c, args, dty, site):
    return [(st, ('b', c_eq(heap_val(eng, st, target(eng, st, args[0]))[2])))]


# ------------------------------------------------------------------ HashMap
@model('HashMap.new', 'HashMap.with_hasher', 'HashMap.with_capacity', 'HashMap.with_capacity_and_hasher', 'BTreeMap.new')
def map_new(eng, st, c, args, dty, site):
    t = eng.ty(dty)
    return [(st, ('o', 'map', T('emptymap'), K(0), t['args'][1] if len(t['args']) > 1 else None))]


def map_val(eng, st, r):
    v = eng.read(st, r[1])
    if v[0] == 's':
        vt = arg0(eng, v[2], 1) if v[2] is not None else None
        return ('o', 'map', v[1], eng.lenof(T('map', v[1])), vt)
    return v


@model('HashMap.get', 'HashMap.get_mut', 'BTreeMap.get', 'BTreeMap.get_mut')
def map_get(eng, st, c, args, dty, site):
    r = target(eng, st, args[0])
    m = map_val(eng, st, r)
    if m[0] != 'o':
        return None
    kt = eng.dterm(st, args[1])
    out = []
    has = T('has', m[2], kt)
    if TERMS[m[2]][0] == 'emptymap':
        return [(st, none(dty))]
    for s, b in fork_bool(st, has):
        if b[1] == TRUE:
            s2 = s.assume(c_le(K(1) - m[3]))
            if not s2:
                continue
            s = s2[0].copy() if s2[0] is s else s2[0]
            el = m[4] if m[4] is not None else eng.elem_of(arg0(eng, dty))
            t = T('mapval', m[2], kt)
            root = ('O', t)
            eng.oty.setdefault(t, el)
            effect(eng, s, 'map.get', (m, kt, t), site)
            out.append((s, some(dty, ('r', (root, ()), c.j['name'] == 'get_mut', el))))
        else:
            out.append((s, none(dty)))
    return out


@model('HashMap.contains_key')
def map_contains(eng, st, c, args, dty, site):
    m = map_val(eng, st, target(eng, st, args[0]))
    if m[0] != 'o':
        return None
    return fork_bool(st, T('has', m[2], eng.dterm(st, args[1])))


@model('HashMap.Index.index')
def map_index(eng, st, c, args, dty, site):
    m = map_val(eng, st, target(eng, st, args[0]))
    if m[0] != 'o':
        return None
    kt = eng.dterm(st, args[1])
    out = []
    for s in check(eng, st, ('p', T('has', m[2], kt), True), 'call', 'missing map key', site):
        el = m[4]
        t = T('mapval', m[2], kt)
        eng.oty.setdefault(t, el)
        out.append((s, ('r', (('O', t), ()), False, el)))
    return out


@model('HashMap.insert', 'BTreeMap.insert')
def map_insert(eng, st, c, args, dty, site):
    r = target(eng, st, args[0])
    m = map_val(eng, st, r)
    if m[0] != 'o':
        return None
    effect(eng, st, 'map.insert', (m, args[1], args[2]), site)
    t = fresh('map')
    n = S(fresh('maplen', 0, MAXLEN))
    st.add_le(m[3] - n)
    st.add_le(n - m[3] - 1)
    st.add_le(K(1) - n)
    eng.write(st, r[1], ('o', 'map', t, n, m[4]))
    return [(st, eng.opaque(fresh('old'), dty))]


@model('HashMap.remove')
def map_remove(eng, st, c, args, dty, site):
    r = target(eng, st, args[0])
    m = map_val(eng, st, r)
    if m[0] != 'o':
        return None
    n = S(fresh('maplen', 0, MAXLEN))
    st.add_le(n - m[3])
    eng.write(st, r[1], ('o', 'map', fresh('map'), n, m[4]))
    return [(st, eng.opaque(fresh('old'), dty))]


@model('HashMap.len')
def map_len(eng, st, c, args, dty, site):
    m = map_val(eng, st, target(eng, st, args[0]))
    return [(st, usz(m[3]))] if m[0] == 'o' else None


@model('HashMap.is_empty')
def map_is_empty(eng, st, c, args, dty, site):
    m = map_val(eng, st, target(eng, st, args[0]))
    return [(st, ('b', c_eq(m[3])))] if m[0] == 'o' else None


@model('HashMap.entry')
def map_entry(eng, st, c, args, dty, site):
    r = target(eng, st, args[0])
    return [(st, ('o', 'entry', r, args[1]))]


@model('Entry.or_insert', 'Entry.or_default', 'Entry.or_insert_with')
def or_insert(eng, st, c, args, dty, site):
    e = args[0]
    if e[0] != 'o' or e[1] != 'entry':
        return None
    r = e[2]
    m = map_val(eng, st, r)
    el = eng.elem_of(dty)
    kt = eng.term(e[3])
    t = T('mapval', m[2], kt)
    if c.j['name'] == 'or_insert':
        init = args[1]
    elif c.j['name'] == 'or_default':
        init = default_value(eng, el)
    else:
        init = None
    out = []
    eng.oty.setdefault(t, el)
    # present: the stored value; absent: the given one
    a, b = st.copy(), st
    for s, present in ((a, True), (b, False)):
        if present:
            x = s.assume(c_le(K(1) - m[3]))
            if not x or TERMS[m[2]][0] == 'emptymap':
                continue
            s = x[0].copy() if x[0] is s else x[0]
            n = m[3]
            ref = ('r', (('O', t), ()), True, el)
        else:
            n = m[3] + 1
            t2 = fresh('mapnew')
            eng.oty[t2] = el
            v = init if init is not None else eng.opaque(t2, el)
            ref = fresh_ref(eng, s, t2, v, True, el)
        effect(eng, s, 'map.entry', (m, e[3], present, ref), site)
        nm = fresh('map')
        eng.write(s, r[1], ('o', 'map', nm, n, m[4]))
        out.append((s, ref))
    return out


@model('Entry.and_modify')
def and_modify(eng, st, c, args, dty, site):
    e = args[0]
    if e[0] != 'o' or e[1] != 'entry':
        return None
    m = map_val(eng, st, e[2])
    el = m[4]
    t = T('mapval', m[2], eng.term(e[3]))
    if el is not None:
        eng.oty.setdefault(t, el)
    out = [(st.copy(), e)]
    for s, _ in eng.call_value(st, args[1], [('r', (('O', t), ()), True, el)], eng.p.find_ty('()'), site):
        out.append((s, e))
    return out


@model('HashMap.IntoIterator.into_iter', 'HashMap.iter', 'HashMap.keys', 'HashMap.values', 'HashMap.iter_mut', 'HashMap.into_keys', 'HashMap.into_values', 'HashMap.drain', 'HashMap.values_mut')
def map_iter(eng, st, c, args, dty, site):
    m = eng.deep(st, args[0])
    if m[0] == 's':
        m = ('o', 'map', m[1], eng.lenof(T('map', m[1])), None)
    if m[0] != 'o':
        return None
    return [(st, ('o', 'mit', m[2], K(0), m[3]))]


def map_iter_next(eng, st, c, args, dty, site):
    r = target(eng, st, args[0])
    it = eng.read(st, r[1])
    if it[0] != 'o' or it[1] != 'mit':
        return _NX(eng, st, c, args, dty, site)
    out = []
    y, n = split_cond(st, c_le(it[3] - it[4] + 1))
    for s in own(y, st):
        eng.write(s, r[1], ('o', 'mit', it[2], it[3] + 1, it[4]))
        out.append((s, some(dty, eng.opaque(T('mapitem', it[2], it[3]), arg0(eng, dty)))))
    for s in own(n, st):
        out.append((s, none(dty)))
    return out


for n in ('IntoIter', 'Iter', 'IterMut', 'Keys', 'Values', 'IntoKeys', 'IntoValues', 'Drain', 'ValuesMut'):
    MODELS[f'{n}.Iterator.next'] = map_iter_next


@model('RandomState.Default.default', 'RandomState.new')
def rs(eng, st, c, args, dty, site):
    return [(st, eng.opaque(T('randomstate'), dty))]


# ------------------------------------------------------------------ the library's traits on unknown types
@model('ws.HuffLetterAsBytes.try_from_be_bytes')
def l_try_from(eng, st, c, args, dty, site):
    v = contents(eng, st, args[0])
    effect(eng, st, 'letter.from', (v,), site)
    t = T('letter', eng.term(v))
    return [(st.copy(), ok(dty, eng.opaque(t, arg0(eng, dty)))), (st, err(dty, eng.opaque(fresh('lerr'), arg0(eng, dty, 1))))]


@model('ws.HuffLetterAsBytes.as_be_bytes')
def l_as_bytes(eng, st, c, args, dty, site):
    t = T('letterbytes', eng.dterm(st, args[0]))
    u8 = eng.p.find_ty('u8')
    return [(st, ('x', ('seq', (('s', t, K(0), eng.lenof(t)),), u8)))]


@model('ws.Weights.is_empty')
def w_empty(eng, st, c, args, dty, site):
    t = eng.dterm(st, args[0])
    return [(st, ('b', c_eq(eng.lenof(T('weights', t)))))]


@model('ws.Weights.len')
def w_len(eng, st, c, args, dty, site):
    return [(st, usz(eng.lenof(T('weights', eng.dterm(st, args[0])))))]


@model('ws.Weights.get', 'ws.Weights.get_mut')
def w_get(eng, st, c, args, dty, site):
    t = T('wget', eng.dterm(st, args[0]), eng.dterm(st, args[1]))
    return [(st, eng.opaque(t, dty))]


@model('IntoIterator.into_iter')
def generic_into_iter(eng, st, c, args, dty, site):
    if c.j.get('body') or c.j.get('default'):
        return None
    v = args[0]
    t = eng.dterm(st, v)
    if v[0] == 'o':
        return [(st, v)]
    return [(st, ('o', 'git', t, K(0), eng.lenof(T('weights', t))))]


@model('Iterator.next')
def generic_next(eng, st, c, args, dty, site):
    if c.j.get('body') or c.j.get('default'):
        return None
    r = target(eng, st, args[0])
    it = eng.read(st, r[1])
    if it[0] == 'o' and it[1] == 'git':
        out = []
        y, n = split_cond(st, c_le(it[3] - it[4] + 1))
        for s in own(y, st):
            eng.write(s, r[1], ('o', 'git', it[2], it[3] + 1, it[4]))
            out.append((s, some(dty, eng.opaque(T('witem', it[2], it[3]), arg0(eng, dty)))))
        for s in own(n, st):
            out.append((s, none(dty)))
        return out
    if it[0] == 'o' and it[1] == 'it':
        return _NX(eng, st, c, args, dty, site)
    return unknown_next(eng, st, c, args, dty, site)


# ------------------------------------------------------------------ threads, time
@model('functions.spawn', 'thread.spawn')
def spawn(eng, st, c, args, dty, site):
    out = []
    rt = arg0(eng, dty)
    for s, v in eng.call_value(st, args[0], [], rt, site):
        s = s.copy()
        effect(eng, s, 'spawn', (v,), site)
        out.append((s, ('o', 'join', v)))
    return out


@model('JoinHandle.join', 'ScopedJoinHandle.join')
def join(eng, st, c, args, dty, site):
    h = args[0]
    v = h[2] if h[0] == 'o' and h[1] == 'join' else eng.opaque(T('joined', eng.term(h)), arg0(eng, dty))
    effect(eng, st, 'join', (v,), site)
    # Err only if the thread panicked, which is reported at the thread's own body
    return [(st, ok(dty, v))]


@model('Instant.elapsed', 'Instant.duration_since', 'Instant.Sub.sub', 'Instant.saturating_duration_since', 'SystemTime.elapsed', 'SystemTime.duration_since')
def elapsed(eng, st, c, args, dty, site):
    effect(eng, st, 'elapsed', (), site)
    return opaque_fresh(eng, st, c, args, dty, site)


for n in ('Instant.now', 'SystemTime.now', 'Duration.as_secs_f64', 'Duration.as_millis', 'Duration.as_micros', 'Duration.as_nanos', 'Duration.subsec_millis', 'Duration.as_secs', 'Duration.as_secs_f32'):
    MODELS[n] = opaque_fresh


# ------------------------------------------------------------------ command line
ARGS = {'always': set()}


def cliname(eng, st, v):
    return as_str(eng, st, v)


@model('ArgMatches.is_present')
def is_present(eng, st, c, args, dty, site):
    n = cliname(eng, st, args[1])
    effect(eng, st, 'cli.present', (n,), site)
    if n in ARGS['always']:
        return [(st, ('b', TRUE))]
    return fork_bool(st, T('present', n if n is not None else fresh('arg')))


@model('ArgMatches.occurrences_of')
def occurrences(eng, st, c, args, dty, site):
    n = cliname(eng, st, args[1])
    effect(eng, st, 'cli.present', (n,), site)
    out = []
    for s, b in fork_bool(st, T('present', n if n is not None else fresh('arg'))):
        if b[1] == TRUE:
            t = T('occ', n)
            bound(t, 1, 1 << 32)
            out.append((s, ('i', S(t), eng.tyname(dty))))
        else:
            out.append((s, ('i', K(0), eng.tyname(dty))))
    return out


@model('ArgMatches.value_of', 'ArgMatches.value_of_os', 'ArgMatches.value_of_lossy')
def value_of(eng, st, c, args, dty, site):
    n = cliname(eng, st, args[1])
    kind = c.j['name']
    effect(eng, st, 'cli.value', (n, kind), site)
    if kind == 'value_of':
        eng.obligation('utf8', site, False)
        eng.panic(st, 'value_of of an argument that is not valid UTF-8', site)
    t = T('argval', n if n is not None else fresh('arg'))
    ity = arg0(eng, dty)
    it = eng.ty(ity)
    if it['k'] == 'ref':
        x = fresh_ref(eng, st, t, seqterm(eng, t, None), False, it['elem'])
    else:
        x = ('s', t, ity)
    y = (st.copy(), some(dty, x))
    if n in ARGS['always']:
        return [y]
    return [y, (st, none(dty))]


@model('YamlLoader.load_from_str')
def yaml_load(eng, st, c, args, dty, site):
    t = T('yaml')
    v = ('seq', (('s', t, K(0), K(1)),), arg0(eng, arg0(eng, dty)))
    return [(st, ok(dty, v))]


@model('App.from_yaml', 'App.name', 'App.version', 'App.author', 'App.about', 'App.setting', 'App.long_version', 'App.after_help', 'App.bin_name')
def app_ops(eng, st, c, args, dty, site):
    return [(st, eng.opaque(T('app'), dty))]


@model('App.get_matches', 'App.get_matches_from')
def get_matches(eng, st, c, args, dty, site):
    return [(st, eng.opaque(T('matches'), dty))]


# ------------------------------------------------------------------ paths
def pathterm_of(eng, v):
    """term of a path made from text"""
    if v[0] == 's':
        return v[1]
    if v[0] == 'seq':
        if not v[1]:
            return T('pathlit', '')
        if all(p[0] == 'k' for p in v[1]):
            return T('pathlit', ''.join(p[1] for p in v[1]))
        if len(v[1]) >= 1 and v[1][-1][0] == 'k':
            t = ('seq', v[1][:-1], v[2])
            return T('cat', pathterm_of(eng, t), v[1][-1][1])
        return eng.term(v)
    return eng.term(v)


def pterm(eng, st, v):
    return pathterm_of(eng, contents(eng, st, v))


def pathval(eng, dty, t):
    return ('s', t, dty)


@model('PathBuf.From.from', 'PathBuf.from', 'PathBuf.FromStr.from_str_', 'Path.to_path_buf', 'PathBuf.new')
def path_from(eng, st, c, args, dty, site):
    if not args:
        return [(st, pathval(eng, dty, T('pathlit', '')))]
    return [(st, pathval(eng, dty, pterm(eng, st, args[0])))]


@model('Path.new')
def path_new(eng, st, c, args, dty, site):
    r = target(eng, st, args[0])
    v = eng.read(st, r[1])
    if v[0] == 's':
        return [(st, r)]
    t = pathterm_of(eng, v)
    el = eng.elem_of(dty)
    return [(st, fresh_ref(eng, st, T('pathobj', t), ('s', t, el), False, el))]


def join_term(a, b):
    if TERMS[a] == ('pathlit', ''):
        return b
    return T('pjoin', a, b)


@model('PathBuf.push')
def path_push(eng, st, c, args, dty, site):
    d = target(eng, st, args[0])
    v = eng.read(st, d[1])
    eng.write(st, d[1], ('s', join_term(pathterm_of(eng, v), pterm(eng, st, args[1])), v[2] if v[0] == 's' else None))
    return [(st, UNIT)]


@model('Path.join')
def path_join(eng, st, c, args, dty, site):
    return [(st, pathval(eng, dty, join_term(pterm(eng, st, args[0]), pterm(eng, st, args[1]))))]


@model('PathBuf.set_file_name', 'PathBuf.pop', 'Path.with_file_name')
def set_file_name(eng, st, c, args, dty, site):
    n = c.j['name']
    if n == 'with_file_name':
        return [(st, pathval(eng, dty, T('setfn', pterm(eng, st, args[0]), pterm(eng, st, args[1]))))]
    d = target(eng, st, args[0])
    v = eng.read(st, d[1])
    if n == 'pop':
        eng.write(st, d[1], ('s', T('parent', pathterm_of(eng, v)), v[2]))
        return fork_bool(st, T('haspar', pathterm_of(eng, v)))
    eng.write(st, d[1], ('s', T('setfn', pathterm_of(eng, v), pterm(eng, st, args[1])), v[2]))
    return [(st, UNIT)]


def wext_term(eng, st, p, e):
    """e: text value"""
    return T('wext', p, eng.term(e) if as_str(eng, st, e) is None else T('str', as_str(eng, st, e)))


@model('Path.with_extension')
def with_extension(eng, st, c, args, dty, site):
    e = textual(eng, st, args[1])
    return [(st, pathval(eng, dty, wext(eng, st, pterm(eng, st, args[0]), e)))]


def wext(eng, st, p, e):
    k = as_str(eng, st, e)
    ps = e[1]
    hasext = st.preds.get(T('hasext', p))
    x = T('ext', p)
    # extension + ".suffix": appends to the name
    if len(ps) == 2 and ps[0][0] == 's' and ps[0][1] == x and ps[1][0] == 'k' and ps[0][2] == K(0) and ps[0][3] == eng.lenof(x):
        if ps[1][1].startswith('.'):
            return T('cat', p, ps[1][1])
        if st.holds_eq(eng.lenof(x)):
            return T('cat', p, ps[1][1], 'dot')
    if k is not None and k != '' and st.preds.get(T('hasext', p)) is False:
        return T('cat', p, '.' + k)
    if k and hasext and st.holds_eq(eng.lenof(x)):   # the name already ends with a dot
        return T('cat', p, k, 'dot')
    if k is not None:
        return T('wext', p, k)
    return T('wextv', p, eng.term(e))


@model('PathBuf.set_extension')
def set_extension(eng, st, c, args, dty, site):
    d = target(eng, st, args[0])
    v = eng.read(st, d[1])
    eng.write(st, d[1], ('s', wext(eng, st, pathterm_of(eng, v), textual(eng, st, args[1])), v[2]))
    return [(st, eng.opaque(fresh('setext'), dty))]


@model('PathBuf.add_extension')
def add_extension(eng, st, c, args, dty, site):
    d = target(eng, st, args[0])
    v = eng.read(st, d[1])
    k = as_str(eng, st, textual(eng, st, args[1]))
    eng.write(st, d[1], ('s', T('cat', pathterm_of(eng, v), '.' + k) if k else fresh('path'), v[2]))
    return [(st, eng.opaque(fresh('setext'), dty))]


@model('Path.with_added_extension')
def with_added(eng, st, c, args, dty, site):
    k = as_str(eng, st, textual(eng, st, args[1]))
    return [(st, pathval(eng, dty, T('cat', pterm(eng, st, args[0]), '.' + k) if k else fresh('path')))]


@model('Path.extension', 'Path.file_name', 'Path.file_stem', 'Path.parent')
def path_part(eng, st, c, args, dty, site):
    p = pterm(eng, st, args[0])
    n = c.j['name']
    h = {'extension': 'ext', 'file_name': 'fname', 'file_stem': 'stem', 'parent': 'parent'}[n]
    t = T(h, p)
    el = eng.elem_of(arg0(eng, dty))
    out = []
    for s, b in fork_bool(st, T('has' + h, p)):
        if b[1] == TRUE:
            if n == 'parent':
                x = fresh_ref(eng, s, T('obj', t), ('s', t, el), False, el)
            else:
                x = fresh_ref(eng, s, T('obj', t), seqterm(eng, t, None), False, el)
                if n == 'file_name':
                    s.add_le(K(1) - eng.lenof(t))
            out.append((s, some(dty, x)))
        else:
            out.append((s, none(dty)))
    return out


@model('Path.exists', 'Path.is_dir', 'Path.is_file', 'Path.is_symlink', 'Path.is_absolute', 'Path.has_root', 'Path.is_relative', 'fs.exists_')
def path_pred(eng, st, c, args, dty, site):
    p = pterm(eng, st, args[0])
    n = c.j['name']
    effect(eng, st, 'path.' + n, (p,), site)
    ep = epoch(st)
    t = T(n, p) if not ep else T(n, p, ep)
    r = fork_bool(st, t)
    if n in ('is_dir', 'is_file'):
        out = []
        for s, b in r:
            e = T('exists', p) if not ep else T('exists', p, ep)
            if b[1] == TRUE and s.preds.get(e) is False:
                continue
            out.append((s, b))
        return out
    if n == 'exists':
        return [(s, b) for s, b in r if not (b[1] == FALSE and any(s.preds.get(T(q, p)) for q in ('is_dir', 'is_file')))]
    return r


def exists_term(st, p):
    ep = epoch(st)
    return T('exists', p) if not ep else T('exists', p, ep)


def epoch(st):
    """bumped by operations that change what exists"""
    v = st.mem.get(('M', 'epoch'))
    return v[1].c if v else 0


def bump(st):
    st.mem[('M', 'epoch')] = ('i', K(epoch(st) + 1 if epoch(st) < 3 else 3), 'usize')


@model('Path.try_exists', 'fs.exists')
def try_exists(eng, st, c, args, dty, site):
    p = pterm(eng, st, args[0])
    effect(eng, st, 'path.exists', (p,), site)
    out = [(st.copy(), err(dty, ioerr(eng, dty)))]
    for s, b in fork_bool(st, exists_term(st, p)):
        out.append((s, ok(dty, b)))
    return out


@model('PathBuf.PartialEq.eq', 'Path.PartialEq.eq', 'PathBuf.PartialEq.ne', 'Path.PartialEq.ne')
def path_eq(eng, st, c, args, dty, site):
    a, b = pterm(eng, st, args[0]), pterm(eng, st, args[1])
    want = c.j['name'] == 'eq'
    if a == b:
        return [(st, ('b', ('c', want)))]
    t = T('patheq', *sorted([a, b]))
    effect(eng, st, 'path.eq', (a, b), site)
    return [(s, v if want else ('b', neg(v[1]))) for s, v in fork_bool(st, t)]


@model('Path.canonicalize', 'fs.canonicalize', 'Path.read_link', 'fs.read_link', 'path.absolute')
def canonicalize(eng, st, c, args, dty, site):
    p = pterm(eng, st, args[0])
    e = st.copy()
    x = exists_term(st, p) if c.j['name'] == 'canonicalize' else None
    out = []
    if x is None or st.preds.get(x) is not False:
        if x is not None:
            st.preds[x] = True
            effect(eng, st, 'canonicalize', (p, True), site)
        out.append((st, ok(dty, pathval(eng, arg0(eng, dty), T('canon', p)))))
    if x is None or e.preds.get(x) is not True:
        if x is not None:
            e.preds[x] = False
            effect(eng, e, 'canonicalize', (p, False), site)
        out.append((e, err(dty, ioerr(eng, dty))))
    return out


@model('Path.starts_with', 'Path.ends_with')
def path_starts(eng, st, c, args, dty, site):
    return fork_bool(st, T('path' + c.j['name'], pterm(eng, st, args[0]), pterm(eng, st, args[1])))


# ------------------------------------------------------------------ files
def ioerr(eng, dty):
    return eng.opaque(T('ioerr', fresh('e')), arg0(eng, dty, 1))


def io_result(eng, st, dty, okv, kind, info, site):
    """fork into Ok(okv) and Err; the effect is announced on both with its outcome"""
    e = st.copy()
    out = []
    effect(eng, st, kind, info + (True,), site)
    out.append((st, ok(dty, okv)))
    effect(eng, e, kind, info + (False,), site)
    out.append((e, err(dty, ioerr(eng, dty))))
    return out


def mkfile(fh, mode):
    return ('o', 'file', fh, mode)


@model('File.open')
def file_open(eng, st, c, args, dty, site):
    p = pterm(eng, st, args[0])
    fh = T('fh', p, 'r')
    e = st.copy()
    st.mem[('M', 'pos', fh)] = ('i', K(0), 'u64')
    x = exists_term(st, p)
    out = []
    if st.preds.get(x) is not False:
        effect(eng, st, 'open', (p, 'r', fh, True), site)
        out.append((st, ok(dty, mkfile(fh, 'r'))))
    effect(eng, e, 'open', (p, 'r', fh, False), site)
    return out + [(e, err(dty, ioerr(eng, dty)))]


@model('File.create', 'File.create_new', 'File.options_')
def file_create(eng, st, c, args, dty, site):
    p = pterm(eng, st, args[0])
    fh = T('fh', p, 'w')
    mode = 'create' if c.j['name'] == 'create' else 'create_new'
    effect(eng, st, 'before_create', (p, mode, fh), site)
    e = st.copy()
    st.mem[('M', 'out', fh)] = ('seq', (), eng.p.find_ty('u8'))
    st.mem[('M', 'pos', fh)] = ('i', K(0), 'u64')
    effect(eng, st, 'open', (p, mode, fh, True), site)
    effect(eng, e, 'open', (p, mode, fh, False), site)
    bump(st)
    return [(st, ok(dty, mkfile(fh, 'w'))), (e, err(dty, ioerr(eng, dty)))]


@model('OpenOptions.new', 'File.options')
def oo_new(eng, st, c, args, dty, site):
    return [(st, ('o', 'oo', ()))]


@model('OpenOptions.read', 'OpenOptions.write', 'OpenOptions.append', 'OpenOptions.truncate', 'OpenOptions.create', 'OpenOptions.create_new')
def oo_flag(eng, st, c, args, dty, site):
    r = target(eng, st, args[0])
    v = eng.read(st, r[1])
    b = args[1][1]
    h = st.holds(b)
    fl = set(v[2]) if v[0] == 'o' else set()
    if h is False:
        fl.discard(c.j['name'])
    else:
        fl.add(c.j['name'])
    eng.write(st, r[1], ('o', 'oo', tuple(sorted(fl))))
    return [(st, args[0])]


@model('OpenOptions.open')
def oo_open(eng, st, c, args, dty, site):
    v = eng.deep(st, args[0])
    p = pterm(eng, st, args[1])
    fl = v[2] if v[0] == 'o' else ('write', 'create', 'truncate')
    if not ({'write', 'append', 'create', 'truncate', 'create_new'} & set(fl)):
        return file_open(eng, st, c, [args[1]], dty, site)
    fh = T('fh', p, 'w')
    mode = 'create_new' if 'create_new' in fl else 'create' if 'truncate' in fl else 'append' if 'append' in fl else 'update'
    effect(eng, st, 'before_create', (p, mode, fh), site)
    e = st.copy()
    st.mem[('M', 'out', fh)] = ('seq', (), eng.p.find_ty('u8')) if 'truncate' in fl or 'create_new' in fl else seqterm(eng, fresh('oldcontent'), eng.p.find_ty('u8'))
    st.mem[('M', 'pos', fh)] = ('i', K(0), 'u64')
    effect(eng, st, 'open', (p, mode, fh, True), site)
    effect(eng, e, 'open', (p, mode, fh, False), site)
    bump(st)
    return [(st, ok(dty, mkfile(fh, 'w'))), (e, err(dty, ioerr(eng, dty)))]


@model('BufReader.new', 'BufReader.with_capacity')
def bufreader(eng, st, c, args, dty, site):
    return [(st, args[-1])]


@model('BufWriter.new', 'BufWriter.with_capacity', 'LineWriter.new')
def bufwriter(eng, st, c, args, dty, site):
    v = eng.deep(st, args[-1])
    if v[0] == 'o' and v[1] == 'file':
        return [(st, ('o', 'file', v[2], 'buf'))]
    return [(st, args[-1])]


@model('BufWriter.into_inner', 'BufReader.into_inner')
def buf_inner(eng, st, c, args, dty, site):
    v = args[0]
    if eng.ty(dty).get('path') == 'core::result::Result':
        fh = v[2] if v[0] == 'o' else fresh('fh')
        inner = mkfile(fh, 'w')
        return io_result(eng, st, dty, inner, 'flush', (fh,), site)
    return [(st, v)]


@model('BufWriter.get_ref', 'BufWriter.get_mut', 'BufReader.get_ref', 'BufReader.get_mut')
def buf_get(eng, st, c, args, dty, site):
    return same_target(eng, st, c, args, dty, site)


def stream(eng, st, v):
    v = eng.deep(st, v)
    if v[0] == 'o' and v[1] == 'file':
        return v[2], v[3]
    if v[0] == 'o' and v[1] == 'std':
        return v[2], 'std'
    if v[0] == 's':
        return v[1], '?'
    return None, None


def getpos(eng, st, fh):
    v = st.mem.get(('M', 'pos', fh))
    if v is None:
        v = ('i', S(fresh('pos', 0, MAXLEN)), 'u64')
        st.mem[('M', 'pos', fh)] = v
    return v[1]


def generation(st, fh):
    v = st.mem.get(('M', 'gen', fh))
    return v[1] if v else 0


def data_piece(eng, st, fh, pos, n):
    g = generation(st, fh)
    return ('s', T('fdata', fh, g), pos, n)


@model('*.Read.read_exact', 'File.read_exact', 'Read.read_exact')
def read_exact(eng, st, c, args, dty, site):
    fh, mode = stream(eng, st, args[0])
    if fh is None:
        return None
    d = target(eng, st, args[1])
    n = eng.seq_len(eng.read(st, d[1]))
    pos = getpos(eng, st, fh)
    e = st.copy()
    eng.write(st, d[1], ('seq', (data_piece(eng, st, fh, pos, n),), eng.p.find_ty('u8')))
    st.mem[('M', 'pos', fh)] = ('i', pos + n, 'u64')
    effect(eng, st, 'read', (fh, n, True, 'exact'), site)
    effect(eng, e, 'read', (fh, n, False, 'exact'), site)
    eng.havoc_ref(e, d)
    return [(st, ok(dty, UNIT)), (e, err(dty, ioerr(eng, dty)))]


@model('*.Read.read', 'Read.read')
def read_some(eng, st, c, args, dty, site):
    fh, mode = stream(eng, st, args[0])
    if fh is None:
        return None
    d = target(eng, st, args[1])
    cur = eng.read(st, d[1])
    n = eng.seq_len(cur)
    pos = getpos(eng, st, fh)
    e = st.copy()
    k = S(fresh('nread', 0, MAXLEN))
    st.add_le(k - n)
    ps = (data_piece(eng, st, fh, pos, k),) + eng.subseq(st, cur, k, n - k)[1]
    eng.write(st, d[1], ('seq', eng.norm_pieces(ps), eng.p.find_ty('u8')))
    st.mem[('M', 'pos', fh)] = ('i', pos + k, 'u64')
    effect(eng, st, 'read', (fh, n, True, 'some'), site)
    effect(eng, e, 'read', (fh, n, False, 'some'), site)
    return [(st, ok(dty, usz(k))), (e, err(dty, ioerr(eng, dty)))]


@model('*.Read.read_to_end', 'Read.read_to_end', '*.Read.read_to_string')
def read_to_end(eng, st, c, args, dty, site):
    fh, mode = stream(eng, st, args[0])
    if fh is None:
        return None
    pos = getpos(eng, st, fh)
    e = st.copy()
    k = S(fresh('nread', 0, MAXLEN))
    append_to(eng, st, args[1], (data_piece(eng, st, fh, pos, k),), eng.p.find_ty('u8'))
    st.mem[('M', 'pos', fh)] = ('i', pos + k, 'u64')
    effect(eng, st, 'read', (fh, k, True, 'end'), site)
    effect(eng, e, 'read', (fh, k, False, 'end'), site)
    return [(st, ok(dty, usz(k))), (e, err(dty, ioerr(eng, dty)))]


@model('fs.read', 'fs.read_to_string')
def fs_read(eng, st, c, args, dty, site):
    p = pterm(eng, st, args[0])
    fh = T('fh', p, 'r')
    e = st.copy()
    effect(eng, st, 'open', (p, 'r', fh, True), site)
    effect(eng, e, 'open', (p, 'r', fh, False), site)
    k = S(fresh('nread', 0, MAXLEN))
    return [(st, ok(dty, ('seq', (data_piece(eng, st, fh, K(0), k),), eng.p.find_ty('u8')))), (e, err(dty, ioerr(eng, dty)))]


def put_data(eng, st, fh, v):
    """write v at the stream position"""
    root = ('M', 'out', fh)
    cur = st.mem.get(root)
    pos = getpos(eng, st, fh)
    n = eng.seq_len(v)
    u8 = eng.p.find_ty('u8')
    if cur is None or cur[0] != 'seq':
        t = fresh('out')
        st.mem[root] = seqterm(eng, t, u8)
    else:
        ln = eng.seq_len(cur)
        if st.holds_eq(pos - ln):
            st.mem[root] = ('seq', eng.norm_pieces(cur[1] + _pieces(eng, v)), u8)
        elif st.holds_le(pos + n - ln):
            a = eng.subseq(st, cur, K(0), pos)
            b = eng.subseq(st, cur, pos + n, ln - pos - n)
            st.mem[root] = ('seq', eng.norm_pieces(a[1] + _pieces(eng, v) + b[1]), u8)
        elif st.holds_le(pos - ln) and st.holds_le(ln - pos - n):
            a = eng.subseq(st, cur, K(0), pos)
            st.mem[root] = ('seq', eng.norm_pieces(a[1] + _pieces(eng, v)), u8)
        else:
            t = fresh('out')
            st.mem[root] = seqterm(eng, t, u8)
            st.add_le(pos + n - eng.lenof(t))
            st.add_le(ln - eng.lenof(t))
    st.mem[('M', 'pos', fh)] = ('i', pos + n, 'u64')


@model('*.Write.write_all', 'Write.write_all')
def write_all(eng, st, c, args, dty, site):
    fh, mode = stream(eng, st, args[0])
    if fh is None:
        return None
    v = contents(eng, st, args[1])
    if mode == 'std':
        return io_result(eng, st, dty, UNIT, 'stdout', (fh,), site)
    e = st.copy()
    effect(eng, st, 'write', (fh, v, True, mode), site)
    put_data(eng, st, fh, v)
    effect(eng, e, 'write', (fh, v, False, mode), site)
    return [(st, ok(dty, UNIT)), (e, err(dty, ioerr(eng, dty)))]


@model('*.Write.write', 'Write.write')
def write_some(eng, st, c, args, dty, site):
    fh, mode = stream(eng, st, args[0])
    if fh is None:
        return None
    v = contents(eng, st, args[1])
    if mode == 'std':
        return io_result(eng, st, dty, usz(S(fresh('nw', 0, MAXLEN))), 'stdout', (fh,), site)
    n = eng.seq_len(v)
    e = st.copy()
    p = st.copy()
    # everything written
    effect(eng, st, 'write', (fh, v, True, mode), site)
    put_data(eng, st, fh, v)
    # a short write
    k = S(fresh('nwritten', 0, MAXLEN))
    p.add_le(k + 1 - n)
    effect(eng, p, 'write', (fh, v, 'short', mode), site)
    put_data(eng, p, fh, eng.subseq(p, v, K(0), k))
    effect(eng, e, 'write', (fh, v, False, mode), site)
    return [(st, ok(dty, usz(n))), (p, ok(dty, usz(k))), (e, err(dty, ioerr(eng, dty)))]


@model('*.Write.write_fmt', 'Write.write_fmt')
def write_fmt(eng, st, c, args, dty, site):
    fh, mode = stream(eng, st, args[0])
    if fh is None:
        return [(st, eng.opaque(fresh('wf'), dty))]
    if mode == 'std':
        return io_result(eng, st, dty, UNIT, 'stdout', (fh,), site)
    t = fresh('text')
    v = seqterm(eng, t, eng.p.find_ty('u8'))
    e = st.copy()
    effect(eng, st, 'write', (fh, v, True, mode), site)
    put_data(eng, st, fh, v)
    effect(eng, e, 'write', (fh, v, False, mode), site)
    return [(st, ok(dty, UNIT)), (e, err(dty, ioerr(eng, dty)))]


@model('*.Write.flush', 'Write.flush', 'File.sync_all', 'File.sync_data')
def flush(eng, st, c, args, dty, site):
    fh, mode = stream(eng, st, args[0])
    if fh is None:
        return None
    if mode == 'std':
        return io_result(eng, st, dty, UNIT, 'stdout', (fh,), site)
    return io_result(eng, st, dty, UNIT, 'flush' if c.j['name'] == 'flush' else 'sync', (fh,), site)


@model('fs.write')
def fs_write(eng, st, c, args, dty, site):
    p = pterm(eng, st, args[0])
    fh = T('fh', p, 'w')
    effect(eng, st, 'before_create', (p, 'create', fh), site)
    e = st.copy()
    effect(eng, st, 'open', (p, 'create', fh, True), site)
    st.mem[('M', 'out', fh)] = ('seq', (), eng.p.find_ty('u8'))
    st.mem[('M', 'pos', fh)] = ('i', K(0), 'u64')
    v = contents(eng, st, args[1])
    effect(eng, st, 'write', (fh, v, True, 'w'), site)
    put_data(eng, st, fh, v)
    effect(eng, e, 'open', (p, 'create', fh, False), site)
    effect(eng, e, 'write', (fh, v, False, 'w'), site)
    bump(st)
    return [(st, ok(dty, UNIT)), (e, err(dty, ioerr(eng, dty)))]


@model('File.set_len')
def set_len(eng, st, c, args, dty, site):
    fh, mode = stream(eng, st, args[0])
    u8 = eng.p.find_ty('u8')
    e = st.copy()
    effect(eng, st, 'set_len', (fh, args[1][1], True), site)
    cur = st.mem.get(('M', 'out', fh))
    n = args[1][1]
    if cur is not None and st.holds_le(n - eng.seq_len(cur)):
        st.mem[('M', 'out', fh)] = eng.subseq(st, cur, K(0), n)
    else:
        st.mem[('M', 'out', fh)] = ('seq', (('s', fresh('out'), K(0), n),), u8)
    effect(eng, e, 'set_len', (fh, n, False), site)
    return [(st, ok(dty, UNIT)), (e, err(dty, ioerr(eng, dty)))]


@model('*.Seek.seek', 'Seek.seek', '*.Seek.rewind', '*.Seek.seek_relative', 'BufReader.seek_relative')
def seek(eng, st, c, args, dty, site):
    fh, mode = stream(eng, st, args[0])
    if fh is None:
        return None
    pos = getpos(eng, st, fh)
    e = st.copy()
    how = c.j['name']
    new = None
    if how == 'rewind':
        new = K(0)
    elif how == 'seek_relative':
        new = pos + args[1][1]
    else:
        w = args[1]
        if w[0] == 'a':
            nm = eng.ty(w[1])['variants'][w[2]]['name']
            if nm == 'Start':
                new = w[3][0][1]
            elif nm == 'Current':
                new = pos + w[3][0][1]
            else:
                cur = st.mem.get(('M', 'out', fh))
                if cur is not None:
                    new = eng.seq_len(cur) + w[3][0][1]
    if new is None:
        new = S(fresh('pos', 0, MAXLEN))
    if st.holds_le(-new) is False:
        pass
    states = own(st.assume(c_le(-new)), st)
    out = []
    for s in states:
        s.mem[('M', 'pos', fh)] = ('i', new, 'u64')
        if new.const() == 0:
            # re-reading may see other data
            g = generation(s, fh)
            s.mem[('M', 'gen', fh)] = ('g', g + 1 if g < 2 else 2)
        effect(eng, s, 'seek', (fh, new, True), site)
        out.append((s, ok(dty, ('i', new, 'u64') if how == 'seek' else UNIT)))
    effect(eng, e, 'seek', (fh, new, False), site)
    out.append((e, err(dty, ioerr(eng, dty))))
    return out


@model('*.Seek.stream_position', 'Seek.stream_position')
def stream_position(eng, st, c, args, dty, site):
    fh, mode = stream(eng, st, args[0])
    if fh is None:
        return None
    return io_result(eng, st, dty, ('i', getpos(eng, st, fh), 'u64'), 'tell', (fh,), site)


@model('File.metadata', 'fs.metadata', 'Path.metadata', 'fs.symlink_metadata', 'Path.symlink_metadata')
def metadata(eng, st, c, args, dty, site):
    v = eng.deep(st, args[0])
    if v[0] == 'o' and v[1] == 'file':
        t = T('meta', v[2])
        p = TERMS[v[2]][1] if TERMS[v[2]][0] == 'fh' else v[2]
    else:
        p = pterm(eng, st, args[0])
        t = T('meta', T('fh', p, 'r'))
    how = 'file' if v[0] == 'o' and v[1] == 'file' else 'path'
    e = st.copy()
    out = []
    # the file system is taken not to be changed by others between two looks at it
    x = exists_term(st, p) if how == 'path' and not c.j['name'].startswith('symlink') else None
    if x is None or st.preds.get(x) is not False:
        if x is not None:
            st.preds[x] = True
        effect(eng, st, 'metadata', (p, how, True), site)
        out.append((st, ok(dty, ('s', t, arg0(eng, dty)))))
    if x is None or e.preds.get(x) is not True:
        if x is not None:
            e.preds[x] = False
        effect(eng, e, 'metadata', (p, how, False), site)
        out.append((e, err(dty, ioerr(eng, dty))))
    return out


@model('Metadata.len', 'Metadata.MetadataExt.size')
def meta_len(eng, st, c, args, dty, site):
    t = T('flen', eng.dterm(st, args[0]))
    bound(t, 0, MAXLEN)
    return [(st, ('i', S(t), 'u64'))]


@model('Metadata.MetadataExt.dev', 'Metadata.MetadataExt.ino')
def meta_id(eng, st, c, args, dty, site):
    t = T(c.j['name'], eng.dterm(st, args[0]))
    bound(t, 0, (1 << 64) - 1)
    return [(st, ('i', S(t), 'u64'))]


@model('Metadata.is_dir', 'Metadata.is_file')
def meta_pred(eng, st, c, args, dty, site):
    m = TERMS[eng.dterm(st, args[0])]
    p = None
    if m[0] == 'meta' and TERMS[m[1]][0] == 'fh':
        p = TERMS[m[1]][1]
    return fork_bool(st, T(c.j['name'], p if p is not None else eng.dterm(st, args[0])))


@model('fs.remove_file', 'fs.remove_dir', 'fs.remove_dir_all')
def remove_file(eng, st, c, args, dty, site):
    p = pterm(eng, st, args[0])
    effect(eng, st, 'before_remove', (p, c.j['name']), site)
    r = io_result(eng, st, dty, UNIT, 'remove', (p, c.j['name']), site)
    return r


@model('fs.rename', 'fs.copy', 'fs.hard_link', 'unix.symlink', 'fs.soft_link')
def fs_two(eng, st, c, args, dty, site):
    a, b = pterm(eng, st, args[0]), pterm(eng, st, args[1])
    n = c.j['name']
    effect(eng, st, 'before_' + n, (a, b), site)
    okv = UNIT if n != 'copy' else ('i', S(fresh('copied', 0, MAXLEN)), 'u64')
    return io_result(eng, st, dty, okv, n, (a, b), site)


@model('fs.create_dir', 'fs.create_dir_all', 'fs.set_permissions')
def fs_one(eng, st, c, args, dty, site):
    p = pterm(eng, st, args[0])
    return io_result(eng, st, dty, UNIT, c.j['name'], (p,), site)


# ------------------------------------------------------------------ std streams
@model('stdio.stdin', 'stdio.stdout', 'stdio.stderr', 'Stdin.lock', 'Stdout.lock', 'Stderr.lock', 'io.stdin', 'io.stdout', 'io.stderr')
def std_stream(eng, st, c, args, dty, site):
    n = c.j['name']
    if n == 'lock':
        return [(st, eng.deep(st, args[0]))]
    return [(st, ('o', 'std', n))]


@model('Stdin.read_line', '*.BufRead.read_line', 'StdinLock.BufRead.read_line')
def read_line(eng, st, c, args, dty, site):
    e = st.copy()
    t = T('answer')
    if st.mem.get(('M', 'answers')):
        t = T('answer', fresh('again'))
    st.mem[('M', 'answers')] = ('i', K(1), 'usize')
    append_to(eng, st, args[1], (('s', t, K(0), eng.lenof(t)),))
    effect(eng, st, 'stdin', (t, True), site)
    effect(eng, e, 'stdin', (t, False), site)
    return [(st, ok(dty, usz(eng.lenof(t)))), (e, err(dty, ioerr(eng, dty)))]


@model('stdio._print', 'stdio._eprint')
def print_(eng, st, c, args, dty, site):
    effect(eng, st, 'print', (c.j['name'],), site)
    return [(st, UNIT)]


@model('Error.kind')
def err_kind(eng, st, c, args, dty, site):
    return [(st, eng.opaque(T('ekind', eng.dterm(st, args[0])), dty))]


@model('Error.new', 'Error.other', 'Error.From.from')
def ioerr_new(eng, st, c, args, dty, site):
    return [(st, eng.opaque(T('ioerr', fresh('n')), dty))]


@model('env.args', 'env.var', 'env.current_dir', 'env.args_os', 'env.temp_dir')
def env_any(eng, st, c, args, dty, site):
    return [(st, eng.opaque(fresh('env'), dty))]


class _Models:
    lookup = staticmethod(lookup)


M = _Models()
