"""The properties and how each is decided."""
from collections import Counter
import re
import cli

PROPS = {}


def prop(pid):
    def d(f):
        PROPS[pid] = f
        return f
    return d


CLI_ASSUME = [
    'calls into the standard library, clap and rand behave as documented (the models in an/models.py); existing paths do not appear or vanish, and files do not change, while the program runs, except that any single file operation may fail',
    'library calls whose own behaviour is decided by other properties are taken as any value of their result type that satisfies C15 and C16',
    'release semantics of arithmetic are not used: an overflow counts as a panic',
]


def cli_result(ctx, mode):
    return ctx.memo(('cli', mode), lambda: cli.run(ctx.dumps['huff.bin'], mode, deadline=ctx.deadline))


def from_cli(ctx, r, pid, rule, floors=(), mode='main'):
    res = cli_result(ctx, mode)
    counts = Counter()
    sites = {}
    for k, site, det, key in res['events']:
        if k == 'V' and det[0] == pid:
            r.v(f'{det[3][0]}: {det[1]}', det[2], det[3])
        elif k == 'U' and det[0] == pid:
            r.u(det[1], det[2])
        elif k == 'N':
            counts[det[0]] += 1
            sites.setdefault(det[0], set()).add(det[2])
    r.rule = rule
    r.assumptions = CLI_ASSUME
    r.cov('functions_analysed', len(res['stats']['bodies']))
    r.cov('basic_blocks_executed_abstractly', res['stats']['blocks'])
    r.cov('calls_analysed', res['stats']['calls'])
    r.cov('successful_ends', res['ok'])
    r.cov('error_ends', res['err'])
    for k in ('open', 'create', 'read', 'write', 'flush', 'remove', 'stdin', 'present', 'value', 'unit', 'blockread'):
        if k in sites:
            r.cov(k + '_sites', len({w for w in sites[k]}))
    if res['stats']['unknown']:
        r.coverage['calls_not_modelled'] = sorted(res['stats']['unknown'])[:20]
    for what, n in floors:
        if len(sites.get(what, ())) < n:
            r.u(f'only {len(sites.get(what, ()))} {what} sites found, expected at least {n}')
    return res, sites


@prop('C01')
def c01(ctx, r):
    from_cli(ctx, r, 'C01', 'On every abstract path from the program entry to a successful end: no file operation has failed unnoticed, no write was short, every buffered writer has been flushed with the result checked, and the destination was created unless the user declined to overwrite it.',
             [('write', 3), ('flush', 1), ('create', 1), ('ok', 1)])


@prop('C02')
def c02(ctx, r):
    from_cli(ctx, r, 'C02', 'At every successful end the position in the source equals its length as reported when it was opened (or the last read returned end of file), and no read failed unnoticed.',
             [('read', 2), ('open', 1), ('ok', 1)])


@prop('C03')
def c03(ctx, r):
    from_cli(ctx, r, 'C03', 'At every deletion of a file: it is the source argument, the replace flag is known to be given, the destination was created, everything written was flushed, nothing failed before and the source was read to its end; at every successful end with the flag given the deletion has been done.',
             [('remove', 1), ('ok', 1)])


@prop('C04')
def c04(ctx, r):
    from_cli(ctx, r, 'C04', 'At every operation that can truncate a file: the path is known not to exist, or the noask flag is given, or a question was asked and the answer tested to begin with y or Y.',
             [('create', 1), ('stdin', 1)])


@prop('C05')
def c05(ctx, r):
    from_cli(ctx, r, 'C05', 'At every operation that can truncate a file: the path is not the source argument, and is known to be another file (device and inode, or canonical path, compared unequal, or one of them does not exist); nothing else is ever written to.',
             [('create', 1), ('write', 3)])


@prop('C06')
def c06(ctx, r):
    from_cli(ctx, r, 'C06', 'On every path that ends in an error after the destination was created, the error comes from a file operation that failed or is of the I/O kind; the source is opened before the destination is created.',
             [('create', 1), ('err', 1)])


@prop('C07')
def c07(ctx, r):
    res, sites = from_cli(ctx, r, 'C07', 'Every file operation reachable from the program entry opens only the source argument, creates only the destination (the given name or the source\'s name in its directory) and removes only the source; the library reaches no file, process, environment, network or console operation, no unsafe code and no mutable static.',
                          [('open', 1), ('create', 1)])
    import lib
    lib.effects(ctx, r)


@prop('C08')
def c08(ctx, r):
    res, sites = from_cli(ctx, r, 'C08', 'Every option consulted is declared in the argument description, every declared option is consulted, the declared spellings are the documented ones, and the decompress flag alone decides which direction runs.',
                          [('present', 1), ('value', 1)])
    import lib
    lib.options(ctx, r, res)


@prop('C09')
def c09(ctx, r):
    from_cli(ctx, r, 'C09', 'When the source is first opened, the block size in use is the number given times exactly the documented factor of its unit, for each unit the program compares with; it is at least 1 and the product fits; afterwards every read of file contents is bounded by it.',
             [('unit', 1), ('blockread', 1)], mode='block')


@prop('C10')
def c10(ctx, r):
    from_cli(ctx, r, 'C10', 'At every creation of the destination: with the decompress flag the source\'s extension has been compared equal to hff, without it the name is the destination argument (or the source\'s name) with .hff appended.',
             [('create', 1)])


@prop('C12')
def c12(ctx, r):
    from_cli(ctx, r, 'C12', 'Every arithmetic check, index, slice, unwrap, expect and explicit panic reachable from the program entry (outside the library calls covered by C11 and C14) is shown unreachable on every abstract path.',
             [('open', 1), ('ok', 1)])


# ------------------------------------------------------------------ the library
LIB_ASSUME = [
    'calls into the standard library and bitvec behave as documented (the models in an/models.py)',
    'generic code is analysed for the letter types u8 and u16; other letter types differ only in their own Eq, Hash, Clone and conversions',
    'trees, compressed data and iterators passed in by a caller satisfy the invariants decided by C15, C16 and C17 (a tree changed by hand through root_mut may not)',
]


def lib_runs(ctx, r):
    import libchk
    rs = libchk.run_all(ctx)
    r.assumptions = list(LIB_ASSUME)
    r.cov('exported_functions', len({x.path for x in rs}))
    r.cov('instances_analysed', len([x for x in rs if not x.error]))
    r.cov('basic_blocks_executed_abstractly', sum(x.E.stats['blocks'] for x in rs))
    if len({x.path for x in rs}) < 90:
        r.u('fewer exported functions than expected')
    return rs


def last(x):
    return x.path.split('::')[-1]


def evs(x, kind):
    seen = set()
    for k, site, det, key in x.events:
        if k == kind and key not in seen:
            seen.add(key)
            yield det


PARSERS = ('try_from_bytes', 'try_from_bin', 'try_from_be_bytes', 'decompress')


def failed(r, x):
    if x.error:
        r.u(f'{x.name()}: the analysis gave up: {x.error}', (x.path, ''))
    return bool(x.error)


@prop('C11')
def c11(ctx, r):
    rs = [x for x in lib_runs(ctx, r) if last(x) in PARSERS]
    r.rule = 'For every function that reads data from outside (try_from_bytes, try_from_bin, decompress, try_from_be_bytes of every integer letter) and any argument: every arithmetic check, index, slice, unwrap, expect and explicit panic reachable from it is shown unreachable on every abstract path.'
    r.cov('parsing_functions', len({x.path for x in rs}))
    r.cov('obligations', sum(len(x.E.stats['obligations']) for x in rs))
    if len({x.path for x in rs}) < 15:
        r.u('fewer parsing functions than expected')
    for x in rs:
        if failed(r, x):
            continue
        for desc, w, taint, zero in evs(x, 'panic'):
            if taint:
                r.u(f'{x.name()}: {desc} (after a call to {taint}, which is not modelled)', w)
            else:
                r.v(f'{last(x)}: {desc}', f'{x.name()} can panic on its input: {desc}', w)


@prop('C13')
def c13(ctx, r):
    rs = [x for x in lib_runs(ctx, r) if last(x) in ('try_from_bytes', 'try_from_bin')]
    r.rule = 'At every recursive call reachable from a parser: the call descends into a child of an existing branch, or some integer argument has grown by at least one since the enclosing call and is at most 4096, or has shrunk and started at most 4096.'
    n = 0
    for x in rs:
        if failed(r, x):
            continue
        bounded = False
        for path, kind, steps, w, taint in evs(x, 'rec'):
            n += 1
            if kind == 'child':
                continue
            if any(cap for _, (how, cap) in steps):
                bounded = True
                continue
            if taint or any(how == '?' for _, (how, cap) in steps):
                r.u(f'{x.name()}: whether the recursion of {path} is bounded is not decided', w)
                bounded = True
            else:
                bounded = True
                r.v(f'{last(x)}: recursion of {path.split("::")[-1]}', f'{x.name()} recurses in {path} as deep as its input asks for', w)
        if not bounded:
            r.u(f'{x.name()}: no recursion that builds a tree was found', (x.path, ''))
    r.cov('recursive_calls', n)


def allowed_panic(x, desc, w, zero):
    f = last(x)
    if desc.startswith('arithmetic overflow in Add of ') and desc.split()[-1] in ('usize', 'u64'):
        return 'a count beyond usize'
    explicit = desc.startswith('panic') or desc.startswith('assert')
    if explicit and f == 'from_weights' and any('arg0' in z for z in zero):
        return 'empty weights'
    if f == 'new' and 'CompressData' in x.path and explicit:
        return 'compressed data out of range'
    if f == 'compress_with_tree' and explicit and 'padding beyond' not in zero:
        return 'empty letters'
    return None


@prop('C14')
def c14(ctx, r):
    rs = lib_runs(ctx, r)
    r.rule = 'For every exported function (those of C11 included) and any arguments: every arithmetic check, index, slice, unwrap, expect and explicit panic reachable from it is shown unreachable, but the documented panics (from_weights with weights known to be empty, CompressData::new, compress and compress_with_tree of nothing) and counts that do not fit usize.'
    r.assumptions.append('no count or sum of weights exceeds usize')
    r.cov('obligations', sum(len(x.E.stats['obligations']) for x in rs))
    documented = 0
    for x in rs:
        if failed(r, x):
            continue
        for desc, w, taint, zero in evs(x, 'panic'):
            if allowed_panic(x, desc, w, zero):
                documented += 1
            elif taint:
                r.u(f'{x.name()}: {desc} (after a call to {taint}, which is not modelled)', w)
            elif last(x) == 'compress' and x.item['kind'] == 'Fn' and not any(True for _ in evs(x, 'needs')):
                r.u(f'{x.name()}: {desc} (weights not built in a known way)', w)
            else:
                r.v(f'{last(x)}: {desc}', f'{x.name()} can panic: {desc}', w)
    r.cov('documented_panics', documented)


@prop('C15')
def c15(ctx, r):
    rs = lib_runs(ctx, r)
    r.rule = 'At every construction of compressed data, and wherever a function that was lent one mutably returns: the byte vector has at least one element and the padding is at most 7; the fields are private to the library. At every construction and step of an iterator over the weight table: the position is at most the length of the table.'
    n = 0
    for x in rs:
        if failed(r, x):
            continue
        for kind, what in (('cd', 'compressed data'), ('idx', 'iterator over the weights')):
            for why, w, taint in evs(x, kind):
                n += 1
                if why and taint:
                    r.u(f'{x.name()}: {why} (after a call to {taint}, which is not modelled)', w)
                elif why:
                    r.v(f'{last(x)}: {what} in {w[0]}', f'{x.name()} makes {what} where {why}', w)
    r.cov('constructions', n)
    private(r, rs, lambda inv: list(inv.cd) + list(inv.idx))
    if n < 10:
        r.u('fewer constructions than expected')


def private(r, rs, types):
    inv = rs[0].h.inv
    n = 0
    for t in types(inv):
        ty = inv.p.types[t]
        for f in ty['variants'][0]['fields']:
            n += 1
            if f.get('vis') == 'Public':
                r.v(f'public field {ty["path"]}.{f["name"]}', f'{ty["path"]}.{f["name"]} can be set from outside', (ty['path'], ''))
    r.cov('private_fields', n)
    if not n:
        r.u('the types were not recognised')


@prop('C16')
def c16(ctx, r):
    rs = lib_runs(ctx, r)
    r.rule = 'At every construction of a branch, and wherever a function that was lent one mutably returns: both children are present or both absent; in every function that builds trees itself, a leaf letter is present exactly when the children are absent; the fields are private to the library.'
    n = 0
    for x in rs:
        if failed(r, x):
            continue
        for why, lib, w, taint in evs(x, 'br'):
            n += 1
            if why and taint or why and 'one child' not in why:
                r.u(f'{x.name()}: a branch {why}', w)
            elif why:
                r.v(f'{last(x)}: children in {w[0]}', f'{x.name()} makes a branch that {why}', w)
            if last(x) in ('from_weights', 'try_from_bin', 'try_from_bytes'):
                if lib and (lib == 'unknown' or taint):
                    r.u(f'{x.name()}: whether a branch without children holds a letter is not decided', w)
                elif lib:
                    r.v(f'{last(x)}: letter in {w[0]}', f'{x.name()}: {lib}', w)
    r.cov('constructions', n)
    private(r, rs, lambda inv: list(inv.br) + list(inv.leafs) + list(inv.tree))
    if n < 10:
        r.u('fewer constructions than expected')


def special(ctx, names, mk, key, **opts):
    """runs of the named exported functions with further hooks"""
    def go():
        import eng
        import libchk
        from inv import Inv
        d = ctx.dumps['huff_coding.lib']
        p = eng.Prog(d)
        inv = Inv(p)
        out = []
        for i in d['items']:
            if i.get('exported') and 'Fn' in i['kind'] and (names is None or names(i)):
                for inst, k in libchk.insts(d, i):
                    out.append(libchk.one(ctx, d, p, inv, i, inst, k, hooks=[mk(inv)], **opts))
        return out
    return ctx.memo(key, go)


def named(*ns):
    return lambda i: i['path'].split('::')[-1] in ns


def decide(r, x, det, prefix=''):
    """(verdict, message, where, taint) -> violation, undecided or fine"""
    ok, msg, w, taint = det
    if ok is True:
        return
    if ok is None or taint:
        r.u(f'{x.name()}: {msg}' + (f' (after a call to {taint}, which is not modelled)' if taint else ''), w)
    else:
        r.v(f'{prefix}{last(x)}: {msg}', f'{x.name()}: {msg}', w)


@prop('C17')
def c17(ctx, r):
    import codes
    rs = special(ctx, named('from_weights', 'try_from_bin', 'read_codes', 'read_codes_with_hasher'), codes.Codes, 'codes', cap_merge=8)
    r.assumptions = list(LIB_ASSUME)
    r.rule = 'At every recursive call that hands a child of a branch on: the code stored in the child is the code of its parent followed by one bit, 0 for the left and 1 for the right child, and no path leaves a child out; a tree of one branch gets the code 0; every entry made in the code table has a leaf letter as key and the code stored in the same leaf (or the equal constant) as value, and no path through the recursion leaves a letter out.'
    n = 0
    for x in rs:
        if failed(r, x):
            continue
        got = set()
        for ok, fn, msg, w, taint in evs(x, 'code'):
            n += 1
            got.add(msg)
            decide(r, x, (ok, f'{fn}: {msg}', w, taint))
        for det in evs(x, 'table'):
            n += 1
            got.add(det[1])
            decide(r, x, det)
        want = ('left', 'right', 'single', 'many') if last(x) in ('from_weights', 'try_from_bin') else ('stored',)
        if not r.violations and not all(m in got for m in want):
            r.u(f'{x.name()}: not every kind of code was seen being set', (x.path, ''))
    r.cov('functions', len(rs))
    r.cov('code_sites', n)


@prop('C19')
def c19(ctx, r):
    import ser
    rs = [x for x in special(ctx, named('as_bin', 'try_from_bin'), ser.Ser, 'ser', cap_merge=8, unroll=True) if x.inst in ('u8', 'u16')]
    r.assumptions = list(LIB_ASSUME)
    r.rule = 'Writer, at every end of the recursion that writes a branch: what it adds is the bit 1 and the forms of the left and the right child, or the bit 0 and every bit of the letter\'s big-endian bytes from the most significant on (instances with letters of one and two bytes). Reader, at every recursive call and end: the first bit decides, the first form read (one bit on) becomes the left child, the next one (where that ended) the right child, a letter is made of exactly its bits in the same order; the reading begins at the first bit and a tree is returned only if none is left.'
    for x in rs:
        if failed(r, x):
            continue
        got = set()
        for det in evs(x, 'ser'):
            got.add(det[1])
            decide(r, x, det)
        want = ('joint', 'letter ' + x.inst) + (('first', 'next', 'all read') if last(x) == 'try_from_bin' else ())
        if not r.violations and not all(m in got for m in want):
            r.u(f'{x.name()}: not every kind of branch was seen', (x.path, ''))
    r.cov('functions', len(rs))


@prop('C18')
def c18(ctx, r):
    import layout
    inst = lambda rs: [x for x in rs if x.inst == 'u8'] or rs
    ws = inst(special(ctx, named('to_bytes'), NoHook, 'lay.w', cap_merge=40, merge_min=8, loop_apart=8, unroll=True, opaque=('as_bin',)))
    ps = inst(special(ctx, named('try_from_bytes'), layout.Reader, 'lay.r', cap_merge=8, opaque=('try_from_bin',)))
    r.assumptions = list(LIB_ASSUME) + ['the binary form of a tree is at least 9 bits and at most 512 MiB long']
    r.rule = 'Writer, at every return and for each residue of the number of bits n of the tree form by 8: the first byte is 16 * ((8 - n) mod 8) + the padding of the data, the next four are the number of bytes of the tree form, big-endian, then come all bytes of the tree form and all bytes of the data. Reader, at the call that reads the tree: it is given 8 * L - (high half of byte 0) bits of the input from byte 5 on, where L is bytes 1 to 4 big-endian; at the construction of the result: the data are the input from byte 5 + L to its end, their padding the low half of byte 0, and the tree the one read.'
    for x in ws:
        if failed(r, x):
            continue
        x.E.frame = None
        inv = x.h.inv
        n0 = x.E.cur
        x.E.cur = []
        for st, v in x.rets:
            layout.writer(x.E, x.E.p.bodies[x.key], x.key, inv, st, v)
        x.events, x.E.cur = x.E.cur, n0
        seen(r, x, 'lay', ('the first byte', 'the length of the tree', 'the tree form', 'the data'))
    for x in ps:
        if failed(r, x):
            continue
        seen(r, x, 'lay', ('where the tree begins', 'the number of bits of the tree', 'where the data begin', 'where the data end', 'the padding of the data', 'the tree'))
    r.cov('functions', len(ws) + len(ps))
    if not ws or not ps:
        r.u('the functions were not found')


class NoHook:
    def __init__(self, inv):
        pass


def seen(r, x, kind, want):
    got = set()
    for det in evs(x, kind):
        got.add(det[1])
        decide(r, x, det)
    r.cov('sites', len(got))
    if not r.violations and not all(m in got for m in want):
        r.u(f'{x.name()}: not everything expected was seen: ' + ', '.join(m for m in want if m not in got), (x.path, ''))


WALK = dict(cap_merge=8, cap_decided=200, cap_ret=80, unroll=False, cap_loop=40, keepconst=((('M', 'bit'),),))


@prop('C20')
def c20(ctx, r):
    import walk
    rs = special(ctx, named('decompress'), walk.Walk, 'walk', **WALK)
    r.assumptions = list(LIB_ASSUME)
    r.rule = ('A specification of decoding runs beside the program: from the root, each bit of the data (most significant of each byte first) leads to the left child '
              'for 0 and to the right for 1; a branch without children gives out its letter and the walk is back at the root; in a tree of one letter each bit gives it. '
              'At every loop head and at the end the specification has taken the same bits and given out the same letters as the program, and at the end it stands behind the last bit that is not padding.')
    for x in rs:
        if failed(r, x):
            continue
        seen(r, x, 'walk', ('step', 'letter', 'single', 'end'))
    r.cov('functions', len(rs))


def orders(ctx, r, heap, want):
    """the comparisons of leaves and branches, or of what the heap holds, against the weights"""
    import build
    import eng
    from inv import Inv
    d = ctx.dumps['huff_coding.lib']
    p = eng.Prog(d)
    inv = Inv(p)
    n = 0
    for ty, fn, x, sign in build.order(ctx, d, p, inv, heap):
        if failed(r, x):
            continue
        w = (x.path, str(p.bodies[x.key]['span']))
        n += 1
        for ok, msg in build.judge(inv, ty, fn, x, sign, not heap):
            if ok is False:
                r.v(f'{re.sub("<u(8|16)>", "", x.path)}', f'{x.path} [{x.inst}]: {msg}', w)
            elif ok is None:
                r.u(f'{x.path}: {msg}', w)
    r.cov('comparisons', n)
    if n < want:
        r.u('fewer comparisons than expected')


@prop('C21')
def c21(ctx, r):
    r.assumptions = list(LIB_ASSUME)
    r.rule = 'Every comparison of two leaves and of two branches (eq, cmp, partial_cmp and those overridden) gives, on every path, the answer that comparing their weights gives.'
    orders(ctx, r, False, 12)


@prop('C22')
def c22(ctx, r):
    import build
    r.assumptions = list(LIB_ASSUME) + ['std: BinaryHeap::pop gives a greatest element by the order of its type']
    r.rule = ('The type kept in the heap is ordered against the weights, so that its greatest is the lightest. Every item of the weights becomes one branch without children, of the letter and the weight given; '
              'every later branch pushed has as its children the two popped since the last one, and the sum of their weights; the root is popped when it is the only one left.')
    orders(ctx, r, True, 2)
    rs = special(ctx, lambda i: 'Heap' not in i['path'] and i['path'].split('::')[-1] == 'from_weights', build.Heap, 'construct', cap_merge=40)
    for x in rs:
        if failed(r, x):
            continue
        seen(r, x, 'heap', ('leaf', 'all', 'pop', 'join', 'sum', 'gives'))
        skips(r, x)
    r.cov('functions', len(rs))


def skips(r, x):
    """letters left out, if everything pushed is understood and pushed as it is taken"""
    import build
    if any(det[0] is None and det[1] != build.EVERY for det in evs(x, 'heap')) or any(evs(x, 'stale')):
        return
    for det in evs(x, 'skip'):
        decide(r, x, det)


@prop('C23')
def c23(ctx, r):
    import enc
    import eng
    import libchk
    rs = special(ctx, named('compress_with_tree'), enc.Enc, 'enc', cap_merge=8, cap_decided=200, cap_ret=80, unroll=False, cap_loop=40)
    r.assumptions = list(LIB_ASSUME)
    r.rule = ('A specification of encoding runs beside the program: the letters are taken from the first to the last, of each its whole code in the code table of the tree, bit by bit; '
              'every eight bits make a byte, the first bit the most significant, and bits left over make a last byte filled up with 0. Each byte the program puts out equals, for every value of its bits, '
              'the one the specification makes at that point; when the compressed data are made, all letters, codes and bytes are used up, and the padding is the number of bits filled up.')
    for x in rs:
        if failed(r, x):
            continue
        seen(r, x, 'enc', ('letter', 'byte', 'last', 'end'))
    for x in libchk.run_all(ctx):
        if last(x) == 'compress' and x.item['kind'] == 'Fn' and not failed(r, x):
            for st, ret in x.rets:
                t = ret[1] if ret[0] == 's' else None
                while t is not None and eng.TERMS[t][0] == 'fld':
                    t = eng.TERMS[t][1]
                k = eng.TERMS[t] if t is not None else ('',)
                if k[:2] != ('hc', 'compress_with_tree') or eng.TERMS[k[2]][0] != 'deref' or eng.TERMS[eng.TERMS[k[2]][1]][0] != 'arg':
                    r.u(f'{x.name()}: what is returned is not seen to be compress_with_tree of the letters given', (x.path, ''))
    r.cov('functions', len(rs))
