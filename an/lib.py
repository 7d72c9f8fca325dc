"""Checks on the library crate and on the argument description."""

# what the library may not touch: files, standard streams, processes, environment, network
EFFECTS = ('std::fs::', 'std::process::', 'std::env::', 'std::net::', 'std::os::', 'std::io::stdio::', 'libc::', 'std::sys::',
           'std::backtrace::')
EFFECT_METHODS = ('std::path::Path::exists', 'std::path::Path::metadata', 'std::path::Path::is_file', 'std::path::Path::is_dir',
                  'std::path::Path::canonicalize', 'std::path::Path::read_dir', 'std::path::Path::try_exists')


def callees(body):
    """(function constant, span) of every function a body calls or names as a value"""
    def consts(x):
        if isinstance(x, dict):
            f = x.get('fn')
            if isinstance(f, dict) and 'path' in f:
                yield f
            else:
                for v in x.values():
                    yield from consts(v)
        elif isinstance(x, list):
            for v in x:
                yield from consts(v)
    for b in body['blocks']:
        for s in b.get('s') or []:
            for f in consts(s):
                yield f, b.get('sp')
        t = b.get('t')
        if t:
            for f in consts(t):
                yield f, b.get('tsp') or b.get('sp')


def span(sp):
    while isinstance(sp, list) and sp:
        sp = sp[0]
    return str(sp or '')


def effects(ctx, r):
    d = ctx.dumps['huff_coding.lib']
    n = c = 0
    seen = set()
    for k, b in sorted(d['bodies'].items()):
        if b['krate'] != 'huff_coding':
            continue
        n += 1
        for f, sp in callees(b):
            c += 1
            for p in {f['path'], f.get('rpath') or f['path']}:
                q = p.lstrip('<')
                if q.startswith(EFFECTS) or p in EFFECT_METHODS:
                    key = f'{b["path"]} calls {p}'
                    if key not in seen:
                        seen.add(key)
                        r.v(key, f'the library calls {p}, which acts outside the values it is given', (b['path'], span(sp)))
            kr = f.get('rkrate') or f['krate']
            if kr not in ('core', 'alloc', 'std', 'huff_coding', 'bitvec', 'funty', 'radium', 'tap', 'wyz'):
                r.u(f'the library calls into {kr}', (b['path'], span(sp)))
    for s in d.get('statics') or []:
        if s.get('krate', 'huff_coding') == 'huff_coding' and s.get('mut'):
            r.u('mutable global state', (s.get('path', ''), ''))
    r.cov('library_bodies_scanned', n)
    r.cov('library_call_sites_scanned', c)
    if n < 60:
        r.u('fewer library bodies than expected')


SPELL = {'decompress': ('d', 'decompress', False), 'time': ('t', 'time', False), 'replace': ('r', 'replace', False),
         'noask': ('n', 'noask', False), 'block-size': ('b', 'block-size', True)}


def options(ctx, r, res):
    names = res['names']
    where = ('argument description', 'huff/res/cli.yml')
    used = {'present': set(), 'value': set()}
    for k, site, det, key in res['events']:
        if k == 'N' and det[0] in used and det[1] is not None:
            used[det[0]].add(det[1])
    byspell = {}
    for n, s in names.items():
        if s.get('short'):
            byspell.setdefault('-' + str(s['short'])[:1], []).append(n)
        if s.get('long'):
            byspell.setdefault('--' + str(s['long']), []).append(n)
        takes = bool(s.get('takes_value'))
        pos = 'short' not in s and 'long' not in s
        u = used['value'] if takes or pos else used['present']
        if n not in u:
            r.v(f'unused {n}', f'the declared option {n} is never consulted', where)
        if (takes or pos) and n in used['present'] and 'default_value' in s:
            r.v(f'presence of {n}', f'the presence of {n} is tested, which has a default and is always present', where)
        if not (takes or pos) and n in used['value']:
            r.v(f'value of {n}', f'the value of the flag {n} is taken', where)
        if s.get('conflicts_with') or s.get('requires') or s.get('possible_values') or s.get('overrides_with') or s.get('required_unless') or s.get('conflicts_with_all'):
            r.u(f'{n} restricts other options', where)
    for sp, ns in byspell.items():
        if len(ns) > 1:
            r.v(f'spelling {sp}', f'{sp} is declared for {", ".join(ns)}', where)
    for n, (sh, lo, takes) in SPELL.items():
        for sp in ('-' + sh, '--' + lo):
            if byspell.get(sp) != [n]:
                r.v(f'spelling {sp}', f'the documented option {sp} selects {byspell.get(sp) or "nothing"} and not {n}', where)
        s = names.get(n, {})
        if bool(s.get('takes_value')) != takes:
            r.v(f'arity {n}', f'{n} {"does not take" if takes else "takes"} a value', where)
        if s.get('required'):
            r.v(f'required {n}', f'{n} is required', where)
    if str(names.get('block-size', {}).get('default_value')) != '2G':
        r.v('default block-size', f'the default block size is {names.get("block-size", {}).get("default_value")}, documented as 2G', where)
    if not names.get('SRC_FILE', {}).get('required'):
        r.v('SRC_FILE', 'SRC_FILE is not required', where)
    if names.get('DST_FILE', {}).get('required'):
        r.v('DST_FILE', 'DST_FILE is required', where)
    pos = [n for n, s in names.items() if 'short' not in s and 'long' not in s]
    if pos != ['SRC_FILE', 'DST_FILE'] or any('index' in names[n] for n in pos):
        r.v('positions', f'positional arguments are {pos}', where)
    r.cov('declared_options', len(names))
    r.cov('options_consulted', len(used['present'] | used['value']))
