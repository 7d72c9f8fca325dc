"""Common parts of the checks: loading the program, known findings, evidence, verdicts."""
import json
import os
import pickle
import sys
import time
import traceback

from eng import Bad
import extract

VERIF = extract.VERIF
sys.setrecursionlimit(20000)


class Ctx:
    """the program under analysis and the shared analyses, run once per process"""

    def __init__(self, tier, deadline):
        self.tier = tier
        self.t0 = time.time()
        self.deadline = self.t0 + deadline
        self._dumps = None
        self._memo = {}

    @property
    def dumps(self):
        if self._dumps is None:
            p = os.environ.get('VERIF_DUMP')          # development only
            if p:
                self._dumps = pickle.load(open(p, 'rb'))
            else:
                self._dumps = extract.extract()
        return self._dumps

    def memo(self, key, f):
        if key not in self._memo:
            try:
                self._memo[key] = (f(), None)
            except Bad as e:
                self._memo[key] = (None, e)
        r, e = self._memo[key]
        if e is not None:
            raise e
        return r


class Result:
    """what one property's check found"""

    def __init__(self):
        self.violations = []     # (key, message, (function, file:line))
        self.undecided = []      # (message, where)
        self.coverage = {}
        self.assumptions = []
        self.rule = ''

    def v(self, key, msg, where):
        if key not in [k for k, _, _ in self.violations]:
            self.violations.append((key, msg, tuple(where)))

    def u(self, msg, where=('', '')):
        if (msg, tuple(where)) not in self.undecided:
            self.undecided.append((msg, tuple(where)))

    def cov(self, k, n):
        self.coverage[k] = n


def known(prop):
    """keys of listed findings of a property: lines  'known: property=<id> key=<key>  -- text'"""
    out = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith(f'known: property={prop} key='):
                k = l.split(' key=', 1)[1].rstrip('\n')
                k, _, text = k.partition('  -- ')
                out[k] = text
    return out


def finish(prop, tier, r, t0):
    kn = known(prop)
    new = [x for x in r.violations if x[0] not in kn]
    old = [x for x in r.violations if x[0] in kn]
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    cov = dict(r.coverage)
    cov['explanation'] = r.rule
    cov['undecided'] = [f'{m} ({w[0]} {w[1]})' for m, w in r.undecided][:40]
    cov['violating_constructs'] = [{'key': k, 'what': m, 'function': w[0], 'where': w[1]} for k, m, w in r.violations][:40]
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
          'coverage': cov, 'assumptions': r.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    path = os.path.join(VERIF, 'evidence', f'{prop}.json')
    s = json.dumps(ev, indent=1)
    if len(s) > 60000:
        for k in list(cov):
            if isinstance(cov[k], list):
                cov[k] = cov[k][:5]
        s = json.dumps(ev, indent=1)
    with open(path, 'w') as f:
        f.write(s + '\n')
    for m, w in r.undecided[:20]:
        print(f'UNDECIDED property={prop} {m} [{w[0]} {w[1]}]')
    for k, m, w in old:
        print(f'KNOWN-FINDING: property={prop} {m} [{w[0]} {w[1]}]')
    for k, m, w in new:
        print(f'{w[1]}: {w[0]}: {m}')
    if new:
        print(f'VIOLATION property={prop} replay=evidence/{prop}.json')
        return 1
    ok = 'held' if not r.undecided else 'held on what could be decided'
    print(f'property={prop} {ok}: ' + ', '.join(f'{k}={v}' for k, v in r.coverage.items() if isinstance(v, int)))
    return 0


def main(props, argv):
    import argparse
    a = argparse.ArgumentParser()
    a.add_argument('prop')
    a.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = a.parse_args(argv)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    names = sorted(props) if a.prop == 'all' else a.prop.split(',')
    ctx = Ctx(tier, 560 if tier == 'quick' else 780)
    rc = 0
    for n in names:
        t0 = time.time()
        r = Result()
        try:
            props[n](ctx, r)
        except Bad as e:
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exc()
            r.u(f'the analysis gave up: {e}')
        except (LookupError, TypeError, ValueError, AttributeError, AssertionError, RecursionError, ArithmeticError) as e:
            # a construct the analysis was not written for
            traceback.print_exc()
            r.u(f'the analysis failed: {type(e).__name__} {e}')
        except extract.ExtractError as e:
            print(str(e), file=sys.stderr)
            return 2
        rc |= finish(n, tier, r, t0 if a.prop == 'all' else ctx.t0)
    return rc
