"""Obligation runner: decides the obligations of one property on the current tree."""
import argparse
import gc
import importlib
import json
import multiprocessing
import os
import resource
import signal
import sys
import time
import traceback

from sa import compare as C
from sa import terms as TM
from sa.compare import Comparer, Ctx, Budget
from sa.harness import H, MissingAnchor, Unsup, Dead, Project
from sa.show import show
from sa.terms import *

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Violated(Exception):
    """A construct of the tree breaks the obligation."""

    def __init__(self, what, detail='', site=None):
        super().__init__(what)
        self.what, self.detail, self.site = what, detail, site


class Undecided(Exception):
    pass


class Obligation:
    def __init__(self, name, fn, anchors, rule, args):
        self.name, self.fn, self.anchors, self.rule, self.args = name, fn, anchors, rule, args


def level(mod):
    """A proof where nothing is bounded."""
    return 'other' if mod.R.bounds else getattr(mod, 'LEVEL', 'other')


class Registry:
    """Obligations of one property."""

    def __init__(self, prop, technique_rule):
        self.prop = prop
        self.rule = technique_rule
        self.bounds = None
        self.obs = []
        self.late = []

    def ob(self, anchors, name=None, cases=None, rule=None):
        def deco(fn):
            nm = name or fn.__name__.replace('_', ' ')
            if callable(cases):
                self.late.append((nm, fn, anchors, rule or self.rule, cases))
            elif cases is None:
                self.obs.append(Obligation(nm, fn, anchors, rule or self.rule, ()))
            else:
                for label, args in cases:
                    self.obs.append(Obligation('%s [%s]' % (nm, label), fn, anchors, rule or self.rule, args))
            return fn
        return deco

    def obligations(self, p):
        """All obligations, with the cases that depend on the classes of the tree."""
        out = list(self.obs)
        for nm, fn, anchors, rule, cases in self.late:
            for label, args in cases(p):
                out.append(Obligation('%s [%s]' % (nm, label), fn, anchors, rule, args))
        return out


def cut(s, n=1500):
    return s if len(s) <= n else s[:n] + ' ...'


def explain(d):
    guard = [('' if v else 'not ') + show(a) for a, v in d.ctx.lits.items()]
    return 'at %s\n  under: %s\n  left:  %s\n  right: %s' % (
        ' / '.join(d.where) or 'result', cut(' and '.join(guard) or 'always'), cut(show(d.a)), cut(show(d.b)))


def failures(*terms):
    """Tests whether an opaque call fails, if it matters for the terms with which kind of exception it does."""
    seen, out, kinds, todo = set(), [], False, list(terms)
    while todo:
        t = todo.pop()
        if isinstance(t, tuple):
            todo.extend(t)
        elif isinstance(t, TM.T) and t not in seen:
            seen.add(t)
            kinds = kinds or t.op == 'excis'
            if t.op == 'raises':
                out.append(t)
            todo.extend(t.args)
    return out if kinds else []


def expect(h, got, want, what, lits=None, site=None):
    """Obligation: two terms are the same value on every path of the flow h."""
    quiet = failures(got, want) if lits is None else []
    if quiet:
        # paths on which no opaque call fails first: differences found there do not depend on kinds of exceptions
        try:
            none = {at: FALSE for at in quiet}
            expect(h, subst(got, none), subst(want, none), what, {at: False for at in quiet}, site)
        except Undecided:
            pass
    cmp_ = Comparer()
    st = h.st if isinstance(h, H) else h
    base = Ctx(dict(lits or {}), tuple(st.facts))
    ctxs = [base]
    if st.guard is not TRUE:
        ctxs = base.assume(st.guard)
    for at, val in st.lits.items():
        ctxs = [c2 for c in ctxs for c2 in [c.add(at, val)] if c2 is not None]
    weakd = None
    for ctx in ctxs:
        try:
            d = cmp_.equal(got, want, ctx)
        except Budget:
            raise Undecided('comparison budget exceeded: ' + what)
        if d is not None:
            if d.weak:
                weakd = weakd or d
            else:
                raise Violated(what, explain(d), site)
    if weakd is not None:
        raise Undecided(what + '\n' + explain(weakd))
    if not ctxs:
        raise Undecided('no feasible path: ' + what)
    return cmp_.compared


class Timeout(Exception):
    pass


def _alarm(*_):
    raise Timeout()


_P = None
_OBS = None
_LIMIT = 240
_TOTAL = 780
_END = None
_MEMORY = 4 << 30


def run_one(k):
    """(status, detail, site, stats, wall) of obligation k."""
    ob = _OBS[k]
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    left = _LIMIT if _END is None else min(_LIMIT, int(_END - time.time()))
    if left < 1:
        return k, 'undecided', 'not reached within %d s' % _TOTAL, None, {}, 0.0
    signal.alarm(left)
    resource.setrlimit(resource.RLIMIT_AS, (_MEMORY, _MEMORY))
    # terms are interned and acyclic, and the process ends with the obligation
    gc.disable()
    stats = {}
    try:
        try:
            run = Run(_P, stats)
            ob.fn(run, *ob.args)
            res = ('holds', '', None)
        except Violated as e:
            res = ('violation', e.what + ('\n' + e.detail if e.detail else ''), e.site)
        except MissingAnchor as e:
            res = ('broken', 'anchor not found: %s' % e, None)
        except Undecided as e:
            res = ('undecided', str(e), None)
        except (Unsup, Dead, TM.Blowup, Budget, Timeout, RecursionError) as e:
            res = ('undecided', '%s: %s' % (type(e).__name__, e), None)
        except Exception as e:
            res = ('undecided', 'analysis error %s: %s' % (type(e).__name__, e) + '\n' + traceback.format_exc()[-1500:], None)
    finally:
        signal.alarm(0)
    return (k,) + res + (stats, time.time() - t0)


class Run:
    """What an obligation gets: the parsed tree and a factory of flows."""

    def __init__(self, p, stats):
        self.p = p
        self.stats = stats
        self.hs = []

    def flow(self, cfg=None):
        h = H(self.p, cfg)
        h.I.stats = _Merged(self.stats, h.I.stats)
        return h

    def expect(self, h, got, want, what, **kw):
        n = expect(h, got, want, what, **kw)
        self.stats['comparisons'] = self.stats.get('comparisons', 0) + n
        return n

    def decide(self, ok, what, cls, name=None):
        """Obligation on folded constants of a class body."""
        self.stats['constants'] = self.stats.get('constants', 0) + 1
        if not ok:
            c = self.p.classes[cls]
            raise Violated(what, 'constants of class %s' % cls, '%s:%d' % (c.module.path, c.node.lineno))


class _Merged(dict):
    """Statistics of a flow, shared by all flows of the obligation."""

    def __init__(self, total, d):
        super().__init__(d)
        self.total = total
        for k, v in d.items():
            if isinstance(v, set):
                self.total.setdefault(k, set()).update(v)
                self[k] = self.total[k]

    def __setitem__(self, k, v):
        if isinstance(v, int):
            self.total[k] = self.total.get(k, 0) + v - self.get(k, 0)
        super().__setitem__(k, v)


def main(argv=None):
    global _P, _OBS, _LIMIT, _END
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('-k', default=None, help='only obligations whose name contains this')
    ap.add_argument('-j', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--tb', action='store_true')
    ap.add_argument('--every', type=int, default=1, help='only every so-manieth obligation')
    a = ap.parse_args(argv)
    t0 = time.time()
    _END = t0 + _TOTAL
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if tier == 'thorough':
        _LIMIT = 600
    mod = importlib.import_module('checks.' + a.prop.lower())
    reg = mod.R
    try:
        specs = sorted(f[:-3] for f in os.listdir(os.path.join(ROOT, 'spec')) if f.endswith('.py'))
        _P = Project(REPO, extra=[('spec.' + f, os.path.join(ROOT, 'spec', f + '.py')) for f in specs])
    except SyntaxError as e:
        print('analysis-broken: cannot parse the tree: %s' % e)
        return 2
    obs = reg.obligations(_P)
    if hasattr(mod, 'dynamic'):
        obs = obs + mod.dynamic(_P)
    if a.k:
        obs = [o for o in obs if a.k in o.name]
    obs = obs[::a.every]
    _OBS = obs
    if not a.tb:
        # every obligation in a process of its own: symbols and memo tables are not shared
        with multiprocessing.get_context('fork').Pool(max(1, min(a.j, len(obs))), maxtasksperchild=1) as pool:
            results = list(pool.imap_unordered(run_one, range(len(obs)), chunksize=1))
    else:
        results = [run_one(k) for k in range(len(obs))]
    results.sort(key=lambda r: r[0])
    count = {'holds': 0, 'violation': 0, 'undecided': 0, 'broken': 0}
    tot = {}
    viol = []
    listing = []
    for k, status, detail, site, stats, wall in results:
        ob = obs[k]
        count[status] += 1
        for n, v in stats.items():
            if isinstance(v, int):
                tot[n] = tot.get(n, 0) + v
            elif isinstance(v, set):
                tot.setdefault(n, set()).update(v)
        loc = [anchor_loc(_P, x) for x in ob.anchors]
        listing.append({'obligation': ob.name, 'verdict': status, 'anchors': [x for x in loc if x], 'wall_s': round(wall, 3)})
        if status != 'holds':
            listing[-1]['detail'] = detail[:2000]
        if status == 'violation':
            viol.append((ob, detail, site or loc))
        if a.v or status != 'holds':
            print('%-9s %s  (%s, %.2fs)' % (status, ob.name, ', '.join(ob.anchors), wall))
            if status != 'holds':
                print('   ' + cut(detail, 3000).replace('\n', '\n   '))
    print('%s: %d obligations: %d hold, %d violated, %d undecided, %d broken' % (
        a.prop, len(obs), count['holds'], count['violation'], count['undecided'], count['broken']))
    evdir = os.environ.get('VERIF_EVIDENCE', os.path.join(ROOT, 'evidence'))
    os.makedirs(evdir, exist_ok=True)
    cov = {
        'explanation': reg.rule,
        'rule': reg.rule,
        'obligations': len(obs),
        'discharged': count['holds'],
        'undecided': count['undecided'],
        'broken_anchors': count['broken'],
        'functions_analysed': sorted(tot.get('functions', set())) if isinstance(tot.get('functions'), set) else tot.get('functions', 0),
        'checker_cmd': 'python3-vt check.py %s' % a.prop,
        'bounds': reg.bounds or 'none: parameters, lengths and counts are symbolic',
        'trusted_base': ['Python ast', 'sa/ (value-flow normal form)', 'checks/%s.py' % a.prop.lower()],
        'results': listing,
    }
    for n, v in tot.items():
        if n != 'functions':
            cov[n] = v if isinstance(v, int) else len(v)
    ev = {'property': a.prop, 'tier': tier, 'seed': seed, 'level': level(mod), 'coverage': cov,
          'wall_s': round(time.time() - t0, 3), 'violations': count['violation'], 'assumptions': getattr(mod, 'ASSUMPTIONS', [])}
    if not a.k:
        with open(os.path.join(evdir, a.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    if viol:
        path = os.path.join(evdir, a.prop + '.violation.txt')
        with open(path, 'w') as f:
            for ob, detail, site in viol:
                f.write('obligation: %s\nrule: %s\nconstruct: %s\n%s\n\n' % (ob.name, ob.rule, site, detail))
            f.write('replay: cd %s && python3-vt check.py %s -v\n' % (ROOT, a.prop))
        print('VIOLATION property=%s replay=%s' % (a.prop, path))
        return 1
    if count['broken']:
        print('analysis-broken: %d anchors vanished' % count['broken'])
        return 2
    return 0


def anchor_loc(p, qual):
    try:
        f = p.func(qual)
        if f is not None:
            return '%s:%d %s' % (f.module.path, f.node.lineno, qual)
        c = p.classes.get(qual)
        if c is not None:
            return '%s:%d %s' % (c.module.path, c.node.lineno, qual)
    except Exception:
        pass
    return qual
