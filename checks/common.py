"""Obligation bookkeeping shared by all checks."""
import json
import os
import re
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from engine.api import *          # noqa
from engine.interp import Config, State, Interp   # noqa
from engine import decide, terms as TM            # noqa

KNOWN = os.path.join(VERIF, 'known_findings.txt')


class Broken(Exception):
    """the analysis lost a public anchor; an error exit, never a silent pass"""


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.obs = []            # dicts
        self.functions = set()
        self.floors = []
        self.t0 = time.time()
        self.budget = 3000 if tier == 'quick' else 20000

    # ---------------------------------------------------- results
    def add(self, key, status, where='', detail='', rule=''):
        self.obs.append(dict(key=key, status=status, where=where, detail=str(detail)[:2000], rule=rule))

    def ok(self, key, where='', rule=''):
        self.add(key, 'ok', where, '', rule)

    def violation(self, key, where, detail, rule=''):
        self.add(key, 'violation', where, detail, rule)

    def undetermined(self, key, where='', detail='', rule=''):
        self.add(key, 'undetermined', where, detail, rule)

    def require(self, key, cond, where, detail, rule=''):
        if isinstance(cond, T):
            cond = True if cond is TRUE else False if cond is FALSE else None
        if cond is None:
            self.undetermined(key, where, detail, rule)
        elif cond:
            self.ok(key, where, rule)
        else:
            self.violation(key, where, detail, rule)

    def equal(self, key, actual, expected, where='', rule='', asg=None, known=()):
        st, info = decide.verdict(actual, expected, asg, self.budget, set(known) | getattr(self, 'known', set()))
        if st == 'equal':
            self.ok(key, where, rule)
            return True
        if st == 'differ':
            d = str(info)
            if getattr(info, 'note', None):
                d = info.note + ' ; ' + d
            self.violation(key, where, d, rule)
            return False
        self.undetermined(key, where, info, rule)
        return None

    def one_of(self, key, actual, allowed, where='', rule='', asg=None):
        """every alternative of the gated value equals one of the allowed terms"""
        try:
            cs = decide.cases(actual, asg, [self.budget])
        except decide.Budget:
            return self.undetermined(key, where, 'too many cases', rule)
        unk = None
        al = list(allowed)
        for t, g in cs:
            good, isunk = False, False
            for e in al:
                st, info = decide.verdict(t, decide.simp(e, g, {}), g, self.budget, getattr(self, 'known', set()))
                if st == 'equal':
                    good = True
                    break
                if st == 'unknown':
                    isunk = info
            if good:
                continue
            if isunk:
                unk = isunk
                continue
            self.violation(key, where, 'got %s, required one of %s ; when %s' % (TM.show(t, 7)[:500], [TM.show(e, 6)[:200] for e in al], decide.show_asg(g)), rule)
            return False
        if unk:
            self.undetermined(key, where, unk, rule)
            return None
        self.ok(key, where, rule)
        return True

    def floor(self, n, what):
        self.floors.append((n, what))

    def saw(self, S):
        self.functions |= S.I.visited

    def guard(self, key, fn, *a, **k):
        """run one group of obligations; analysis errors become undetermined, not alarms"""
        try:
            return fn(*a, **k)
        except Broken:
            raise
        except RecursionError:
            self.undetermined(key, '', 'analysis recursion limit')
        except Exception as e:
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exc()
            self.undetermined(key, '', 'analysis error %s: %s' % (type(e).__name__, str(e)[:300]))


def known_findings(pid):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('finding:') and 'property=%s ' % pid in line:
                k = line.split('key=', 1)[1].split(' :: ', 1)
                out.append((k[0].strip(), k[1].strip() if len(k) > 1 else ''))
    return out


def where_fn(fi):
    return fi.where() + ' ' + fi.qual.split(':')[-1] if fi is not None else '?'


def _guard_parts(mod, ctx):
    """every part of a check called from its run(ctx) for effect is guarded, so that an analysis error in one part leaves the others standing"""
    import ast
    import inspect
    tree = ast.parse(inspect.getsource(mod.run))
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.args and isinstance(n.value.args[0], ast.Name) and n.value.args[0].id == 'ctx':
            name = n.value.func.id
            f = mod.__dict__.get(name)
            if inspect.isfunction(f) and f.__module__ == mod.__name__ and not getattr(f, '_guarded', False):
                def g(*a, _f=f, _n=name, **k):
                    return ctx.guard(_n, _f, *a, **k)
                g._guarded = True
                setattr(mod, name, g)


def run_check(pid, mod, tier):
    ctx = Ctx(pid, tier)
    err = None
    _guard_parts(mod, ctx)
    try:
        ctx.guard('run', mod.run, ctx)
    except Broken as e:
        err = 'analysis-broken: %s' % e
    kf = known_findings(pid)
    pats = [(k, re.compile(re.escape(k).replace(r'\*', '.*') + r'\Z')) for k, _ in kf]
    seen_known = {}
    for o in ctx.obs:
        if o['status'] == 'violation':
            for k, rx in pats:
                if rx.match(o['key']):
                    o['status'] = 'known'
                    seen_known.setdefault(k, o)
                    break
    viol = [o for o in ctx.obs if o['status'] == 'violation']
    ok = [o for o in ctx.obs if o['status'] == 'ok']
    und = [o for o in ctx.obs if o['status'] == 'undetermined']
    decided = len(ok) + len(viol) + len(seen_known)
    min_decided = getattr(mod, 'FLOOR', 1)
    if err is None and not viol and decided < min_decided:
        err = 'analysis-broken: only %d obligations decided, at least %d expected' % (decided, min_decided)
    cov = {
        'explanation': mod.EXPLAIN,
        'obligations': len(ctx.obs), 'discharged': len(ok), 'known_findings': len(seen_known),
        'undetermined': len(und), 'violating': len(viol),
        'functions_analysed': len(ctx.functions),
        'functions': sorted(ctx.functions)[:400],
        'undetermined_list': [(o['key'] + ' :: ' + o['detail'])[:400] for o in und][:60],
        'samples': [o['key'] + ' @ ' + o['where'] for o in ok][:40],
    }
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other', coverage=cov,
              assumptions=getattr(mod, 'ASSUME', []), wall_s=round(time.time() - ctx.t0, 3), violations=len(viol))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d obligations, %d discharged, %d undetermined, %d known findings, %d violations; %d functions analysed; %.1fs'
          % (pid, tier, len(ctx.obs), len(ok), len(und), len(seen_known), len(viol), len(ctx.functions), time.time() - ctx.t0))
    if os.environ.get('VERIF_VERBOSE'):
        for o in ctx.obs:
            if o['status'] != 'ok' or os.environ['VERIF_VERBOSE'] == '2':
                print('  %-13s %s @ %s :: %s' % (o['status'], o['key'], o['where'], o['detail'][:1500]))
    for k, o in seen_known.items():
        print('KNOWN-FINDING: property=%s %s (%s) %s' % (pid, k, dict(kf).get(k, ''), o['where']))
    if viol:
        rp = os.path.join('evidence', pid + '.violations.txt')
        with open(os.path.join(VERIF, rp), 'w') as f:
            for o in viol:
                f.write('%s\n  rule: %s\n  at: %s\n  %s\n' % (o['key'], o['rule'], o['where'], o['detail']))
        for o in ([] if os.environ.get('VERIF_VERBOSE') else viol[:20]):
            print('  %s @ %s\n     rule: %s\n     %s' % (o['key'], o['where'], o['rule'], o['detail'][:900]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if err:
        print(err)
        return 3
    return 0


def bodyleaves(S, v):
    """leaf values of a possibly gated / nested result"""
    v = S.I.simplify_value(v, S.st)
    if v.op == 'ite':
        return bodyleaves(S, v.args[1]) + bodyleaves(S, v.args[2])
    if v.op == 'tup':
        return sum([bodyleaves(S, x) for x in v.args], [])
    if v.op == 'ref':
        o = S.I.obj(S.st, v)
        if o.kind == 'list':
            return sum([bodyleaves(S, s.args[0]) for s in o.segs if s.op == 'item'], [])
    return [v]


def gated(S, v, g=None):
    """leaf values of a possibly gated result with the guard under which each is the value"""
    g = TRUE if g is None else g
    v = S.I.simplify_value(v, S.st)
    if v.op == 'ite':
        return gated(S, v.args[1], band(g, v.args[0])) + gated(S, v.args[2], band(g, bnot(v.args[0])))
    return [(v, g)]


def list_items(S, v, g=None):
    """[(items or None, guard)] of a possibly gated list"""
    out = []
    for x, gg in gated(S, v, g):
        o = S.I.obj(S.st, x) if x.op == 'ref' else None
        if x.op == 'tup':
            out.append((list(x.args), gg))
        elif o is not None and o.kind == 'list' and all(s.op == 'item' for s in o.segs):
            out.append(([s.args[0] for s in o.segs], gg))
        else:
            out.append((None, gg))
    return out


def is_inst(S, v, *names):
    if v.op == 'ref':
        o = S.I.obj(S.st, v)
        if o.kind == 'inst' and o.cls is not None:
            return any(c.name in names for c in S.prog.mro(o.cls))
    return False
