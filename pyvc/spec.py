"""Contracts: targets, helpers to build symbolic pre-states."""
import time
import traceback
import z3
from .values import *
from . import engine as E
from . import frontend, lib, npmodel, discharge


class Target:
    """one function under contract.  run(ex) builds the precondition state, executes the function body taken from
    /repo, and proves the postconditions."""
    def __init__(self, name, run, contracts=None, pool=(), externals=None, opts=None, covers=(), min_obl=1, budget=240):
        self.name, self.run = name, run
        self.contracts, self.pool, self.externals, self.opts = contracts or {}, pool, externals or {}, opts or {}
        self.covers = covers or (name,)
        self.min_obl = min_obl
        self.budget = budget


class Result:
    def __init__(self, t):
        self.target = t
        self.status = None      # proved | failed | undecided
        self.obligations = []
        self.why = ''
        self.stats = {}
        self.notes = set()
        self.secs = 0.0
        self.inv = {}


def fn(ex, qual):
    """FuncVal of a function or method of the package: 'cpnest.nest2pos.logsubexp', 'cpnest.sampler.Sampler.reset'"""
    parts = qual.split('.')
    for k in range(len(parts) - 1, 0, -1):
        m = '.'.join(parts[:k])
        if frontend.has(m):
            break
    else:
        raise Unsupported('no module for ' + qual)
    rest = parts[k:]
    d = frontend.module(m).defs.get(rest[0])
    if d is None:
        raise Unsupported('no definition of ' + qual)
    if len(rest) == 1:
        v = ex.global_(m, rest[0])
        if isinstance(v, E.FuncVal):
            return v
        raise Unsupported(qual + ' is not a function')
    c = ex.class_info(m, rest[0])
    f, kind, _ = ex.find_method(c, rest[1])
    if f is None:
        raise Unsupported('no method ' + qual)
    return f


def cls(ex, qual):
    m, n = qual.rsplit('.', 1)
    if not frontend.has(m) or not isinstance(frontend.module(m).defs.get(n), __import__('ast').ClassDef):
        raise Unsupported('no class ' + qual)
    return ex.class_info(m, n)


def call_real(ex, qual, args, kwargs=None):
    """run the body of a package function, whatever contract callers use for it"""
    f = fn(ex, qual)
    c = ex.contracts.pop(f.qual, None)
    try:
        return ex.inline(f, list(args), kwargs or {})
    finally:
        if c is not None:
            ex.contracts[f.qual] = c


def noraise(ex, thunk, label, allow=()):
    """thunk() must not raise; returns its value"""
    try:
        return thunk()
    except E.PyRaise as e:
        if e.exc.name in allow:
            raise E.PathEnd()
        ex.prove(False, '%s: no %s' % (label, e.exc.name))
        raise E.PathEnd()


def forall(n, f, lo=0, name='k'):
    """forall lo <= k < n: f(k)"""
    if isinstance(n, int) and isinstance(lo, int) and n <= lo:
        return True
    ctr[0] += 1
    k = z3.Int('%s?%d' % (name, ctr[0]))
    b = f(k)
    if b is True:
        return True
    return z3.ForAll([k], z3.Implies(z3.And(zi(lo) <= k, k < zi(n)), zb(b)))


def forall2(n, f, lo=0):
    """forall lo <= j < k < n: f(j, k)"""
    if isinstance(n, int) and isinstance(lo, int) and n <= lo + 1:
        return True
    ctr[0] += 1
    j, k = z3.Ints('j?%d k?%d' % (ctr[0], ctr[0]))
    b = f(j, k)
    if b is True:
        return True
    return z3.ForAll([j, k], z3.Implies(z3.And(zi(lo) <= j, j < k, k < zi(n)), zb(b)))


def exists(n, f, lo=0):
    ctr[0] += 1
    k = z3.Int('e?%d' % ctr[0])
    return z3.Exists([k], z3.And(zi(lo) <= k, k < zi(n), zb(f(k))))


def iff(a, b):
    return zb(a) == zb(b)


ctr = [0]


def verify(t, tier='quick', trace=False):
    r = Result(t)
    t0 = time.time()
    o = dict(t.opts)
    o['tier'] = tier
    if trace:
        o['trace'] = True
    ex = E.Exec(contracts=t.contracts, pool=t.pool, externals=t.externals, opts=o)
    ex.target = t.name
    discharge.NL[0] = bool(o.get('nl'))
    ex.deadline = time.time() + t.budget * (3 if tier == 'thorough' else 1)
    try:
        def run(ex):
            ex.init_lp()
            try:
                t.run(ex)
                if vacuity and 'the end' not in alive:
                    seen.add('the end')
                    if not ex.contradictory():
                        alive.add('the end')
            except E.PyRaise as e:
                ex.prove(False, '%s: no unhandled %s' % (t.name, e.exc.name))
            except (E.ReturnSig, E.BreakSig, E.ContinueSig, E.YieldSig):
                raise Unsupported('stray control flow')
        vacuity = trace == 'vacuity' or tier == 'thorough'
        seen, alive = set(), set()
        ex.vacuity = (seen, alive) if vacuity else None
        ex.explore(run)
        r.vacuous = sorted(x for x in seen - alive if not x.startswith('lemma: '))
        obs = [x for l in ex.obligations.values() for x in l]
        r.obligations = obs
        bad = [x for x in obs if x.status != 'proved']
        if bad:
            r.status = 'failed'
            r.why = '; '.join(sorted({x.label for x in bad}))
        elif len(obs) < t.min_obl:
            r.status = 'undecided'
            r.why = 'only %d obligations were generated' % len(obs)
        else:
            r.status = 'proved'
    except Unsupported as e:
        r.obligations = [x for l in ex.obligations.values() for x in l]
        r.status, r.why = 'undecided', 'outside the verified subset: %s' % e
        if trace:
            traceback.print_exc()
    except E.Budget as e:
        r.obligations = [x for l in ex.obligations.values() for x in l]
        r.status, r.why = 'undecided', 'budget: %s' % e
        if any(x.status != 'proved' for x in r.obligations):
            r.status, r.why = 'failed', '; '.join(sorted({x.label for x in r.obligations if x.status != 'proved'}))
    except (z3.Z3Exception, RecursionError, KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError) as e:
        r.obligations = [x for l in ex.obligations.values() for x in l]
        r.status, r.why = 'undecided', 'verifier error %s: %s' % (type(e).__name__, str(e)[:200])
        r.tb = traceback.format_exc()
        if trace:
            traceback.print_exc()
    r.stats = ex.stats
    r.notes = ex.notes
    r.inv = ex.inv_log
    r.secs = time.time() - t0
    return r
