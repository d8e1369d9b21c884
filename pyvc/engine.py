"""Symbolic executor that generates proof obligations from the Python (and Cython) source of cpnest.

Paths are enumerated by re-execution with decision prefixes.  Loops over unbounded ranges are cut by an inductive
invariant, computed by Houdini from the candidates a contract supplies and a few automatic ones; what survives is
inductive by construction, and every obligation is discharged with nothing but the surviving candidates.
"""
import ast
import time
import z3
from .values import *
from . import frontend
from . import discharge


class Signal(Exception):
    pass


class ReturnSig(Signal):
    def __init__(self, v):
        self.v = v


class BreakSig(Signal):
    pass


class ContinueSig(Signal):
    pass


class YieldSig(Signal):
    def __init__(self, v):
        self.v = v


class PathEnd(Signal):
    pass


class PyExc:
    """a Python exception instance"""
    def __init__(self, cls, args=(), node=None):
        self.cls = cls          # ClassInfo or builtin name
        self.args = args
        self.node = node

    @property
    def name(self):
        return self.cls if isinstance(self.cls, str) else self.cls.name

    def __repr__(self):
        return 'PyExc(%s)' % self.name


class PyRaise(Signal):
    def __init__(self, exc):
        self.exc = exc


BUILTIN_EXC = {'BaseException': None, 'Exception': 'BaseException', 'SystemExit': 'BaseException',
               'KeyboardInterrupt': 'BaseException', 'GeneratorExit': 'BaseException', 'ArithmeticError': 'Exception',
               'ZeroDivisionError': 'ArithmeticError', 'OverflowError': 'ArithmeticError', 'LookupError': 'Exception',
               'IndexError': 'LookupError', 'KeyError': 'LookupError', 'ValueError': 'Exception',
               'TypeError': 'Exception', 'AttributeError': 'Exception', 'NameError': 'Exception',
               'UnboundLocalError': 'NameError', 'AssertionError': 'Exception', 'StopIteration': 'Exception',
               'RuntimeError': 'Exception', 'NotImplementedError': 'RuntimeError', 'OSError': 'Exception',
               'FileNotFoundError': 'OSError', 'IOError': 'OSError', 'EOFError': 'Exception', 'ImportError': 'Exception',
               'PicklingError': 'Exception', 'CRASH': None}


class ClassInfo:
    def __init__(self, name, module, node, bases):
        self.name = name
        self.module = module
        self.node = node
        self.bases = bases      # list of ClassInfo | str
        self.methods = {}
        self.attr_nodes = {}
        self.props = {}
        self.setters = {}
        for n in node.body:
            if isinstance(n, ast.FunctionDef):
                deco = [ast.unparse(d) for d in n.decorator_list]
                if 'property' in deco:
                    self.props[n.name] = n
                elif any(d.endswith('.setter') for d in deco):
                    self.setters[n.name] = n
                else:
                    self.methods[n.name] = (n, 'classmethod' if 'classmethod' in deco else
                                            'staticmethod' if 'staticmethod' in deco else None)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.attr_nodes[t.id] = n.value
            elif isinstance(n, ast.AnnAssign) and n.value is not None and isinstance(n.target, ast.Name):
                self.attr_nodes[n.target.id] = n.value

    @property
    def qual(self):
        return self.module + '.' + self.name

    def mro(self):
        """linearisation; diamonds do not occur in the package except with object and under logging's handlers, where
        Python's own C3 is asked"""
        if any(isinstance(b, str) and b.startswith('logging.') for b in self.all_bases()):
            t, back = self.pytype({})
            return [back.get(c, '%s.%s' % (c.__module__, c.__name__)) for c in t.__mro__ if c is not object]
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassInfo):
                for c in b.mro():
                    if c in out:
                        out.remove(c)
                    out.append(c)
            elif b not in out:
                out.append(b)
        return out

    def all_bases(self):
        for b in self.bases:
            yield b
            if isinstance(b, ClassInfo):
                yield from b.all_bases()

    def pytype(self, back):
        """an empty Python class with the same bases (library bases: the library's own classes)"""
        import logging
        bs = []
        for b in self.bases:
            if isinstance(b, ClassInfo):
                t = next((k for k, v in back.items() if v is b), None) or b.pytype(back)[0]
            else:
                t = object if b == 'object' else getattr(logging, b.split('.', 1)[1])
            bs.append(t)
        t = type(self.name, tuple(bs), {})
        back[t] = self
        return t, back

    def is_sub(self, other):
        if self is other:
            return True
        for c in self.mro():
            if c is other or c == other:
                return True
            if isinstance(c, str) and isinstance(other, str) and exc_sub(c, other):
                return True
        return False

    def __repr__(self):
        return 'ClassInfo(%s)' % self.qual


def exc_sub(a, b):
    while a is not None:
        if a == b:
            return True
        a = BUILTIN_EXC.get(a)
    return False


class FuncVal:
    def __init__(self, node, module, qual, closure=None, cls=None):
        self.node = node
        self.module = module
        self.qual = qual
        self.closure = closure
        self.cls = cls      # defining ClassInfo, for super()
        self.defaults = None

    def __repr__(self):
        return 'FuncVal(%s)' % self.qual


class Bound:
    def __init__(self, fn, self_):
        self.fn = fn
        self.self_ = self_

    def __repr__(self):
        return 'Bound(%r)' % (self.fn,)


class ModuleVal:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'ModuleVal(%s)' % self.name


class BuiltinType(Model):
    """type objects such as float, list, dict"""
    def __init__(self, name, call=None):
        self.name = name
        self.call = call

    def py_call(self, ex, args, kwargs):
        if self.call is None:
            raise Unsupported('call of ' + self.name)
        return self.call(ex, *args, **kwargs)

    def __repr__(self):
        return 'type ' + self.name


class SuperVal:
    def __init__(self, cls, self_):
        self.cls = cls
        self.self_ = self_


class GenObj:
    def __init__(self, fn, env):
        self.fn = fn
        self.env = env


class GenExp:
    """generator expression: list comprehension evaluated at first use"""
    def __init__(self, node, frame):
        self.node = node
        self.frame = frame


class Obj:
    __slots__ = ('id', 'cls', 'attrs', 'pay', 'meta')

    def __init__(self, id, cls, attrs=None, pay=None, meta=None):
        self.id = id
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}
        self.pay = pay
        self.meta = meta

    def copy(self):
        return Obj(self.id, self.cls, dict(self.attrs), dict(self.pay) if isinstance(self.pay, dict) else self.pay, self.meta)


class Frame:
    def __init__(self, env, module, fn=None, parent=None):
        self.env = env
        self.module = module
        self.fn = fn
        self.parent = parent    # enclosing frame, for closures


LPF = ('vals', 'logLk', 'logLr', 'logPk', 'logPr', 'prov')


class MaybeUnbound:
    """a local first assigned by a loop body: bound once the loop has run"""
    __slots__ = ('v', 'it')

    def __init__(self, v, it):
        self.v, self.it = v, it


class State:
    def __init__(self):
        self.heap = {}
        self.next = 1
        self.pc = []        # quantifier-free
        self.facts = []     # quantified
        self.alloc = None
        self.lp = {}
        self.ghost = {}

    def copy(self):
        s = State()
        s.heap = {k: o.copy() for k, o in self.heap.items()}
        s.next = self.next
        s.pc = list(self.pc)
        s.facts = list(self.facts)
        s.alloc = self.alloc
        s.lp = dict(self.lp)
        s.ghost = dict(self.ghost)
        return s


class Obligation:
    def __init__(self, label, status, t, backend, fn, info=''):
        self.label, self.status, self.t, self.backend, self.fn, self.info = label, status, t, backend, fn, info


class Budget(Exception):
    pass


class Exec:
    MAXPATHS = 4000

    def __init__(self, contracts=None, pool=(), externals=None, opts=None):
        self.contracts = dict(contracts or {})
        self.pool = list(pool)
        self.externals = externals or {}
        self.opts = opts or {}
        self.st = State()
        self.frames = []
        self.counter = 0
        self.obligations = {}
        self.oblig_seen = 0
        self.mute = 0
        self.binders = []
        self.cache = {}
        self.trail = []
        self.deadline = None
        self.stats = dict(paths=0, queries=0, solver_s=0.0, branches=0, houdini_rounds=0, houdini_checks=0)
        self.hook_stmt = None
        self.hook_access = None
        self.classes = {}
        self.notes = set()
        self.target = None
        self.loopctx = ()
        self.cached_mod_env = {}
        self.gone = {}
        self.killed = set()
        self.lib = __import__('pyvc.lib', fromlist=['x'])
        self.inv_log = {}
        self.axioms = []
        self.failed_labels = {}
        self.depth = 0

    # ------------------------------------------------------------ fresh symbols
    def _n(self, name):
        self.counter += 1
        return '%s!%d' % (name, self.counter)

    def fresh_fn(self, name, sort, dom=None):
        doms = [z3.IntSort()] if dom is None else list(dom)
        b = list(self.binders)
        f = z3.Function(self._n(name), *([x.sort() for x in b] + doms + [sort]))
        return lambda *i: f(*(b + [zi(x) if z3.is_int(zi(x)) else x for x in i]))

    def _fresh(self, name, sort):
        if self.binders:
            f = z3.Function(self._n(name), *([x.sort() for x in self.binders] + [sort]))
            return f(*self.binders)
        return z3.Const(self._n(name), sort)

    def fresh_int(self, name, lo=None, hi=None):
        t = self._fresh(name, z3.IntSort())
        if lo is not None:
            self.assume(t >= zi(lo))
        if hi is not None:
            self.assume(t < zi(hi))
        return t

    def fresh_bool(self, name):
        return self._fresh(name, z3.BoolSort())

    def fresh_real(self, name):
        return self._fresh(name, z3.RealSort())

    def fresh_flt(self, name, fin=False, nonan=False, npy=False):
        r = self.fresh_real(name)
        if fin:
            return SFlt(r, 0, None, npy)
        k = self._fresh(name + '_k', z3.IntSort())
        self.assume(z3.And(k >= -1, k <= (1 if nonan else 2)))
        return SFlt(r, k, None, npy)

    def fresh_lp(self, name, new=False):
        """an existing (new=False) live point"""
        if new:
            return self.new_lp()
        t = self._fresh(name, z3.IntSort())
        self.assume(z3.And(t >= 0, t < zi(self.st.alloc)))
        return LP(t)

    def fresh_seq(self, name, n, kind):
        return Seq(n, kind.array(self, name), kind)

    # ------------------------------------------------------------ live points
    def init_lp(self):
        I, R = z3.IntSort(), z3.RealSort()
        n = self._n('lp')
        self.st.lp = dict(vals=z3.Const(n + '_vals', z3.ArraySort(I, z3.ArraySort(I, R))),
                          logLk=z3.Const(n + '_logLk', z3.ArraySort(I, I)), logLr=z3.Const(n + '_logLr', z3.ArraySort(I, R)),
                          logPk=z3.Const(n + '_logPk', z3.ArraySort(I, I)), logPr=z3.Const(n + '_logPr', z3.ArraySort(I, R)),
                          prov=z3.Const(n + '_prov', z3.ArraySort(I, I)))
        self.st.alloc = z3.Int(n + '_alloc')
        self.assume(self.st.alloc >= 0)
        self.dim = z3.Int('dim')
        self.assume(self.dim >= 1)

    def new_lp(self):
        ref = self.st.alloc
        if self.binders:
            raise Unsupported('live point created under a comprehension binder')
        self.st.alloc = z3.simplify(zi(ref) + 1)
        self.st.lp['prov'] = z3.Store(self.st.lp['prov'], zi(ref), z3.IntVal(0))
        return LP(ref)

    def lp_get(self, p, f):
        if f in ('logL', 'logP'):
            return SFlt(self.lp_sel(f + 'r', p.ref), self.lp_sel(f + 'k', p.ref))
        return self.lp_sel(f, p.ref)

    def lp_sel(self, f, ref):
        """heap read; with opts['lpres'] the reads are resolved against the writes that provably hit or miss"""
        arr = self.st.lp[f]
        if not self.opts.get('lpres') or self.binders:
            return z3.Select(arr, ref)
        ref = zi(ref)
        while z3.is_store(arr):
            i = arr.arg(1)
            d = z3.simplify(i - ref)
            if z3.is_int_value(d):
                if d.as_long() == 0:
                    return arr.arg(2)
            elif not self.apart(i, ref):
                break
            arr = arr.arg(0)
        return z3.Select(arr, ref)

    def apart(self, i, j):
        s = z3.Solver()
        s.set('rlimit', 300000)
        s.set('timeout', 2000)
        for p in list(self.st.pc) + list(self.st.facts):
            s.add(p)
        s.add(i == j)
        return s.check() == z3.unsat

    def lp_set(self, p, f, v):
        if self.binders:
            raise Unsupported('live point write under a binder')
        if f in ('logL', 'logP'):
            v = flt(v)
            self.st.lp[f + 'r'] = z3.Store(self.st.lp[f + 'r'], p.ref, v.zr())
            self.st.lp[f + 'k'] = z3.Store(self.st.lp[f + 'k'], p.ref, zi(v.k))
        else:
            self.st.lp[f] = z3.Store(self.st.lp[f], p.ref, v)

    def lp_vals(self, p):
        return self.lp_sel('vals', p.ref)

    # ------------------------------------------------------------ heap
    def new(self, cls, attrs=None, pay=None, meta=None):
        o = Obj(self.st.next, cls, attrs, pay, meta)
        self.st.heap[o.id] = o
        self.st.next += 1
        return Ref(o.id)

    def obj(self, ref):
        return self.st.heap[ref.id]

    def new_list(self, seq, cls='list'):
        return self.new(cls, pay=seq)

    def new_nd(self, seq, meta=None):
        return self.new('ndarray', pay=seq, meta=meta)

    # ------------------------------------------------------------ assumptions, branching, proving
    def assume(self, c):
        c = lit(c)
        if c is True:
            return
        if c is False:
            raise PathEnd()
        if self.binders and self.bind_assume(c):
            return
        self._add(c)

    def _add(self, c):
        if _has_quant(c):
            self.st.facts.append(c)
        else:
            self.st.pc.append(c)

    def bind_assume(self, c):
        """facts about binder-indexed symbols are quantified when the binder closes"""
        self._add(c)
        return True

    def assume_forall(self, f, n=1, pattern=None, lo=None, hi=None):
        vs = [z3.Int(self._n('q')) for _ in range(n)]
        body = zb(f(*vs))
        if z3.is_true(body):
            return
        rng = []
        for v in vs:
            if lo is not None:
                rng.append(v >= zi(lo))
            if hi is not None:
                rng.append(v < zi(hi))
        if rng:
            body = z3.Implies(z3.And(*rng), body)
        pats = []
        if pattern is not None:
            p = pattern(*vs)
            ps = p if isinstance(p, list) else [p]
            for q in ps:
                pats.append(z3.MultiPattern(*q) if isinstance(q, tuple) else q)
        allb = vs
        try:
            q = z3.ForAll(allb, body, patterns=pats) if pats else z3.ForAll(allb, body)
        except z3.Z3Exception:
            q = z3.ForAll(allb, body)
        self.st.facts.append(q)

    def feasible(self, c):
        """quantifier-free feasibility of pc and c (unknown counts as feasible)"""
        self.stats['branches'] += 1
        s = z3.SolverFor('QF_AUFLIRA') if False else z3.Solver()
        s.set('rlimit', 400000)
        for p in self.st.pc:
            s.add(p)
        if self.st.ghost.get('_ext_pc'):
            for p in self.st.ghost['_ext_pc']:
                s.add(p)
        s.add(zb(c))
        t = time.time()
        r = s.check()
        self.stats['solver_s'] += time.time() - t
        return r != z3.unsat

    def known(self, c):
        """does the path condition imply c?  (a cheap attempt; with the properties of exp and log)"""
        c = z3.simplify(zb(c))
        if z3.is_true(c) or z3.is_false(c):
            return z3.is_true(c)
        s = z3.Solver()
        s.set('rlimit', 400000)
        s.set('timeout', 3000)
        fs = list(self.st.pc) + [z3.Not(c)]
        for p in fs + discharge.exp_axioms(fs):
            s.add(p)
        t = time.time()
        r = s.check()
        self.stats['solver_s'] += time.time() - t
        return r == z3.unsat

    def settle(self, f):
        """f with its class (finite, infinite, nan) made concrete where the path condition fixes it"""
        if isinstance(f, SFlt) and is_z(f.k):
            for v in (0, -1):
                if self.known(f.k == v):
                    if v == -1:
                        return NINF.with_(npy=f.npy)
                    return SFlt(f.r, 0, f.lin, f.npy)
        return f

    def branch(self, c, hint=None):
        c = lit(c)
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.deadline and time.time() > self.deadline:
            raise Budget('time')
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trail.append(d)
            if d in (1, 0):     # decided with both sides feasible
                self._add(c if d else Not(c))
                return bool(d)
            return d == 2       # forced: 2 true, 3 false
        ft = self.feasible(c)
        ff = self.feasible(z3.Not(c)) if ft else True
        if ft and ff:
            self.work.append(self.trail_local() + [0])
            d = 1
            self._add(c)
        elif ft:
            d = 2
        else:
            if not self.feasible(z3.Not(c)):
                raise PathEnd()
            d = 3
        self.pos += 1
        self.prefix = self.prefix + [d]
        self.trail.append(d)
        return d in (1, 2)

    def trail_local(self):
        return list(self.prefix[:self.pos])

    def choose(self, n, name='choice'):
        """nondeterministic choice 0..n-1, explored fully"""
        for i in range(n - 1):
            b = z3.Bool(self._n(name))
            if self.branch(b):
                return i
        return n - 1

    vacuity = None

    def prove(self, goal, label, hint=None):
        """obligation; afterwards it is assumed"""
        goal = lit(goal)
        if self.mute or self.binders_muted():
            if goal is False:
                raise PathEnd()
            if goal is not True:
                self._add(goal)
            return True
        fresh = self.pos >= self.forced
        ok = True
        if fresh:
            if goal is True:
                self.record(label, 'proved', 0.0, 'trivial')
            else:
                ok = self.check(goal, label)
        if goal is False:
            raise PathEnd()
        if goal is not True:
            self._add(goal)
        if fresh and self.vacuity is not None and label not in self.vacuity[1]:
            self.vacuity[0].add(label)
            if not self.contradictory():
                self.vacuity[1].add(label)
        return ok

    def lemma(self, label, f, *terms):
        """f holds for all values: decided on its own, away from the path's facts (once per target); then used at these terms"""
        done = self.__dict__.setdefault('_lemmas', set())
        if label not in done:
            done.add(label)
            xs = [z3.Const(self._n('l'), t.sort()) for t in terms]
            t0 = time.time()
            status, backend, info = discharge.prove([], [], zb(f(*xs)), self.axioms if self.opts.get('lemma_axioms') else [], tier=self.opts.get('tier', 'quick'))
            self.record('lemma: ' + label, status, time.time() - t0, backend, info)
            if status != 'proved':
                self.failed_labels.setdefault('lemma: ' + label, info)
                self.failed_at = time.time()
        self.assume(f(*terms))

    def binders_muted(self):
        return False

    def record(self, label, status, t, backend, info=''):
        key = label
        o = self.obligations.setdefault(key, [])
        o.append(Obligation(label, status, t, backend, self.target, info))

    def check(self, goal, label):
        t = time.time()
        goals = zb(goal)
        self.stats['queries'] += 1
        if self.failed_labels:
            if t - self.failed_at > 90:
                raise Budget('stopped after a failed obligation')
            if label in self.failed_labels:
                return False
        status, backend, info = discharge.prove(self.st.pc, self.st.facts, goals, self.axioms, tier='fast' if self.failed_labels else self.opts.get('tier', 'quick'))
        if status == 'unknown' and self.failed_labels:
            return False          # only tried briefly: the target has failed already
        dt = time.time() - t
        self.stats['solver_s'] += dt
        self.record(label, status, dt, backend, info)
        if status != 'proved':
            self.failed_labels.setdefault(label, info)
            self.failed_at = time.time()
        return status == 'proved'

    def contradictory(self):
        """is the path's context inconsistent (as far as the solver can see)?"""
        return discharge.contradiction(self.st.pc, self.st.facts, self.axioms)

    def valid(self, goal, quick=True):
        """for Houdini: is the goal provable here"""
        goal = lit(goal)
        if isinstance(goal, bool):
            return goal
        self.stats['houdini_checks'] += 1
        t = time.time()
        r = discharge.quick(self.st.pc, self.st.facts, goal, self.axioms)
        self.stats['solver_s'] += time.time() - t
        return r

    # ------------------------------------------------------------ path exploration
    def explore(self, run):
        work = [[]]
        n = 0
        while work:
            prefix = work.pop()
            self.work = work
            self.prefix = prefix
            self.forced = len(prefix)
            self.pos = 0
            self.trail = []
            self.st = State()
            self.frames = []
            self.binders = []
            self.mute = 0
            self.loopctx = ()
            n += 1
            self.stats['paths'] += 1
            if n > self.opts.get('maxpaths', self.MAXPATHS):
                raise Budget('paths')
            try:
                run(self)
            except PathEnd:
                pass

    def nested(self, body, mute=True):
        """explore all paths of body() from the current state.  Returns [(kind, payload, state, env)] and restores."""
        snap = self.st.copy()
        fr = self.frames[-1] if self.frames else None
        env0 = dict(fr.env) if fr else None
        saved = (self.work, self.prefix, self.pos, self.forced, self.trail)
        outs = []
        work = [[]]
        nframes = len(self.frames)
        if mute:
            self.mute += 1
        try:
            while work:
                prefix = work.pop()
                self.st = snap.copy()
                if fr:
                    fr.env.clear()
                    fr.env.update(env0)
                self.work, self.prefix, self.pos, self.forced, self.trail = work, prefix, 0, len(prefix), []
                self.stats['paths'] += 1
                if len(outs) > 400:
                    raise Budget('nested paths')
                kind, pay = 'normal', None
                try:
                    pay = body()
                except ReturnSig as e:
                    kind, pay = 'return', e.v
                except BreakSig:
                    kind = 'break'
                except ContinueSig:
                    kind = 'continue'
                except YieldSig as e:
                    kind, pay = 'yield', e.v
                except PyRaise as e:
                    kind, pay = 'raise', e.exc
                except PathEnd:
                    kind = None
                del self.frames[nframes:]
                if kind:
                    outs.append((kind, pay, self.st, dict(fr.env) if fr else None))
        finally:
            if mute:
                self.mute -= 1
            self.work, self.prefix, self.pos, self.forced, self.trail = saved
            self.st = snap
            del self.frames[nframes:]
            if fr:
                fr.env.clear()
                fr.env.update(env0)
        return outs

    # ------------------------------------------------------------ names
    def class_info(self, module, name):
        key = module + '.' + name
        if key not in self.classes:
            node = frontend.module(module).defs[name]
            bases = []
            for b in node.bases:
                bv = self.eval_static_base(b, module)
                bases.append(bv)
            self.classes[key] = ClassInfo(name, module, node, bases)
        return self.classes[key]

    def eval_static_base(self, b, module):
        src = ast.unparse(b)
        if src == 'object':
            return 'object'
        if isinstance(b, ast.Name):
            d = frontend.module(module).defs.get(b.id)
            if isinstance(d, ast.ClassDef):
                return self.class_info(module, b.id)
            if isinstance(d, tuple) and d[0] == 'import':
                m = frontend.resolve_rel(d[1], module)
                if m.split('.')[0] == 'cpnest' and d[2]:
                    return self.class_info(m, d[2])
                return (m + '.' + d[2]) if d[2] else m
        return src

    def global_(self, module, name):
        ov = self.externals.get(module + ':' + name)
        if ov is not None:
            return ov
        m = frontend.module(module)
        d = m.defs.get(name)
        if d is None:
            ov = self.externals.get('builtin:' + name)
            if ov is not None:
                return ov
            b = self.lib.BUILTINS.get(name)
            if b is not None:
                return b
            if name in BUILTIN_EXC:
                return BuiltinType(name)
            if name in ('__name__',):
                return module
            raise PyRaise(PyExc('NameError', (name,)))
        if isinstance(d, ast.FunctionDef):
            return FuncVal(d, module, module + '.' + d.name)
        if isinstance(d, ast.ClassDef):
            return self.class_info(module, name)
        if d[0] == 'import':
            return self.import_(d[1], d[2], module)
        if d[0] == 'assign':
            self.frames.append(Frame({}, module))
            try:
                return self.eval(d[1])
            finally:
                self.frames.pop()
        raise Unsupported('global ' + name)

    def import_(self, mod, name, cur):
        m = frontend.resolve_rel(mod, cur)
        if name is None:
            return self.module_val(m)
        if m.split('.')[0] == 'cpnest':
            if m == 'cpnest' and name in frontend.PKG:
                return ModuleVal('cpnest.' + name)
            if m == 'cpnest':
                d = frontend.module(m).defs.get(name)
                if isinstance(d, tuple) and d[0] == 'import':
                    return self.import_(d[1], d[2], 'cpnest.__init__')
            return self.global_(m, name)
        return self.getattr(self.module_val(m), name)

    def module_val(self, m):
        if m in self.externals:
            return self.externals[m]
        return ModuleVal(m)

    def lookup(self, name):
        fr = self.frames[-1]
        f = fr
        while f is not None:
            if name in f.env:
                v = f.env[name]
                if isinstance(v, Poison):
                    raise Unsupported('value of %s after a loop: %s' % (name, v.why))
                if isinstance(v, MaybeUnbound):
                    if self.branch(eq(v.it, 0)):
                        raise PyRaise(PyExc('UnboundLocalError', (name,)))
                    f.env[name] = v = v.v
                return v
            f = f.parent
        if fr.fn is not None and name in self.local_names(fr.fn):
            raise PyRaise(PyExc('UnboundLocalError', (name,)))
        return self.global_(fr.module, name)

    def local_names(self, fn):
        node = fn.node
        if not hasattr(node, '_locals'):
            s = set()
            if isinstance(node, ast.FunctionDef):
                glob = set()
                for n in ast.walk(node):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        s.add(n.id)
                    elif isinstance(n, ast.Global):
                        glob |= set(n.names)
                # names bound only inside comprehensions are not locals, but reading them unbound is an error anyway
                s -= glob
            node._locals = s
        return node._locals

    # ------------------------------------------------------------ functions
    def find_method(self, cls, name, after=None):
        mro = cls.mro()
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if isinstance(c, ClassInfo):
                if name in c.methods:
                    n, kind = c.methods[name]
                    return FuncVal(n, c.module, c.qual + '.' + name, None, c), kind, c
            else:
                b = self.lib.external_method(self, c, name)
                if b is not None:
                    return b, None, c
        return None, None, None

    def call(self, f, args=(), kwargs=None, node=None):
        kwargs = kwargs or {}
        args = list(args)
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self_] + args, kwargs, node)
        if isinstance(f, Model):
            return f.py_call(self, args, kwargs)
        if isinstance(f, FuncVal):
            c = self.contracts.get(f.qual)
            if c is not None:
                return c(self, *args, **kwargs)
            return self.inline(f, args, kwargs)
        if isinstance(f, ClassInfo):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Ref):
            o = self.obj(f)
            if isinstance(o.cls, ClassInfo):
                m, _, _ = self.find_method(o.cls, '__call__')
                if m is not None:
                    return self.call(m, [f] + args, kwargs)
        if isinstance(f, Opaque):
            return Opaque(f.tag + '()')
        raise Unsupported('call of %r' % (f,))

    def bind_args(self, f, args, kwargs):
        a = f.node.args
        env = {}
        pos = [x.arg for x in getattr(a, 'posonlyargs', [])] + [x.arg for x in a.args]
        if len(args) > len(pos):
            if a.vararg is None:
                raise PyRaise(PyExc('TypeError', ('too many arguments for ' + f.qual,)))
            env[a.vararg.arg] = tuple(args[len(pos):])
            args = args[:len(pos)]
        elif a.vararg is not None:
            env[a.vararg.arg] = ()
        for n, v in zip(pos, args):
            env[n] = v
        extra = {}
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        for k, v in kwargs.items():
            if k in names:
                if k in env:
                    raise PyRaise(PyExc('TypeError', ('duplicate argument',)))
                env[k] = v
            else:
                extra[k] = v
        if a.kwarg is not None:
            env[a.kwarg.arg] = self.new('dict', pay=dict(extra))
        elif extra:
            raise PyRaise(PyExc('TypeError', ('unexpected keyword ' + ','.join(extra),)))
        nd = len(a.defaults)
        for n, d in list(zip(pos[len(pos) - nd:], a.defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if n not in env:
                self.frames.append(Frame({}, f.module, None, f.closure))
                try:
                    env[n] = self.eval(d)
                finally:
                    self.frames.pop()
        for n in pos:
            if n not in env:
                raise PyRaise(PyExc('TypeError', ('missing argument ' + n,)))
        return env

    def is_gen(self, node):
        if not hasattr(node, '_isgen'):
            g = False
            stack = list(node.body) if isinstance(node, ast.FunctionDef) else []
            while stack:
                n = stack.pop()
                if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    continue
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    g = True
                    break
                stack.extend(ast.iter_child_nodes(n))
            node._isgen = g
        return node._isgen

    def inline(self, f, args, kwargs):
        env = self.bind_args(f, args, kwargs)
        if isinstance(f.node, ast.Lambda):
            self.frames.append(Frame(env, f.module, f, f.closure))
            try:
                return self.eval(f.node.body)
            finally:
                self.frames.pop()
        if self.is_gen(f.node):
            return GenObj(f, env)
        return self.run_body(f, env)

    def run_body(self, f, env):
        self.depth += 1
        if self.depth > 30:
            self.depth = 0
            raise Unsupported('recursion in ' + f.qual)
        fr = Frame(env, f.module, f, f.closure)
        self.frames.append(fr)
        try:
            self.block(f.node.body)
            return None
        except ReturnSig as r:
            return r.v
        finally:
            self.depth -= 1
            while self.frames and self.frames[-1] is not fr:
                self.frames.pop()
            if self.frames:
                self.frames.pop()

    def next_(self, g):
        if isinstance(g, GenObj):
            c = self.contracts.get('next:' + g.fn.qual)
            if c is not None:
                return c(self, g)
            fr = Frame(g.env, g.fn.module, g.fn, g.fn.closure)
            self.frames.append(fr)
            try:
                self.block(g.fn.node.body)
                raise PyRaise(PyExc('StopIteration'))
            except YieldSig as y:
                return y.v
            except ReturnSig:
                raise PyRaise(PyExc('StopIteration'))
            finally:
                while self.frames and self.frames[-1] is not fr:
                    self.frames.pop()
                self.frames.pop()
        if isinstance(g, Model):
            return g.py_next(self)
        raise Unsupported('next of %r' % (g,))

    def instantiate(self, cls, args, kwargs):
        c = self.contracts.get(cls.qual)
        if c is not None:
            return c(self, *args, **kwargs)
        if cls.qual == 'cpnest.parameter.LivePoint' and not self.opts.get('raw_lp'):
            return self.lib.lp_construct(self, *args, **kwargs)
        if cls.is_sub('BaseException'):
            return PyExc(cls, tuple(args))
        ref = self.new(cls)
        ext = [b for b in cls.mro() if isinstance(b, str) and b != 'object']
        if 'list' in ext:
            self.obj(ref).pay = Seq.of([])
        m, kind, _ = self.find_method(cls, '__cinit__')
        if m is not None:
            self.call(m, [ref] + args, kwargs)
            return ref
        m, kind, _ = self.find_method(cls, '__init__')
        if m is not None:
            self.call(m, [ref] + args, kwargs)
        elif args or kwargs:
            raise PyRaise(PyExc('TypeError', ('no __init__',)))
        return ref

    # ------------------------------------------------------------ attributes
    def getattr(self, v, name):
        if isinstance(v, Ref):
            o = self.obj(v)
            if name in o.attrs:
                a = o.attrs[name]
                if isinstance(a, Poison):
                    raise Unsupported('attribute %s after a loop: %s' % (name, a.why))
                return a
            if name == '__dict__':
                return DictView(v)
            if name == '__class__':
                return o.cls
            if isinstance(o.cls, ClassInfo):
                for c in o.cls.mro():
                    if isinstance(c, ClassInfo):
                        if name in c.props:
                            return self.inline(FuncVal(c.props[name], c.module, c.qual + '.' + name, None, c), [v], {})
                        if name in c.methods:
                            n, kind = c.methods[name]
                            fv = FuncVal(n, c.module, c.qual + '.' + name, None, c)
                            if kind == 'staticmethod':
                                return fv
                            if kind == 'classmethod':
                                return Bound(fv, o.cls)
                            return Bound(fv, v)
                        if name in c.attr_nodes:
                            self.frames.append(Frame({}, c.module))
                            try:
                                return self.eval(c.attr_nodes[name])
                            finally:
                                self.frames.pop()
                    else:
                        b = self.lib.external_method(self, c, name)
                        if b is not None:
                            return Bound(b, v)
                dyn = self.externals.get('attr:' + name)
                if dyn is not None:
                    r = dyn(self, v)
                    if r is not NotImplemented:
                        return r
                raise PyRaise(PyExc('AttributeError', (name,)))
            return self.lib.obj_attr(self, v, o, name)
        if isinstance(v, LP):
            return self.lib.lp_attr(self, v, name)
        if isinstance(v, Model):
            return v.py_getattr(self, name)
        if isinstance(v, ModuleVal):
            return self.lib.module_attr(self, v.name, name)
        if isinstance(v, ClassInfo) and v.qual == 'cpnest.parameter.LivePoint' and not self.opts.get('raw_lp') and name in self.lib.LP_OPS:
            return Fn(lambda ex, p, *a: ex.call(ex.lib.lp_attr(ex, p, name), list(a)), 'LivePoint.' + name)
        if isinstance(v, ClassInfo):
            for c in v.mro():
                if isinstance(c, ClassInfo):
                    if name in c.methods:
                        n, kind = c.methods[name]
                        fv = FuncVal(n, c.module, c.qual + '.' + name, None, c)
                        return Bound(fv, v) if kind == 'classmethod' else fv
                    if name in c.attr_nodes:
                        self.frames.append(Frame({}, c.module))
                        try:
                            return self.eval(c.attr_nodes[name])
                        finally:
                            self.frames.pop()
                else:
                    b = self.lib.external_method(self, c, name)
                    if b is not None:
                        return b
            if name == '__name__':
                return v.name
            lpm = self.externals.get('classattr:%s.%s' % (v.qual, name))
            if lpm is not None:
                return lpm
            raise PyRaise(PyExc('AttributeError', (name,)))
        if isinstance(v, SuperVal):
            m, kind, c = self.find_method(self.cls_of(v.self_), name, after=v.cls)
            if m is None:
                if name == '__init__':
                    return Fn(lambda ex, *a, **k: None, 'object.__init__')
                raise PyRaise(PyExc('AttributeError', (name,)))
            return Bound(m, v.self_)
        if isinstance(v, (str, SStr)):
            return self.lib.str_attr(self, v, name)
        if isinstance(v, Opaque):
            return Opaque(v.tag + '.' + name)
        if v is None:
            raise PyRaise(PyExc('AttributeError', ('None.' + name,)))
        return self.lib.value_attr(self, v, name)

    def cls_of(self, v):
        if isinstance(v, Ref):
            return self.obj(v).cls
        if isinstance(v, ClassInfo):
            return v
        raise Unsupported('class of %r' % (v,))

    def setattr(self, v, name, val):
        if isinstance(v, Ref):
            o = self.obj(v)
            if name == '__dict__':
                d = self.obj(val) if isinstance(val, Ref) else None
                if d is None or d.cls != 'dict' or not isinstance(d.pay, dict):
                    raise Unsupported('__dict__ = non-dict')
                o.attrs = dict(d.pay)
                return
            if isinstance(o.cls, ClassInfo):
                for c in o.cls.mro():
                    if isinstance(c, ClassInfo) and name in c.setters:
                        self.inline(FuncVal(c.setters[name], c.module, c.qual + '.' + name, None, c), [v, val], {})
                        return
            if self.hook_access:
                self.hook_access('write', v, name, val)
            o.attrs[name] = val
            return
        if isinstance(v, LP):
            return self.lib.lp_setattr(self, v, name, val)
        if isinstance(v, Model):
            return v.py_setattr(self, name, val)
        raise Unsupported('attribute assignment on %r' % (v,))

    # ------------------------------------------------------------ statements
    def block(self, stmts):
        for s in stmts:
            if self.hook_stmt:
                self.hook_stmt(self, s)
            self.stmt(s)

    def stmt(self, s):
        self.line = getattr(s, 'lineno', 0)
        getattr(self, 's_' + type(s).__name__, self.s_unsupported)(s)

    def s_unsupported(self, s):
        raise Unsupported('statement %s at line %s' % (type(s).__name__, getattr(s, 'lineno', '?')))

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, ast.Yield):
            raise YieldSig(self.eval(s.value.value) if s.value.value is not None else None)
        self.eval(s.value)

    def s_Pass(self, s):
        pass

    def s_Global(self, s):
        pass

    def s_Import(self, s):
        for a in s.names:
            if a.asname:
                self.frames[-1].env[a.asname] = self.module_val(a.name)
            else:
                self.frames[-1].env[a.name.split('.')[0]] = self.module_val(a.name.split('.')[0])

    def s_ImportFrom(self, s):
        mod = '.' * s.level + (s.module or '')
        for a in s.names:
            self.frames[-1].env[a.asname or a.name] = self.import_(mod, a.name, self.frames[-1].module)

    def s_FunctionDef(self, s):
        fr = self.frames[-1]
        self.frames[-1].env[s.name] = FuncVal(s, fr.module, fr.module + '.<local>.' + s.name, fr)

    def s_Return(self, s):
        raise ReturnSig(self.eval(s.value) if s.value is not None else None)

    def s_Break(self, s):
        raise BreakSig()

    def s_Continue(self, s):
        raise ContinueSig()

    def s_Assign(self, s):
        if isinstance(s.value, ast.Yield):
            raise Unsupported('yield expression')
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.frames[-1].env[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            if isinstance(t.slice, ast.Slice):
                self.lib.set_slice(self, o, *self.slice_parts(t.slice), v)
            else:
                self.lib.setitem(self, o, self.eval(t.slice), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.lib.unpack(self, v, len(t.elts))
            for x, y in zip(t.elts, vs):
                self.assign(x, y)
        else:
            raise Unsupported('assignment target')

    def s_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id)
            self.frames[-1].env[t.id] = self.lib.augop(self, s.op, cur, self.eval(s.value))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            cur = self.getattr(o, t.attr)
            v = self.eval(s.value)
            self.setattr(o, t.attr, self.lib.augop(self, s.op, cur, v))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            if isinstance(t.slice, ast.Slice):
                raise Unsupported('augmented slice assignment')
            i = self.eval(t.slice)
            cur = self.lib.getitem(self, o, i)
            v = self.eval(s.value)
            self.lib.setitem(self, o, i, self.lib.augop(self, s.op, cur, v))
        else:
            raise Unsupported('augmented target')

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                if t.id not in self.frames[-1].env:
                    raise PyRaise(PyExc('NameError'))
                del self.frames[-1].env[t.id]
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value)
                if isinstance(t.slice, ast.Slice):
                    self.lib.del_slice(self, o, *self.slice_parts(t.slice))
                else:
                    self.lib.delitem(self, o, self.eval(t.slice))
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value)
                if not isinstance(o, Ref):
                    raise Unsupported('del attribute')
                if t.attr not in self.obj(o).attrs:
                    raise PyRaise(PyExc('AttributeError'))
                del self.obj(o).attrs[t.attr]
            else:
                raise Unsupported('del target')

    def s_If(self, s):
        if self.truth(self.eval(s.test)):
            self.block(s.body)
        else:
            self.block(s.orelse)

    def s_Assert(self, s):
        if not self.truth(self.eval(s.test)):
            raise PyRaise(PyExc('AssertionError', (), s))

    def s_Raise(self, s):
        if s.exc is None:
            e = self.st.ghost.get('_handling')
            if e is None:
                raise PyRaise(PyExc('RuntimeError'))
            raise PyRaise(e)
        v = self.eval(s.exc)
        if isinstance(v, PyExc):
            raise PyRaise(v)
        if isinstance(v, ClassInfo):
            raise PyRaise(PyExc(v, (), s))
        if isinstance(v, BuiltinType):
            raise PyRaise(PyExc(v.name, (), s))
        raise Unsupported('raise of %r' % (v,))

    def exc_matches(self, exc, h):
        if h is None:
            return exc.name != 'CRASH'
        v = self.eval(h)
        vs = v if isinstance(v, tuple) else (v,)
        for c in vs:
            cn = c.name if isinstance(c, BuiltinType) else c
            if exc.cls == 'CRASH':
                continue
            if isinstance(exc.cls, ClassInfo):
                if exc.cls.is_sub(cn):
                    return True
            elif isinstance(cn, str) and exc_sub(exc.cls, cn):
                return True
        return False

    def s_Try(self, s):
        def handled():
            try:
                self.block(s.body)
            except PyRaise as e:
                for h in s.handlers:
                    if self.exc_matches(e.exc, h.type):
                        if h.name:
                            self.frames[-1].env[h.name] = e.exc
                        old = self.st.ghost.get('_handling')
                        self.st.ghost['_handling'] = e.exc
                        try:
                            self.block(h.body)
                        finally:
                            self.st.ghost['_handling'] = old
                        return
                raise
            self.block(s.orelse)
        if not s.finalbody:
            return handled()
        fr = self.frames[-1]
        try:
            handled()
        except PathEnd:
            raise
        except PyRaise as e:
            if e.exc.cls == 'CRASH':
                raise
            del self.frames[self.frames.index(fr) + 1:]
            self.block(s.finalbody)
            raise
        except Signal:
            self.block(s.finalbody)
            raise
        else:
            self.block(s.finalbody)

    def s_With(self, s):
        self.with_items(s, 0)

    def with_items(self, s, i):
        if i == len(s.items):
            self.block(s.body)
            return
        it = s.items[i]
        cm = self.eval(it.context_expr)
        v = self.lib.enter(self, cm)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v)
        try:
            self.with_items(s, i + 1)
        except PathEnd:
            raise
        except PyRaise as e:
            if e.exc.cls == 'CRASH':
                raise
            if self.lib.exit_(self, cm, e.exc):
                return
            raise
        except Signal:
            self.lib.exit_(self, cm, None)
            raise
        else:
            self.lib.exit_(self, cm, None)

    # ------------------------------------------------------------ loops
    def s_For(self, s):
        it = self.eval(s.iter)
        seq = self.lib.to_seq(self, it)
        if isinstance(seq.n, int) and seq.n <= self.opts.get('unroll', 8):
            try:
                for j in range(seq.n):
                    self.assign(s.target, seq.get(j))
                    try:
                        self.block(s.body)
                    except ContinueSig:
                        pass
            except BreakSig:
                return
            self.block(s.orelse)
            return
        n = seq.n

        def guard(it):
            return self.branch(lt(it, n))

        def body(it):
            self.assign(s.target, seq.get(it))
            self.block(s.body)
        self.loop(s, guard, body, s.orelse, extra=lambda it: le(it, n), n=n)

    def s_While(self, s):
        if isinstance(s.test, ast.Constant) and s.test.value:
            guard = lambda it: True
        else:
            guard = lambda it: self.truth(self.eval(s.test))
        self.loop(s, guard, lambda it: self.block(s.body), s.orelse, test=s.test)

    def loop(self, node, guard, body, orelse, extra=None, n=None, test=None):
        from . import loops
        loops.cut(self, node, guard, body, orelse, extra, n, test)

    # ------------------------------------------------------------ expressions
    def truth(self, v):
        return self.branch(self.lib.truth(self, v))

    def eval(self, e):
        f = getattr(self, 'e_' + type(e).__name__, None)
        if f is None:
            raise Unsupported('expression %s at line %s' % (type(e).__name__, getattr(e, 'lineno', '?')))
        return f(e)

    def e_Constant(self, e):
        v = e.value
        if isinstance(v, float):
            return flt(v)
        if isinstance(v, bytes) or isinstance(v, complex):
            raise Unsupported('constant')
        return v

    def e_Name(self, e):
        return self.lookup(e.id)

    def e_Tuple(self, e):
        return tuple(self.elts(e.elts))

    def elts(self, es):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                sq = self.lib.to_seq(self, self.eval(x.value))
                if not isinstance(sq.n, int):
                    raise Unsupported('star of symbolic sequence')
                out += [sq.get(i) for i in range(sq.n)]
            else:
                out.append(self.eval(x))
        return out

    def e_List(self, e):
        return self.new_list(Seq.of(self.elts(e.elts)))

    def e_Set(self, e):
        raise Unsupported('set display')

    def e_Dict(self, e):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                raise Unsupported('dict unpacking')
            kk = self.eval(k)
            if not isinstance(kk, (str, int, tuple)):
                raise Unsupported('dict key %r' % (kk,))
            d[kk] = self.eval(v)
        return self.new('dict', pay=d)

    def e_Attribute(self, e):
        return self.getattr(self.eval(e.value), e.attr)

    def slice_parts(self, s):
        return (self.eval(s.lower) if s.lower is not None else None, self.eval(s.upper) if s.upper is not None else None,
                self.eval(s.step) if s.step is not None else None)

    def e_Subscript(self, e):
        o = self.eval(e.value)
        if isinstance(e.slice, ast.Slice):
            return self.lib.get_slice(self, o, *self.slice_parts(e.slice))
        if isinstance(e.slice, ast.Tuple) and any(isinstance(x, ast.Slice) for x in e.slice.elts):
            return self.lib.get_multi(self, o, [('slice',) + self.slice_parts(x) if isinstance(x, ast.Slice) else self.eval(x)
                                                for x in e.slice.elts])
        return self.lib.getitem(self, o, self.eval(e.slice))

    def e_Starred(self, e):
        raise Unsupported('starred expression')

    def e_Call(self, e):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            fr = self.frames[-1]
            if e.args:
                return SuperVal(self.eval(e.args[0]), self.eval(e.args[1]))
            first = fr.fn.node.args.args[0].arg
            return SuperVal(fr.fn.cls, fr.env[first])
        f = self.eval(e.func)
        if self.lib.ignored(self, f, e):
            return None
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                sv = self.eval(a.value)
                sq = sv if isinstance(sv, Seq) else self.lib.to_seq(self, sv)
                if isinstance(sq.n, int):
                    args += [sq.get(i) for i in range(sq.n)]
                else:
                    args.append(StarSeq(sq))
            else:
                args.append(self.eval(a))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value)
                if isinstance(d, Ref) and self.obj(d).cls == 'dict' and isinstance(self.obj(d).pay, dict):
                    for kk, vv in self.obj(d).pay.items():
                        kwargs[kk] = vv
                else:
                    raise Unsupported('** of non-dict')
            else:
                kwargs[k.arg] = self.eval(k.value)
        return self.call(f, args, kwargs, e)

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x)
            if i == len(e.values) - 1:
                return v
            t = self.lib.truth(self, v)
            if isinstance(t, bool):
                if t != isand:
                    return v
                continue
            # both sides pure and boolean: combine without forking
            if self.truth_branch(t) != isand:
                return v if not (is_z(v) and z3.is_bool(v)) else (not isand)
        return v

    def truth_branch(self, t):
        return self.branch(t)

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        if isinstance(e.op, ast.Not):
            return Not(self.lib.truth(self, v))
        return self.lib.unop(self, e.op, v)

    def e_BinOp(self, e):
        a = self.eval(e.left)
        b = self.eval(e.right)
        return self.lib.binop(self, e.op, a, b)

    def e_Compare(self, e):
        a = self.eval(e.left)
        res = True
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            b = self.eval(c)
            r = self.lib.compare(self, op, a, b)
            if len(e.ops) == 1:
                return r
            res = And(res, self.lib.truth(self, r))
            if res is False:
                return False
            a = b
        return res

    def e_IfExp(self, e):
        if self.truth(self.eval(e.test)):
            return self.eval(e.body)
        return self.eval(e.orelse)

    def e_Lambda(self, e):
        fr = self.frames[-1]
        return FuncVal(e, fr.module, fr.module + '.<lambda>', fr)

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                spec = ''
                if v.format_spec is not None:
                    spec = self.eval(v.format_spec)
                    if not isinstance(spec, str):
                        raise Unsupported('dynamic format spec')
                parts += self.lib.fmt_parts(self, self.eval(v.value), spec)
        return self.lib.mkstr(parts)

    def e_ListComp(self, e):
        from . import comp
        return self.new_list(comp.comprehension(self, e.generators, e.elt))

    def e_GeneratorExp(self, e):
        from . import comp
        return comp.comprehension(self, e.generators, e.elt)

    def e_SetComp(self, e):
        raise Unsupported('set comprehension')

    def e_DictComp(self, e):
        from . import comp
        if len(e.generators) == 1 and not e.generators[0].ifs:
            sq = self.lib.to_seq(self, self.eval(e.generators[0].iter))
            if isinstance(sq.n, int):
                d = {}
                fr = self.frames[-1]
                self.frames.append(Frame({}, fr.module, fr.fn, fr))
                try:
                    for i in range(sq.n):
                        self.assign(e.generators[0].target, sq.get(i))
                        d[self.eval(e.key)] = self.eval(e.value)
                finally:
                    self.frames.pop()
                return self.new('dict', pay=d)
        return Opaque('dictcomp')

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.assign(e.target, v)
        return v


class StarSeq:
    def __init__(self, seq):
        self.seq = seq


class DictView(Model):
    """obj.__dict__"""
    def __init__(self, ref):
        self.ref = ref

    def py_getattr(self, ex, name):
        o = ex.obj(self.ref)
        if name == 'copy':
            return Fn(lambda ex: ex.new('dict', pay=dict(ex.obj(self.ref).attrs)), 'dict.copy')
        if name == 'update':
            def upd(ex, d):
                src = ex.obj(d).pay if isinstance(d, Ref) else ex.obj(d.ref).attrs
                ex.obj(self.ref).attrs.update(src)
            return Fn(upd, 'dict.update')
        if name == 'pop':
            def pop(ex, k, *dflt):
                at = ex.obj(self.ref).attrs
                if k in at:
                    return at.pop(k)
                if dflt:
                    return dflt[0]
                raise PyRaise(PyExc('KeyError'))
            return Fn(pop, 'dict.pop')
        if name in ('items', 'keys', 'values', 'get'):
            return ex.lib.dict_method(ex, o.attrs, name)
        raise Unsupported('__dict__.' + name)

    def py_getitem(self, ex, k):
        at = ex.obj(self.ref).attrs
        if k not in at:
            raise PyRaise(PyExc('KeyError', (k,)))
        return at[k]

    def py_setitem(self, ex, k, v):
        ex.obj(self.ref).attrs[k] = v

    def py_delitem(self, ex, k):
        at = ex.obj(self.ref).attrs
        if k not in at:
            raise PyRaise(PyExc('KeyError', (k,)))
        del at[k]

    def py_contains(self, ex, k):
        return k in ex.obj(self.ref).attrs

    def py_len(self, ex):
        return len(ex.obj(self.ref).attrs)


_qc = {}


def _has_quant(c):
    if isinstance(c, bool):
        return False
    i = c.get_id()
    r = _qc.get(i)
    if r is not None and r[1].eq(c):
        return r[0]
    stack = [c]
    seen = set()
    res = False
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            res = True
            break
        stack.extend(x.children())
    _qc[i] = (res, c)
    return res
