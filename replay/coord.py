"""A coordinator with scripted workers: real NestedSampler, in-process pipes that know who owes what."""
import array
import math
import os
import random
import shutil
import tempfile
import numpy as np
from common import *
import cpnest.model
import cpnest.NestedSampling as NSmod
from cpnest.NestedSampling import NestedSampler
from cpnest.parameter import LivePoint

INF = float('inf')


class Mod(cpnest.model.Model):
    names = ['x', 'y']
    bounds = [[-1.0, 1.0], [-2.0, 3.0]]

    def log_likelihood(self, p):
        return -p['x'] ** 2 - p['y'] ** 2


class Val(object):
    def __init__(self, v, log=None):
        self._v, self.log = v, log

    @property
    def value(self):
        return self._v

    @value.setter
    def value(self, v):
        self._v = float(v)
        if self.log is not None:
            self.log.append(self._v)

    def get_lock(self):
        import contextlib
        return contextlib.nullcontext()


class Pipe(object):
    def __init__(self, co, i):
        self.co, self.i, self.q = co, i, []

    def send(self, m):
        self.co.on_send(self.i, m)

    def recv(self):
        return self.co.on_recv(self.i)

    def poll(self, t=0):
        return bool(self.q)


class Coord(object):
    """case: n workers, N live points, script of replies (numbers in [0,1): where the reply falls), seed"""
    def __init__(self, case, reply=None):
        self.n, self.N = case['n'], case['N']
        self.case = case
        self.rng = random.Random(case.get('seed', 0))
        self.thr_log = []
        self.logLmin = Val(-INF, self.thr_log)
        self.logLmax = Val(-INF)
        self.pipes = [Pipe(self, i) for i in range(self.n)]
        self.consumer_pipes = self.pipes
        self.nthreads = self.n
        self.periodic_checkpoint_interval = case.get('interval', INF)
        self.events = []
        self.stops = [0] * self.n
        self.ckpt = [0] * self.n
        self.replies = []
        self.pop = 0
        self.phase = 'reset'
        self.dir = tempfile.mkdtemp(prefix='co-', dir=os.environ.get('VP_SCRATCH'))
        self.serial = 0
        self.stale = [0] * self.n
        self.seen = {}
        self.reply = reply or self.default_reply

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def make(self, **k):
        self.model = Mod()
        st, nst = random.getstate(), np.random.get_state()
        a = dict(manager=self, nlive=self.N, output=self.dir, verbose=self.case.get('verbose', 0), seed=self.case.get('seed', 0) + 1,
                 prior_sampling=bool(self.case.get('prior', 0)), stopping=self.case.get('tol', 0.1))
        a.update(k)
        random.seed(self.case.get('seed', 0))
        self.ns = NestedSampler(self.model, **a)
        return self.ns

    def point(self, logL):
        self.serial += 1
        p = LivePoint(['x', 'y'], array.array('d', [0.0, self.rng.uniform(-2, 3)]))
        p.logL = logL
        p.logP = 0.0
        p['x'] = 1e-6 * self.serial     # identity survives copies
        self.seen[p['x']] = p.logL
        return p

    def on_send(self, i, m):
        self.events.append(('send', i, m if m is None or isinstance(m, str) else 'point'))
        if m is None:
            need(self.logLmin.value == INF, 'stop message sent to worker %d while the threshold is %r' % (i, self.logLmin.value))
            need(len(self.pipes[i].q) <= self.stale[i], 'stop message sent to worker %d which still has an unread reply' % i)
            self.stops[i] += 1
            return
        if isinstance(m, str):
            need(m == 'checkpoint', 'unknown message %r' % m)
            self.ckpt[i] += 1
            return
        need(hasattr(m, 'logL') and hasattr(m, 'names'), 'message to worker %d is not a point: %r' % (i, m))
        self.pipes[i].q.append(m)

    def on_recv(self, i):
        self.events.append(('recv', i))
        need(self.pipes[i].q, 'waits for a reply of worker %d, which has no unanswered request' % i)
        m = self.pipes[i].q.pop(0)
        p = self.reply(i, m)
        self.replies.append((i, p))
        self.logLmax._v = max(self.logLmax.value, p.logL)
        return (0.5, 0.5, 10, p)

    def outstanding(self):
        return [len(p.q) for p in self.pipes]

    def default_reply(self, i, m):
        r = self.rng.random()
        c = self.case
        if self.phase == 'reset':
            if r < c.get('zero', 0):
                return self.point(-INF)
            if r < c.get('zero', 0) + c.get('ties', 0):
                return self.point(float(self.rng.randrange(3)))
            return self.point(self.rng.uniform(-5, 5))
        thr = self.logLmin.value
        if r < c.get('rej', 0.3):
            return self.point(thr - self.rng.choice([0.0, 0.0, 1.0, 5.0]))
        if r < c.get('rej', 0.3) + c.get('ties', 0.1):
            # the likelihood of some live point above the threshold
            up = [p.logL for p in self.ns.params if p.logL > thr]
            if up:
                return self.point(self.rng.choice(up))
        return self.point(thr + self.rng.choice([1e-9, 0.01, 0.3, 1.0, 3.0]) * self.rng.random() + 1e-12 * (1 + abs(thr)))

    def populate(self):
        """an arbitrary live set, put in place the way reset() does"""
        self.phase = 'reset'
        self.ns.reset()
        self.phase = 'loop'
        # N not a multiple of n: the last round asks every worker but needs fewer replies
        self.stale = self.outstanding()


def ident(p):
    return round(p['x'] / 1e-6)


def ids(ps):
    return [ident(p) for p in ps]


def cases(rng, tier, k=None, **fix):
    """small configurations first, then random ones"""
    for N, n in [(2, 1), (3, 1), (3, 2), (4, 3), (5, 2), (5, 4), (8, 3)]:
        for s in range(2):
            c = dict(N=N, n=n, seed=s, rej=[0, 0.4][s], ties=[0, 0.3][s], zero=[0, 0.2][s], iters=6, tol=0.1)
            c.update(fix)
            yield c
    for _ in range(k or (60 if tier == 'quick' else 800)):
        n = rng.randrange(1, 7)
        N = n + 1 + rng.choice([0, 0, 1, 2, 3, 5, rng.randrange(1, 40)])
        c = dict(N=N, n=n, seed=rng.randrange(10 ** 6), rej=rng.choice([0, 0.2, 0.7]), ties=rng.choice([0, 0.1, 0.5]),
                 zero=rng.choice([0, 0, 0.3, 0.6]), iters=rng.randrange(1, 14), tol=rng.choice([0.1, 0.5, 0.01]))
        c.update(fix)
        yield c
