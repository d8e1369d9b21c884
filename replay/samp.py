"""Workers on test doubles: controlled random numbers, shared values that other processes write, scripted models and proposals.

Import this before anything of cpnest: the generators of `random` and `numpy.random` are replaced by recording ones."""
import array
import contextlib
import math
import os
import random as R
import numpy as np
import numpy.random as NR
from common import *

INF = float('inf')
ORIG = dict(random=R.random, uniform=R.uniform, gauss=R.gauss, sample=R.sample, choice=R.choice, randrange=R.randrange,
            nuniform=NR.uniform, nexp=NR.exponential, nrand=NR.rand, nrandom=NR.random)


class Tape(object):
    """the uniform numbers handed to the code under test; `src()` gives the next one, None for the real generators"""
    src = None
    log = []


TAPE = Tape()


def start(src):
    TAPE.src, TAPE.log = src, []


def stop():
    TAPE.src = None


def _u(kind):
    u = TAPE.src()
    TAPE.log.append((kind, u))
    return u


def _random():
    return ORIG['random']() if TAPE.src is None else _u('u')


def _uniform(a=0.0, b=1.0):
    return ORIG['uniform'](a, b) if TAPE.src is None else a + (b - a) * _u(('u', a, b))


def _nuniform(low=0.0, high=1.0, size=None):
    if TAPE.src is None:
        return ORIG['nuniform'](low, high, size)
    if size is None:
        return low + (high - low) * _u(('u', low, high))
    return low + (high - low) * np.array([_u(('u', low, high)) for _ in range(int(np.prod(size)))]).reshape(size)


def _nrandom(size=None):
    return ORIG['nrandom'](size) if TAPE.src is None else _nuniform(0.0, 1.0, size)


def _nrand(*a):
    return ORIG['nrand'](*a) if TAPE.src is None else _nuniform(0.0, 1.0, a or None)


def _nexp(scale=1.0, size=None):
    if TAPE.src is None or size is not None:
        return ORIG['nexp'](scale, size)
    return -scale * math.log(1 - _u(('e',)))


R.random, R.uniform = _random, _uniform
NR.uniform, NR.random, NR.rand, NR.exponential, NR.random_sample = _nuniform, _nrandom, _nrand, _nexp, _nrandom
np.random.uniform = _nuniform

import cpnest.model
import cpnest.sampler as SM
from cpnest.parameter import LivePoint
from cpnest.sampler import MetropolisHastingsSampler, SliceSampler, HamiltonianMonteCarloSampler


class Shared(object):
    """shared number; an unlocked read is followed by somebody else's update, so writing back what was read loses it"""
    def __init__(self, v, rng=None):
        self.v, self.rng, self.held = v, rng, 0
        self.lost = None
        self.low = v
        self.bumps = []

    def bump(self):
        if self.rng is not None and not self.held and self.rng.random() < 0.7:
            n = self.v + self.rng.random() if self.v > -INF else self.rng.uniform(-5, 0)
            self.bumps.append(n)
            self.v = n

    @property
    def value(self):
        v = self.v
        self.bump()
        return v

    @value.setter
    def value(self, x):
        if x < self.v and self.lost is None:
            self.lost = 'the shared maximum went from %r to %r' % (self.v, x)
        self.v = x
        self.bump()

    @contextlib.contextmanager
    def _lock(self):
        self.bump()
        self.held += 1
        try:
            yield
        finally:
            self.held -= 1

    def get_lock(self):
        s = self

        class L(object):
            def __enter__(self_):
                s.bump()
                s.held += 1

            def __exit__(self_, *a):
                s.held -= 1
                return False

            def acquire(self_, *a, **k):
                self_.__enter__()
                return True

            def release(self_):
                s.held -= 1
        return L()

    def get_obj(self):
        return self


class Pipe(object):
    def __init__(self, script=()):
        self.q = list(script)
        self.sent = []

    def poll(self, t=0):
        return bool(self.q)

    def recv(self):
        return self.q.pop(0)

    def send(self, m):
        self.sent.append(m)


class Man(object):
    def __init__(self, thr=-INF, lmax=-INF, rng=None, script=()):
        self.logLmin, self.logLmax = Shared(thr), Shared(lmax, rng)
        self.checkpoint_flag = Shared(0)
        self.periodic_checkpoint_interval = INF
        self.pipe = Pipe(script)

    def connect_producer(self):
        return self.pipe, 0


class Mod(cpnest.model.Model):
    """log-prior and log-likelihood are step functions with plateaus, ties and forbidden regions"""
    def __init__(self, dim=2, seed=0, flat=False, log=None):
        self.names = ['p%d' % i for i in range(dim)]
        self.bounds = [[-1.0 - i, 2.0 + i] for i in range(dim)]
        self.seed, self.flat, self.calls = seed, flat, log

    def lp(self, v):
        if not all(b[0] < x < b[1] for x, b in zip(v, self.bounds)):
            return -INF
        if self.flat:
            return 0.0
        k = int(math.floor(3 * sum((i + 1) * x for i, x in enumerate(v)))) + self.seed
        return -INF if k % 7 == 0 else -0.3 * (k % 5)

    def ll(self, v):
        return float(int(math.floor(2 * sum(x * (i + 2) for i, x in enumerate(v)))) % 6) - 2.0

    def log_prior(self, p):
        if self.calls is not None:
            self.calls.append(('P', tuple(p.values)))
        return self.lp(p.values)

    def log_likelihood(self, p):
        if self.calls is not None:
            self.calls.append(('L', tuple(p.values)))
        return self.ll(p.values)

    def pt(self, v):
        p = LivePoint(self.names, array.array('d', v))
        p.logP, p.logL = self.lp(v), self.ll(v)
        return p

    def draw(self, rng):
        while True:
            v = [rng.uniform(*b) for b in self.bounds]
            if self.lp(v) > -INF:
                return self.pt(v)


def key(p):
    return tuple(p.values)


def true_point(m, p, what):
    need(p.logP == m.lp(p.values), '%s: log-prior %r, the model gives %r at %r' % (what, p.logP, m.lp(p.values), list(p.values)))
    need(p.logL == m.ll(p.values), '%s: log-likelihood %r, the model gives %r at %r' % (what, p.logL, m.ll(p.values), list(p.values)))


def worker(cls, m, man, case, proposal):
    d = os.environ.get('VP_SCRATCH', '/tmp')
    return cls(m, case.get('maxmcmc', 50), seed=case.get('seed', 1), output=d, verbose=0, sample_prior=False, poolsize=case.get('pool', 8),
               proposal=proposal, resume_file=os.path.join(d, 'none.pkl'), manager=man)


def random_of(c):
    import json
    import random
    return random.Random(json.dumps(c, sort_keys=True))
