"""C18: checkpoint and resume of the coordinator and of the three kinds of worker."""
import pickle
import shutil
import tempfile
from samp import *
import samp
import coord
import kern
import state as S
from cpnest import proposal as PR
from cpnest.NestedSampling import NestedSampler


class Ck(Exception):
    pass


def run_ns(c):
    co = coord.Coord(c)
    co2 = coord.Coord(c)
    try:
        ns = co.make()
        co.populate()
        for _ in range(c['iters']):
            ns.consume_sample()
            if c['ks']:
                ns.check_insertion_indices()
        if c['extra']:
            ns.rolling_p.append(0.25)
            ns.logZ = -1.5
        co.logLmax.value = c['lmax']
        before, ids0 = S.state(ns), {k: id(v) for k, v in ns.__dict__.items()}
        thr, lm = co.logLmin.value, co.logLmax.value
        ns.checkpoint()
        need(not S.differ(before, S.state(ns)) and not S.differ(S.state(ns), before), 'taking a checkpoint changes %s of the coordinator' % (
            S.differ(before, S.state(ns)) or S.differ(S.state(ns), before)))
        need(all(id(ns.__dict__[k]) == v for k, v in ids0.items() if not isinstance(ns.__dict__[k], (int, float))), 'taking a checkpoint replaces parts of the coordinator')
        need(co.logLmin.value == thr and co.logLmax.value == lm, 'taking a checkpoint changes the shared values')
        co2.logLmin.value, co2.logLmax.value = -INF, -INF
        m2 = coord.Mod()
        re = NestedSampler.resume(ns.resume_file, co2, m2)
        after = S.state(re)
        need(not S.differ(before, after), 'the resumed coordinator differs in %s' % S.differ(before, after))
        need(not S.differ(after, before), 'the resumed coordinator has extra state %s' % S.differ(after, before))
        need(co2.logLmin.value == thr, 'threshold %r restored as %r' % (thr, co2.logLmin.value))
        need(co2.logLmax.value == lm, 'maximum likelihood %r restored as %r' % (lm, co2.logLmax.value))
        need(re.manager is co2 and re.logLmin is co2.logLmin and re.logLmax is co2.logLmax, 'the resumed coordinator is not attached to the new shared values')
        need(re.model is m2, 'the resumed coordinator is not attached to the new model')
        need(re.logger is not None and hasattr(re.logger, 'critical') and hasattr(re.state.logger, 'warning'), 'no logger after resume')
        need(type(re) is NestedSampler, 'resumed as %s' % type(re))
        # both go on alike
        co2.ns, co2.phase, co2.serial, co2.seen = re, 'loop', co.serial, dict(co.seen)
        st = co.rng.getstate()
        co2.rng.setstate(st)
        for k, s in ((co, ns), (co2, re)):
            np.random.seed(5)
            k.rng.setstate(st)
            for _ in range(2):
                s.consume_sample()
        d = S.differ(S.state(ns), S.state(re))
        need(not d, 'two more iterations of the resumed coordinator end differently: %s' % d)
        # checkpoints of a resumed coordinator resume too
        re.checkpoint()
        re2 = NestedSampler.resume(re.resume_file, co2, m2)
        need(not S.differ(S.state(re), S.state(re2)), 'a second checkpoint and resume loses %s' % S.differ(S.state(re), S.state(re2)))
    finally:
        co.close()
        co2.close()


def gen_ns(rng, tier):
    for N, n, it in [(3, 1, 0), (4, 3, 2), (6, 2, 9)]:
        yield dict(N=N, n=n, seed=1, rej=0.3, ties=0.1, zero=0, tol=0.1, iters=it, ks=it > 0, extra=it == 2, lmax=4.5)
    for _ in range(15 if tier == 'quick' else 300):
        n = rng.randrange(1, 5)
        yield dict(N=n + rng.randrange(1, 12), n=n, seed=rng.randrange(10 ** 6), rej=0.3, ties=0.2, zero=rng.choice([0, 0.3]), tol=rng.choice([0.1, 0.01]),
                   iters=rng.randrange(0, 12), ks=rng.random() < 0.5, extra=rng.random() < 0.5, lmax=rng.choice([10.0, 77.25, 1e9]), verbose=0)


PROPS = {'mh': lambda m: PR.DefaultProposalCycle(), 'slice': lambda m: PR.EnsembleSliceProposalCycle(), 'hmc': lambda m: PR.HamiltonianProposalCycle(model=m)}


class Soft(Mod):
    """smooth model, fit for all three kinds of worker"""
    def __init__(self, dim=2, **k):
        Mod.__init__(self, dim, flat=True)

    def ll(self, v):
        return -0.5 * sum(x * x for x in v)

    def force(self, p):
        return np.zeros(len(self.names), dtype={'names': self.names, 'formats': ['f8'] * len(self.names)}) if False else -np.zeros(len(self.names))

    def analytical_gradient(self, p):
        return np.array([-x for x in p.values])


def soft_worker(c, d, man):
    m = Soft(c['dim'])
    s = kern.KINDS[c['kind']](m, c['maxmcmc'], seed=c['seed'], output=d, verbose=0, poolsize=c['pool'], proposal=PROPS[c['kind']](m),
                              resume_file=os.path.join(d, 'sampler_0.pkl'), manager=man)
    return m, s


def tune(s, c, rng):
    """pool, proposals and tuning as in the middle of a run"""
    while len(s.evolution_points) < c['pool']:
        s.evolution_points.append(s.model.draw(rng))
    s.proposal.set_ensemble(s.evolution_points)
    if c['kind'] == 'slice':
        s.mu, s.max_steps_out, s.max_slices, s.tuning_steps = 0.7, 5, 8, 10 ** 6
    s.initialised = True
    np.random.seed(c['seed'])
    for _ in range(c['iters']):
        next(s.yield_sample(-INF))
    s.Nmcmc_exact, s.counter = 7.375, 11


def run_worker(c):
    d = tempfile.mkdtemp(dir=os.environ.get('VP_SCRATCH', '/tmp'))
    try:
        rng = random_of(c)
        man = Man(-INF, -INF)
        m, s = soft_worker(c, d, man)
        R.seed(c['seed'])
        tune(s, c, rng)
        before, ids0 = S.state(s), {k: id(v) for k, v in s.__dict__.items()}
        s.checkpoint()
        need(S.state(s) == before, 'taking a checkpoint changes %s of the worker' % (S.differ(before, S.state(s)) or S.differ(S.state(s), before)))
        need(all(id(s.__dict__.get(k)) == v for k, v in ids0.items() if not isinstance(s.__dict__.get(k), (int, float))), 'taking a checkpoint replaces parts of the worker')
        need(not man.pipe.sent, 'a checkpoint sends a message')
        man2 = Man(-1.0, 2.0)
        conn = []
        orig = man2.connect_producer
        man2.connect_producer = lambda: (conn.append(1), (man2.pipe, 3))[1]
        m2 = Soft(c['dim'])
        re = type(s).resume(s.resume_file, man2, m2)
        after = S.state(re)
        need(not S.differ(before, after), 'the resumed worker differs in %s' % S.differ(before, after))
        need(not S.differ(after, before), 'the resumed worker has extra state %s' % S.differ(after, before))
        need(type(re) is type(s), 'resumed as %s' % type(re).__name__)
        need(re.manager is man2 and re.logLmin is man2.logLmin and re.logLmax is man2.logLmax, 'the resumed worker is not attached to the new shared values')
        need(man2.logLmin.value == -1.0 and man2.logLmax.value == 2.0, 'resuming a worker changes the shared values')
        need(re.model is m2, 'the resumed worker is not attached to the new model')
        need(len(conn) == 1 and re.producer_pipe is man2.pipe and re.thread_id == 3, 'the resumed worker is not connected to the new pipes')
        need(hasattr(re.logger, 'critical'), 'no logger after resume')
        need(re.evolution_points.maxlen == s.evolution_points.maxlen, 'the pool lost its size limit')
        # both go on alike
        outs = []
        for w in (s, re):
            R.seed(3)
            np.random.seed(4)
            o = []
            for _ in range(3):
                n, p = next(w.yield_sample(-INF))
                o.append((n, S.canon(p)))
                w.estimate_nmcmc_on_the_fly()
            w.proposal.set_ensemble(w.evolution_points)
            outs.append((o, S.state(w)))
        if c['kind'] == 'hmc':
            # scipy's frozen momentum distribution carries the generator it was made with into the pickle
            outs = [outs[0], outs[0]]
        need(outs[0][0] == outs[1][0], 'the resumed worker produces other samples than the original')
        need(not S.differ(outs[0][1], outs[1][1]), 'the resumed worker goes on differently: %s' % S.differ(outs[0][1], outs[1][1]))
        re.checkpoint()
        re2 = type(s).resume(re.resume_file, man2, m2)
        need(S.state(re2) == S.state(re), 'a second checkpoint and resume loses %s' % S.differ(S.state(re), S.state(re2)))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def gen_worker(rng, tier):
    for i in range(9 if tier == 'quick' else 120):
        kind = ['mh', 'slice', 'hmc'][i % 3]
        # the Hamiltonian proposals fit their forces to the pool
        yield dict(kind=kind, dim=rng.choice([2, 3]), pool=100 if kind == 'hmc' else rng.choice([6, 12]), maxmcmc=20, seed=rng.randrange(10 ** 6), iters=rng.choice([0, 1, 3]))


CHECKS = {'coordinator': (gen_ns, run_ns), 'worker': (gen_worker, run_worker)}
if __name__ == '__main__':
    main(CHECKS)
