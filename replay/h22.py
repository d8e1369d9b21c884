"""C22: workers, pipes, seeds and checkpoint files of a run, for every mix of the three kinds of worker."""
import shutil
import tempfile
from samp import *
import samp
import multiprocessing.managers as MM
import cpnest.cpnest as CP
from cpnest.NestedSampling import NestedSampler


class Val(object):
    pass


# the manager's server process is not needed here
MM.SyncManager.start = lambda self, *a, **k: None


class Soft(Mod):
    def __init__(self):
        Mod.__init__(self, 2, flat=True)

    def force(self, p):
        return np.zeros(2)


KIND = {'mh': MetropolisHastingsSampler, 'hmc': HamiltonianMonteCarloSampler, 'slice': SliceSampler}


def build(c, d, resume=False, m=None):
    return CP.CPNest(m or Soft(), nlive=5, poolsize=4, output=d, verbose=0, seed=c['seed'], maxmcmc=20, nthreads=c['n'], nhamiltonian=c['hmc'],
                     nslice=c['slice'], resume=resume)


def workers(cp):
    out = []
    for p in cp.process_pool:
        t = p._target
        w = getattr(t, '__self__', None)
        need(w is not None and t.__name__ == 'produce_sample', 'a process does not run a worker')
        out.append(w)
    return out


def check(c, cp, what):
    ws = workers(cp)
    need(len(ws) == c['n'], '%s: %d workers for %d threads' % (what, len(ws), c['n']))
    want = dict(hmc=c['hmc'], slice=c['slice'], mh=c['n'] - c['hmc'] - c['slice'])
    for k, cls in KIND.items():
        got = sum(1 for w in ws if type(w) is cls)
        need(got == want[k], '%s: %d workers of kind %s instead of %d' % (what, got, k, want[k]))
    man = cp.manager
    need(len(man.consumer_pipes) == c['n'], '%s: %d coordinator pipe ends' % (what, len(man.consumer_pipes)))
    # the ends are connected one to one: a message to each coordinator end arrives at exactly one worker
    for i, q in enumerate(man.consumer_pipes):
        q.send(('to', i))
        got = [w for w in ws if w.producer_pipe.poll(0)]
        need(len(got) == 1, '%s: a message on pipe %d reaches %d workers' % (what, i, len(got)))
        need(got[0].producer_pipe.recv() == ('to', i), what + ': a message is altered')
        got[0].producer_pipe.send(('back', i))
        need(q.poll(0) and q.recv() == ('back', i), '%s: the answer of a worker does not come back on the pipe it was asked on' % what)
        need(not any(x.poll(0) for x in man.consumer_pipes), what + ': an answer arrives on another pipe')
    ids = [id(w.producer_pipe) for w in ws]
    need(len(set(ids)) == len(ids), what + ': two workers share a pipe end')
    need(len({w.thread_id for w in ws}) == c['n'], what + ': two workers share a thread number')
    seeds = [w.seed for w in ws]
    need(len(set(seeds)) == len(seeds), '%s: seeds %r' % (what, seeds))
    files = [os.path.realpath(w.resume_file) for w in ws]
    need(len(set(files)) == len(files), '%s: checkpoint files %r' % (what, [os.path.basename(f) for f in files]))
    need(os.path.realpath(cp.NS.resume_file) not in files, what + ': a worker shares the checkpoint file of the coordinator')
    for w in ws:
        need(w.manager is man and w.logLmin is man.logLmin and w.logLmax is man.logLmax, what + ': a worker is not attached to the shared values of this run')
        need(w.model is cp.user, what + ': a worker has another model')
    need(cp.NS.manager is man and cp.NS.logLmin is man.logLmin and cp.NS.logLmax is man.logLmax, what + ': the coordinator is not attached to the shared values of this run')
    need(man.nthreads == c['n'], what + ': number of threads')
    return ws


def close(cp):
    for a in cp.manager.consumer_pipes + cp.manager.producer_pipes:
        a.close()


def flag(c, cp, ws, what):
    seen = [w.manager.checkpoint_flag for w in ws]
    need(all(not f.value for f in seen), what + ': the checkpoint flag is set at the start')
    cp.checkpoint()
    need(all(f.value for f in seen), what + ': a checkpoint request does not reach the flag the workers read')


def run(c):
    d = tempfile.mkdtemp(dir=os.environ.get('VP_SCRATCH', '/tmp'))
    cps = []
    try:
        cp = build(c, d)
        cps.append(cp)
        ws = check(c, cp, 'new run')
        need(os.path.dirname(os.path.realpath(cp.NS.resume_file)) == os.path.realpath(d), 'checkpoint of the coordinator outside the output folder')
        for w in ws:
            need(os.path.dirname(os.path.realpath(w.resume_file)) == os.path.realpath(d), 'checkpoint of a worker outside the output folder')
            need(not getattr(w, 'initialised', False), 'a new worker is marked initialised')
        first = [(type(w), w.seed, w.resume_file) for w in ws]
        for i, w in enumerate(ws):
            w.mark = i
            w.checkpoint()
        cp.NS.logLmin.value = -3.0
        cp.NS.mark = 'NS'
        cp.NS.checkpoint()
        flag(c, cp, ws, 'new run')
        # resumed, whole and with some of the files missing
        for gone in ([], c['gone']):
            for i in gone:
                os.unlink(ws[i].resume_file)
            m2 = Soft()
            cp2 = build(c, d, True, m2)
            cps.append(cp2)
            w2 = check(c, cp2, 'resumed run')
            need(getattr(cp2.NS, 'mark', None) == 'NS', 'the coordinator does not resume from its checkpoint')
            need(cp2.manager is not cp.manager, 'the resumed run uses the manager of the old one')
            for i, w in enumerate(w2):
                need(type(w) is first[i][0], 'worker %d resumes as another kind' % i)
                if i in gone:
                    need(not hasattr(w, 'mark'), 'worker %d resumes though its checkpoint is missing' % i)
                else:
                    need(getattr(w, 'mark', None) == i, 'worker %d resumes from the checkpoint of worker %r' % (i, getattr(w, 'mark', None)))
                need(os.path.realpath(w.resume_file) == os.path.realpath(first[i][2]), 'worker %d changes its checkpoint file' % i)
            flag(c, cp2, w2, 'resumed run')
        # resume=False starts afresh although there are checkpoints
        cp3 = build(c, d, False)
        cps.append(cp3)
        w3 = check(c, cp3, 'fresh run over old checkpoints')
        need(not any(hasattr(w, 'mark') for w in w3) and not hasattr(cp3.NS, 'mark'), 'a run that must not resume does')
    finally:
        for x in cps:
            close(x)
        shutil.rmtree(d, ignore_errors=True)


def gen(rng, tier):
    mixes = [(1, 0, 0), (1, 1, 0), (1, 0, 1), (2, 1, 1), (3, 1, 1), (4, 0, 0), (6, 2, 2), (5, 0, 3), (5, 4, 0), (4, 1, 2), (7, 2, 3), (4, 2, 1), (6, 3, 2)]
    for i, (n, h, s) in enumerate(mixes):
        yield dict(n=n, hmc=h, slice=s, seed=[None, 0, 1234, 7][i % 4], gone=sorted(rng.sample(range(n), rng.randrange(1, n + 1))))
    if tier != 'quick':
        for n in range(1, 9):
            for h in range(n + 1):
                for s in range(n + 1 - h):
                    yield dict(n=n, hmc=h, slice=s, seed=rng.choice([None, 0, 5]), gone=sorted(rng.sample(range(n), rng.randrange(1, n + 1))))


CHECKS = {'setup': (gen, run)}
main(CHECKS)
