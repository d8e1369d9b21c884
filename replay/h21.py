"""C21: the worker loop on a scripted pipe."""
import copy
from samp import *
import samp
import kern
import state as S


class Pipe2(object):
    """script: ['idle' | 'req' | 'stop' | 'checkpoint' | 'inf' | 'flag' | ('thr', x)] ; side effects happen when the worker looks"""
    def __init__(self, h):
        self.h = h

    def poll(self, t=0):
        h = self.h
        h.step()
        need(h.over is None, 'the worker goes on after %s' % h.over)
        return bool(h.ready)

    def recv(self):
        h = self.h
        if not h.ready:
            h.step()
        need(h.ready, 'the worker waits for a message though none is there')
        m = h.ready.pop(0)
        if m[0] == 'req':
            h.taken.append(m[1])
            h.log.append(('take', m[1]))
            return m[1]
        h.over = m[0] + ' message'
        h.log.append((m[0],))
        return None if m[0] == 'stop' else 'checkpoint'

    def send(self, m):
        self.h.log.append(('send', m))
        self.h.sent.append(m)


class Host(object):
    def __init__(self, c, rng):
        self.c = c
        self.m, self.man, self.s = kern.setup(dict(c, thr=c['thr0']), rng)
        self.s.producer_pipe = Pipe2(self)
        self.man.pipe = self.s.producer_pipe
        # as reset() leaves it
        self.s.samples, self.s.mcmc_counter, self.s.mcmc_accepted = [], 40, 10
        self.rng = rng
        self.script = list(c['script'])
        self.ready, self.taken, self.sent, self.log, self.made = [], [], [], [], []
        self.over = None
        self.ck = []
        self.end = None
        self.steps = 0
        self.prev = self.man.logLmin.v

    def step(self):
        """one look at the pipe"""
        if self.ready:
            return
        self.prev = self.man.logLmin.v
        if not self.script:
            self.script = ['stop']
        a = self.script.pop(0)
        self.steps += 1
        both = isinstance(a, list) and a[0] == 'thrreq'
        if both:       # the coordinator raises the threshold, then asks
            self.prev = self.man.logLmin.v = a[1]
        if a == 'req' or both:
            p = self.m.draw(self.rng)
            while p.logL <= self.man.logLmin.v and self.c['kind'] != 'mh' and self.rng.random() < 0.95:
                p = self.m.draw(self.rng)
            self.ready.append(('req', p))
        elif a in ('stop', 'checkpoint'):
            self.ready.append((a,))
        elif a == 'inf':
            self.man.logLmin.v = INF
            self.end = 'inf'
            self.left = 2
        elif a == 'flag':
            self.man.checkpoint_flag.v = 1
            self.end = 'flag'
            self.left = 2
        elif isinstance(a, list):
            self.man.logLmin.v = a[1]
        if self.end and a == 'idle':
            self.left -= 1
            need(self.left > 0, 'the worker ignores that %s' % {'inf': 'the threshold is +infinity', 'flag': 'the checkpoint flag is set'}[self.end])


def run(c):
    rng = random_of(c)
    h = Host(c, rng)
    s = h.s
    R.seed(c['seed'])
    np.random.seed(c['seed'] % 1000)
    real = type(s).yield_sample

    def ys(logLmin):
        h.log.append(('kernel', logLmin))
        t = h.man.logLmin.v
        need(logLmin in (t, h.prev), 'the sampler runs under threshold %r while the current one is %r' % (logLmin, t))
        need(logLmin < INF, 'the sampler runs although the threshold is +infinity')
        g = real(s, logLmin)
        for n, p in g:
            h.made.append((n, p, t))
            h.log.append(('made', n, p))
            yield n, p
    s.yield_sample = ys
    pool0 = len(s.evolution_points)

    def ck():
        h.log.append(('checkpoint',))
        h.ck.append(len(h.sent))
        if not c.get('periodic'):
            h.over = 'its checkpoint'
    s.checkpoint = ck
    if c.get('periodic'):
        h.man.periodic_checkpoint_interval = -1.0
    s.initialised = True
    s.verbose = 0
    s.proposal.proposals = [s.proposal]
    s.estimate_nmcmc = lambda *a, **k: s.Nmcmc
    code = None
    try:
        s.produce_sample()
        code = 'returned'
    except SystemExit as e:
        code = e.code
    # messages
    n = len(h.taken)
    need(len(h.sent) == n, '%d replies to %d requests' % (len(h.sent), n))
    i = k = 0
    cur = None
    for e in h.log:
        if e[0] == 'take':
            need(cur is None, 'a second request is taken before the first is answered')
            cur, ran = e[1], None
        elif e[0] == 'made':
            ran = e
        elif e[0] == 'send':
            need(cur is not None, 'a message is sent that nobody asked for')
            need(ran is not None, 'a request is answered without running the sampler')
            m = e[1]
            need(isinstance(m, tuple) and len(m) == 4, 'reply %r' % (m,))
            need(S.canon(m[3]) == S.canon(ran[2]), 'the reply is not the point the sampler produced')
            need(m[2] == ran[1], 'the reply carries step count %r, the sampler made %r' % (m[2], ran[1]))
            cur = None
    need(cur is None, 'a request is left unanswered')
    for m in h.sent:
        need(0.0 <= m[0] <= 1.0 and 0.0 <= m[1] <= 1.0, 'acceptance fractions %r' % (m[:2],))
    want = None
    for x in c['script'] + ['stop']:
        if x in ('stop', 'checkpoint', 'inf', 'flag'):
            want = x
            break
    if want in ('stop', 'inf'):
        need(code == 'returned', 'the worker ends with %r on %s' % (code, want))
        if not c.get('periodic'):
            need(not h.ck, 'a checkpoint nobody asked for')
    else:
        need(code == 130, 'the worker ends with %r after a checkpoint request instead of the checkpoint status' % (code,))
        if not c.get('periodic'):
            need(len(h.ck) == 1, '%d checkpoints on one request' % len(h.ck))
        else:
            need(h.log[-1][0] == 'checkpoint', 'no checkpoint on the request')
        need(not [e for e in h.log[max(j for j, e in enumerate(h.log) if e[0] == 'checkpoint'):] if e[0] == 'send'], 'a message is sent after the checkpoint')
    asked = sum(1 for x in c['script'][:([j for j, x in enumerate(c['script']) if x in ('stop', 'checkpoint', 'inf', 'flag')] + [len(c['script'])])[0]] if x == 'req' or isinstance(x, list) and x[0] == 'thrreq')
    need(n == asked, 'the worker took %d of %d requests' % (n, asked))
    if c.get('periodic') and n > 0:
        need(h.ck, 'no periodic checkpoint though the interval is over')
    need(len(s.evolution_points) <= c['pool'], 'the pool grew beyond its size')


def gen(rng, tier):
    ends = ['stop', 'checkpoint', 'inf', 'flag']
    k = 0
    for kind in ('mh', 'slice', 'hmc'):
        for e in ends:
            yield dict(kind=kind, seed=7, dim=2, pool=4, N=2, maxmcmc=8, thr0=-INF if e != 'stop' else -2.5, script=['idle', 'req', 'req', e, 'idle', 'req', 'idle', 'idle'])
            yield dict(kind=kind, seed=8, dim=1, pool=5, N=2, maxmcmc=8, thr0=-2.5, script=[e, 'idle', 'idle', 'idle'])
    for _ in range(60 if tier == 'quick' else 1500):
        sc, t = [], -2.5
        for _ in range(rng.randrange(1, 14)):
            x = rng.choice(['idle', 'req', 'req', 'thr', 'thrreq'])
            if x in ('thr', 'thrreq'):
                t += rng.choice([0, 0.5, 1.0])
                x = [x, min(t, 1.0)]
            sc.append(x)
        sc += [rng.choice(ends)] + [rng.choice(['idle', 'req']) for _ in range(3)] + ['idle'] * 3
        yield dict(kind=rng.choice(['mh', 'slice', 'hmc']), seed=rng.randrange(10 ** 6), dim=rng.choice([1, 2]), pool=rng.choice([4, 6]), N=rng.choice([1, 3]), maxmcmc=8,
                   thr0=-2.5, script=sc, periodic=rng.random() < 0.2)


def run_first(c):
    """a fresh worker populates its pool before it answers; a resumed one does not"""
    rng = random_of(c)
    h = Host(dict(c, script=['req', 'stop']), rng)
    s = h.s
    calls = []
    pts = list(s.evolution_points)

    def reset():
        calls.append(len(h.log))
        s.initialised = True
    s.reset = reset
    s.initialised = c['done']
    s.checkpoint = lambda: None
    s.estimate_nmcmc = lambda *a, **k: s.Nmcmc
    s.proposal.proposals = [s.proposal]
    R.seed(1)
    s.produce_sample()
    need(len(calls) == (0 if c['done'] else 1), 'the pool is initialised %d times' % len(calls))
    need(not calls or calls[0] == 0, 'a request is taken before the pool is initialised')
    need(len(h.sent) == 1, '%d replies to one request' % len(h.sent))


def gen_first(rng, tier):
    for kind in ('mh', 'slice', 'hmc'):
        for done in (True, False):
            yield dict(kind=kind, done=done, seed=3, dim=2, pool=5, N=2, maxmcmc=8, thr0=-INF)


CHECKS = {'loop': (gen, run), 'start': (gen_first, run_first)}
main(CHECKS)
