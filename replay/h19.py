"""C19: death and failure at every stage of writing a checkpoint (in forked children, files in a scratch directory)."""
import errno
import pickle
import resource
import shutil
import signal
import sys
import tempfile
from samp import *
import samp
import coord
import kern
import cpnest
from cpnest.NestedSampling import NestedSampler

PKG = os.path.dirname(cpnest.__file__)


class Bomb(object):
    """dies, fails or calls something while it is being serialised"""
    def __init__(self, how):
        self.how = how

    def __getstate__(self):
        h = self.how
        if h == 'die':
            os._exit(9)
        if h == 'raise':
            raise RuntimeError('cannot serialise')
        if callable(h):
            h()
        return {'how': None}

    def __setstate__(self, s):
        self.__dict__.update(s)


def make(c, d):
    """an object with checkpoint(); its state is `mark`, and big enough to leave the write buffer"""
    if c['who'] == 'ns':
        co = coord.Coord(dict(N=3, n=1, seed=1))
        shutil.rmtree(co.dir)
        co.dir = d
        o = co.make()
    else:
        man = Man()
        m = Mod(2)
        o = kern.KINDS[c['who']](m, 20, seed=1, output=d, verbose=0, poolsize=4, proposal=kern.Jump(m, None),
                                 resume_file=os.path.join(d, c.get('file', 'sampler_0.pkl')), manager=man)
        o.proposal = None
    o.mark = 'old'
    o.load = [float(i) + 0.125 for i in range(c['size'])]
    o.last = None
    return o


def whole(f, what):
    """the checkpoint file holds one complete checkpoint; returns its mark"""
    with open(f, 'rb') as g:
        b = g.read()
    try:
        o = pickle.loads(b)
    except BaseException as e:
        raise Failure('%s: the checkpoint file (%d bytes) cannot be read back: %s: %s' % (what, len(b), type(e).__name__, e))
    need(len(o.load) == o.n, '%s: the checkpoint mixes two states' % what)
    return o.mark


def child(f):
    pid = os.fork()
    if pid == 0:
        try:
            sys.stderr = open(os.devnull, 'w')
            f()
        except BaseException:
            os._exit(8)
        os._exit(0)
    _, st = os.waitpid(pid, 0)
    return st


def attempt(c, o, how):
    """the child's checkpoint; `how` says what happens to it"""
    o.mark = 'new'
    o.load.append(1.0)
    o.n = len(o.load)
    kind, k = how

    def go():
        if kind == 'bomb-die':
            o.last = Bomb('die')
        elif kind == 'bomb-raise':
            o.zlast = Bomb('raise')
        elif kind == 'bomb-first':
            o.__dict__ = dict([('afirst', Bomb('raise'))] + list(o.__dict__.items()))
        elif kind == 'full':
            # disk full: a file cannot grow beyond k bytes
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (k, k))
        elif kind == 'kill':
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_FSIZE, (k, k))
        elif kind == 'line':
            n = [0]

            def tr(frame, event, arg):
                if not frame.f_code.co_filename.startswith(PKG):
                    return None
                n[0] += 1
                if n[0] == k:
                    os._exit(9)
                return tr
            sys.settrace(tr)
        elif kind == 'call':
            # death at the k-th file-system call
            n = [0]

            def prof(frame, event, arg):
                if event in ('c_call', 'c_return') and getattr(arg, '__name__', '') in (
                        'open', 'replace', 'rename', 'fsync', 'unlink', 'remove', 'dump', 'dumps', 'write', 'close', 'flush', 'copy', 'truncate', 'link', '__exit__'):
                    n[0] += 1
                    if n[0] == k:
                        os._exit(9)
            sys.setprofile(prof)
        try:
            o.checkpoint()
        finally:
            sys.settrace(None)
            sys.setprofile(None)
    return child(go)


def run(c):
    d = tempfile.mkdtemp(dir=os.environ.get('VP_SCRATCH', '/tmp'))
    try:
        o = make(c, d)
        o.n = len(o.load)
        f = o.resume_file
        if c['prev']:
            o.checkpoint()
            need(os.path.exists(f), 'no checkpoint file after a checkpoint')
            need(whole(f, 'checkpoint') == 'old', 'the checkpoint file does not hold the state at the call')
        old = open(f, 'rb').read() if c['prev'] else None
        k = 0
        while True:
            k += c.get('step', 1)
            how = (c['how'], k if c['how'] in ('line', 'call') else c.get('k', 0))
            st = attempt(c, o, how)
            w = '%s of %s (%s %s)' % ('death' if not (os.WIFEXITED(st) and os.WEXITSTATUS(st) == 8) else 'failure', c['who'], c['how'], how[1])
            if old is not None:
                need(os.path.exists(f), w + ': the previous checkpoint is gone')
            if os.path.exists(f):
                mk = whole(f, w)
                if mk == 'old':
                    need(open(f, 'rb').read() == old, w + ': the previous checkpoint was altered')
                if c['how'].startswith('bomb') and old is not None:
                    need(mk == 'old', w + ': a failed checkpoint replaced the previous one')
            # the parent still holds the old state: put it back on disk for the next stage
            o.mark = 'old'
            del o.load[c['size']:]
            o.n = len(o.load)
            if c['how'] not in ('line', 'call') or (os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0) or k > 400:
                break
            if old is not None:
                o.checkpoint()
                need(whole(f, 'checkpoint after ' + w) == 'old', 'a checkpoint after %s does not hold the state' % w)
                old = open(f, 'rb').read()
            elif os.path.exists(f):
                os.unlink(f)
        # a later checkpoint works whatever was left behind
        o.mark = 'later'
        o.load.extend([2.0] * 7)
        o.n = len(o.load)
        o.checkpoint()
        need(whole(f, 'later checkpoint') == 'later', 'after a checkpoint call the file does not hold the new state')
        # a shorter state afterwards leaves nothing of the longer one
        o.mark = 'short'
        del o.load[1:]
        o.n = 1
        o.checkpoint()
        need(whole(f, 'shorter checkpoint') == 'short', 'after a checkpoint call the file does not hold the new state')
        with open(f, 'rb') as g:
            pickle.load(g)
            need(not g.read(1), 'the checkpoint file has bytes of an earlier one after the new state')
    finally:
        shutil.rmtree(d, ignore_errors=True)


def gen(rng, tier):
    for who in ('ns', 'mh', 'slice', 'hmc'):
        for prev in (True, False):
            for how in ('bomb-die', 'bomb-raise', 'bomb-first'):
                yield dict(who=who, how=how, prev=prev, size=30000)
            for k in (0, 1, 4096, 65536, 200000):
                yield dict(who=who, how='full', prev=prev, k=k, size=30000)
                yield dict(who=who, how='kill', prev=prev, k=k, size=30000)
            yield dict(who=who, how='call', prev=prev, size=30000)
            yield dict(who=who, how='line', prev=prev, size=2000)


def run_two(c):
    """one process serialises while another one of the same run writes its whole checkpoint"""
    d = tempfile.mkdtemp(dir=os.environ.get('VP_SCRATCH', '/tmp'))
    try:
        a, b = make(dict(who=c['a'], file='sampler_0.pkl', size=30000), d), make(dict(who=c['b'], file='sampler_1.pkl', size=20000), d)
        for o in (a, b):
            o.n = len(o.load)
        if a.resume_file == b.resume_file:
            return
        a.mark, b.mark = 'A', 'B'
        a.last = Bomb(b.checkpoint)
        a.checkpoint()
        need(whole(a.resume_file, 'checkpoints of two processes at once') == 'A', 'the checkpoint of one process holds the state of another')
        need(whole(b.resume_file, 'checkpoints of two processes at once') == 'B', 'the checkpoint of one process holds the state of another')
    finally:
        shutil.rmtree(d, ignore_errors=True)


def gen_two(rng, tier):
    for a in ('ns', 'mh', 'slice', 'hmc'):
        for b in ('ns', 'mh', 'slice', 'hmc'):
            yield dict(a=a, b=b)


CHECKS = {'crash': (gen, run), 'two writers': (gen_two, run_two)}
main(CHECKS)
