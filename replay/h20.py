"""C20: an interrupt at every line (and bytecode) of the sampling loop; periodic checkpoints."""
import dis
import pickle
import sys
from coord import *
from cpnest.cpnest import CheckPoint


def snap(ns, thr):
    st = ns.state
    return dict(live=ids(ns.params), nested=ids(ns.nested_samples), Ls=list(st.logLs), vols=[float(v) for v in st.log_vols],
                ranks=[float(x) for x in ns.insertion_indices], it=ns.iteration, acc=ns.accepted, rej=ns.rejected, logZ=float(st.logZ), info=float(st.info),
                logw=float(st.logw), sit=st.iteration, thr=float(thr), cond=float(ns.condition))


def diff(a, b):
    return [k for k in a if a[k] != b[k]]


class Tracer(object):
    def __init__(self, at, opcodes):
        self.at, self.opcodes, self.k, self.on, self.fired = at, opcodes, 0, False, None

    def glob(self, frame, event, arg):
        if not self.on or not frame.f_code.co_filename.endswith('NestedSampling.py') or frame.f_code.co_name == 'checkpoint':
            return None
        frame.f_trace_opcodes = self.opcodes
        return self.local

    def local(self, frame, event, arg):
        if not self.on:
            return None
        if event == ('opcode' if self.opcodes else 'line'):
            if self.opcodes and dis.opname[frame.f_code.co_code[frame.f_lasti]].startswith('JUMP'):
                # CPython delivers signals after the jump, where the target's handlers apply
                return self.local
            self.k += 1
            if self.k == self.at:
                self.on = False
                self.fired = '%s:%d' % (frame.f_code.co_name, frame.f_lineno)
                raise CheckPoint()
        return self.local


def play(c, at, opcodes, iters):
    """one run interrupted at event number `at`; returns tracer, snapshots at the loop head, exit, coordinator, file state"""
    co = Coord(c)
    try:
        ns = co.make()
        co.populate()
        snaps = []
        tr = Tracer(at, opcodes)
        orig = NestedSampler.consume_sample
        ends = [0]

        def step():
            frame = sys._getframe(1)
            if len(snaps) == 0 and tr.at:
                # start counting: also in the frame of the loop itself
                tr.on = True
                frame.f_trace = tr.local
                frame.f_trace_opcodes = opcodes
                sys.settrace(tr.glob)
            if len(snaps) >= iters:
                tr.on = False
                raise EOFError
            snaps.append(snap(ns, co.logLmin.value))
            orig(ns)
            ends[0] = tr.k
        ns.consume_sample = step
        code = None
        real = NestedSampler.checkpoint
        files = []

        def ck():
            was, tr.on = tr.on, False
            d = ns.__dict__.pop('consume_sample', None)
            e = ns.__dict__.pop('checkpoint', None)
            try:
                ns.checkpoint()
                with open(ns.resume_file, 'rb') as f:
                    obj = pickle.load(f)
                files.append(snap(obj, obj.__dict__.get('llmin', np.nan)))
            finally:
                ns.consume_sample, ns.checkpoint = d, e
                tr.on = was
        ns.checkpoint = ck
        try:
            ns.nested_sampling_loop()
            code = 'finished'
        except SystemExit as e:
            code = e.code
        except EOFError:
            code = 'stop'
        finally:
            sys.settrace(None)
            tr.on = False
        snaps.append(snap(ns, co.logLmin.value))
        return tr, snaps, code, co, files, ends[0]
    finally:
        sys.settrace(None)
        co.close()


def gen(rng, tier):
    for N, n in [(3, 1), (4, 3), (5, 2)]:
        for opc in (False, True):
            yield dict(N=N, n=n, seed=1, rej=0.3, ties=0.1, zero=0, tol=1e-9, opc=opc, iters=2 + (n == 1))
    if tier != 'quick':
        for _ in range(20):
            n = rng.randrange(1, 5)
            yield dict(N=n + rng.randrange(1, 6), n=n, seed=rng.randrange(1000), rej=0.4, ties=0.2, zero=0, tol=1e-9, opc=rng.random() < .5, iters=3)


def run(c):
    _, ref, code, _, _, total = play(c, 10 ** 9, c['opc'], c['iters'])
    need(len(ref) == c['iters'] + 1, 'reference run stopped early')
    # the states at the loop head, the last one after the final iteration
    step = 1 if total < 1500 else total // 1500 + 1
    for at in range(1, total + 1, step):
        tr, snaps, code, co, files, _ = play(dict(c), at, c['opc'], c['iters'])
        if tr.fired is None:
            continue
        w = 'interrupted at %s (event %d): ' % (tr.fired, at)
        need(code == 130, w + 'ended with %r instead of the checkpoint status' % (code,))
        need(co.ckpt == [1] * c['n'], w + 'checkpoint requests per worker %r' % co.ckpt)
        need(co.stops == [0] * c['n'], w + 'stop messages sent')
        need(len(files) == 1, w + '%d checkpoints written' % len(files))
        k = len(snaps) - 2     # iteration in progress
        ok = [j for j in (k, k + 1) if j < len(ref) and not diff(ref[j], files[0])]
        need(ok, w + 'the checkpoint is not the state at an iteration boundary: differs from the last one in %s (live %d points, record %d)' % (
            diff(ref[k], files[0]), len(files[0]['live']), len(files[0]['nested'])))
        need(len(files[0]['live']) == c['N'], w + 'live set of %d points' % len(files[0]['live']))


def gen_p(rng, tier):
    for c in cases(rng, tier, 10, interval=-1, tol=1e-9):
        yield c


def run_p(c):
    tr, snaps, code, co, files, _ = play(c, 0, False, c['iters'])
    need(len(files) == c['iters'], '%d periodic checkpoints in %d iterations' % (len(files), c['iters']))
    for i, f in enumerate(files):
        need(not diff(snaps[i + 1], f), 'periodic checkpoint is not the state between iterations: %s' % diff(snaps[i + 1], f))
    c2 = dict(c, interval=INF)
    tr, snaps, code, co, files, _ = play(c2, 0, False, c['iters'])
    need(not files, 'periodic checkpoint before its time')


CHECKS = {'interrupt': (gen, run), 'periodic': (gen_p, run_p)}
main(CHECKS, limit=200)
