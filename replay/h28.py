"""C28: the log-file context against a handler ledger."""
import logging
import os
import shutil
import tempfile
from common import *
from cpnest import utils
from cpnest.utils import LogFile


logging.lastResort = None
import cpnest
for _h in logging.getLogger('cpnest').handlers:
    if type(getattr(_h, 'stream', None)) is not type(None):
        _h.stream = open(os.devnull, 'w')


ODD = {e.__name__: e for e in (KeyboardInterrupt, GeneratorExit, StopIteration, OSError, ValueError, AssertionError)}


class Boom(Exception):
    pass


def text(f):
    return open(f).read() if os.path.exists(f) else ''


LEV = [logging.CRITICAL, logging.WARNING, logging.INFO, logging.DEBUG]


def probe(lg, f, verbose, what):
    """exactly the records at or above the verbosity go to the file, once"""
    for i, lv in enumerate(LEV):
        tag = 'probe-%d-%d' % (i, time.time_ns())
        lg.log(lv, tag)
        n = text(f).count(tag)
        need(n == (1 if i <= verbose else 0), '%s: a %s record appears %d times in the log file at verbosity %d' % (what, logging.getLevelName(lv), n, verbose))


def run(c):
    logging.disable(logging.NOTSET)
    d = tempfile.mkdtemp(dir=os.environ.get('VP_SCRATCH', '/tmp'))
    name = c['logger'] or 'cpnest'
    lg = logging.getLogger(name)
    saved, level, prop = list(lg.handlers), lg.level, lg.propagate
    try:
        lg.setLevel(logging.DEBUG)
        lg.propagate = False
        others = []
        for k in range(c['before']):
            h = logging.NullHandler() if k % 2 else logging.FileHandler(os.path.join(d, 'other%d.log' % k), delay=True)
            others.append(h)
            lg.addHandler(h)
        base = list(lg.handlers)
        f = os.path.join(d, 'run.log')
        kw = {} if c['logger'] is None else dict(loggername=c['logger'])
        lf = LogFile(f, verbose=c['verbose'], **kw)
        need(lg.handlers == base, 'a handler is attached before the context is entered')
        for j, how in enumerate(c['script']):
            what = 'entry %d' % (j + 1)
            opened = []
            try:
                with lf as got:
                    need(got is lf, what + ': the context yields %r' % (got,))
                    new = [h for h in lg.handlers if h not in base]
                    need(len(new) == 1, '%s: %d new handlers while the context is open' % (what, len(new)))
                    need([h for h in lg.handlers if h in base] == base, what + ': a handler that was there before is gone while the context is open')
                    h = new[0]
                    opened.append(h)
                    need(isinstance(h, logging.FileHandler) and os.path.realpath(h.baseFilename) == os.path.realpath(f), what + ': the new handler does not write to the log file of the run')
                    need(h.level == LEV[c['verbose']], what + ': handler level %r at verbosity %d' % (h.level, c['verbose']))
                    probe(lg, f, c['verbose'], what)
                    if how == 'raise':
                        raise Boom()
                    if how == 'exit':
                        raise SystemExit(130)
                    if how in ODD:
                        raise ODD[how]('x')
                    if how == 'add':
                        # somebody else attaches a handler while the run is active
                        x = logging.NullHandler()
                        lg.addHandler(x)
                        base = base + [x]
                    if how == 'late':
                        x = logging.NullHandler()
                        lg.addHandler(x)
                        base = base + [x]
                        raise Boom()
                    if how == 'silent':
                        lg.removeHandler(h)
                        h.close()
                out = 'left'
            except Boom:
                out = 'raised'
            except SystemExit as e:
                need(e.code == 130, what + ': exit status altered')
                out = 'exit'
            except tuple(ODD.values()) as e:
                out = type(e).__name__
            need(out == dict({'raise': 'raised', 'late': 'raised', 'exit': 'exit'}, **{k: k for k in ODD}).get(how, 'left'), '%s: an exception in the context is %s' % (what, 'swallowed' if out == 'left' else 'altered'))
            need([h for h in lg.handlers if h not in base] == [], what + ': the handler stays attached after the context')
            need(lg.handlers == base, what + ': handlers that were there before are gone or moved after the context: %r instead of %r' % (lg.handlers, base))
            for h in opened:
                need(h.stream is None or h.stream.closed, what + ': the log file is not closed after the context')
            n = text(f)
            lg.critical('after the context')
            need(text(f) == n, what + ': a record is written to the log file after the context')
        # what earlier entries logged is still there
        need(text(f).count('probe-0') == len(c['script']), 'the log file lost earlier records')
    finally:
        for h in lg.handlers[:]:
            if h not in saved:
                lg.removeHandler(h)
                h.close()
        lg.setLevel(level)
        lg.propagate = prop
        logging.disable(logging.CRITICAL)
        shutil.rmtree(d, ignore_errors=True)


def gen(rng, tier):
    ways = ['normal', 'raise', 'exit', 'add', 'late'] + sorted(ODD)
    yield dict(verbose=1, before=1, logger=None, script=sorted(ODD))
    for v in range(4):
        yield dict(verbose=v, before=v, logger=None, script=['normal', 'raise', 'normal', 'exit', 'normal'])
    yield dict(verbose=2, before=2, logger='cpnest.cpnest', script=['raise', 'normal'])
    for _ in range(40 if tier == 'quick' else 400):
        yield dict(verbose=rng.randrange(4), before=rng.randrange(0, 4), logger=rng.choice([None, None, 'cpnest.sampler']), script=[rng.choice(ways) for _ in range(rng.randrange(1, 5))])


def run_two(c):
    """two contexts one inside the other: each detaches its own handler"""
    logging.disable(logging.NOTSET)
    d = tempfile.mkdtemp(dir=os.environ.get('VP_SCRATCH', '/tmp'))
    lg = logging.getLogger('cpnest')
    level, prop = lg.level, lg.propagate
    base = list(lg.handlers)
    try:
        lg.setLevel(logging.DEBUG)
        lg.propagate = False
        a, b = LogFile(os.path.join(d, 'a.log'), verbose=1), LogFile(os.path.join(d, 'b.log'), verbose=3)
        with a:
            ha = [h for h in lg.handlers if h not in base]
            with b:
                need(len([h for h in lg.handlers if h not in base]) == 2, 'two open contexts, handlers %r' % lg.handlers)
                probe(lg, os.path.join(d, 'b.log'), 3, 'inner context')
            need([h for h in lg.handlers if h not in base] == ha, 'leaving the inner context detaches the handler of the outer one')
            probe(lg, os.path.join(d, 'a.log'), 1, 'outer context')
        need(lg.handlers == base, 'handlers left behind')
    finally:
        for h in lg.handlers[:]:
            if h not in base:
                lg.removeHandler(h)
        lg.setLevel(level)
        lg.propagate = prop
        logging.disable(logging.CRITICAL)
        shutil.rmtree(d, ignore_errors=True)


def gen_two(rng, tier):
    yield dict()


def run_cp(c):
    """the run opens the context around setting up and around running, also when the run fails or is interrupted"""
    import multiprocessing.managers as MM
    import cpnest.cpnest as CP
    import cpnest.model
    logging.disable(logging.NOTSET)
    MM.SyncManager.start = lambda self, *a, **k: None
    d = tempfile.mkdtemp(dir=os.environ.get('VP_SCRATCH', '/tmp'))
    lg = logging.getLogger('cpnest')
    base = list(lg.handlers)
    prop = lg.propagate
    lg.propagate = False

    class M(cpnest.model.Model):
        names, bounds = ['x'], [[0.0, 1.0]]

        def log_likelihood(self, p):
            return 0.0
    try:
        cp = CP.CPNest(M(), nlive=4, poolsize=4, output=d, verbose=c['v'], nthreads=1, seed=1)
        need(lg.handlers == base, 'a handler is left after setting up')
        seen = []

        class P(object):
            def start(self):
                pass

            def join(self):
                pass
        cp.process_pool = [P()]

        def loop():
            seen.append([h for h in lg.handlers if h not in base])
            if c['how'] == 'boom':
                raise Boom()
            raise CP.CheckPoint()
        cp.NS.nested_sampling_loop = loop
        try:
            cp.run()
            out = 'returned'
        except Boom:
            out = 'boom'
        except SystemExit as e:
            out = e.code
        need(out == ('boom' if c['how'] == 'boom' else 130), 'the run ends with %r' % (out,))
        need(len(seen[0]) == 1 and os.path.realpath(getattr(seen[0][0], 'baseFilename', '')) == os.path.realpath(os.path.join(d, 'cpnest.log')),
             'while the run is active the handlers are %r' % seen[0])
        need(lg.handlers == base, 'a handler is left after the run')
        for a in cp.manager.consumer_pipes + cp.manager.producer_pipes:
            a.close()
    finally:
        for h in lg.handlers[:]:
            if h not in base:
                lg.removeHandler(h)
        lg.propagate = prop
        logging.disable(logging.CRITICAL)
        shutil.rmtree(d, ignore_errors=True)


def gen_cp(rng, tier):
    for v in (0, 1, 2):
        for how in ('boom', 'checkpoint'):
            yield dict(v=v, how=how)


CHECKS = {'context': (gen, run), 'nested': (gen_two, run_two), 'run': (gen_cp, run_cp)}
main(CHECKS)
