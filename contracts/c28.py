"""C28: the log-file context.  Ghosts: `_on`, the handlers attached to the logger besides the (arbitrary) ones that were
there before, `_open`, the handlers whose file is open.  Closed state of a context: it holds no handler, `_on` and `_open`
are empty.  Every public operation is proved from an arbitrary closed (open) state to an open (closed) one, so any sequence
of entries and exits alternates between them."""
from .ns import *

U = 'cpnest.utils.'
L = U + 'LogFile.'
NAMES = {'CRITICAL': 50, 'WARNING': 30, 'INFO': 20, 'DEBUG': 10}
WANT = [50, 30, 20, 10]
ASSUMES = ['logging: FileHandler(filename, mode, ...) opens the file and starts at level 0, setLevel sets the level, addHandler adds the handler unless present, '
           'removeHandler removes exactly that handler, close closes the file; a record reaches the file when its level is at least the handler\'s']


class Log(Model):
    """the logger of a given name; handlers attached before are not mentioned: no operation below can touch them"""
    def __init__(self, name):
        self.name = name

    def same(self, o):
        return isinstance(o, Log) and self.name is o.name

    def py_same(self, ex, o):
        return self.same(o)

    def py_getattr(self, ex, name):
        g = ex.st.ghost
        if name in lib.LOGM:
            return lib.LogCall()
        if name == 'addHandler':
            def add(ex, h):
                if h not in g['_on']:
                    g['_on'] = g['_on'] + (h,)
                ex.prove(self.name is ex.logname, 'the handler is attached to the requested logger')
            return Fn(add)
        if name == 'removeHandler':
            def rem(ex, h):
                ex.prove(isinstance(h, Ref) and h in ex.mine, 'only a handler of this context is detached')
                g['_on'] = tuple(x for x in g['_on'] if x != h)
            return Fn(rem)
        raise Unsupported('logger.' + name)


def level(v):
    if isinstance(v, str):
        if v not in NAMES:
            lib.raise_('ValueError')
        return NAMES[v]
    if isinstance(v, int):
        return v
    raise Unsupported('level %r' % (v,))


def h_init(ex, self, filename=None, mode='a', encoding=None, delay=False, errors=None):
    o = ex.obj(self)
    o.attrs.update(_file=filename, _mode=mode, _level=0)
    g = ex.st.ghost
    g['_open'] = g['_open'] + (self,)
    ex.mine.append(self)


def h_level(ex, self, v):
    ex.obj(self).attrs['_level'] = level(v)


def h_close(ex, self):
    g = ex.st.ghost
    g['_open'] = tuple(x for x in g['_open'] if x != self)


NOP = Fn(lambda ex, self, *a: None)
EXT = {'logging.getLogger': Fn(lambda ex, n=None: Log(n)),
       'logging.FileHandler': Fn(lambda ex, *a, **k: unsup()),
       'logging.Formatter': Fn(lambda ex, *a, **k: Opaque('formatter')),
       'ext:logging.FileHandler.__init__': Fn(h_init), 'ext:logging.Handler.setLevel': Fn(h_level),
       'ext:logging.Handler.setFormatter': NOP, 'ext:logging.StreamHandler.flush': NOP,
       'ext:logging.FileHandler.close': Fn(h_close)}


def unsup():
    raise Unsupported('plain library handler')


def start(ex, opened):
    """an arbitrary context in the closed (or open) state, as its constructor leaves it"""
    ex.mine = []
    ex.logname, ex.file, ex.verb = Opaque('loggername'), Opaque('filename'), ex.choose(4)
    ex.st.ghost.update(_on=(), _open=())
    ref = noraise(ex, lambda: ex.instantiate(cls(ex, L[:-1]), [ex.file], {'verbose': ex.verb, 'loggername': ex.logname}), 'LogFile()')
    g = ex.st.ghost
    ex.prove(g['_on'] == () and g['_open'] == (), 'making a context attaches and opens nothing')
    if opened:
        r = noraise(ex, lambda: call_real(ex, L + '__enter__', [ref]), 'entering')
        return ref, r
    return ref


def is_closed(ex, what):
    g = ex.st.ghost
    ex.prove(g['_on'] == (), what + ': no handler of the context stays attached')
    ex.prove(g['_open'] == (), what + ': the file of the context is closed')


def is_open(ex, what):
    g = ex.st.ghost
    ex.prove(len(g['_on']) == 1 and g['_on'] == g['_open'], what + ': exactly one new handler is attached and its file is open')
    h = ex.obj(g['_on'][0]).attrs
    ex.prove(h['_file'] is ex.file, what + ': it writes to the file of the context')
    ex.prove(h['_level'] == WANT[ex.verb], what + ': it has the requested verbosity')


def t_enter(ex):
    ref, r = start(ex, True)
    is_open(ex, 'entering')
    ex.prove(isinstance(r, Ref) and r == ref, 'entering gives the context')


def t_exit(ex):
    ref, _ = start(ex, True)
    args = [None, None, None] if ex.choose(2) else [Opaque('type'), Opaque('value'), Opaque('tb')]
    r = noraise(ex, lambda: call_real(ex, L + '__exit__', [ref] + args), 'leaving')
    is_closed(ex, 'leaving')
    ex.prove(Not(lib.truth(ex, r)), 'an exception is not swallowed')
    # the state left behind is the closed state again: entering works as from a new context
    noraise(ex, lambda: call_real(ex, L + '__enter__', [ref]), 'entering again')
    is_open(ex, 'entering again')
    noraise(ex, lambda: call_real(ex, L + '__exit__', [ref] + args), 'leaving again')
    is_closed(ex, 'leaving again')


def t_pair(ex):
    ref = start(ex, False)
    noraise(ex, lambda: call_real(ex, L + 'open', [ref]), 'open')
    is_open(ex, 'open')
    noraise(ex, lambda: call_real(ex, L + 'close', [ref]), 'close')
    is_closed(ex, 'close')


def t_verb(ex):
    """changing the verbosity of the open handler"""
    ref, _ = start(ex, True)
    h = ex.st.ghost['_on'][0]
    ex.verb = ex.choose(4)
    noraise(ex, lambda: call_real(ex, U + '_Handler.set_verbosity', [h, ex.verb]), 'set_verbosity')
    is_open(ex, 'set_verbosity')
    v = noraise(ex, lambda: call_real(ex, U + '_Handler.get_verbosity', [h]), 'get_verbosity')
    ex.prove(v == ex.verb, 'get_verbosity gives the verbosity set')


def targets(tier):
    def T(n, f, *more):
        return Target(U + n, f, externals=dict(EXT), covers=tuple(U + x for x in more), min_obl=3)
    return [T('LogFile.__enter__', t_enter, 'LogFile.__init__', 'LogFile.__enter__', 'LogFile.open', 'FileHandler.__init__', '_Handler.__init__', '_Handler.set_verbosity'),
            T('LogFile.__exit__', t_exit, 'LogFile.__exit__', 'LogFile.close'),
            T('LogFile.open', t_pair, 'LogFile.open', 'LogFile.close'),
            T('_Handler.set_verbosity', t_verb, '_Handler.set_verbosity', '_Handler.get_verbosity')]
