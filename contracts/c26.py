"""C26: output files and user arrays.

Ghost of an open text file: `w_n` complete lines so far, `w_src[k]` what line k is (-1: the header text of the model,
otherwise the reference of the live point whose `strsample` text it is), `w_part` the same code for text written without its
newline yet (-2: none).  The text of one line is what Model.strsample / Model.header give, whose own contracts (also proved
here, for the default implementations) say what it contains; trailing white space may be cut."""
import re
from .ns import *
from pyvc import comp

N_ = NS + 'NestedSampler.'
M_ = 'cpnest.model.Model.'
ASSUMES = ['the text a model gives for a sample or as header is one line (a user model overriding strsample keeps this)',
           'open(name, "w") truncates, write appends; float formatting {:.20e} is exact to 20 digits after the point (>= 17 significant digits identify a double)',
           'numpy.lib.recfunctions.stack_arrays(list, usemask=False) gives the rows of the arrays in order under the union of their columns']
BOUNDED = ['replay/h26.py: the bytes of the files (parsed back) and the user arrays']
NONE, HDR = z3.IntVal(-2), z3.IntVal(-1)


class TextFile(Model):
    def py_enter(self, ex):
        return self

    def py_exit(self, ex, exc):
        return False

    def same(self, o):
        return isinstance(o, TextFile)

    def py_getattr(self, ex, name):
        if name == 'write':
            return Fn(lambda ex, t: write(ex, t))
        if name == 'writelines':
            def wl(ex, it):
                s = lib.to_seq(ex, it)
                if isinstance(s.n, int):
                    for i in range(s.n):
                        write(ex, s.get(i))
                else:
                    write(ex, SStr([('join', lib.JoinVal('', s), '')]))
            return Fn(wl)
        if name in ('flush', 'close', 'fileno'):
            return Fn(lambda ex, *a: None)
        raise Unsupported('file.' + name)


def token(ex, code):
    g = ex.st.ghost
    ex.prove(eq(g['w_part'], NONE), 'a header or sample text starts on a fresh line')
    g['w_part'] = zi(code)


def newline(ex):
    g = ex.st.ghost
    ex.prove(Not(eq(g['w_part'], NONE)), 'no empty line')
    g['w_src'] = z3.Store(g['w_src'], zi(g['w_n']), g['w_part'])
    g['w_n'] = z3.simplify(zi(g['w_n']) + 1)
    g['w_part'] = NONE


def line_of(v, nl):
    """the live point whose text (with/without newline) v is"""
    p = lib.parts(v)
    want = 2 if nl else 1
    if len(p) == want and p[0][0] == 'line' and (not nl or p[1] == '\n'):
        return p[0][1]
    raise Unsupported('joined text')


def write(ex, t):
    g = ex.st.ghost
    for p in lib.parts(t):
        if isinstance(p, str):
            if g['_kind'] == 'evidence':
                g['_text'] = g['_text'] + (p,)
                continue
            for c in p:
                if c == '\n':
                    newline(ex)
                else:
                    ex.prove(False, 'nothing but the texts of the header and the samples is written')
        elif g['_kind'] == 'evidence':
            g['_text'] = g['_text'] + (p,)
        elif p[0] == 'hdr':
            token(ex, HDR)
        elif p[0] == 'line':
            token(ex, p[1].ref)
        elif p[0] == 'join' and p[1].sep in ('', '\n'):
            s, nl = p[1].seq, p[1].sep == ''
            line_of(s.get(z3.Int(ex._n('pr'))), nl)
            if ex.branch(le(s.n, 0)):
                continue
            ex.prove(eq(g['w_part'], NONE), 'a header or sample text starts on a fresh line')
            a = z3.Const(ex._n('w_src'), g['w_src'].sort())
            n0, src0 = zi(g['w_n']), g['w_src']
            q = z3.Int(ex._n('q'))
            ex.st.facts.append(z3.ForAll([q], a[q] == z3.If(z3.And(q >= n0, q < n0 + zi(s.n)), line_of(s.get(q - n0), nl).ref, src0[q]), patterns=[a[q]]))
            g['w_src'] = a
            if nl:
                g['w_n'] = z3.simplify(n0 + zi(s.n))
            else:
                g['w_n'] = z3.simplify(n0 + zi(s.n) - 1)
                g['w_part'] = a[z3.simplify(n0 + zi(s.n) - 1)]
        else:
            raise Unsupported('text written: %r' % (p[0],))


def f_open(ex, name, mode='r', *a, **k):
    if ex.st.ghost.get('_kind') is None:
        return File()
    ex.prove(isinstance(name, SStr) and name is ex.want_file, 'the file opened is the output file')
    ex.prove(mode in ('w', 'wt', 'w+'), 'the file is written anew')
    g = ex.st.ghost
    g['_opens'] = g['_opens'] + 1
    g['w_n'], g['w_part'] = z3.IntVal(0), NONE
    g['_text'] = ()
    return TextFile()


class TextModel(UserModel):
    def py_getattr(self, ex, name):
        if name == 'header':
            return Fn(lambda ex: SStr([('hdr', None, '')]))
        if name == 'strsample':
            def ss(ex, p):
                if not isinstance(p, LP):
                    raise Unsupported('strsample of %r' % (p,))
                return SStr([('line', p, '')])
            return Fn(ss)
        return super().py_getattr(ex, name)


def start(ex, kind):
    ref, N = sampler(ex)
    live_state(ex, ref, N)
    o = ex.obj(ref)
    o.attrs['model'] = TextModel()
    ex.me = ref
    ex.want_file = o.attrs['output_file' if kind == 'chain' else 'evidence_file'] = SStr([('sym', kind)])
    o.attrs['evidence_file' if kind == 'chain' else 'output_file'] = SStr([('sym', 'other')])
    g = ex.st.ghost
    g.update(_kind=kind, _opens=0, _text=(), w_n=z3.IntVal(0), w_part=NONE, w_src=z3.Const(ex._n('w_src'), z3.ArraySort(I, I)))
    return ref


def rec(ex):
    return ex.obj(ex.obj(ex.me).attrs['nested_samples']).pay


def cand(L):
    ex = L.ex
    g, g0 = ex.st.ghost, L.entry.ghost
    n0 = g0['w_n']
    ns = rec(ex)
    return And(eq(g['w_n'], add(n0, L.it)), eq(g['w_part'], NONE),
               forall(L.it, lambda k: eq(g['w_src'][zi(add(n0, k))], ns.get(k).ref)),
               forall(n0, lambda k: eq(g['w_src'][zi(k)], g0['w_src'][zi(k)])))


def t_chain(ex):
    ref = start(ex, 'chain')
    ns0 = rec(ex)
    lp0 = dict(ex.st.lp)
    noraise(ex, lambda: call_real(ex, N_ + 'write_chain_to_file', [ref]), 'write_chain_to_file')
    g = ex.st.ghost
    ns = rec(ex)
    ex.prove(g['_opens'] >= 1, 'the file is written')
    ex.prove(And(eq(ns.n, ns0.n), forall(ns0.n, lambda k: eq(ns.get(k).ref, ns0.get(k).ref))), 'the record is not changed')
    ex.prove(all(ex.st.lp[k].eq(lp0[k]) for k in lp0), 'no sample is changed')
    ex.prove(eq(g['w_part'], NONE), 'the last line is complete')
    ex.prove(eq(g['w_n'], add(ns0.n, 1)), 'one header line and one line per recorded sample')
    ex.prove(eq(g['w_src'][0], HDR), 'the first line is the header')
    ex.prove(forall(ns0.n, lambda k: eq(g['w_src'][zi(add(k, 1))], ns0.get(k).ref)), 'line k is sample k of the record')


def digits(spec):
    """(significant digits, minimal width) of a numeric format specification"""
    m = re.fullmatch(r'([<>^=])?([ +-])?(0)?(\d+)?(?:\.(\d+))?([eEgGfF])?', spec)
    if not m:
        raise Unsupported('format ' + spec)
    w, p, t = int(m.group(4) or 0), m.group(5), m.group(6)
    if t is None and p is None:
        return 17, w, 'r'
    p = 6 if p is None else int(p)
    return (p + 1 if t in ('e', 'E') else p), w, (t or 'g').lower()


def t_evidence(ex):
    ref = start(ex, 'evidence')
    st = ex.obj(ex.obj(ref).attrs['state']).attrs
    Z, H = st['logZ'], st['info']
    # the maximum is still shared: the value written is the one read
    seen = []

    class Max(Shared):
        def py_getattr(self, ex, name):
            v = super().py_getattr(ex, name)
            if name == 'value':
                seen.append(v)
            return v
    ex.obj(ref).attrs['logLmax'] = Max('logLmax', max_rely)
    noraise(ex, lambda: call_real(ex, N_ + 'write_evidence_to_file', [ref]), 'write_evidence_to_file')
    g = ex.st.ghost
    t = SStr(list(g['_text'])).parts
    ex.prove(g['_opens'] >= 1, 'the file is written')
    lines = [[]]
    for p in t:
        if isinstance(p, str):
            for j, s in enumerate(p.split('\n')):
                if j:
                    lines.append([])
                if s:
                    lines[-1].append(s)
        else:
            lines[-1].append(p)
    ex.prove(len(lines) == 3 and lines[2] == [], 'two complete lines')
    if len(lines) != 3:
        return
    head = lines[0]
    ex.prove(len(head) == 1 and isinstance(head[0], str) and head[0].lstrip('#').split() == ['logZ', 'logLmax', 'H'], 'the header names the three values')
    vals = [p for p in lines[1] if not isinstance(p, str)]
    seps = [p for p in lines[1] if isinstance(p, str)]
    ex.prove(len(vals) == 3 and all(p[0] == 'flt' for p in vals), 'three values')
    ex.prove(all(not s.strip() for s in seps) and all(isinstance(lines[1][2 * i + 1], str) for i in range(2) if len(lines[1]) > 2 * i + 1) and len(seps) >= 2,
             'the values are separated by white space')
    if len(vals) != 3:
        return
    for p, v, what, dec in zip(vals, (Z, seen[-1] if seen else flt(0), H), ('log-evidence', 'maximum log-likelihood', 'information'), (5, 5, 2)):
        ex.prove(f_same(p[1], v), 'the file holds the ' + what)
        d, w, t = digits(p[2])
        ex.prove(d >= (dec if t == 'f' else dec + 8), 'the %s is written with at least %d decimals' % (what, dec))


# ------------------------------------------------------------------ the default texts
def the_model(ex):
    return ex.new(cls(ex, M_[:-1]), attrs={'names': lib.NamesVal(), 'bounds': ex.new_list(ex.fresh_seq('bounds', ex.dim, KTuple([KFlt(True), KFlt(True)])))})


def t_header(ex):
    r = noraise(ex, lambda: call_real(ex, M_ + 'header', [the_model(ex)]), 'header')
    p = list(lib.parts(r))
    if p and isinstance(p[0], str) and not p[0].strip(' #'):
        p = p[1:]
    ok = len(p) == 2 and not isinstance(p[0], str) and p[0][0] == 'join'
    if not ok:
        raise Unsupported('header text %r' % (p,))
    names_joined(ex, p[0][1])
    ex.prove(p[1][:1].isspace() and p[1].split() == ['logL'], 'the likelihood column is named last')


def names_joined(ex, j):
    sep = j.sep
    ex.prove(isinstance(sep, str) and sep != '' and not sep.strip() and '\n' not in sep, 'columns are separated by white space')
    ex.prove(eq(j.seq.n, ex.dim), 'one column per parameter')
    q = z3.Int(ex._n('q'))
    e = j.seq.get(q)
    if isinstance(e, SStr) and len(e.parts) == 1:
        e = SName(e.parts[0][1]) if e.parts[0][0] == 'name' else e
    if not isinstance(e, SName):
        raise Unsupported('column name %r' % (e,))
    ex.prove(forall(ex.dim, lambda k: eq(name_at(j, k), k)), 'column k is named after parameter k')


def name_at(j, k):
    e = j.seq.get(k)
    return e.i if isinstance(e, SName) else e.parts[0][1]


def t_sample(ex):
    p = ex.fresh_lp('p')
    lp0 = dict(ex.st.lp)
    L = ex.lp_get(p, 'logL')
    r = noraise(ex, lambda: call_real(ex, M_ + 'strsample', [the_model(ex), p]), 'strsample')
    ex.prove(all(ex.st.lp[k].eq(lp0[k]) for k in lp0), 'the sample is not changed')
    ps = list(lib.parts(r))
    if ps and isinstance(ps[-1], str):
        ex.prove(not ps[-1].strip() and '\n' not in ps[-1], 'the likelihood is the last field')
        ps = ps[:-1]
    if not (len(ps) >= 2 and not isinstance(ps[0], str) and ps[0][0] == 'join'):
        raise Unsupported('sample text %r' % (ps,))
    j = ps[0][1]
    ex.prove(isinstance(j.sep, str) and j.sep != '' and not j.sep.strip() and '\n' not in j.sep, 'columns are separated by white space')
    ex.prove(eq(j.seq.n, ex.dim), 'one column per parameter')
    e = j.seq.get(z3.Int(ex._n('q')))
    if not (isinstance(e, SStr) and len(e.parts) == 1 and e.parts[0][0] == 'flt'):
        raise Unsupported('column text %r' % (e,))
    d, w, t = digits(e.parts[0][2])
    ex.prove(t != 'f' and d >= 17, 'coordinates are written with at least 17 significant digits')
    V = ex.lp_vals(p)
    ex.prove(forall(ex.dim, lambda k: f_same(j.seq.get(k).parts[0][1], SFlt(z3.Select(V, zi(k))))), 'column k holds the value of parameter k')
    ex.prove(not isinstance(ps[-1], str) and ps[-1][0] == 'flt' and len(ps) <= 3, 'the likelihood follows the coordinates')
    d, w, t = digits(ps[-1][2])
    ex.prove(f_same(ps[-1][1], L), 'the last field is the log-likelihood of the sample')
    ex.prove(t != 'f' and d >= 7, 'the log-likelihood is written with at least 7 significant digits')
    sep = ps[1] if len(ps) == 3 else ''
    ex.prove((isinstance(sep, str) and sep != '' and not sep.strip() and '\n' not in sep) or (sep == '' and w > d + 8), 'the likelihood is separated from the last coordinate')


# ------------------------------------------------------------------ the user's array
class Stack(Model):
    """rows of record arrays, one row each, in order"""
    def __init__(self, seq):
        self.seq = seq

    def same(self, o):
        return self is o

    def py_getattr(self, ex, name):
        if name in ('ravel', 'flatten', 'copy'):
            return Fn(lambda ex: self)
        if name == 'dtype':
            return Dtype()
        raise Unsupported('record array.' + name)


class Dtype(Model):
    def py_getattr(self, ex, name):
        if name == 'names':
            return ColNames()
        raise Unsupported('dtype.' + name)


class ColNames(Model):
    def py_iter(self, ex):
        return Seq(add(ex.dim, 2), lambda i: SName(i))


def stack_arrays(ex, arrs, defaults=None, usemask=True, **k):
    s = lib.to_seq(ex, arrs)
    if usemask is not False:
        raise Unsupported('masked stack')
    if not isinstance(s.get(z3.Int(ex._n('pr'))), lib.RowArr):
        raise Unsupported('stack of other arrays')
    return Stack(s)


def savetxt(ex, name, a, fmt='%.18e', **k):
    g = ex.st.ghost
    ex.prove(isinstance(a, Stack), 'the file gets the array returned')
    g['_saved'] = a
    if fmt != '%.18e':
        m = re.fullmatch(r'%\.(\d+)e', fmt if isinstance(fmt, str) else '')
        if not m:
            raise Unsupported('savetxt format')
        ex.prove(int(m.group(1)) >= 16, 'full precision in the file')


def t_user(ex):
    ref, N = sampler(ex)
    live_state(ex, ref, N)
    ex.me = ref
    ns0 = rec(ex)
    lp0 = dict(ex.st.lp)
    cp = ex.new(cls(ex, 'cpnest.cpnest.CPNest'), attrs={'NS': ref, 'verbose': ex.fresh_int('verb')})
    if not ex.choose(2):
        args = [None]
    else:
        args = ['file.dat']
    g = ex.st.ghost
    g['_saved'] = None
    r = noraise(ex, lambda: call_real(ex, 'cpnest.cpnest.CPNest.get_nested_samples', [cp] + args), 'get_nested_samples')
    g = ex.st.ghost
    if not isinstance(r, Stack):
        raise Unsupported('user array %r' % (r,))
    ns = rec(ex)
    ex.prove(And(eq(ns.n, ns0.n), forall(ns0.n, lambda k: eq(ns.get(k).ref, ns0.get(k).ref))), 'the record is not changed')
    ex.prove(eq(r.seq.n, ns0.n), 'one row per recorded sample')
    ex.prove(forall(ns0.n, lambda k: eq(r.seq.get(k).p.ref, ns0.get(k).ref)), 'row k is sample k of the record')
    e = r.seq.get(z3.Int(ex._n('q')))
    ex.prove(all(e.lp[k].eq(lp0[k]) for k in lp0) and all(ex.st.lp[k].eq(lp0[k]) for k in lp0), 'rows hold the values of the samples, which are not changed')
    if args[0]:
        ex.prove(g['_saved'] is r, 'the array is saved as returned')
    else:
        ex.prove(g['_saved'] is None, 'no file without a name')
    v = ex.obj(cp).attrs.get('nested_samples')
    ex.prove(v is r, 'the array is kept for later calls')


EXT = dict(externals(), **{'builtin:open': Fn(f_open), 'numpy.lib.recfunctions.stack_arrays': Fn(stack_arrays), 'numpy.savetxt': Fn(savetxt)})


def targets(tier):
    c = dict(OLP_C)
    c.update(STATE_C)

    def T(n, f, **k):
        return Target(n, f, contracts=c, externals=EXT, pool=[('lines so far', cand)], **k)
    return [T(N_ + 'write_chain_to_file', t_chain, min_obl=5), T(N_ + 'write_evidence_to_file', t_evidence, min_obl=8),
            T(M_ + 'header', t_header, min_obl=4), T(M_ + 'strsample', t_sample, min_obl=7),
            T('cpnest.cpnest.CPNest.get_nested_samples', t_user, min_obl=6)]
