"""One step of the formatting loop, for each kind of event.

The formatting loop is analysed as a transition system: from an unknown formatting state, the next
event is fixed to one kind (its payload unknown), every path of the loop body is followed through
all local callees, and the state is compared where the loop asks for the following event.  Stacks
(Vec fields) are terms `vec(base, items)`, so that the effect of a step is read off exactly; text
sinks, which write into the current buffer, are cut off at their first call and checked separately.
"""
from util import *
from absint import joinmem
from rules.c01 import reachable
import re

EV = 'pulldown_cmark::Event'
TAG = 'pulldown_cmark::Tag'
END = 'pulldown_cmark::TagEnd'
OPT = 'std::option::Option'
VEC0 = mk('vec0')
HOLDS = re.compile(r'FormatState<|MarkdownWriter|header::Header|FootnoteDefinition|Vec<std::borrow::Cow|Vec<pulldown_cmark::Tag|closure@')
VEC = re.compile(r'^(&mut |&)?(std::vec::)?Vec<')


def vec(base, items):
    if not items:
        return base
    if base.op == 'vec':
        return mk('vec', base.a[0], base.a[1] + tuple(items))
    return mk('vec', base, tuple(items))


# -- teach the term algebra about stacks (only terms built here use these operators)
import absint as _ab
_field, _setfield, _rebuild = _ab.field, _ab.setfield, _ab.rebuild


def field2(v, key):
    if key[0] == 'vl':
        if v.op == 'vec':
            return v.a[1][-1]
        return T
    return _field(v, key)


def setfield2(v, path, val):
    if path and path[0][0] == 'vl':
        if v.op == 'vec':
            x = setfield2(v.a[1][-1], path[1:], val)
            return mk('vec', v.a[0], v.a[1][:-1] + (x,))
        return T
    return _setfield(v, path, val)


def rebuild2(op, a):
    if op == 'vec':
        return T if a[0] is T else vec(a[0], a[1])
    if op in ('vrest', 'vtop') and a[0].op in ('vec0', 'T'):
        return T
    return _rebuild(op, a)


_ab.field, _ab.setfield, _ab.rebuild = field2, setfield2, rebuild2


def state_adt(F):
    r = [k for k, a in F.adts.items() if a.get('local') and k.endswith('FormatState')]
    if not r:
        raise Missing('struct FormatState')
    return r[0]


def state_fields(F):
    a = F.adts[state_adt(F)]['variants'][0]
    return {n: i for i, n in enumerate(a['fields'])}, a


def loop_fn(F):
    """the function that pulls events: the local method of the state with a loop around next()"""
    fns = [f for f in F.local if f['path'].endswith('::format') and 'FormatState' in f['path'] and not f['closure']]
    if not fns:
        raise Missing('FormatState::format')
    return fns[0]


def is_state(F, ty):
    return ty is not None and 'FormatState' in F.tyname(ty)


def sink(F, fr):
    """a call of a text sink on the formatting state"""
    if fr is None:
        return False
    full = fr.get('full', '')
    tr = (fr.get('trait') or '')
    return tr.split('<')[0].endswith('Write') or tr.split('<')[0].endswith('WriteContext')


class Script:
    """the event given to the step"""

    def __init__(self, name, term, adt=None):
        self.name, self.term = name, term


def scripts(F):
    out = []
    ev = F.adts.get(EV)
    if ev is None:
        raise Missing(EV)

    def payload(prefix, adt, vi):
        v = F.adts[adt]['variants'][vi]
        return agg(adt, vi, [sym(f'{prefix}.{v["name"]}.{j}') for j in range(len(v['fields']))])
    for i, v in enumerate(ev['variants']):
        if v['name'] in ('Start', 'End'):
            sub = TAG if v['name'] == 'Start' else END
            for j, w in enumerate(F.adts[sub]['variants']):
                p = payload('t', sub, j)
                if w['name'] == 'CodeBlock' and sub == TAG:
                    ck = 'pulldown_cmark::CodeBlockKind'
                    for k, c in enumerate(F.adts[ck]['variants']):
                        q = agg(sub, j, [payload('t', ck, k)])
                        out.append(Script(f'{v["name"]}({w["name"]}/{c["name"]})', agg(EV, i, [q])))
                    continue
                out.append(Script(f'{v["name"]}({w["name"]})', agg(EV, i, [p])))
        else:
            out.append(Script(v['name'], agg(EV, i, [sym(f'e.{v["name"]}.{j}') for j in range(len(v['fields']))])))
    return out


S = sym('S')
NX = sym('NX')
RANGE = sym('R')


class StepMon(Monitor):
    """mon: ('step', phase, log...)"""
    stacks = ('indentation', 'nested_context', 'writers')
    subst_eq = True        # a text found equal to a constant is that constant from then on

    def __init__(self, F, script):
        self.F, self.script = F, script
        self.fi, _ = state_fields(F)
        self.adt = state_adt(F)
        self.localnames = re.compile('(?<![:\\w])(' + '|'.join(sorted(re.escape(k) for k, a in F.adts.items() if a.get('local'))) + r')\b')
        self.ends = []
        self.sinks = set()
        self.opaque = set()
        self.entry = None

    # ---- hooks for rules
    def on_sink(self, eng, cx, st, fr, args, site):
        pass

    def on_call(self, eng, cx, st, fr, args, site):
        return None

    def on_push(self, st, root, path, val):
        pass

    def inline(self, eng, g):
        """code that can touch the formatting state or the indentation carried by a writer; std's
        generic helpers and closures are always followed"""
        if g['closure'] or not g['local']:
            return True
        tys = [self.F.tyname(l['ty']) for l in g['locals'][1:g['argc'] + 1]]
        r = any(HOLDS.search(t) for t in tys)
        if not r:
            self.opaque.add(g['path'])
        return r

    def skel(self, mem):
        out = []
        adt = self.adt
        for r, v in mem.items():
            w = v.a[0] if v.op == 'upd' else v
            if r == ('ev', 'init') or (v.op in ('agg', 'upd') and w.op == 'agg' and w.a[0] == adt):
                out.append((r,) + tuple(field(v, (None, self.fi[k])) for k in self.stacks))
            elif v.op == 's' and r[0] == 'l' and len(v.a[0]) <= 4:
                out.append((r, v))
        return frozenset(out) | skel(mem)

    def materialise(self, eng, st, root, path):
        """[(state, nonempty?)] with the stack's top made explicit"""
        v = eng.read(st.mem, root, path)
        if v.op == 'vec':
            return [(st, True)]
        if v.op == 'vec0':
            return [(st, False)]
        if v is T:
            return None
        a, b = st.copy(), st.copy()
        eng.subst(a, v, vec(mk('vrest', v), (mk('vtop', v),)))
        eng.subst(b, v, VEC0)
        return [(a, True), (b, False)]

    def loc(self, eng, v):
        return eng.deref_loc(v)

    def call(self, eng, cx, st, fr, args, site):
        F = self.F
        r = self.on_call(eng, cx, st, fr, args, site)
        if r is not None:
            return r
        n = fr.get('name', '')
        p = fr.get('res') or fr['fn']
        full = fr.get('full', '')
        rk = fr.get('rkrate') or fr.get('krate')
        if rk in ('tracing', 'tracing_core', 'log'):
            return self.tracing(eng, st, fr, args, site)
        # the event source
        if args and n in ('next', 'peek') and 'Peekable' in full and 'ListEndAtLastItem' in full.split('as std::iter')[0] + full:
            root, path = eng.deref_loc(args[0])
            if n == 'peek':
                a, b = st.copy(), st.copy()
                return [('ret', some(ref(('ev', 'nx'), ())), a), ('ret', NONE, b)]
            if st.mon[0] == 'wait':
                st.mon = ('go',) + st.mon[1:]
                return [('ret', some(agg('()', 0, (self.script.term, RANGE))), st)]
            self.snapshot(eng, st, root, path)
            return []
        # sinks on the state
        if sink(F, fr) and args and self.is_state_ref(eng, st, args[0], fr):
            self.sinks.add(site)
            self.on_sink(eng, cx, st, fr, args, site)
            return [('ret', ok(), st)]
        # stacks
        if p == 'std::vec::Vec::<T>::new' or p == 'std::vec::Vec::<T>::with_capacity':
            return [('ret', VEC0, st)]
        if n == 'default' and VEC.match(full.split(' as ')[0].lstrip('<')):
            return [('ret', VEC0, st)]
        if p in ('std::mem::take', 'core::mem::take') and '::<std::vec::Vec<' in full:
            root, path = eng.deref_loc(args[0])
            old = eng.read(st.mem, root, path)
            eng.write(st.mem, root, path, VEC0)
            return [('ret', old, st)]
        if p == 'std::vec::Vec::<T, A>::push':
            root, path = eng.deref_loc(args[0])
            old = eng.read(st.mem, root, path)
            x = flat(st, args[1], eng) if args[1].op in ('app', 's') else args[1]
            eng.write(st.mem, root, path, T if old is T else vec(VEC0 if old.op == 'vec0' else old, (x,)))
            self.on_push(st, root, path, x)
            return [('ret', UNIT, st)]
        if p == 'std::vec::Vec::<T, A>::pop':
            root, path = eng.deref_loc(args[0])
            ms = self.materialise(eng, st, root, path)
            if ms is None:
                return [('ret', eng.fresh(st, ('r', site)), st)]
            out = []
            for s, non in ms:
                r2, p2 = eng.deref_loc(args[0])
                if not non:
                    out.append(('ret', NONE, s))
                    continue
                v = eng.read(s.mem, r2, p2)
                eng.write(s.mem, r2, p2, vec(v.a[0], v.a[1][:-1]))
                out.append(('ret', some(v.a[1][-1]), s))
            return out
        if n in ('deref', 'deref_mut', 'as_slice', 'as_mut_slice', 'as_ref', 'as_mut') and args and \
                p in ('<std::vec::Vec<T, A> as std::ops::Deref>::deref', '<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut',
                      'std::vec::Vec::<T, A>::as_slice', 'std::vec::Vec::<T, A>::as_mut_slice'):
            return [('ret', args[0], st)]
        if p in ('core::slice::<impl [T]>::last_mut', 'core::slice::<impl [T]>::last'):
            root, path = eng.deref_loc(args[0])
            ms = self.materialise(eng, st, root, path)
            if ms is None:
                return [('ret', eng.fresh(st, ('r', site)), st)]
            return [('ret', some(ref(root, path + (('vl', 0),), n == 'last_mut')) if non else NONE, s) for s, non in ms]
        if n == 'is_empty' and len(args) == 1 and p == 'std::vec::Vec::<T, A>::is_empty':
            root, path = eng.deref_loc(args[0])
            v = eng.read(st.mem, root, path)
            if v.op in ('vec', 'vec0'):
                return [('ret', TRUE if v.op == 'vec0' else FALSE, st)]
        # text comparison with a constant: remember what a true result means
        if self.subst_eq and n in ('eq', 'ne') and len(args) == 2 and rk in STD:
            a, b = self.text(st, args[0], eng), self.text(st, args[1], eng)
            if b.op != 's':
                a, b = b, a
            if b.op == 's' and a is not T and a.op not in ('c', 'agg'):
                if a.op == 's':
                    return [('ret', mk('c', (a is b) == (n == 'eq')), st)]
                y, no = st.copy(), st.copy()
                eng.subst(y, a, b)
                return [('ret', mk('c', n == 'eq'), y), ('ret', mk('c', n == 'ne'), no)]
        if not (n in ('into', 'from') and self.localnames.search(full)):
            r = identity_model(eng, st, fr, args)
            if r is not None:
                return [(x[0], cstr(plain(x[1]).a[0]), *x[2:]) if x[0] == 'ret' and x[1].op == 'app' and plain(x[1]).op == 's' else x for x in r]
        return self.on_other(eng, cx, st, fr, args, site)

    def on_other(self, eng, cx, st, fr, args, site):
        if fr.get('name') in INTERNAL and (fr.get('rkrate') or fr.get('krate')) in STD and fr.get('trait', '').split('<')[0].endswith('Iterator'):
            return internal(eng, cx, st, fr, args, site, lambda s: [(eng.fresh(s, ('i', site)), s), (None, s.copy())])
        return None

    def text(self, st, v, eng):
        """the text behind references and owned/borrowed conversions"""
        for _ in range(6):
            w = flat(st, v, eng)
            if w.op == 'agg' and len(w.a[2]) == 1 and not isinstance(w.a[0], tuple) and w.a[0] in ('std::borrow::Cow',):
                w = w.a[2][0]
            if w is v:
                return v
            v = w
        return v

    def tracing(self, eng, st, fr, args, site):
        return None

    def is_state_ref(self, eng, st, v, fr):
        """is the receiver the formatting state?"""
        s = (fr.get('self') or '') + ' ' + fr.get('full', '')
        return 'FormatState<' in s.split(' as ')[0]

    def snapshot(self, eng, st, root, path):
        """the loop asks for the following event"""
        base = path[:-1]
        cur = {}
        for k, i in self.fi.items():
            cur[k] = eng.read(st.mem, root, base + ((None, i),))
        init = {k: eng.read(st.mem, ('ev', 'init'), ((None, i),)) for k, i in self.fi.items()}
        self.ends.append((init, cur, st.mon, st))


def run_step(F, script, mon, cap=40, loopcap=12, budget=600000, init_mon=(), stacks=None, before=None):
    """`stacks`: stack terms at the start of the step; `before`: stack terms to compare with (ghost)"""
    f = loop_fn(F)
    e = Engine(F, mon, cap=cap, loopcap=loopcap, budget=budget)
    fi, v = state_fields(F)
    vals = [(stacks or {}).get(n, sym('S.' + n)) for n in v['fields']]
    bef = [(before or stacks or {}).get(n, sym('S.' + n)) for n in v['fields']]
    init = agg('state', 0, bef)
    adt = state_adt(F)
    val = agg(adt, 0, vals)
    mem = {('ev', 'init'): init, ('ev', 'nx'): NX}
    ins = set()
    for x in vals + bef:
        ins |= x.syms
    ins |= script.term.syms | NX.syms | RANGE.syms
    outs = e.run(f, [val], mem, ('wait',) + tuple(init_mon), 1, frozenset(ins))
    return e, outs


def items(v):
    """(base, [items]) of a stack term, materialised tops folded back when they are untouched"""
    if v.op == 'vec0':
        return v, []
    if v.op != 'vec':
        return v, []
    return v.a[0], list(v.a[1])


def plain(v):
    """a stack element without variant knowledge and owned/borrowed conversions"""
    v = bare(v)
    for _ in range(8):
        if v.op == 'app' and v.a[0] == 'id':
            v = v.a[1]
        elif v.op == 'agg' and v.a[0] == 'std::borrow::Cow':
            v = v.a[2][0]
        else:
            break
    return v


def pool(fn, tasks, procs=8):
    """run fn over tasks in forked workers, results in order"""
    import multiprocessing as mp
    if procs == 1:
        return [fn(t) for t in tasks]
    with mp.get_context('fork').Pool(procs) as p:
        return p.map(fn, tasks, chunksize=1)


# ------------------------------------------------------------------ what a step writes
PFX = sym('pfx')       # some entry of the line prefix
LD = sym('ld')         # some recovered link reference definition
WS, DEFS = 'ws', 'defs'


STATEMUT = re.compile(r"&('\w+ )?mut [^&]*FormatState<")
CONSUME = {'last', 'count', 'all', 'any', 'position', 'rposition', 'find', 'rfind', 'sum', 'max', 'min', 'fold', 'nth'}
STATEREF = re.compile(r"^&('\w+ )?mut .*FormatState<")
LAZY = {'take_while', 'skip_while', 'filter', 'rev', 'take', 'skip'}
WRAP = ('enumerate', 'peekable', 'fuse', 'by_ref', 'into_iter', 'iter')
PEEK = sym('peeked')


class TraceMon(StepMon):
    """records the text a step writes: a tuple of
         str                      literal text
         term                     a value written (usually a slice of the input)
         ('ws', newlines, prefix) line ends and line prefixes (newlines 0..2, prefix seen?); with
                                  `coarse` every run of these and of definitions is one ('gap',)
         ('defs',)                recovered link reference definitions
         ('each', kind, X, cur, bodies)  a loop over the characters/lines of X: what its iterations
                                  write; cur is None once the loop ran to its end
    """
    maxlen = 14
    coarse = True
    marks = False

    def __init__(self, F, script):
        super().__init__(F, script)
        self.bodies = {}       # (kind, X) -> what the iterations of loops over X write
        self.assume = None     # truth values of text predicates (term -> True | False | None)
        self.more = False      # peeking into the pieces of a text always finds another one
        self.follow_preds = False
        self.peeked = False    # was the end of a text's pieces looked for by peeking?
        self.splitters = set() # local iterators over text that the trace relies on
        self.stripped = set()  # local functions taken to remove line prefixes only
        self.subst_eq = False
        self.remember = None   # keeps paths apart that know different things: (term, value) -> bool

    def facts(self, st):
        return self.remember and frozenset(x for x in st.subs if self.remember(*x))

    def skel(self, mem):
        """options are not merged across variants, nor texts with different origins"""
        return super().skel(mem) | frozenset((r, v.a[1] if v.op == 'agg' else v) for r, v in mem.items()
                                             if v.op == 'agg' and v.a[0] == OPT or v.op == 'app' and known(v))

    # ---- texts under construction
    def texts_of(self, eng, st, v, fmt):
        """what appending v appends: list of str | term"""
        if fmt:
            ps = pieces(st, v, eng)
            return [T] if ps is None else ps
        w = self.text(st, v, eng)
        if w.op == 'ref':
            w = self.text(st, eng.content(st, w), eng)
        w = noid(plain(w))
        return [w.a[0] if w.op == 's' else w]

    def entries(self, x):
        """x as entries of a trace: str | term"""
        if isinstance(x, str):
            return [x] if x else []
        x = noid(plain(x))
        if x.op == 's':
            x = x.a[0]
        elif x.op == 'c' and isinstance(x.a[0], int):
            x = chr(x.a[0])
        elif x.op == 'c' and isinstance(x.a[0], str):
            x = x.a[0]
        if x == '':
            return []
        if type(x) is N and x.op == 'app' and x.a[0] == 'num' and x.a[1].op == 'c':
            return [str(int(x.a[1].a[0]))]
        if type(x) is N and x.op == 'app' and x.a[0] == TEXT:
            tr = dec(x.a[2:])
            return [T] if tr and is_open(tr[-1]) else list(tr)
        return [x]

    def append(self, st, v, xs, site):
        """the value of a text v with xs appended"""
        b = noid(bare(v))
        if b.op == 'app' and b.a[0] == TEXT:
            name, tr = b.a[1], dec(b.a[2:])
        elif known(b) or b.op == 's':
            name, tr = cstr(str(site)), tuple(self.entries(b))
        else:
            return T
        for x in xs:
            for y in self.entries(x):
                if type(y) is N and y.op == 'pop' and last(tr) is y:
                    continue
                if isinstance(y, tuple) and y[0] != 'each':
                    y = {'gap': '\n'}.get(y[0], '\n' * max(1, y[1] if len(y) > 1 else 1))
                tr = extend(tr, y if isinstance(y, (str, tuple)) or known(y) or y.op == 'pop' else T, self.coarse, self.maxlen)
        return mk('app', TEXT, name, *enc(tr))

    def string_call(self, eng, cx, st, fr, args, site):
        """owned strings: what has been appended to them"""
        n = fr.get('name', '')
        p = fr.get('res') or fr['fn']
        full = fr.get('full', '')
        rk = fr.get('rkrate') or fr.get('krate')
        if rk not in STD:
            return None
        if p in ('std::fmt::format', 'alloc::fmt::format') and len(args) == 1:
            ps = pieces(st, args[0], eng)
            if ps is None:
                return [('ret', T, st)]
            return [('ret', self.append(st, cstr(''), ps, site), st)]
        if p in (STR + '::new', STR + '::with_capacity') or n == 'default' and full.startswith(f'<{STR} as'):
            return [('ret', mk('app', TEXT, cstr(str(site))), st)]
        if n == 'default' and not args and full.startswith('<&') and ' as ' in full and re.search(r"^<&('\w+ )?str as", full):
            return [('ret', cstr(''), st)]
        if n == 'concat' and len(args) == 1:
            v = flat(st, args[0], eng)
            if v.op == 'ref':
                v = flat(st, eng.content(st, v), eng)
            if v.op == 'agg' and v.a[0] == '[]':
                xs = [x for a in v.a[2] for x in self.texts_of(eng, st, a, False)]
                return [('ret', self.append(st, cstr(''), xs, site), st)]
        if not args or not (p.startswith(STR + '::') or full.startswith(f'<{STR} as') or 'std::borrow::Cow<' in full and n == 'add_assign'):
            if p in ('std::mem::take', 'core::mem::take') and f'<{STR}>' in full:
                root, path = eng.deref_loc(args[0])
                old = eng.read(st.mem, root, path)
                eng.write(st.mem, root, path, mk('app', TEXT, cstr(str(site))))
                return [('ret', old, st)]
            return None
        if args[0].op != 'ref' or n not in MUTATE:
            return None
        root, path = self.place(eng, st, args[0])
        old = eng.read(st.mem, root, path)
        if n in APPEND:
            xs = self.texts_of(eng, st, args[-1], n.endswith('fmt'))
        elif n == 'extend':
            it = noid(self.iterator(eng, st, args[-1], False))
            k = iterated(it, self)
            xs = [T]
            if k is not None:
                r = self.single(eng, cx, st, it, site)
                xs = [T if r is None else joined_up(k, r, cstr(''))]
        elif n == 'clear':
            eng.write(st.mem, root, path, mk('app', TEXT, cstr(str(site))))
            return [('ret', UNIT, st)]
        elif n == 'pop':
            b = noid(bare(old))
            tr = dec(b.a[2:]) if b.op == 'app' and b.a[0] == TEXT else ()
            if tr and isinstance(tr[-1], str):
                c, tr = tr[-1][-1], tr[:-1] + ((tr[-1][:-1],) if len(tr[-1]) > 1 else ())
                eng.write(st.mem, root, path, mk('app', TEXT, b.a[1], *enc(tr)))
                return [('ret', some(mk('c', c)), st)]
            xs = [mk('pop', self.reason(eng, st, old))]
        elif n == 'truncate':
            xs = [mk('pop', self.cut(eng, st, noid(bare(old)), noid(flat(st, args[1], eng))))]
        else:
            xs = [T]
        eng.write(st.mem, root, path, self.append(st, old, xs, site))
        if n == 'pop':
            return [('ret', eng.fresh(st, ('r', site)), st)]
        if n in ('write_str', 'write_char', 'write_fmt'):
            return [('ret', ok(), st)]
        return [('ret', UNIT, st)] if n not in ('drain', 'remove', 'split_off') else [('ret', T, st)]

    def place(self, eng, st, a):
        root, path = eng.deref_loc(a)
        for _ in range(4):
            v = eng.read(st.mem, root, path)
            if v.op != 'ref':
                break
            root, path = v.a[0], v.a[1]
        return root, path

    def reason(self, eng, st, v):
        return '?'

    def cut(self, eng, st, v, k):
        return '?'

    def single(self, eng, cx, st, it, site):
        return None

    def asks(self, eng, cx, st, fr, args):
        """what is known about a text under construction"""
        n = fr.get('name', '')
        if n in ('ends_with', 'is_empty') and args and (fr.get('rkrate') or fr.get('krate')) in STD:
            v = noid(flat(st, args[0], eng))
            v = noid(bare(v))
            if v.op == 'app' and v.a[0] == TEXT:
                tr = dec(v.a[2:])
                if n == 'is_empty' and (not tr or any(isinstance(x, str) for x in tr) and not any(type(x) is N and x.op == 'pop' for x in tr)):
                    return [('ret', mk('c', not tr), st)]
                if n == 'is_empty':
                    return [('ret', mk('app', n, v), st)]
                end = tr[-1] if tr else ''
                pat = noid(flat(st, args[1], eng))
                pat = pat.a[0] if pat.op == 's' or pat.op == 'c' and isinstance(pat.a[0], str) else None
                if isinstance(end, str) and pat:
                    if end.endswith(pat):
                        return [('ret', TRUE, st)]
                    if not pat.endswith(end) or not tr:
                        return [('ret', FALSE, st)]
        return None

    def advance(self, st, kind, X, more, first=False):
        """a loop over the parts of X asks for its next element"""
        st.mon = (st.mon[0], turn(st.mon[1], kind, X, more, self.bodies)) + st.mon[2:]

        def step(v):
            tr = turn(dec(v.a[2:]), kind + '\u00a7' + v.a[1].a[0], X, more, self.bodies)
            if more and self.marks:
                tr = add(tr, FIRST if first else LATER, self.coarse)
            return mk('app', TEXT, v.a[1], *enc(tr))
        self.in_texts(st, step)

    def mark(self, st, x):
        """an entry in every text the iterations of a loop write to"""
        self.put(st, x)

        def step(v):
            tr = dec(v.a[2:])
            return mk('app', TEXT, v.a[1], *enc(add(tr, x, self.coarse))) if tr and is_open(tr[-1]) else v
        self.in_texts(st, step)

    def in_texts(self, st, one):
        """replace every text under construction"""
        def step(v):
            if v.op == 'app' and v.a[0] == TEXT:
                return one(v)
            if not has_text(v):
                return v
            a = tuple(step(x) if type(x) is N else tuple(step(y) if type(y) is N else tuple(step(z) if type(z) is N else z for z in y) if type(y) is tuple else y for y in x)
                      if type(x) is tuple else x for x in v.a)
            return rebuild(v.op, a)
        for r, v in list(st.mem.items()):
            if has_text(v):
                st.mem[r] = step(v)
        st._k = None

    def on_call(self, eng, cx, st, fr, args, site):
        fid = fr.get('id')
        F = self.F
        if fid is None or F.fns[fid].get('foreign'):
            r = self.asks(eng, cx, st, fr, args) or self.string_call(eng, cx, st, fr, args, site)
            if r is not None:
                return r
        if fid is not None and not F.fns[fid].get('foreign'):
            g = F.fns[fid]
            if g['closure']:
                return None
            if args and any(fid == nx for _, nx in splitters(F).values()):
                it = self.iterator(eng, st, args[0], True)
                if iterated(it, self) is not None:
                    r = self.nexts(eng, cx, st, it, fr.get('full', ''), site, self.repeated(eng, cx))
                    return [('ret', NONE if x is None else some(x), s) for x, s in r]
            ls = [l['ty'] for l in g['locals'][1:g['argc'] + 1]]
            tys = [F.tyname(t) for t in ls]
            if len(args) > 1 and LD in args[0].syms | flat(st, args[0], eng).syms and any(STATEREF.search(t) for t in tys[1:]):
                # a recovered definition writes itself
                self.put(st, LD)
                return [('ret', ok(), st)]
            at = [i for i, t in enumerate(tys) if t.startswith('&') and 'FormatState<' in t]
            if len(at) == 1 and not sink(F, fr):
                i = at[0]
                ret = F.ty(g['locals'][0]['ty'])
                rt = F.tyname(g['locals'][0]['ty'])
                muts = [F.ty(t).get('k') == 'ref' and F.ty(t).get('mut') for t in ls]
                if not any(muts):
                    if self.follow_preds and rt == 'bool' and not looping(eng, g):
                        return None
                    if rt in ('bool', 'usize') or 'Option<' in rt and 'str' not in rt:
                        return [('ret', eng.fresh(st, ('r', site)), st)]
                    if rt.endswith('str') and len(args) == 2 and tys[1].endswith('str') and looping(eng, g):
                        v = noid(flat(st, args[1], eng))
                        if v is not T:
                            self.stripped.add(g['id'])
                            return [('ret', mk('app', 'strip', v), st)]
                elif muts[i] and sum(bool(m) for m in muts) == 1 and not (F.tyname(ls[i]).startswith('&') and self.deep(eng, st, args[i])):
                    ch = self.summary(eng, g, i)
                    if ch is not None:
                        fields, gap = ch
                        root, path = eng.deref_loc(args[i])
                        for k in fields:
                            eng.write(st.mem, root, path + ((None, self.fi[k]),), T)
                        outs = [st]
                        if gap:
                            o = st.copy()
                            self.put(o, PFX)
                            outs.append(o)
                        r = ok() if rt.startswith('std::result::Result<(), std::fmt::Error') else None
                        return [('ret', r if r is not None else eng.fresh(o, ('r', site)), o) for o in outs]
        return None

    def deep(self, eng, st, a):
        root, path = eng.deref_loc(a)
        return eng.read(st.mem, root, path).op == 'ref'

    def summary(self, eng, g, at):
        """(state fields that may change, may line ends/prefixes/definitions be written?) of a helper
        that writes nothing else and leaves the stacks alone, on every state; None otherwise"""
        F = self.F
        key = (g['id'], at, type(self), self.coarse)
        if key in SUMM:
            return SUMM[key]
        SUMM[key] = None
        m = type(self)(F, self.script)
        m.isolated = True
        e = Engine(F, m, cap=3, loopcap=3, budget=4000)
        vals = [sym('S.' + n) for n in F.adts[self.adt]['variants'][0]['fields']]
        mem = {('ev', 'st'): agg(self.adt, 0, vals), ('ev', 'nx'): NX}
        args = [ref(('ev', 'st'), (), True) if i == at else sym(f'A.{i}') for i in range(g['argc'])]
        ins = NX.syms
        for x in vals + args:
            ins |= x.syms
        try:
            outs = e.run(g, args, mem, ('go', ()), 1, frozenset(ins))
        except (Budget, RecursionError):
            return None
        if m.ends:
            return None
        ch, gap = set(), False
        for o in outs:
            if not self.coarse and o.mon[1] != () or o.mon[1] not in ((), (('gap',),)):
                return None
            gap |= o.mon[1] != ()
            v = e.read(o.mem, ('ev', 'st'), ())
            for n, i in self.fi.items():
                x, y = field(v, (None, i)), sym('S.' + n)
                if n in self.stacks:
                    if same_stack(x, y, o.subs):
                        continue
                    return None
                if norm(x) is not y:
                    ch.add(n)
        SUMM[key] = (frozenset(ch), gap)
        return SUMM[key]

    def on_other(self, eng, cx, st, fr, args, site):
        full = fr.get('full', '')
        n = fr.get('name', '')
        r = fmt_model(eng, st, fr, args)
        if r is not None:
            return r
        if len(args) == 1 and 'CowStr<' in full.split(' as ')[0] and (n in TRANSPARENT or n == 'deref'):
            v = flat(st, args[0], eng)
            if v.op == 'agg' and v.a[0].endswith('option::Option'):
                return [('ret', agg(v.a[0], v.a[1], [mk('app', 'id', x) for x in v.a[2]]), st)]
            if v is not T:
                return [('ret', mk('app', 'id', v), st)]
        tr = fr.get('trait', '').split('<')[0]
        std = (fr.get('rkrate') or fr.get('krate')) in STD
        if n == 'next' and tr.endswith('Iterator') and (std or (fr.get('rkrate') or fr.get('krate')) == 'itertools') or n == 'peek' and args and std:
            it = self.iterator(eng, st, args[0], True)
            if n == 'peek':
                if iterated(it, self) is not None:
                    self.peeked = True
                    st.mem[('ev', 'peek')] = PEEK
                    y = ('ret', some(ref(('ev', 'peek'), ())), st)
                    return [y] if self.more else [y, ('ret', NONE, st.copy())]
            else:
                r = self.nexts(eng, cx, st, it, full, site, self.repeated(eng, cx))
                if r is not None:
                    return [('ret', NONE if x is None else some(x), s) for x, s in r]
        if args and std and (tr.endswith('Iterator') or n in ('into_iter', 'iter', 'by_ref', 'deref', 'as_slice')):
            it = self.iterator(eng, st, args[0], args[0].op == 'ref' and n not in ('map',))
            if n in WRAP or n in ('copied', 'cloned', 'map', 'deref', 'as_slice'):
                k = iterated(it, self)
                if k is not None:
                    if n in ('into_iter', 'by_ref', 'deref', 'as_slice'):
                        return [('ret', it, st)]
                    if n == 'map':
                        if eng.closure_of(st, args[1]) is None:
                            return None
                        return [('ret', mk('app', 'it:map', it, args[1]), st)]
                    if n == 'iter':
                        return [('ret', mk('app', 'it:ref', it), st)]
                    return [('ret', mk('app', 'it:' + n, it), st)]
            if n == 'collect' and iterated(it, self) is not None and re.search(r'collect::<(std|alloc)::vec::Vec<', full):
                return [('ret', mk('app', 'it:seq', it), st)]
            if n in INTERNAL:
                def step(s):
                    r = self.nexts(eng, cx, s, it, full, site, True)
                    if r is None:
                        r = [(eng.fresh(s, ('i', site)), s), (None, s.copy())]
                    return r
                r = internal(eng, cx, st, fr, args, site, step)
                if r is not None:
                    return r
        if n == 'next_back' and std and tr.endswith('DoubleEndedIterator') and args:
            it = self.iterator(eng, st, args[0], True)
            if it.op == 'app' and it.a[0] in ('chars', 'bytes') and len(it.a) == 2 and known(it):
                root, path = eng.deref_loc(args[0])
                eng.write(st.mem, root, path, T)
                return [('ret', mk('app', 'last', noid(it)), st)]
        if tr.endswith('Iterator') and n in LAZY and std:
            vals = [self.whole(eng, st, a) for a in args]
            if all(known(v) for v in vals):
                return [('ret', mk('app', n, *vals), st)]
        if tr.endswith('Iterator') and n in CONSUME and not any(STATEMUT.search(self.F.tyname(t)) for t in self.captured(eng, st, args)):
            vals = [self.whole(eng, st, a) for a in args]
            if args[0].op == 'ref' and args[0].a[2]:
                root, path = eng.deref_loc(args[0])
                eng.write(st.mem, root, path, T)
            if all(known(v) for v in vals):
                return [('ret', mk('app', n, *vals), st)]
            return [('ret', eng.fresh(st, ('r', site)), st)]
        return self.pure(eng, cx, st, fr, args, site)

    def iterator(self, eng, st, v, through):
        it = flat(st, v, eng)
        if through and v.op == 'ref':
            it = flat(st, eng.content(st, v), eng)
        return it

    def nexts(self, eng, cx, st, it, full, site, repeated):
        """[(element or None, state)] of asking a known iterator for its next element; None: unknown iterator"""
        if 'slice::Iter<' in full and 'Cow<' in full:
            self_ = full[1:].split(' as std::iter')[0]
            if re.fullmatch(r"(std::iter::(Enumerate|Take|Skip|Rev|Peekable|Copied|Cloned|Fuse)<)*std::slice::Iter<'_, std::borrow::Cow<'_, str>>+", self_):
                x = agg('()', 0, (eng.fresh(st, ('i', site)), PFX)) if 'Enumerate<' in self_ else PFX
                return [(x, st), (None, st.copy())]
        if 'LinkReferenceDefinition' in full:
            of = full[1:].split(' as ')[0]
            if re.search(r'(IntoIter|Drain)<', of):
                return [(LD, st), (None, st.copy())]
            if re.fullmatch(r"(&mut )?(std::iter::(Rev|Fuse|Peekable)<)*std::slice::Iter(Mut)?<'_, [\w:]*LinkReferenceDefinition<'_>>+", of):
                y = st.copy()
                y.mem[('ev', 'ld')] = LD
                y._k = None
                return [(ref(('ev', 'ld'), (), 'IterMut' in of), y), (None, st)]
        k = iterated(it, self)
        if k is None:
            return None
        kind, X, wraps = k
        if not repeated:
            y = st.copy()
            base = it
            while base.op == 'app' and base.a[0] in ('it:map', 'it:enumerate', 'it:ref'):
                base = base.a[1]
            elem, no = mk('app', 'first', base), st
            no.subs += ((mk('app', 'ended', base), TRUE),)
        else:
            elem = mk('app', kind + 'of', X)
            y, no = st, st.copy()
            first = not ongoing(st.mon[1], kind, X)
            y.mem = {r: (v if r[0] != '*' or elem.syms - r[1].syms or not mentions(r[1], elem) else v) for r, v in y.mem.items()}
            y.subs = tuple((a, b) for a, b in y.subs if not mentions(a, elem))
            self.advance(y, kind, X if known(X) else T, True, first)
            self.advance(no, kind, X if known(X) else T, False)
            self.turned(y, first)
        items = [(elem, y)]
        if kind == 'indexed':
            items = [(agg('()', 0, (eng.fresh(y, ('i', site)), elem)), y)]
        for d, w in enumerate(reversed(wraps)):
            out = []
            for x, s in items:
                if w[0] == 'enumerate':
                    out.append((agg('()', 0, (self.index(eng, s, ('i', site, d), repeated and first), x)), s))
                elif w[0] == 'ref':
                    root = ('ev', 'item', site, d)
                    s.mem[root] = x
                    s._k = None
                    out.append((ref(root, ()), s))
                elif w[0] in ('copied', 'cloned'):
                    out.append((flat(s, eng.content(s, x) if x.op == 'ref' else x, eng), s))
                elif w[0] == 'map':
                    c = eng.closure_of(s, w[1])
                    if c is None:
                        return None
                    a0 = eng.closure_self(s, c[0], c[1], w[1], (site, d))
                    for kind_, r, s2 in eng.call_local(cx, c[0], [a0, x], s, (site, 'map', d)):
                        if kind_ == 'ret':
                            out.append((r, s2))
                else:
                    out += self.wrapped(eng, s, w, x, (site, d))
            items = out
        return items + [(None, no)]

    # ---- refinements by rules
    def kinds(self, v):
        """(kind, X) of further iterators over the parts of a value X"""
        return None

    def turned(self, st, first):
        pass

    def index(self, eng, st, name, first):
        return eng.fresh(st, name)

    def wrapped(self, eng, st, w, x, site):
        return [(x, st)]

    def whole(self, eng, st, v, d=0):
        """the value with references replaced by what they refer to, closures by their code"""
        v = noid(flat(st, v, eng))
        if d > 6:
            return T
        if v.op == 'ref':
            return self.whole(eng, st, eng.content(st, v), d + 1)
        if v.op == 'agg':
            k = v.a[0]
            if isinstance(k, tuple) and k[0] == 'cl' and not isinstance(k[1], str):
                k = ('cl', body_hash(self.F, k[1]))
            return mk('agg', k, v.a[1], tuple(self.whole(eng, st, x, d) for x in v.a[2]))
        if v.op == 'app':
            return mk('app', v.a[0], *[self.whole(eng, st, x, d) if type(x) is N else x for x in v.a[1:]])
        return v

    def captured(self, eng, st, args):
        """types captured by closures among the arguments"""
        cls = []
        for a in args:
            eng._closures(st, a, cls, set())
        out = []
        for g, _ in cls:
            out += [l['ty'] for l in g['locals'][1:g['argc'] + 1]]
            t = self.F.ty(g['locals'][1]['ty'])
            if t.get('k') == 'ref':
                t = self.F.ty(t['t'])
            out += t.get('args', [])
        return out

    def repeated(self, eng, cx):
        """is this call site in a loop (other than the event loop)?"""
        f, bi = cx
        return bi in loop_blocks(eng, f, self)

    def pure(self, eng, cx, st, fr, args, site):
        """std text functions and opaque local functions without mutable arguments are functions of their arguments"""
        F = self.F
        fid = fr.get('id')
        if fid is not None and not F.fns[fid].get('foreign'):
            g = F.fns[fid]
            if g['closure'] or self.inline(eng, g):
                return None
            tys = [F.ty(l['ty']) for l in g['locals'][1:g['argc'] + 1]]
            if any(t.get('k') == 'ref' and t.get('mut') for t in tys):
                return None
            name = g['path']
        else:
            if (fr.get('rkrate') or fr.get('krate')) not in STD:
                return None
            p = fr.get('res') or fr['fn']
            if not PURE.search(p):
                return None
            name = short_name(p)
        vals = [noid(flat(st, a, eng)) for a in args]
        if any(v is T or v.op == 'ref' for v in vals):
            return None
        if len(vals) == 1 and vals[0].op == 's' and name in FOLD:
            return [('ret', FOLD[name](vals[0].a[0]), st)]
        if name in FOLD2 and len(vals) == 2 and vals[0].op == 's' and (vals[1].op == 's' or vals[1].op == 'c' and isinstance(vals[1].a[0], str)):
            return [('ret', mk('c', FOLD2[name](vals[0].a[0], vals[1].a[0])), st)]
        if name == 'repeat' and len(vals) == 2 and vals[0].op == 's' and vals[1].op == 'c' and int(vals[1].a[0]) < 64:
            return [('ret', cstr(vals[0].a[0] * int(vals[1].a[0])), st)]
        v = mk('app', name, *vals)
        if self.assume is not None:
            b = self.assume(v)
            if b is not None:
                return [('ret', mk('c', b), st)]
        return [('ret', v, st)]

    def on_sink(self, eng, cx, st, fr, args, site):
        v = args[-1]
        n = fr.get('name', '')
        if 'fmt' in n:
            ps = pieces(st, v, eng)
            if ps is None:
                ps = [T]
        else:
            w = self.text(st, v, eng)
            ps = [w.a[0] if w.op == 's' else w]
        for x in ps:
            for y in self.entries(x):
                self.put(st, y)

    def put(self, st, x):
        if type(x) is N and not known(x):
            x = T
        st.mon = (st.mon[0], extend(st.mon[1], x, self.coarse, self.maxlen)) + st.mon[2:]


STR = 'std::string::String'
TEXT = 'text'
APPEND = {'push_str', 'push', 'write_str', 'write_char', 'write_fmt', 'add_assign'}
MUTATE = APPEND | {'extend', 'clear', 'pop', 'truncate', 'insert', 'insert_str', 'remove', 'retain', 'drain', 'replace_range', 'split_off', 'make_ascii_lowercase'}
FIRST, LATER = mk('app', 'first'), mk('app', 'later')
_HT = {}


def has_text(v):
    """does a term contain a text under construction?"""
    r = _HT.get(v)
    if r is None:
        r = v.op == 'app' and v.a[0] == TEXT or any(has_text(y) for y in parts_of(v.a))
        _HT[v] = r
    return r


def parts_of(a):
    for x in a:
        if type(x) is N:
            yield x
        elif type(x) is tuple:
            yield from parts_of(x)


def extend(tr, x, coarse, maxlen):
    """tr with an entry appended"""
    if isinstance(x, tuple) and x and x[0] == 'each':
        tr = add_entry(tr, x)
    elif isinstance(x, tuple):
        tr = add(tr, '\n', coarse) if x[0] != DEFS else add(tr, LD, coarse)
    else:
        tr = add(tr, x, coarse)
    if len(tr) > maxlen or tr and isinstance(tr[-1], str) and len(tr[-1]) > 120:
        tr = tr[:maxlen] + (T,) if tr[-1] is not T else tr[:maxlen] + (T,)
    return tr


def add_entry(tr, x):
    if tr and is_open(tr[-1]):
        return tr[:-1] + (tr[-1][:3] + (add_entry(tr[-1][3], x),),)
    return tr + (x,)


def enc(tr):
    out = []
    for x in tr:
        if isinstance(x, str):
            out.append(cstr(x))
        elif type(x) is N:
            out.append(x)
        elif x[0] == 'each':
            out.append(mk('app', 'each', cstr(x[1]), x[2], cstr('closed')) if x[3] is None else mk('app', 'each', cstr(x[1]), x[2], cstr('open'), *enc(x[3])))
        else:
            out.append(mk('app', 'entry', *[cstr(y) if isinstance(y, str) else mk('c', y) for y in x]))
    return tuple(out)


def dec(a):
    out = []
    for x in a:
        if x.op == 's':
            out.append(x.a[0])
        elif x.op == 'app' and x.a[0] == 'each':
            out.append(('each', x.a[1].a[0], x.a[2], None if x.a[3].a[0] == 'closed' else dec(x.a[4:])))
        elif x.op == 'app' and x.a[0] == 'entry':
            out.append(tuple(int(y.a[0]) if y.a[0] is not True and y.a[0] is not False and not isinstance(y.a[0], str) else y.a[0] for y in x.a[1:]))
        else:
            out.append(x)
    return tuple(out)


def last(tr):
    while tr and is_open(tr[-1]):
        tr = tr[-1][3]
    return tr[-1] if tr else None


def joined_up(k, elem, sep):
    """the parts of X put together again"""
    kind, X = k[0], k[1]
    if sep is cstr('') and elem is mk('app', kind + 'of', X) and (kind == 'char' or kind.startswith('split_inclusive ')):
        return X
    return mk('app', 'joined', mk('app', 'over', cstr(kind), X), elem, sep)


def base_kind(k):
    return k.split('\u00a7')[0]


def tidy(tr, bodies):
    """without loops that write nothing; what follows a loop left early is not part of it"""
    out = ()
    for x in tr:
        if isinstance(x, tuple) and x and x[0] == 'each':
            bs = [tuple(y for y in b if y not in (FIRST, LATER)) for b in bodies.get((x[1], x[2]), ())]
            if not any(bs):
                if x[3] is not None:
                    out += tidy(tuple(y for y in x[3] if y not in (FIRST, LATER)), bodies)
                continue
            if x[3] is not None:
                x = x[:3] + (tidy(x[3], bodies),)
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out = out[:-1] + (out[-1] + x,)
            continue
        out += (x,)
    return out


FOLD = {'trim': lambda x: cstr(x.strip()), 'trim_end': lambda x: cstr(x.rstrip()), 'trim_start': lambda x: cstr(x.lstrip()),
        'is_empty': lambda x: mk('c', x == ''), 'len': lambda x: cint(len(x.encode()))}
FOLD2 = {'starts_with': str.startswith, 'ends_with': str.endswith, 'contains': str.__contains__}
SUMM = {}


def body_hash(F, fid):
    """the code of a function, up to source positions"""
    if fid is None:
        return None
    g = F.fns[fid]
    import hashlib, json

    def strip(x):
        if isinstance(x, dict):
            return {k: strip(v) for k, v in x.items() if k not in ('sp', 'span')}
        if isinstance(x, list):
            if len(x) == 4 and x[0] == '=':
                return [strip(y) for y in x[:3]]
            return [strip(y) for y in x]
        return x
    h = hashlib.sha1(json.dumps([strip(g['blocks']), [F.tyname(l['ty']) for l in g['locals'][2:]]], sort_keys=True).encode()).hexdigest()[:12]
    HASHED[h] = fid
    return h


HASHED = {}


def same_stack(x, y, subs):
    """is the stack x what it was (y), up to case distinctions on its contents?"""
    for _ in range(8):
        if norm(x) is y:
            return True
        n = y
        for old, new in subs:
            n = Subst(old, new)(n)
        if n is y:
            return False
        y = n
    return norm(x) is y


def loop_blocks(eng, f, mon):
    """blocks on a cycle that does not pass through the place where events are pulled"""
    c = eng.__dict__.setdefault('_loopblocks', {})
    if f['id'] in c:
        return c[f['id']]
    nb = len(f['blocks'])
    pull = set()
    if f['id'] == loop_fn(mon.F)['id']:
        for bi, t, fr in mon.F.calls(f):
            if fr and fr.get('name') == 'next' and 'Peekable' in fr.get('full', '') and 'ListEndAtLastItem' in fr.get('full', ''):
                pull.add(bi)
    succ = [[] for _ in range(nb)]
    for i, b in enumerate(f['blocks']):
        t = b['t']
        k = t['k']
        if i in pull:
            continue
        if k in ('goto', 'drop', 'assert'):
            succ[i].append(t['t'])
        elif k == 'switch':
            succ[i] += [x[1] for x in t['ts']] + [t['o']]
        elif k == 'call' and t['t'] is not None:
            succ[i].append(t['t'])
    res = set()
    for comp in sccs(succ):
        if len(comp) > 1 or comp[0] in succ[comp[0]]:
            res |= set(comp)
    c[f['id']] = res
    return res


def sccs(succ):
    """strongly connected components (iterative Tarjan)"""
    idx, low, on, stack, out, n = {}, {}, set(), [], [], 0
    for r in range(len(succ)):
        if r in idx:
            continue
        work = [(r, iter(succ[r]))]
        idx[r] = low[r] = n
        n += 1
        stack.append(r)
        on.add(r)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = n
                    n += 1
                    stack.append(w)
                    on.add(w)
                    work.append((w, iter(succ[w])))
                    break
                if w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    comp = []
                    while True:
                        w = stack.pop()
                        on.discard(w)
                        comp.append(w)
                        if w == v:
                            break
                    out.append(comp)
    return out


def looping(eng, g):
    return bool(eng.info(g)['heads']) or any(fr and fr.get('name') in INTERNAL for _, _, fr in eng.f.calls(g))


PURE = re.compile(r'^(core|std|alloc)::(str|char)::|<impl str>|<impl char>|traits::<impl std::ops::Index<I> for str>|^<str as |^<std::string::String as std::ops::Index|^std::string::String::is_empty$')


def short_name(p):
    if p.endswith('::index') and 'Index' in p:
        return 'index'
    return p.rsplit('::', 1)[-1] if '<impl str>' in p or '<impl char>' in p or p == 'std::string::String::is_empty' else p


def splitters(F):
    """local functions from one text to a local iterator over pieces of text: name -> (maker, next)"""
    if id(F) in _SPL:
        return _SPL[id(F)]
    out = {}
    nexts = {}
    for f in F.local:
        if f['name'] == 'next' and f['impl'] and str(f['impl'][1]).endswith('Iterator') and F.tyname(f['locals'][0]['ty']) in ("std::option::Option<&str>", "std::option::Option<&'_ str>"):
            nexts[f['impl'][0].split('<')[0]] = f['id']
    for f in F.local:
        if f['closure'] or f['argc'] != 1 or not F.tyname(f['locals'][1]['ty']).endswith('str'):
            continue
        t = F.tyname(f['locals'][0]['ty']).split('<')[0]
        if t in nexts:
            out[f['path']] = (f['id'], nexts[t])
    _SPL[id(F)] = out
    return out


_SPL = {}


def iterated(v, mon):
    """(kind, X, adaptors) of an iterator over the characters or lines of a text X"""
    wraps = []
    while v.op == 'app' and v.a[0].startswith('it:'):
        wraps.append((v.a[0][3:],) + v.a[2:])
        v = v.a[1]
    k = mon.kinds(v)
    if k is not None:
        return k + (wraps,)
    if v.op == 'app' and len(v.a) == 2:
        k = {'chars': 'char', 'lines': 'line', 'char_indices': 'indexed'}.get(v.a[0])
        if k is None and v.a[0] in splitters(mon.F):
            mon.splitters.add(v.a[0])
            k = 'line'
        if k:
            return k, v.a[1], wraps
    return None


def known(v):
    """built from the event, the state and the input only"""
    return v is not T and v.op != 'T' and all(isinstance(y.a[0], str) for y in v.syms) and not has_top(v)


def has_top(v):
    if v is T:
        return True
    for y in v.a:
        if type(y) is N and has_top(y) or type(y) is tuple and any(type(z) is N and has_top(z) for z in y):
            return True
    return False


def mentions(v, x):
    if v is x:
        return True
    for y in v.a:
        if type(y) is N and mentions(y, x):
            return True
        if type(y) is tuple and any(type(z) is N and mentions(z, x) for z in y):
            return True
    return False


def noid(v):
    """without owned/borrowed conversions anywhere"""
    while v.op == 'app' and v.a[0] == 'id':
        v = v.a[1]
    if v.op in ('sym', 'c', 's', 'b') or not v.a:
        return v
    out = tuple(noid(x) if type(x) is N else tuple(noid(y) if type(y) is N else y for y in x) if type(x) is tuple else x for x in v.a)
    return rebuild(v.op, out) if any(x is not y for x, y in zip(out, v.a)) else v


INTERNAL = {'for_each', 'try_for_each', 'fold', 'try_fold'}


def internal(eng, cx, st, fr, args, site, step):
    """for_each, fold and their fallible forms as loops; step(state) -> [(element or None, state)]"""
    n = fr['name']
    c = eng.closure_of(st, args[-1])
    if c is None:
        return None
    g, v = c
    F = eng.f
    rt = F.tyname(g['locals'][0]['ty'])
    tr = n.startswith('try_')
    if tr and not re.match(r'std::(result::Result|option::Option)<', rt):
        return None
    opt = rt.startswith('std::option::')
    fold = n.endswith('fold')
    out, done, work = [], {}, [(st, args[1] if fold else UNIT)]
    count = 0
    while work:
        s, acc = work.pop()
        for x, y in step(s):
            if x is None:
                r = acc
                if tr:
                    r = some(acc) if opt else agg('std::result::Result', 0, (acc,))
                out.append(('ret', r, y))
                continue
            a0 = eng.closure_self(y, g, v, args[-1], site)
            for kind, ret, s3 in eng.call_local(cx, g, [a0] + ([acc] if fold else []) + [x], y, (site, 'it')):
                if kind != 'ret':
                    out.append((kind, ret, s3))
                    continue
                a2 = ret if fold else UNIT
                if tr:
                    good = 1 if opt else 0
                    if ret.op == 'agg' and ret.a[1] != good:
                        out.append(('ret', ret, s3))
                        continue
                    if ret.op != 'agg':
                        bad = s3.copy()
                        out.append(('ret', eng.fresh(bad, ('r', site, 'x')) if ret is T else ret, bad))
                    a2 = ret.a[2][0] if ret.op == 'agg' else eng.fresh(s3, ('r', site, 'a')) if fold else UNIT
                k = (s3.key(), a2)
                if k in done:
                    continue
                if len(done) > eng.loopcap * 3:
                    same = [(o, b) for o, b in done.values() if o.mon == s3.mon]
                    sk = eng.m.skel(s3.mem)
                    same = [(o, b) for o, b in same if eng.m.skel(o.mem) == sk] or (same if len(done) > eng.loopcap * 30 else [])
                    if same:
                        o, b = same[0]
                        s3 = State(joinmem(dict(o.mem), s3.mem), s3.mon, tuple(q for q in o.subs if q in s3.subs))
                        a2 = a2 if a2 is b else T
                        k = (s3.key(), a2)
                        if k in done:
                            continue
                done[k] = (s3.copy(), a2)
                work.append((s3, a2))
                count += 1
                if count > 2000:
                    raise Budget(f'{fr["name"]} does not settle')
    seen, res = set(), []
    for o in out:
        root = ('cl', len(eng.stack), site)
        if root in o[2].mem and not (type(o[1]) is N and o[1].refs):
            # the closure is gone
            o[2].mem = {r: v for r, v in o[2].mem.items() if r != root}
            o[2]._k = None
        k = (o[0], o[1], o[2].key())
        if k not in seen:
            seen.add(k)
            res.append(o)
    if len(res) > eng.loopcap:
        groups = {}
        for o in res:
            groups.setdefault((o[0], o[1], o[2].mon, eng.m.skel(o[2].mem), eng.m.facts(o[2])), []).append(o[2])
        res = []
        for (kind, ret, mon, _, _), g in groups.items():
            s = g[0]
            for o in g[1:]:
                s = State(joinmem(dict(s.mem), o.mem), mon, tuple(q for q in s.subs if q in o.subs))
            res.append((kind, ret, s))
    return res


def has(x, s):
    return type(x) is N and s in x.syms


def is_open(x):
    return isinstance(x, tuple) and x and x[0] == 'each' and x[3] is not None


def turn(tr, kind, X, more, bodies):
    """the loop over X asks for its next element; what the last iteration wrote goes to `bodies`"""
    if tr and is_open(tr[-1]):
        _, k, Y, cur = tr[-1]
        if (k, Y) != (kind, X):
            return tr[:-1] + (('each', k, Y, turn(cur, kind, X, more, bodies)),)
        bodies.setdefault((k, Y), set()).add(cur)
        return tr[:-1] + (('each', k, Y, () if more else None),)
    new = ('each', kind, X, () if more else None)
    if tr and tr[-1] == new:
        return tr
    return tr + (new,)


def ongoing(tr, kind, X):
    """is the trace inside a loop over X?"""
    while tr and is_open(tr[-1]):
        if (tr[-1][1], tr[-1][2]) == (kind, X):
            return True
        tr = tr[-1][3]
    return False


def add(tr, x, coarse):
    if tr and is_open(tr[-1]):
        _, k, X, cur = tr[-1]
        cur = add(cur, x, coarse)
        if len(cur) > 8:
            cur = cur[:8] + (T,)
        return tr[:-1] + (('each', k, X, cur),)
    if isinstance(x, str):
        if x == '\n':
            k = ('gap',) if coarse else (WS, 1, False)
        elif tr and isinstance(tr[-1], str):
            return tr[:-1] + (tr[-1] + x,)
        else:
            k = x
    elif has(x, PFX) or has(x, sym('S.indentation')):
        k = ('gap',) if coarse else (WS, 0, True)
    elif has(x, LD):
        k = ('gap',) if coarse else (DEFS,)
    else:
        k = x
    if k is T and tr and tr[-1] is T:
        return tr
    if isinstance(k, tuple) and tr and isinstance(tr[-1], tuple) and tr[-1][0] in ('gap', WS, DEFS):
        last = tr[-1]
        if k == ('gap',) or last == (DEFS,):
            return tr
        if k == (DEFS,):
            return tr[:-1] + (k,)
        return tr[:-1] + ((WS, min(2, last[1] + k[1]), last[2] or k[2]),)
    return tr + (k,)


def show_trace(tr, bodies=None):
    def one(x):
        if isinstance(x, str):
            return repr(x)
        if type(x) is N:
            return show(x)
        if x[0] == 'each':
            bs = (bodies or {}).get((x[1], x[2]), ())
            return f'each {x[1]} of {show(x[2])} {"OPEN " + show_trace(x[3]) if x[3] is not None else ""}{{{" | ".join(sorted(show_trace(b, bodies) for b in bs))}}}'
        if x[0] == WS:
            return '⏎' * x[1] + ('¦' if x[2] else '')
        return x[0]
    return ' '.join(one(x) for x in tr)
