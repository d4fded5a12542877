"""What a function puts into a text buffer.

The buffers of open constructs are analysed one function at a time.  A trace records, in order, what a
function appends to one text (a field of its receiver, a local string, or whatever another text sink
stands for) and what it takes off its end; loops over the parts of a known value become `each` entries
(see steps.TraceMon).  Where the text goes is part of the result: a location below the receiver.
"""
from util import *
from steps import *
import re

W = ('ev', 'w')
WROTE = 'wrote'
TXT = sym('TXT')
PAD = mk('app', 'pad')
WRITE_TRAITS = ('Write', 'WriteContext')


def pop_entry(why):
    return mk('pop', why)


def is_sink(fr):
    return (fr.get('trait') or '').split('<')[0].rsplit('::', 1)[-1] in WRITE_TRAITS


def sink_types(F):
    """types with local text sinks: name -> their functions"""
    out = {}
    for f in F.local:
        if f['impl'] and f['impl'][1] and str(f['impl'][1]).split('<')[0].rsplit('::', 1)[-1] in WRITE_TRAITS and not f['closure']:
            out.setdefault(f['impl'][0].split('<')[0], []).append(f)
    return out


class EmitMon(TraceMon):
    """mon: ('go', trace, location)"""
    maxlen = 30

    marks = True

    def __init__(self, F):
        super().__init__(F, Script('none', sym('e')))
        self.coarse = False
        self.types = sink_types(F)
        self.closures = {}

    # ---- scope
    def inline(self, eng, g):
        if g['closure'] or not g['local']:
            return True
        if g['impl'] and g['impl'][0].split('<')[0] in self.types:
            return True
        return any(self.F.ty(l['ty']).get('k') == 'ref' and self.F.ty(l['ty']).get('mut') for l in g['locals'][1:g['argc'] + 1])

    def skel(self, mem):
        return super().skel(mem) | frozenset((r, v) for r, v in mem.items() if r[0] == 'l' and v.op == 'c')

    # ---- locations
    @staticmethod
    def under(a, b):
        """one location is (a part of) the other"""
        return a[0] == b[0] and (a[1][:len(b[1])] == b[1] or b[1][:len(a[1])] == a[1])

    def touch(self, eng, st, loc):
        """the text at loc has changed: what was known about it no longer holds"""
        v = eng.read(st.mem, *loc)
        new = v if v.op == 'app' and v.a[0] == WROTE else mk('app', WROTE, bare(v)) if v is not T else T
        if new is v:
            for r, x in list(st.mem.items()):
                if mentions(x, v):
                    if r == loc[0]:
                        continue
                    st.mem[r] = T
        st.subs = tuple((a, b) for a, b in st.subs if not mentions(a, new))
        eng.write(st.mem, loc[0], loc[1], new)
        st._k = None

    def target(self, eng, st, a):
        root, path = eng.deref_loc(a)
        for _ in range(4):
            v = eng.read(st.mem, root, path)
            if v.op != 'ref':
                break
            root, path = v.a[0], v.a[1]
        return root, path

    def emit(self, eng, st, loc, xs):
        old = st.mon[2]
        if old is None:
            use = loc
        elif self.under(loc, old):
            use = loc if len(loc[1]) >= len(old[1]) else old
        else:
            use = old
            xs = [T]
        st.mon = (st.mon[0], st.mon[1], use) + st.mon[3:]
        for x in xs:
            for y in self.entries(x):
                self.put(st, y)
        self.touch(eng, st, loc)

    def put(self, st, x):
        if type(x) is N and x.op == 'pop' and last(st.mon[1]) is x:
            return
        super().put(st, x)

    def texts(self, eng, st, v, fmt):
        if fmt and noid(flat(st, v, eng)) is TXT:
            return [TXT]
        return self.texts_of(eng, st, v, fmt)

    # ---- calls
    def on_call(self, eng, cx, st, fr, args, site):
        n = fr.get('name', '')
        p = fr.get('res') or fr['fn']
        full = fr.get('full', '')
        rk = fr.get('rkrate') or fr.get('krate')
        foreign = fr.get('id') is None or self.F.fns[fr['id']].get('foreign')
        mine = bool(args) and args[0].op == 'ref' and self.mine(eng, st, args[0])
        if foreign:
            r = self.asks(eng, cx, st, fr, args)
            if r is None and mine and args and (p.startswith(STR + '::') or full.startswith(f'<{STR} as') or 'std::borrow::Cow<' in full and n == 'add_assign'):
                r = self.string(eng, cx, st, fr, args, n, site)
            if r is None and not (mine and is_sink(fr)):
                r = self.string_call(eng, cx, st, fr, args, site)
            if r is not None:
                return r
        if args and is_sink(fr) and (rk not in STD or n in APPEND) and n != 'fmt':
            loc = self.target(eng, st, args[0])
            if self.through(eng, cx, st, fr, args, loc):
                return None
            self.emit(eng, st, loc, self.texts(eng, st, args[-1], n.endswith('fmt')))
            return [('ret', ok(), st)]
        if p in ('core::slice::<impl [T]>::get_mut', 'core::slice::<impl [T]>::get') and 'usize' in full:
            loc = self.target(eng, st, args[0])
            k = noid(flat(st, args[1], eng))
            return [('ret', some(ref(loc[0], loc[1] + (('elem', k),), n == 'get_mut')), st), ('ret', NONE, st.copy())]
        if p == 'std::vec::Vec::<T, A>::push' and any(mentions(noid(flat(st, a, eng)), TXT) for a in args[1:]):
            loc = self.target(eng, st, args[0])
            self.emit(eng, st, loc, self.texts(eng, st, args[1], False))
            return [('ret', UNIT, st)]
        if n == 'as_str' and 'fmt::Arguments' in p and noid(flat(st, args[0], eng)) is TXT:
            return [('ret', some(TXT), st), ('ret', NONE, st.copy())]
        return self.more_calls(eng, cx, st, fr, args, site)

    def mine(self, eng, st, a):
        return self.place(eng, st, a)[0] == W

    def more_calls(self, eng, cx, st, fr, args, site):
        n = fr.get('name', '')
        if n in ('ends_with', 'is_empty') and args and (fr.get('rkrate') or fr.get('krate')) in STD:
            v = noid(flat(st, args[0], eng))
            end = last(st.mon[1])
            if v.op == 'app' and v.a[0] == WROTE and st.mon[2] is not None and eng.read(st.mem, *st.mon[2]) is v and isinstance(end, str):
                if n == 'is_empty':
                    return [('ret', FALSE, st)]
                pat = noid(flat(st, args[1], eng))
                pat = pat.a[0] if pat.op == 's' or pat.op == 'c' and isinstance(pat.a[0], str) else None
                if pat and end.endswith(pat):
                    return [('ret', TRUE, st)]
                if pat and not pat.endswith(end):
                    return [('ret', FALSE, st)]
        return None

    def through(self, eng, cx, st, fr, args, loc):
        """is the body of this local sink followed (instead of being cut off)?"""
        return False

    def string(self, eng, cx, st, fr, args, n, site):
        """a string of the receiver"""
        loc = self.target(eng, st, args[0])
        if n in APPEND:
            self.emit(eng, st, loc, self.texts(eng, st, args[-1], n.endswith('fmt')))
            return [('ret', ok() if n.startswith('write') else UNIT, st)]
        if n == 'pop':
            why = self.reason(eng, st, eng.read(st.mem, *loc))
            self.emit(eng, st, loc, [])
            self.put(st, pop_entry(why))
            return [('ret', eng.fresh(st, ('r', site)), st)]
        if n == 'truncate':
            why = self.cut(eng, st, bare(eng.read(st.mem, *loc)), noid(flat(st, args[1], eng)))
            self.emit(eng, st, loc, [])
            self.put(st, pop_entry(why))
            return [('ret', UNIT, st)]
        if n in MUTATE:
            self.emit(eng, st, loc, [T])
            return [('ret', T, st)]
        if n in ('is_empty', 'len') and (fr.get('res') or fr['fn']) == STR + '::' + n:
            v = noid(flat(st, args[0], eng))
            r = self.more_calls(eng, cx, st, fr, args, site)
            return r or ([('ret', mk('app', n, v), st)] if v is not T and v.op != 'ref' else None)
        return None

    def on_other(self, eng, cx, st, fr, args, site):
        n = fr.get('name', '')
        p = fr.get('res') or fr['fn']
        full = fr.get('full', '')
        rk = fr.get('rkrate') or fr.get('krate')
        tr = fr.get('trait', '').split('<')[0]
        if rk == 'textwrap' or fr.get('krate') == 'textwrap':
            vals = [noid(flat(st, a, eng)) for a in args]
            if not any(v is T or v.op == 'ref' for v in vals):
                return [('ret', mk('app', 'textwrap::' + n, *vals), st)]
            return [('ret', T, st)]
        if args and n in ('iter', 'into_iter', 'iter_mut') and ('slice' in p or 'Vec<' in full or 'IntoIterator' in tr):
            v = args[0]
            it = self.iterator(eng, st, v, True)
            it = noid(bare(it))
            if iterated(it, self) is not None:
                if it.op == 'agg':
                    return [('ret', it, st)]
            elif known(it) and it.op not in ('vec', 'vec0') and it.op in ('fld', 'app', 'sym', 's'):
                e = mk('app', 'elems', it)
                return [('ret', mk('app', 'it:ref', e) if n != 'into_iter' or v.op == 'ref' else e, st)]
        if n in ('zip', 'zip_longest') and len(args) == 2:
            a, b = self.iterator(eng, st, args[0], False), self.iterator(eng, st, args[1], False)
            if iterated(b, self) is None and args[1].op == 'ref':
                v = noid(bare(flat(st, eng.content(st, args[1]), eng)))
                b = mk('app', 'it:ref', mk('app', 'elems', v)) if known(v) else b
            if iterated(a, self) is not None and iterated(b, self) is not None:
                return [('ret', mk('app', 'it:' + n, a, b), st)]
        if n == 'join' and args and rk in STD:
            v = noid(self.iterator(eng, st, args[0], True))
            k = iterated(v, self)
            if k is not None:
                r = self.single(eng, cx, st, v, site)
                if r is not None:
                    return [('ret', joined_up(k, r, noid(flat(st, args[1], eng))), st)]
        if n == 'filter' and len(args) == 2:
            v = noid(self.iterator(eng, st, args[0], False))
            if iterated(v, self) is not None and self.keeps(eng, cx, st, v, args[1], site):
                return [('ret', v, st)]
        if n == 'collect' and args and re.search(r'::collect::<(std::vec::Vec|std::boxed::Box|std::collections::VecDeque)<', full):
            v = noid(self.iterator(eng, st, args[0], False))
            if iterated(v, self) is not None:
                return [('ret', mk('app', 'it:seq', v), st)]
        if n in ('collect', 'from_iter', 'concat') and args and (f'<{STR}' in full or n == 'concat'):
            v = noid(self.iterator(eng, st, args[0], n == 'concat'))
            k = iterated(v, self)
            if k is not None:
                r = self.single(eng, cx, st, v, site)
                if r is not None:
                    return [('ret', joined_up(k, r, cstr('')), st)]
        return super().on_other(eng, cx, st, fr, args, site)

    def keeps(self, eng, cx, st, it, pred, site):
        """does a filter keep every element that is not empty?"""
        c = eng.closure_of(st, pred)
        if c is None:
            return False
        s = st.copy()
        s.mon = (s.mon[0], ()) + s.mon[2:]
        old, self.assume = self.assume, lambda v: False if v.a[0] == 'is_empty' else old(v) if old else None
        try:
            for x, y in self.nexts(eng, cx, s, it, '', site, True) or [(T, s)]:
                if x is None:
                    continue
                root = ('ev', 'kept', site)
                y.mem[root] = x
                y._k = None
                a0 = eng.closure_self(y, c[0], c[1], pred, site)
                for kind, r, _ in eng.call_local(cx, c[0], [a0, ref(root, ())], y, (site, 'filter')):
                    if kind != 'ret' or r is not TRUE:
                        return False
        finally:
            self.assume = old
        return True

    def single(self, eng, cx, st, it, site):
        """the value a lazily mapped iterator yields for an element; different ones as `alt`"""
        s = st.copy()
        s.mon = (s.mon[0], ()) + s.mon[2:]
        r = self.nexts(eng, cx, s, it, '', site, True)
        if r is None:
            return None
        vals = {noid(flat(y, x, eng)) for x, y in r if x is not None}
        if not vals or not all(known(v) for v in vals):
            return None
        return vals.pop() if len(vals) == 1 else mk('app', 'alt', *sorted(vals, key=show))

    # ---- loops
    def kinds(self, v):
        if v.op == 'agg' and v.a[0].endswith('ops::Range') and known(v) and v.a[2][0] is cint(0):
            return 'times', v.a[2][1]
        if v.op == 'app' and v.a[0] == 'elems':
            return 'elem', v.a[1]
        if v.op == 'app' and v.a[0] in ('split', 'split_inclusive') and len(v.a) == 3 and v.a[2].op == 's':
            return f'{v.a[0]} {v.a[2].a[0]!r} ', v.a[1]
        return None

    def turned(self, st, first):
        if self.marks:
            self.put(st, FIRST if first else LATER)

    def index(self, eng, st, name, first):
        return cint(0) if first else mk('X', eng.fresh(st, name), frozenset({0}))

    def wrapped(self, eng, st, w, x, site):
        if w[0] in ('zip', 'zip_longest'):
            k = iterated(w[1], self)
            y = mk('app', 'zipped', mk('app', k[0] + 'of', k[1]))
            if any(q[0] == 'ref' for q in k[2]):
                root = ('ev', 'zip', site)
                st.mem[root] = y
                st._k = None
                y = ref(root, ())
            if w[0] == 'zip':
                return [(agg('()', 0, (x, y)), st)]
            vs = self.F.adts['itertools::EitherOrBoth']['variants']
            out = []
            for i, v in enumerate(vs):
                s = st.copy()
                fs = {'Both': (x, y), 'Left': (x,), 'Right': (y,)}[v['name']]
                if v['name'] == 'Right':
                    self.mark(s, PAD)
                out.append((agg('itertools::EitherOrBoth', i, fs), s))
            return out
        if w[0] in ('peekable', 'fuse', 'by_ref', 'into_iter', 'seq'):
            return [(x, st)]
        return [(T, st)]

    # ---- what is taken off
    def patclass(self, eng, st, pat):
        """set of what a pattern can match: characters, 'ws'; None if unknown"""
        if pat.op in ('c', 's') and isinstance(pat.a[0], str):
            return {pat.a[0]}
        if pat.op == 'c' and isinstance(pat.a[0], int):
            return {chr(pat.a[0])}
        if pat.op == 'agg' and pat.a[0] == '[]':
            out = set()
            for x in pat.a[2]:
                c = self.patclass(eng, st, x)
                if c is None:
                    return None
                out |= c
            return out
        if pat.op == 'fn':
            return {'ws'} if 'is_whitespace' in pat.a[0] or 'is_ascii_whitespace' in pat.a[0] else None
        if pat.op == 'agg' and isinstance(pat.a[0], tuple) and pat.a[0][0] == 'cl' and isinstance(pat.a[0][1], int):
            return self.accepts(pat.a[0][1])
        return None

    def accepts(self, fid):
        """characters a predicate closure accepts, as far as its paths tell"""
        if fid in self.closures:
            return self.closures[fid]
        self.closures[fid] = None
        g = self.F.fns[fid]
        m = EmitMon(self.F)
        e = Engine(self.F, m, cap=20, loopcap=4, budget=4000)
        ch = sym('CH')
        env = sym('ENV')
        a1 = ch if self.F.ty(g['locals'][2]['ty']).get('k') != 'ref' else ref(('ev', 'ch'), ())
        try:
            outs = e.run(g, [env, a1], {('ev', 'ch'): ch}, ('go', (), None), 1, ch.syms | env.syms)
        except Budget:
            return None
        res = set()
        for o in outs:
            if o.kind != 'ret' or o.ret is FALSE:
                continue
            got = None
            facts = list(o.subs) + ([(bare(o.ret), TRUE)] if o.ret is not TRUE else [])
            for a, b in facts:
                if b is TRUE and a.op == 'app' and a.a[0] in ('is_whitespace', 'is_ascii_whitespace') and a.a[1] is ch:
                    got = {'ws'}
                elif b is TRUE and a.op == 'bin' and a.a[0] == 'Eq' and a.a[1] is ch and a.a[2].op == 'c':
                    got = {a.a[2].a[0]}
                elif a is ch and b.op == 'c':
                    got = {b.a[0] if isinstance(b.a[0], str) else chr(b.a[0])}
            if got is None:
                return None
            res |= got
        self.closures[fid] = frozenset(res)
        return self.closures[fid]

    def reason(self, eng, st, v):
        b = bare(v)
        best = None
        for a, x in st.subs:
            if a.op == 'app' and a.a[0] == 'ends_with' and a.a[1] is b:
                c = self.patclass(eng, st, a.a[2])
                if c is None:
                    continue
                if x is TRUE:
                    best = '|'.join(sorted(c))
                elif x is FALSE and best is None and len(c) == 1:
                    best = 'until ' + next(iter(c))
        return best or '?'

    def cut(self, eng, st, v, k):
        """truncate(k): what may be cut off v"""
        if not (k.op == 'app' and k.a[0] == 'len'):
            return 'all' if k is cint(0) else '?'
        x, why = k.a[1], set()
        while x is not v:
            if x.op == 'app' and x.a[0] == 'trim_end':
                why.add('ws')
            elif x.op == 'app' and x.a[0] == 'trim_end_matches':
                c = self.patclass(eng, st, x.a[2])
                if c is None:
                    return '?'
                why |= c
            else:
                return '?'
            x = x.a[1]
        return '|'.join(sorted(why))


def emit_run(F, g, args, mem, m=None, cap=30, loopcap=6, budget=60000):
    m = m or EmitMon(F)
    e = Engine(F, m, cap=cap, loopcap=loopcap, budget=budget)
    ins = set()
    for x in list(args) + list(mem.values()):
        ins |= x.syms
    outs = e.run(g, args, mem, ('go', (), None), 1, frozenset(ins))
    return m, e, outs
