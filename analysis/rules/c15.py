"""The formatter is given every event once, in order, plus paragraphs around direct inline content of list items.

The adapters between parser and formatter are analysed as transition systems.  For the adapter that
adds paragraphs, one iteration of its loop is followed from every combination of the current event's
kind, the following event's kind (or the end), and what the adapter remembers of the list item it is
in (no item, no open paragraph, an open paragraph); each path has to put exactly the events into the
queue that the rule asks for, with their ranges, and may only hand out the front of the queue when no
item is open.  For the adapter that moves list ends, and for the function that puts the adapters
between parser and formatter, every path is followed once."""
from steps import *
from .c09 import is_app
import re

RULE = __doc__
ASSUMES = ['pulldown-cmark reports the inline content of tight list items directly inside the item, and never starts a paragraph next to it',
           'the parser reports no math, definition list, superscript or subscript events, which it is not asked for (obligation `parser`)']

INLINE = {'Text', 'Code', 'FootnoteReference', 'TaskListMarker', 'InlineHtml', 'HardBreak', 'Start(Link)', 'Start(Image)',
          'Start(Emphasis)', 'Start(Strong)', 'Start(Strikethrough)'}
BLOCKS = ('Heading', 'List', 'BlockQuote', 'CodeBlock', 'Table', 'HtmlBlock', 'FootnoteDefinition')
STARTS = {f'Start({b})' for b in BLOCKS} | {'Rule'}
ENDS = {f'End({b})' for b in BLOCKS} | {'Rule'}
NEVER = re.compile(r'Math|DefinitionList|Superscript|Subscript')
INSIDE = {'SoftBreak', 'End(Link)', 'End(Image)', 'End(Emphasis)', 'End(Strong)', 'End(Strikethrough)'}
RNG = 'std::ops::Range'
A, Q, K, PAR, PK = ('ev', 'adapter'), sym('Q'), sym('K'), ('ev', 'par'), ('ev', 'nx')
CURR = agg(RNG, 0, (sym('cur.start'), sym('cur.end')))
NXTR = agg(RNG, 0, (sym('next.start'), sym('next.end')))
OTHER = sym('other event')
PARR = agg(RNG, 0, (sym('par.start'), sym('par.end')))
I = sym('I')
NO, OPEN, SHUT, WAIT = 'no item', 'an open paragraph', 'no open paragraph', 'events wait'
DEQ = 'std::collections::VecDeque::<T, A>::'


def kind(name):
    return name.split('/')[0].rstrip(')') + ')' if '/' in name else name


def idx(k):
    return mk('app', 'idx', cint(k))


class Adapter:
    """a local struct with an iterator of its own"""

    def __init__(self, F, adt, nxt):
        self.F, self.adt, self.next = F, adt, nxt
        v = F.adts[adt]['variants'][0]
        self.names, self.tys = v['fields'], v['ftys']

    def one(self, rx):
        r = [i for i, t in enumerate(self.tys) if re.search(rx, t)]
        return r[0] if len(r) == 1 else None


def adapters(F):
    out = []
    for g in F.local:
        if g['closure'] or not g['impl'] or g['name'] != 'next' or 'Iterator' not in str(g['impl'][1]):
            continue
        adt = g['impl'][0].split('<')[0]
        ret = F.tyname(g['locals'][0]['ty'])
        if adt in F.adts and 'pulldown_cmark::Event' in ret and 'Range' in ret:
            out.append(Adapter(F, adt, g))
    return out


def variants(v):
    """the nested variants of a value, None where not known"""
    v = norm_(v)
    return (str(v.a[0]), v.a[1], tuple(variants(x) for x in v.a[2])) if v.op == 'agg' else None


def alike(a, b):
    """are two events equal? None if not known"""
    if a is None or b is None:
        return None
    if a[:2] != b[:2] or len(a[2]) != len(b[2]):
        return False
    r = [alike(x, y) for x, y in zip(a[2], b[2])]
    return False if False in r else None if None in r else True


def compared(eng, st, fr, args):
    n = fr.get('name')
    if n in ('eq', 'ne') and len(args) == 2 and 'pulldown_cmark::' in fr.get('full', ''):
        vs = []
        for x in args:
            for _ in range(3):
                x = flat(st, x, eng)
                if x.op == 'lit':
                    x = x.a[0]
                elif x.op == 'ref':
                    x = eng.content(st, x)
            vs.append(variants(x))
        r = alike(*vs)
        if r is not None:
            return [('ret', TRUE if r == (n == 'eq') else FALSE, st)]
    if n == 'max' and len(args) == 2 and 'usize' in fr.get('full', ''):
        return [('ret', mk('app', 'max', *[flat(st, x, eng) for x in args]), st)]
    return None


class EvMon(StepMon):
    """mon: (phase, pops of the stack)"""

    def __init__(self, F, ad, cur, nxt, state):
        super().__init__(F, None)
        self.ad, self.cur, self.nxt, self.state = ad, cur, nxt, state
        self.q, self.k, self.inner = ad.one('VecDeque'), ad.one(r'Vec<std::option::Option<usize'), ad.one('Peekable')
        self.iters = []
        self.popped = set()
        self.early = False

    def skel(self, mem):
        return frozenset((r, v) for r, v in mem.items() if r in (A, PAR)) | super().skel(mem)

    def inline(self, eng, g):
        return True

    def where(self, eng, v):
        r, p = eng.deref_loc(v)
        return r, tuple(p)

    def is_(self, eng, v, i):
        return i is not None and self.where(eng, v) == (A, ((None, i),))

    def qlen(self, v):
        n = 0
        while v.op == 'vec':
            n += len(v.a[1])
            v = v.a[0]
        return None if v not in (Q, VEC0) else cint(n) if v is VEC0 else idx(n)

    def on_call(self, eng, cx, st, fr, args, site):
        n, full, p = fr.get('name', ''), fr.get('full', ''), fr.get('res') or fr['fn']
        if (fr.get('rkrate') or fr.get('krate')) in ('tracing', 'tracing_core', 'log'):
            if 'Level' in full or n in ('never', 'is_never', 'le', '__is_enabled', 'current'):
                return None
            return None
        if not args:
            return None
        if self.is_(eng, args[0], self.inner):
            if n == 'next':
                if st.mon[0] == 'entry':
                    st.mon = ('loop',) + st.mon[1:]
                    self.begin(eng, st)
                    return [('ret', some(agg('()', 0, (self.cur, CURR))) if self.cur is not None else NONE, st)]
                if st.mon[0] == 'front':
                    self.early = True
                    return []
                if self.cur is None:
                    return [('ret', NONE, st)]
                self.iters.append((st, None, eng))
                return []
            if n in ('peek', 'peek_mut'):
                return [('ret', NONE if self.nxt is None else some(ref(PK, (), n == 'peek_mut')), st)]
            if n in ('next_if', 'next_if_eq', 'by_ref'):
                raise Missing(f'{full} in an adapter')
        if self.is_(eng, args[0], self.q):
            old = eng.read(st.mem, A, ((None, self.q),))
            if n == 'push_back':
                eng.write(st.mem, A, ((None, self.q),), vec(old, (flat(st, args[1], eng) if args[1].op in ('app', 's') else args[1],)))
                return [('ret', UNIT, st)]
            if n == 'pop_front':
                base, xs = items(old)
                if base is VEC0:
                    if not xs:
                        return [('ret', NONE, st)]
                    eng.write(st.mem, A, ((None, self.q),), vec(VEC0, xs[1:]))
                    return [('ret', some(xs[0]), st)]
                if base is Q:
                    a = st.copy()
                    eng.write(a.mem, A, ((None, self.q),), vec(mk('app', 'rest', Q), xs))
                    out = [('ret', some(mk('app', 'front', Q)), a)]
                    if self.cur is None and st.mon[0] != 'front':
                        out.append(('ret', NONE, st))
                    return out
                return [('ret', T, st)]
            if n == 'is_empty':
                if old is VEC0 or old.op == 'vec' or st.mon[0] == 'front' and old is Q:
                    return [('ret', TRUE if old is VEC0 else FALSE, st)]
                return None
            if n == 'len':
                x = self.qlen(old)
                return [('ret', x if x is not None else T, st)]
            if n in ('get_mut', 'get', 'index_mut', 'index'):
                i = flat(st, args[1], eng)
                if i is I and self.state == OPEN:
                    r = ref(PAR, (), n.endswith('mut'))
                else:
                    r = ref(('ev', 'other'), (), n.endswith('mut'))
                return [('ret', r if 'index' in n else some(r), st)]
        if n in ('clone', 'to_owned') and RNG in full.split(' as ')[0]:
            return [('ret', eng.content(st, args[0]), st)]
        if p in ('std::option::Option::<T>::take', 'core::option::Option::<T>::take'):
            root, path = eng.deref_loc(args[0])
            old = eng.read(st.mem, root, path)
            eng.write(st.mem, root, path, NONE)
            return [('ret', old, st)]
        if p == 'std::vec::Vec::<T, A>::len' and self.is_(eng, args[0], self.k):
            v = eng.read(st.mem, A, ((None, self.k),))
            if v is VEC0:
                return [('ret', cint(0), st)]
        return compared(eng, st, fr, args)

    def begin(self, eng, st):
        """the state at the head of the loop"""
        eng.write(st.mem, A, ((None, self.q),), Q)
        top = {NO: VEC0, SHUT: vec(K, (NONE,)), OPEN: vec(K, (some(I),))}[self.state]
        eng.write(st.mem, A, ((None, self.k),), top)
        st.mem[PAR] = agg('()', 0, (self.start_par, PARR))
        st._k = None


def start_par(F):
    for s in scripts(F):
        if s.name == 'Start(Paragraph)':
            return s.term
    raise Missing('Tag::Paragraph')


def term_of(F, name):
    for s in scripts(F):
        if s.name == name:
            return s.term
    raise Missing(name)


_CX = {}


def matters(cur, nxt, state):
    """can `nxt` follow `cur`, as far as it matters?"""
    c, n = kind(cur), kind(nxt) if nxt else None
    if n is None:
        return state == NO
    if state == NO and n == 'End(Item)' and c != 'Start(Item)':
        return c == 'End(Item)'   # an item that ends is open before; its entry may be gone when it ends
    if state == OPEN:
        # the paragraph is open until the item ends or a block begins
        return n in INLINE or n in INSIDE or n in STARTS or n == 'End(Item)'
    return True


def iteration(task):
    F, ad = _CX['F'], _CX['ad']
    cur, nxt, state = task
    S = {s.name: s.term for s in scripts(F)}
    m = EvMon(F, ad, S.get(cur), renamed(S[nxt]) if nxt else None, state)
    m.name, m.start_par = kind(cur or ''), start_par(F)
    e = Engine(F, m, cap=20, loopcap=4, budget=30000)
    front = state == WAIT
    mem = {A: setfield(agg(ad.adt, 0, tuple(sym(f'A.{x}') for x in ad.names)), ((None, m.q),), Q if front else VEC0), PK: agg('()', 0, (m.nxt, NXTR)) if nxt else T, PAR: T, ('ev', 'other'): OTHER}
    try:
        outs = e.run(ad.next, [ref(A, (), True)], mem, ('front' if front else 'entry', 0), 1, frozenset(mem[A].syms))
    except Budget as x:
        return task, {f'not analysable within budget ({x})'}, 0, e.steps, set()
    bad, n = set(), 0
    for o in outs:
        if o.kind != 'ret':
            if o.kind == 'panic':
                continue
            continue
        n += 1
        if o.mon[0] == 'front':
            q = noid(bare(field(o.mem[A], (None, m.q))))
            if not same(o.ret, some(mk('app', 'front', Q))) or q is not mk('app', 'rest', Q):
                bad.add('events that wait in the queue are not handed out one by one, front first')
            continue
        if o.mon[0] == 'entry':
            bad.add('returns without asking for an event')
            continue
        m.iters.append((o, o.ret, e))
    if m.early:
        bad.add('an event is asked for while others wait in the queue')
    if cur is None:
        for st, ret, eng in m.iters:
            if not (same(ret, NONE) or same(ret, some(mk('app', 'front', Q)))):
                bad.add('after the last event something else is handed out than the events left in the queue')
        return task, bad, n, e.steps, m.popped
    for st, ret, eng in m.iters:
        n += 1
        bad |= {f'{w}' for w in judge(m, eng, st, ret, kind(cur), kind(nxt) if nxt else None, state)}
    if not n:
        bad.add('no path')
    return task, bad, n, e.steps, m.popped


def renamed(t):
    """the term of the following event, its payload told apart from the current one's"""
    def go(v):
        if v.op == 's' and not str(v.a[0]).startswith('n.') and v.syms:
            return sym('n.' + v.a[0])
        if v.op == 'agg':
            return agg(v.a[0], v.a[1], tuple(go(x) for x in v.a[2]))
        return v
    return go(t)


def norm_(v):
    v = noid(bare(v))
    if v.op == 'upd':
        b = norm_(v.a[0])
        for p, x in v.a[1]:
            b = setfield(b, (p,) if not isinstance(p, tuple) or p and not isinstance(p[0], tuple) else p, x)
        return norm_(b) if b.op != 'upd' else b
    if v.op == 'agg':
        return agg(v.a[0], v.a[1], tuple(norm_(x) for x in v.a[2]))
    return v


def same(a, b):
    return norm_(a) is norm_(b)


def ev_is(x, term):
    return same(field(x, (None, 0)), term)


def rng(x):
    r = field(x, (None, 1))
    e = norm_(field(r, (None, 1)))
    if is_app(e, 'max') and set(e.a[1:]) == {sym('cur.end'), sym('par.end')}:
        e = sym('cur.end')   # the paragraph start has the range of its first event
    return norm_(field(r, (None, 0))), e


def place(v):
    if v.op == 'bin' and v.a[0] == 'Sub' and is_app(v.a[1], 'idx') and v.a[2].op == 'c':
        return idx(v.a[1].a[1].a[0] - v.a[2].a[0])
    return v


def judge(m, eng, st, ret, cur, nxt, state):
    a = st.mem[A]
    q = field(a, (None, m.q))
    k = field(a, (None, m.k))
    bad = []
    base, xs = items(q)
    if ret is not None:
        r = norm_(ret)
        if r is NONE:
            return ['the end is reported although there was an event']
        first = r.a[2][0] if r.op == 'agg' and r.a[2] else r
        if is_app(base, 'rest') and first is mk('app', 'front', Q):
            pass
        else:
            return [f'hands out something else than the front of the queue: {show(first)[:100]}']
    elif base is not Q:
        return [f'the queue becomes {show(base)[:100]}']
    if not xs or not ev_is(xs[0], m.cur) or rng(xs[0]) != rng(agg('()', 0, (m.cur, CURR))):
        return [f'the event is not passed on first, once and unchanged: {", ".join(show(x)[:60] for x in xs) or "nothing is"}']
    extra = xs[1:]
    kb, ks = items(k)
    # the stack of items
    kinds = []
    known_base = kb in (K, VEC0)
    if not known_base:
        return [f'the stack of items becomes {show(k)[:100]}']
    for y in ks:
        y = norm_(y)
        kinds.append('none' if y is NONE else 'some' if y.op == 'agg' and y.a[0] == OPT and y.a[2] else '?')
    had = 0 if state == NO else 1
    item = cur == 'Start(Item)'
    shut = state == SHUT
    want = 'open' if nxt in INLINE and (item or shut and cur in ENDS) else 'close' if state == OPEN and not item and (nxt == 'End(Item)' or nxt in STARTS) else None
    if want == 'open':
        if len(extra) != 1 or not ev_is(extra[0], m.start_par):
            bad.append('no paragraph is started before the inline content' if not extra else f'{len(extra)} events are added')
        else:
            if rng(extra[0])[0] is not sym('next.start'):
                bad.append('the paragraph does not start where its first event starts')
            if kinds[-1:] != ['some'] or place(norm_(norm_(ks[-1]).a[2][0])) is not idx(1):
                bad.append(f'the place of the paragraph start in the queue is not remembered: {show(ks[-1])[:80] if ks else "nothing is"}')
    elif want == 'close':
        if len(extra) != 1 or not ev_is(extra[0], m.end_par):
            bad.append('the paragraph is not ended' if not extra else f'{len(extra)} events are added')
        else:
            if rng(extra[0]) != (sym('par.start'), sym('cur.end')):
                bad.append('the range of the paragraph end is not that of its content: ' + '..'.join(show(x)[:40] for x in rng(extra[0])))
            p = st.mem.get(PAR)
            if rng(p) != (sym('par.start'), sym('cur.end')) or not ev_is(p, m.start_par):
                bad.append('the range of the paragraph start is not set to that of its content')
        if len(kinds) >= had and had and kinds[-1:] != ['none']:
            bad.append('the paragraph is still taken to be open after its end')
    elif extra:
        bad.append('events are added: ' + ', '.join(show(x)[:60] for x in extra))
    if ('ev', 'other') in st.mem and st.mem[('ev', 'other')] is not OTHER:
        bad.append('some other event of the queue is changed')
    if want != 'close' and norm_(st.mem.get(PAR)) is not norm_(agg('()', 0, (m.start_par, PARR))):
        bad.append('the range of the paragraph start is changed')
    # depth of the stack
    n = len(ks) if kb in (K, VEC0) else None
    exp = had + (1 if item else 0)
    may = exp - 1 if (nxt == 'End(Item)' and not item or cur == 'End(Item)') and had else exp
    if n not in (exp, may):
        bad.append(f'{n - had:+d} items on the stack after {cur}')
    if want is None and n == exp:
        now = kinds[-1:]
        was = ['none'] if item else {NO: [], SHUT: ['none'], OPEN: ['some']}[state]
        if now != was or state == OPEN and not item and now == ['some'] and norm_(ks[-1]) is not some(I):
            bad.append(f'what is remembered of the item changes to {", ".join(now)}')
    if item and len(kinds) > 1 and kinds[0] != {NO: '', SHUT: 'none', OPEN: 'some'}[state]:
        bad.append('what is remembered of the outer item changes')
    # only the innermost item can have an open paragraph: a list in an item ends the paragraph before it
    if ret is not None and set(kinds[-1:]) - {'none'}:
        bad.append('events are handed out while a paragraph is open')
    if n < exp:
        m.popped.add('next' if nxt == 'End(Item)' and cur != 'End(Item)' else 'end')
    return bad


def loose(F, cx, ad):
    S = [s.name for s in scripts(F) if not NEVER.search(s.name)]
    _CX.update(F=F, ad=ad)
    EvMon.end_par = term_of(F, 'End(Paragraph)')
    tasks = [(None, None, s) for s in (NO, SHUT, WAIT)]
    nexts = [s for i, s in enumerate(S) if kind(s) not in [kind(x) for x in S[:i]]]
    for c in nexts:
        for st in (NO, SHUT, OPEN):
            if st == OPEN and not (kind(c) in INLINE or kind(c) in INSIDE):
                continue
            if c == 'End(Item)' and st == OPEN:
                continue
            for n in nexts + [None]:
                if matters(c, n, st):
                    tasks.append((c, n, st))
    res = pool(iteration, tasks)
    per = {}
    popped = set()
    for (c, n, st), bad, paths, steps, pop in res:
        popped |= pop
        cx.count('paths', paths)
        cx.count('steps', steps)
        cx.count('combinations')
        b = per.setdefault(kind(c or 'the last event'), {})
        for w in bad:
            b.setdefault(w, []).append(f'{n or "nothing"} follows, {st}')
    for c, b in sorted(per.items()):
        cx.oblige(f'event:{c}', not b, f'{ad.next["path"]}, {c}: ' + '; '.join(f'{w} ({len(xs)} cases, e.g. {xs[0]})' for w, xs in sorted(b.items()))[:700], ad.next['sp'])


    cx.oblige('items', len(popped) < 2, f'{ad.next["path"]}: an item is taken off the stack before its end and at its end once more', ad.next['sp'])


class PassMon(EvMon):
    """an adapter without a queue; mon: (phase, 0)"""

    def on_call(self, eng, cx, st, fr, args, site):
        n = fr.get('name', '')
        if n == 'next' and args and len(self.where(eng, args[0])[1]) == 1 and self.where(eng, args[0])[0] == A:
            if st.mon[0] == 'entry':
                st.mon = ('loop',) + st.mon[1:]
                b = st.copy()
                return [('ret', some(agg('()', 0, (self.cur, CURR))), st), ('ret', NONE, b)]
            return [('ret', T, st)]
        if n in ('peek', 'peek_mut', 'next_if', 'nth', 'skip', 'filter', 'by_ref'):
            raise Missing(f'{fr.get("full")} in an adapter')
        if n in ('clone', 'to_owned') and RNG in fr.get('full', '').split(' as ')[0]:
            return [('ret', eng.content(st, args[0]), st)]
        return compared(eng, st, fr, args)


def passing(F, cx, ad):
    """an adapter that hands every event on, and ends lists where their last item ended"""
    nums = [i for i, t in enumerate(ad.tys) if t == 'usize' or t.endswith('Option<usize>')]
    end = sym('A.end')
    seen = {}
    for s in scripts(F):
        if NEVER.search(s.name):
            continue
        m = PassMon(F, ad, s.term, None, None)
        e = Engine(F, m, cap=20, loopcap=4, budget=30000)
        val = agg(ad.adt, 0, tuple(sym(f'A.{x}') for x in ad.names))
        bad, n = set(), 0
        try:
            outs = e.run(ad.next, [ref(A, (), True)], {A: val}, ('entry', 0), 1, frozenset(val.syms | s.term.syms | CURR.syms))
        except Budget as x:
            outs = []
            bad.add(f'not analysable within budget ({x})')
        for o in outs:
            if o.kind != 'ret':
                continue
            n += 1
            r = norm_(o.ret)
            now = [norm_(field(o.mem[A], (None, i))) for i in nums]
            old = [sym(f'A.{ad.names[i]}') for i in nums]
            def strip(x):
                return x.a[2][0] if x.op == 'agg' and x.a[0] == OPT and x.a[2] else x
            if r is NONE:
                if o.mon[0] == 'entry':
                    bad.add('reports the end without asking for an event')
                continue
            k = kind(s.name)
            if k == 'End(List)' and r.op == 'agg' and r.a[2]:
                x = r.a[2][0]
                if not ev_is(x, s.term) or rng(x)[0] is not sym('cur.start'):
                    bad.add('the event is not passed on unchanged')
                if rng(x)[1] not in [strip(y) for y in old] and not (rng(x)[1] is sym('cur.end') and any('Option' in ad.tys[i] for i in nums)) and not set(rng(x)[1].syms) & {z for y in old for z in y.syms}:
                    bad.add(f'the end of the list is {show(rng(x)[1])[:60]}, not that of its last item')
            elif r is not norm_(some(agg('()', 0, (s.term, CURR)))):
                bad.add(f'the event is not passed on unchanged: {show(r)[:160]}')
            if k == 'End(Item)':
                def late(y, z):
                    return y is sym('cur.end') or is_app(y, 'max') and sym('cur.end') in y.a and strip(z) in y.a   # items end in order
                if not any(late(strip(y), z) for y, z in zip(now, old)):
                    bad.add('the end of the item is not remembered')
            elif k != 'End(List)' and now != old:
                bad.add('the end of the last item is forgotten')
        cx.count('paths', n)
        cx.count('steps', e.steps)
        seen.setdefault(kind(s.name), set()).update(bad if n or bad else {'no path'})
    for k, b in sorted(seen.items()):
        cx.oblige(f'{ad.adt.split("::")[-1]}:{k}', not b, f'{ad.next["path"]}, {k}: ' + '; '.join(sorted(b))[:500], ad.next['sp'])


# tables, footnotes, strikethrough, task lists, heading attributes, metadata blocks (---, +++)
OPTIONS = 1 << 1 | 1 << 2 | 1 << 3 | 1 << 4 | 1 << 6 | 1 << 7 | 1 << 8


def number(v):
    v = noid(bare(v))
    while v.op == 'agg' and len(v.a[2]) == 1:
        v = noid(bare(v.a[2][0]))
    return v.a[0] if v.op == 'c' and isinstance(v.a[0], int) else None


def passed(v, r):
    """is v the result r, perhaps taken apart and put together again?"""
    if v is r:
        return True
    if v.op == 'agg' and str(v.a[0]).endswith('result::Result') and len(v.a[2]) == 1:
        x = noid(bare(v.a[2][0]))
        return x is field(r, (v.a[1], 0)) or x.syms == r.syms and show(x) == show(field(r, (v.a[1], 0)))
    return False


class ChainMon(Monitor):
    def __init__(self, F):
        self.F, self.loop = F, loop_fn(F)
        self.parsers, self.states = [], []

    def inline(self, eng, g):
        return True

    def call(self, eng, cx, st, fr, args, site):
        n, full, p = fr.get('name', ''), fr.get('full', ''), fr.get('res') or fr['fn']
        if (fr.get('rkrate') or fr.get('krate')) in ('tracing', 'tracing_core', 'log'):
            return None
        if fr.get('id') == self.loop['id'] or p == self.loop['path']:
            self.states.append((flat(st, args[0], eng), st))
            return [('ret', sym('RESULT'), st)]
        if n in ('bitor', 'union') and 'Options' in full and len(args) == 2:
            a, b = number(flat(st, args[0], eng)), number(flat(st, args[1], eng))
            if a is not None and b is not None:
                return [('ret', cint(a | b), st)]
        if n in ('bitor_assign', 'insert') and 'Options' in full and len(args) == 2:
            root, path = eng.deref_loc(args[0])
            a, b = number(eng.read(st.mem, root, path)), number(flat(st, args[1], eng))
            if a is not None and b is not None:
                eng.write(st.mem, root, path, cint(a | b))
                return [('ret', UNIT, st)]
        if n == 'empty' and 'Options' in full:
            return [('ret', cint(0), st)]
        if fr.get('krate') == 'pulldown_cmark' and 'Parser' in full and n.startswith('new'):
            self.parsers.append([noid(bare(flat(st, x, eng))) for x in args])
            return [('ret', mk('app', 'parser', sym('P')), st)]
        if n == 'into_offset_iter':
            return [('ret', mk('app', 'offsets', flat(st, args[0], eng)), st)]
        if n == 'peekable':
            return [('ret', mk('app', 'peekable', flat(st, args[0], eng)), st)]
        if p in ('std::vec::Vec::<T>::new', 'std::vec::Vec::<T>::with_capacity'):
            return [('ret', VEC0, st)]
        if 'VecDeque' in full and n in ('new', 'with_capacity', 'default'):
            return [('ret', VEC0, st)]
        if n == 'default' and VEC.match(full.split(' as ')[0].lstrip('<')):
            return [('ret', VEC0, st)]
        if 'String' in full and n in ('new', 'with_capacity'):
            return [('ret', cstr(''), st)]
        return identity_model(eng, st, fr, args)


def chain(F, cx, ads):
    fns = [g for g in F.local if not g['closure'] and g['id'] != loop_fn(F)['id'] and
           any(fr and (fr.get('id') == loop_fn(F)['id']) for _, _, fr in F.calls(g)) and '::test' not in g['path']]
    cx.oblige('parser:callers', len(fns) == 1, f'the formatting loop is started from {[g["path"] for g in fns]}', loop_fn(F)['sp'])
    for g in fns:
        m = ChainMon(F)
        e = Engine(F, m, cap=20, loopcap=4, budget=30000)
        args = [sym('SELF'), sym('INPUT')]
        bad, n = set(), 0
        outs = e.run(g, args, {}, ('c',), 1, frozenset(args[0].syms | args[1].syms))
        for o in outs:
            if o.kind == 'ret':
                n += 1
                if not passed(noid(bare(o.ret)), sym('RESULT')):
                    bad.add(f'returns something else than what the loop returns: {show(o.ret)[:100]}')
        for a in m.parsers:
            if a[0] is not sym('INPUT'):
                bad.add(f'the parser is given {show(a[0])[:80]} instead of the input')
            o = [number(x) for x in a[1:] if number(x) is not None]
            if o != [OPTIONS]:
                bad.add(f'the parser is asked for the extensions {o}, not for {OPTIONS}')
        if len(m.parsers) != 1:
            bad.add(f'{len(m.parsers)} parsers')
        names, v = state_fields(F)
        for s, st in m.states:
            s = norm_(s)
            ev = norm_(field(s, (None, names['events'])))
            used = []
            while True:
                if is_app(ev, 'peekable') or is_app(ev, 'offsets'):
                    x = ev.a[1]
                    if is_app(ev, 'offsets'):
                        break
                    ev = norm_(x)
                    continue
                if ev.op == 'agg' and ev.a[0] in F.adts:
                    used.append(ev.a[0])
                    parts = [norm_(x) for x in ev.a[2]]
                    inner = [x for x in parts if is_app(x, 'peekable') or is_app(x, 'offsets') or x.op == 'agg' and x.a[0] in [a.adt for a in ads]]
                    rest = [x for x in parts if x not in inner]
                    if len(inner) != 1 or any(x not in (VEC0, cint(0), NONE) for x in rest):
                        bad.add(f'{ev.a[0]} does not start empty: {show(ev)[:160]}')
                        break
                    ev = inner[0]
                    continue
                bad.add(f'the events do not come from the parser: {show(ev)[:120]}')
                break
            if sorted(used) != sorted(a.adt for a in ads):
                bad.add(f'the events go through {used}')
            for k, i in names.items():
                x = norm_(field(s, (None, i)))
                if k == 'events':
                    continue
                if 'MarkdownFormatter' in v['ftys'][i]:
                    ok_ = x is sym('SELF')
                elif v['ftys'][i].endswith('str') and v['ftys'][i].startswith('&'):
                    ok_ = x is sym('INPUT')
                else:
                    ok_ = x in (VEC0, NONE, FALSE, cint(0), cstr(''))
                if not ok_:
                    bad.add(f'formatting starts with {k} = {show(x)[:80]}')
        if not m.states:
            bad.add('the formatting loop is never started')
        cx.count('paths', n)
        cx.oblige('parser', n > 0 and not bad, f'{g["path"]}: ' + '; '.join(sorted(bad))[:600], g['sp'])


def run(cx):
    F = cx.facts('lib')
    ads = adapters(F)
    deq = [a for a in ads if a.one('VecDeque') is not None]
    if len(deq) != 1:
        raise Missing('the adapter with a queue of events')
    loose(F, cx, deq[0])
    for a in ads:
        if a is not deq[0]:
            passing(F, cx, a)
    chain(F, cx, ads)
