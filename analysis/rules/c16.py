"""Link reference definitions found between the parser's events are written once, complete and in order.

Every step of the formatting loop that begins or ends a block is analysed with the search for
definitions kept as an unknown list per stretch of source searched.  Required: which stretch is
searched (from where the formatter stands to where the block begins; inside a container from its
start to its first event; to the container's end when it ends; to the end of the input), that every
list found is gone through to its end with each definition written, once, and that afterwards the
formatter stands behind what it wrote and not behind anything not searched yet.  The functions that
write a definition are analysed on their own: the parts, brackets and quotes they write."""
from steps import *
from emit import EmitMon, emit_run, W
import absint

RULE = __doc__
ASSUMES = ['finding definitions in a stretch of source, and where they end, is right (a scanner over characters; not decided)']

NEVER = re.compile('Math|DefinitionList|Superscript|Subscript')
LRD = 'LinkReferenceDefinition'
NR = agg('std::ops::Range', 0, (sym('NX.start'), sym('NX.end')))
RS, RE_, NS = sym('R.start'), sym('R.end'), sym('NX.start')
LP, INP = sym('S.last_position'), sym('S.input')
BLOCKS = ('Paragraph', 'Heading', 'BlockQuote', 'CodeBlock', 'HtmlBlock', 'List', 'FootnoteDefinition', 'Table')
HOLD = ('BlockQuote', 'Item', 'FootnoteDefinition')
DELIM = ('std::ops::Range', 'std::ops::RangeFrom', 'std::ops::RangeTo')


def finders(F):
    """local functions from a text to a list of definitions"""
    out = []
    for g in F.local:
        if not g['closure'] and LRD in F.tyname(g['locals'][0]['ty']) and 'Vec<' in F.tyname(g['locals'][0]['ty']) and \
                any(F.tyname(l['ty']).endswith('str') for l in g['locals'][1:g['argc'] + 1]):
            out.append(g['id'])
    return out


def norm_(v):
    v = noid(bare(v))
    if v.op == 'agg':
        return agg(v.a[0], v.a[1], tuple(norm_(x) for x in v.a[2]))
    if v.op == 'bin' and v.a[0] == 'Sub':
        r = minus(norm_(v.a[1]), norm_(v.a[2]))
        return v if r is None else r
    return v


def add_(a, b):
    return b if a is cint(0) else a if b is cint(0) else mk('bin', 'Add', a, b)


def minus(a, b):
    """a - b where b is a summand of a"""
    if a is b:
        return cint(0)
    if a.op == 'bin' and a.a[0] == 'Add':
        for x, y in ((a.a[1], a.a[2]), (a.a[2], a.a[1])):
            r = minus(x, b)
            if r is not None:
                return add_(r, y)
    return None


def same_sum(a, b):
    def parts(x):
        return parts(x.a[1]) + parts(x.a[2]) if x.op == 'bin' and x.a[0] == 'Add' else [] if x is cint(0) else [x]
    return sorted(map(id, parts(a))) == sorted(map(id, parts(b)))


def span(v):
    """(start, end) of a piece of the input; end None: the input's end"""
    v = norm_(v)
    if v is INP:
        return cint(0), None
    if is_app(v, 'index') and len(v.a) == 3:
        s = span(v.a[1])
        r = v.a[2]
        if s is None or r.op != 'agg':
            return None
        k = str(r.a[0]).split('::')[-1]
        f = r.a[2]
        if k == 'Range' and s == (cint(0), None):
            return f[0], f[1]
        if k == 'Range' and f[0] is cint(0):
            return s[0], add_(s[0], f[1])
        if k == 'RangeFrom':
            return add_(s[0], f[0]), s[1]
        if k == 'RangeTo':
            return s[0], add_(s[0], f[0])
        if k == 'RangeFull':
            return s
    if v.op == 'app' and v.a[0] in ('trim', 'trim_start', 'trim_end') and len(v.a) == 2:
        return span(v.a[1])
    return None


def is_app(v, name, n=None):
    return type(v) is N and v.op == 'app' and v.a[0] == name and (n is None or len(v.a) == n)


class DefMon(StepMon):
    """mon: (phase, searched and written lists, definition not written yet)"""
    NEXT = None
    FIND = ()

    def inline(self, eng, g):
        return True

    def log(self, st, x):
        if x not in st.mon[1]:
            st.mon = (st.mon[0], st.mon[1] + (x,)) + st.mon[2:]

    def state(self, st, D):
        r = 'new'
        for x in st.mon[1]:
            if x[0] in ('empty', 'full', 'done') and x[1] is D:
                r = x[0]
        return r

    def facts(self, st):
        return frozenset(x for x in st.subs if RS in x[0].syms and x[0].op == 'bin')

    def skel(self, mem):
        return super().skel(mem) | frozenset((r, v) for r, v in mem.items() if v.op == 'app' and v.a[0] == 'defs' or v.op == 'agg' and v.a[0] in DELIM)

    def value(self, eng, st, v):
        for _ in range(6):
            w = flat(st, v, eng)
            if w.op == 'ref':
                w = eng.content(st, w)
            w = norm_(w)
            if w is v:
                return v
            v = w
        return v

    def step_of(self, st, D, full):
        """the next definition of a list"""
        k = self.state(st, D)
        if st.mon[2] is not None:
            self.log(st, ('lost', D))
        out = []
        if k != 'empty':
            a = st.copy()
            d = mk('app', 'def', D)
            if k == 'new':
                self.log(a, ('full', D))
            a.mon = a.mon[:2] + (d,) + a.mon[3:]
            x = d
            if 'slice::Iter' in full:
                a.mem[('ev', 'def', D)] = d
                a._k = None
                x = ref(('ev', 'def', D), ())
            out.append((x, a))
        b = st.copy()
        if k == 'new':
            self.log(b, ('empty', D))
        elif k == 'full':
            b.mon = b.mon[:1] + (b.mon[1] + (('done', D),), None) + b.mon[3:]
        # a list known not to be empty is not over before its first definition
        if k != 'full' or any(x[0] == 'write' and x[1] is D or x[0] == 'lost' for x in st.mon[1]):
            out.append((None, b))
        return out

    def on_call(self, eng, cx, st, fr, args, site):
        fid, n, full = fr.get('id'), fr.get('name', ''), fr.get('full', '')
        p = fr.get('res') or fr['fn']
        if (fr.get('rkrate') or fr.get('krate')) in ('tracing', 'tracing_core', 'log'):
            return None
        if n in ('next', 'peek') and 'Peekable' in full and 'Adapter' in full.split('as std::iter')[0] + full:
            if n == 'peek':
                return [('ret', some(ref(('ev', 'nx'), ())), st)] if self.NEXT is not None else None
            return [('ret', NONE, st)] if self.script is None else None
        if fid in self.FIND:
            # a finder that calls another one is followed
            if any(fr2 and fr2.get('id') in self.FIND and fr2.get('id') != fid for _, _, fr2 in self.F.calls(self.F.fns[fid])):
                return None
            vals = [self.value(eng, st, x) for x in args]
            t = [x for x in vals if span(x) is not None]
            s = span(t[0]) if t else None
            D = mk('app', 'defs', *(s or (T, T)) if s and s[1] is not None else (s[0], sym('END')) if s else (T, T))
            off = [x for x in vals if not (t and x is t[0])]
            self.log(st, ('search', D, bool(s) and len(off) == 1 and same_sum(off[0], s[0])))
            return [('ret', D, st)]
        if '<impl str>' in p and n in ('bytes', 'chars', 'char_indices', 'len', 'as_bytes') and args:
            b = self.value(eng, st, args[0])
            if span(b) is not None and b is not INP:
                return [('ret', mk('app', n, b), st)]
        if n in ('rposition', 'position', 'rfind') and args:
            b = self.value(eng, st, args[0])
            if b.op == 'app' and b.a[0] in ('bytes', 'chars', 'char_indices') or span(b) is not None and b is not INP:
                return [('ret', some(mk('app', n, b)), st)]
        if n in ('max', 'min') and len(args) == 2:
            a, b = (norm_(flat(st, x, eng)) for x in args)
            if a is not T and b is not T and a.op != 'ref' and b.op != 'ref':
                return [('ret', a if a is b else mk('app', n, *sorted((a, b), key=show)), st)]
        if '<impl str>' in p and args and n in ('trim_end_matches', 'trim_start_matches'):
            b = self.value(eng, st, args[0])
            if span(b) is not None:
                return [('ret', mk('app', n, b), st)]
        if n == 'len' and args:
            b = self.value(eng, st, args[0])
            if b.op == 'app' and b.a[0] in ('trim_end_matches', 'trim_end'):
                return [('ret', mk('app', n, b), st)]
        if n == 'len' and args and norm_(flat(st, args[0], eng)) is INP:
            return [('ret', sym('END'), st)]
        if p.endswith('::index') and 'Index' in p and ('str' in full.split(' as ')[0] or 'String' in full.split(' as ')[0]) and len(args) == 2:
            b = self.value(eng, st, args[0])
            if span(b) is not None:
                return [('ret', mk('app', 'index', b, self.value(eng, st, args[1])), st)]
        if '<impl str>' in p and args and n in ('trim', 'trim_start', 'trim_end'):
            b = self.value(eng, st, args[0])
            if span(b) is not None:
                return [('ret', mk('app', n, b), st)]
        if '<impl str>' in p and args and n == 'find' and len(args) == 2:
            b, c = self.value(eng, st, args[0]), norm_(flat(st, args[1], eng))
            if span(b) is not None and c.op in ('c', 's'):
                y = st.copy()
                return [('ret', some(mk('app', 'find', b, c)), y), ('ret', NONE, st)]
        if n == 'clone' and 'ops::Range<' in full.split(' as ')[0]:
            return [('ret', eng.content(st, args[0]), st)]
        if fid is not None and len(args) >= 1:
            g = self.F.fns[fid]
            if not g.get('foreign') and g['impl'] and LRD in g['impl'][0].split('<')[0] and not g['closure']:
                d = self.value(eng, st, args[0])
                rt = self.F.tyname(g['locals'][0]['ty'])
                if is_app(d, 'def'):
                    if len(args) == 1 and 'Range<' in rt:
                        return [('ret', agg('std::ops::Range', 0, (mk('app', 'from', d), mk('app', 'to', d))), st)]
                    if len(args) == 2 and 'Result' in rt:
                        self.log(st, ('write', d.a[1], st.mon[2] is d))
                        st.mon = st.mon[:2] + (None,) + st.mon[3:]
                        return [('ret', ok(), st)]
        # lists of definitions
        if args and LRD in full:
            v = self.value(eng, st, args[0])
            D = v.a[1] if is_app(v, 'each') else v
            if is_app(D, 'defs'):
                k = self.state(st, D)
                if n in ('into_iter', 'iter', 'iter_mut', 'drain') or n in ('by_ref',):
                    if not is_app(v, 'each') and k == 'done':
                        self.log(st, ('twice', D))
                    return [('ret', mk('app', 'each', D), st)]
                if n in ('deref', 'as_slice', 'as_ref'):
                    return [('ret', args[0], st)]
                if n in ('is_empty', 'len', 'first', 'last'):
                    a, b = st, st.copy()
                    d = mk('app', 'def', D) if n != 'last' else mk('app', 'lastdef', D)
                    if d.a[0] == 'lastdef':
                        d = mk('app', 'def', D)
                    root = ('ev', 'def', D)
                    out = []
                    if k != 'empty':
                        if k == 'new':
                            self.log(a, ('full', D))
                        a.mem[root] = d
                        c = mk('app', 'count', D)
                        a.subs += tuple((mk('bin', o, c, cint(x)), v) for o, x, v in (('Eq', 0, FALSE), ('Ne', 0, TRUE), ('Gt', 0, TRUE), ('Lt', 1, FALSE), ('Ge', 1, TRUE))) if n == 'len' else ()
                        a._k = None
                        out.append(('ret', FALSE if n == 'is_empty' else some(ref(root, ())) if n != 'len' else mk('X', mk('app', 'count', D), frozenset({0})), a))
                    if k in ('new', 'empty'):
                        if k == 'new':
                            self.log(b, ('empty', D))
                        out.append(('ret', TRUE if n == 'is_empty' else NONE if n != 'len' else cint(0), b))
                    return out
                if n == 'next':
                    return [('ret', NONE if x is None else some(x), y) for x, y in self.step_of(st, D, full)]
                if n in INTERNAL:
                    r = internal(eng, cx, st, fr, args, site, lambda y: self.step_of(y, D, full))
                    if r is not None:
                        return r
                self.log(st, ('other', D, n))
        return None


def look(F, name, nxt):
    S = {s.name: s for s in scripts(F)}
    if name is not None and name not in S:
        raise Missing(f'event {name}')
    DefMon.FIND = finders(F)
    m = DefMon(F, Script(name, S[name].term) if name else None)
    m.NEXT = S[nxt].term if nxt else None
    import steps
    f = loop_fn(F)
    e = Engine(F, m, cap=24, loopcap=6, budget=250000)
    fi, v = state_fields(F)
    vals = [sym('S.' + n) for n in v['fields']]
    val = agg(state_adt(F), 0, vals)
    mem = {('ev', 'init'): agg('state', 0, vals), ('ev', 'nx'): agg('()', 0, (m.NEXT, NR)) if nxt else NX}
    ins = set().union(*[x.syms for x in vals], S[name].term.syms if name else (), RS.syms, RE_.syms, NR.syms, NX.syms, m.NEXT.syms if nxt else ())
    old = steps.RANGE
    steps.RANGE = agg('std::ops::Range', 0, (RS, RE_))
    try:
        outs = e.run(f, [val], mem, ('wait', (), None), 1, frozenset(ins))
    finally:
        steps.RANGE = old
    return m, e, outs


def judge(F, name, nxt, want):
    """want: stretches that have to be searched on every path, in order"""
    m, e, outs = look(F, name, nxt)
    bad, n = set(), 0
    if name is None:
        for o in outs:
            if o.kind == 'ret':
                n += 1
                bad |= told(o.mon[1], want)
        return n, bad, e.steps
    for init, cur, mon, st in m.ends:
        n += 1
        if mon[2] is not None:
            bad.add('a definition found is not written')
        bad |= told(mon[1], want)
        lp = norm_(flat(st, cur['last_position'], e))
        bad |= stands(mon[1], lp, st.subs, name, want)
    return n, bad, e.steps


def show_span(s):
    return '..'.join('?' if x is None else show(x)[:60].replace('sym(', '').replace(')', '') for x in s)


def covers(s, w):
    """does the stretch searched begin at the place wanted (or further in, behind a marker) and end there?"""
    if s[1] is not w[1]:
        return False
    if s[0] is w[0]:
        return True
    return len(w) > 2 and s[0].op == 'bin' and s[0].a[0] == 'Add' and w[0] in s[0].a[1:] and any(is_app(x, 'find') and norm_(x.a[2]) in (mk('c', w[2]), cstr(w[2])) for x in s[0].a[1:])


def told(log, want):
    bad = set()
    found = [x[1] for x in log if x[0] == 'search']
    for x in log:
        if x[0] == 'search':
            if x[1].a[1] is T:
                bad.add('what is searched is not a piece of the input')
            elif not x[2]:
                bad.add(f'the position given for the stretch {show_span(x[1].a[1:])} is not where it starts')
        if x[0] == 'twice':
            bad.add('definitions are gone through twice')
        if x[0] == 'lost':
            bad.add('a definition found is not written')
        if x[0] == 'write' and not x[2]:
            bad.add('a definition is written twice')
        if x[0] == 'other':
            bad.add(f'the list of definitions is changed by {x[2]}')
    for D in found:
        st = [x[0] for x in log if x[0] in ('empty', 'done') and x[1] is D]
        if not st:
            bad.add(f'the definitions found in {show_span(D.a[1:])} are not all written')
    at = 0
    for w in want:
        hit = [i for i, D in enumerate(found) if i >= at and covers(D.a[1:], w)]
        if not hit:
            bad.add(f'{show_span(w[:2])} is not searched for definitions')
        else:
            at = hit[0] + 1
    return bad


def stands(log, lp, subs, name, want):
    """where the formatter stands after the step: behind the definitions written, not behind anything unsearched"""
    bad = set()
    wrote = [x[1] for x in log if x[0] == 'write']
    inner = [D for D in wrote if D.a[1] is not LP and not (D.a[2] is RS)]
    if NR.syms & lp.syms:
        # only as part of where a definition ends
        core = lp
        if not (is_app(core, 'to') or core.op == 'app' and core.a[0] == 'max'):
            bad.add(f'after it the formatter stands at {show(lp)[:80]}, behind source that was not searched')
    if not name.startswith('Start('):
        if RE_ not in terms_outside_defs(lp) and lp is not T:
            bad.add(f'after it the formatter stands at {show(lp)[:80]}, not at its end')
        elif RS in lp.syms or LP in lp.syms:
            bad.add(f'after it the formatter stands at {show(lp)[:80]}, before its end')
    if name.startswith('Start('):
        if RE_ in terms_outside_defs(lp):
            bad.add(f'after it the formatter stands at {show(lp)[:80]}, behind source that was not searched')
        if (lp is LP or is_app(lp, 'to')) and not at_least(subs, lp, RS) and not inner:
            bad.add(f'after it the formatter stands at {show(lp)[:80]}, before its start')
        if any(x.op == 'app' and x.a[0] == 'min' for x in terms_outside_defs(lp)):
            bad.add(f'after it the formatter stands at {show(lp)[:80]}, before its start')
        if inner:
            d = mk('app', 'to', mk('app', 'def', inner[-1]))
            if lp is RS:
                # the comparison that keeps the further of the two; a definition in the block ends behind its start
                if not at_least(subs, RS, d):
                    bad.add('definitions written at its start would be found again')
            elif lp is not d and not (lp.op == 'app' and lp.a[0] == 'max' and d in lp.a):
                bad.add(f'after definitions the formatter stands at {show(lp)[:80]}')
    return bad


def at_least(subs, x, y):
    """do the facts say x >= y?"""
    yes = {('Lt', 0): False, ('Le', 0): False, ('Gt', 0): True, ('Ge', 0): True, ('Lt', 1): True, ('Le', 1): True, ('Gt', 1): False, ('Ge', 1): False, ('Eq', 0): True, ('Eq', 1): True}
    for a, b in subs:
        a = noid(a)
        if a.op == 'bin' and b in (TRUE, FALSE) and len(a.a) == 3:
            p, q = norm_(a.a[1]), norm_(a.a[2])
            k = (a.a[0], 0) if p is x and q is y else (a.a[0], 1) if p is y and q is x else None
            if k in yes and yes[k] is (b is TRUE):
                return True
    return False


def terms_outside_defs(v, whole=False):
    out, todo = set(), [v]
    while todo:
        x = todo.pop()
        if type(x) is tuple:
            todo += list(x)
        elif type(x) is N:
            out.add(x)
            if not is_app(x, 'defs'):
                todo += list(x.a)
    return out


_CX = {}


def one(task):
    try:
        return judge(_CX['F'], *_CX['tasks'][task])
    except Budget as x:
        return 0, {f'not analysable within budget ({x})'}, 0


def tasks(F):
    S = [s.name for s in scripts(F)]
    gap = (LP, RS)
    out = []
    for s in S:
        k = s.split('/')[0].rstrip(')')
        b = k[len('Start('):] if k.startswith('Start(') else None
        if b in HOLD:
            for nx in (f'End({b})', 'Start(Paragraph)', 'Start(BlockQuote)', 'Start(List)', 'Rule'):
                inside = (RS, RE_ if nx == f'End({b})' else NS) + ((':',) if b == 'FootnoteDefinition' else ())
                out.append((s, nx, ((gap,) if b in BLOCKS else ()) + (inside,)))
        elif b in BLOCKS or s == 'Rule':
            out.append((s, None, (gap,)))
        elif k.startswith('End(') and k[4:] in HOLD:
            out.append((s, None, ((LP, RE_),)))
        elif not NEVER.search(s):
            out.append((s, None, ()))
    out.append((None, None, ((LP, sym('END')),)))
    return out


# ---- how a definition is written

LINES = sym('V')


class LinesMon(EmitMon):
    """mon: ('go', trace, location, lines taken): the lines of a label or title, a fixed number of them"""
    N = 2

    def inline(self, eng, g):
        return not asks_text(self.F, g)

    def kinds(self, v):
        if v.op == 'app' and v.a[0] == 'elems' and v.a[1] is LINES:
            return 'elem', LINES
        return super().kinds(v)

    def line(self, st, i):
        return agg('()', 0, (sym(f't{i}'), sym(f'r{i}')))

    def nexts(self, eng, cx, st, it, full, site, repeated):
        k = iterated(it, self)
        if k is None or k[1] is not LINES:
            return super().nexts(eng, cx, st, it, full, site, repeated)
        i = st.mon[3]
        if i >= self.N:
            return [(None, st)]
        st.mon = st.mon[:3] + (i + 1,) + st.mon[4:]
        items = [(self.line(st, i), st)]
        for d, w in enumerate(reversed(k[2])):
            out = []
            for x, s in items:
                if w[0] == 'ref':
                    root = ('ev', 'line', i)
                    s.mem[root] = x
                    s._k = None
                    out.append((ref(root, ()), s))
                elif w[0] == 'enumerate':
                    out.append((agg('()', 0, (cint(i), x)), s))
                elif w[0] in ('copied', 'cloned'):
                    out.append((flat(s, eng.content(s, x) if x.op == 'ref' else x, eng), s))
                elif w[0] in ('map', 'filter'):
                    c = eng.closure_of(s, w[1])
                    if c is None:
                        return [(T, s)]
                    a0 = eng.closure_self(s, c[0], c[1], w[1], (site, d))
                    y = x
                    if w[0] == 'filter':
                        root = ('ev', 'kept', i, d)
                        s.mem[root] = x
                        s._k = None
                        y = ref(root, ())
                    for kind_, r, s2 in eng.call_local(cx, c[0], [a0, y], s, (site, 'map', d)):
                        if kind_ == 'ret' and w[0] == 'map':
                            out.append((r, s2))
                        elif kind_ == 'ret' and r is not FALSE:
                            if r is not TRUE:
                                s3 = s2.copy()
                                s3.subs += ((bare(r), FALSE),)
                                out.append((None, s3))
                                s2.subs += ((bare(r), TRUE),)
                            out.append((x, s2))
                        elif kind_ == 'ret':
                            out.append((None, s2))
                elif w[0] in ('peekable', 'fuse', 'by_ref', 'into_iter'):
                    out.append((x, s))
                else:
                    return [(T, s)]
            items = []
            for x, s in out:
                if x is None:
                    r = self.nexts(eng, cx, s, it, full, site, repeated)
                    return [(y, z) for y, z in out if y is not None] + r if len(out) > 1 else r
                items.append((x, s))
        return items

    def on_call(self, eng, cx, st, fr, args, site):
        n, full = fr.get('name', ''), fr.get('full', '')
        if n == 'peek' and args:
            v = noid(bare(self.iterator(eng, st, args[0], True)))
            k = iterated(v, self)
            if k is not None and k[1] is LINES and not any(w[0] == 'filter' for w in k[2]):
                return [('ret', some(sym('peeked')) if st.mon[3] < self.N else NONE, st)]
        if n == 'collect' and args:
            v = noid(bare(self.iterator(eng, st, args[0], True)))
            k = iterated(v, self)
            if k is not None and k[1] is LINES:
                out, work = [], [((), st)]
                while work:
                    xs, s = work.pop()
                    for x, y in self.nexts(eng, cx, s, v, full, site, True):
                        if x is None:
                            out.append(('ret', mk('app', 'list', *xs), y))
                        else:
                            work.append((xs + (noid(flat(y, x, eng)),), y))
                return out
        if n in ('deref', 'as_slice', 'as_ref') and args and is_app(noid(flat(st, args[0], eng)), 'list', None):
            return [('ret', args[0], st)]
        if n in ('join', 'concat') and args:
            v = noid(flat(st, args[0], eng))
            sep = noid(flat(st, args[1], eng)) if n == 'join' else cstr('')
            if is_app(v, 'list', None) and sep.op == 's':
                xs = []
                for x in v.a[1:]:
                    xs += [sep, x] if xs else [x]
                return [('ret', mk('app', 'text', cstr('joined'), *xs), st)]
        if n == 'is_empty' and args and is_app(noid(flat(st, args[0], eng)), 'list', None):
            return [('ret', mk('c', len(noid(flat(st, args[0], eng)).a) == 1), st)]
        if n in ('len', 'is_empty') and args and noid(flat(st, args[0], eng)) is LINES:
            return [('ret', cint(self.N) if n == 'len' else mk('c', not self.N), st)]
        return super().on_call(eng, cx, st, fr, args, site)


def asks_text(F, g):
    """a local function that answers a question about one text"""
    return g['local'] and not g['closure'] and g['argc'] == 1 and F.tyname(g['locals'][0]['ty']) == 'bool' and F.tyname(g['locals'][1]['ty']).lstrip('&').endswith('str')


def flat_text(v):
    """pieces of a text: strings and lines; None if it holds something else"""
    if isinstance(v, str):
        return (v,)
    if v.op == 's':
        return (v.a[0],) if v.a[0] else ()
    if v.op == 'c' and isinstance(v.a[0], str):
        return (v.a[0],)
    if v.op == 'sym':
        return (v,)
    if v.op == 'app' and v.a[0] == 'text':
        from steps import dec
        out = ()
        for x in dec(v.a[2:]):
            p = None if isinstance(x, tuple) else flat_text(x)
            if p is None:
                return None
            out += p
        return glue(out)
    if v.op == 'app' and v.a[0] in ('trim', 'trim_start', 'trim_end') and len(v.a) == 2:
        p = flat_text(v.a[1])
        if p is None:
            return None
        p = list(p)
        while p and v.a[0] != 'trim_end' and isinstance(p[0], str):
            p[0] = p[0].lstrip()
            if p[0]:
                break
            del p[0]
        while p and v.a[0] != 'trim_start' and isinstance(p[-1], str):
            p[-1] = p[-1].rstrip()
            if p[-1]:
                break
            del p[-1]
        return tuple(p)
    return None


def glue(ps):
    out = []
    for x in ps:
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        elif x != '':
            out.append(x)
    return tuple(out)


def lines_judge(F, g, adt, n):
    m = LinesMon(F)
    m.N = n
    self_ = ('ev', 'lines')
    e = Engine(F, m, cap=200, loopcap=12, budget=60000)
    outs = e.run(g, [ref(self_, ()), ref(W, (), True)], {W: sym('W'), self_: agg(adt, 0, (LINES,))}, ('go', (), None, 0), 1, frozenset(LINES.syms | sym('W').syms))
    bad, k = set(), 0
    for o in outs:
        if o.kind != 'ret' or o.ret is not ok():
            continue
        k += 1
        blank, esc = {}, []
        for a, b in o.subs:
            a = noid(a)
            if b not in (TRUE, FALSE):
                continue
            if a.op == 'app' and a.a[0] == 'is_empty' and len(a.a) == 2:
                p = flat_text(a.a[1])
                if p and len(p) == 1 and not isinstance(p[0], str):
                    blank[p[0]] = b is TRUE
                elif p is not None and b is TRUE and all(not isinstance(x, str) or not x.strip() for x in p):
                    blank.update((x, True) for x in p if not isinstance(x, str))
            elif a.op == 'app' and len(a.a) == 2 and isinstance(a.a[0], str):
                p = flat_text(a.a[1])
                if p is not None:
                    esc.append((p, b is TRUE))
        got = ()
        for x in o.mon[1]:
            p = flat_text(x) if not isinstance(x, tuple) else None
            if p is None:
                bad.add(f'writes something else ({show_trace((x,))[:120]})')
                break
            got += p
        else:
            got = glue(tuple(x for x in got if isinstance(x, str) or not blank.get(x)))
            keep = [sym(f't{i}') for i in range(n) if not blank.get(sym(f't{i}'))]
            want = []
            for x in keep:
                want += [' ', x] if want else [x]
            want = tuple(want)
            # the last test that speaks of the end of the text
            about = [v for p, v in esc if keep and tuple(x for x in p if isinstance(x, str) or not blank.get(x))[-1:] == (keep[-1],)]
            if any(v and not any(type(x) is N and not blank.get(x) for x in p) for p, v in esc):
                continue  # an empty text has no escape
            if not keep:
                if got and any(not isinstance(x, str) or x.strip() for x in got):
                    bad.add('something is written where all lines are blank')
                continue
            if not about:
                bad.add('it is not tested whether the text written ends on an open escape')
                continue
            if got != want + (('\\',) if about[-1] else ()):
                bad.add(f'of {n} lines, {"".join("b" if blank.get(sym(f"t{i}")) else "x" for i in range(n))} (b: blank), writes ' + ' + '.join(repr(x) if isinstance(x, str) else show(x) for x in got))
    return k, bad


class PartsMon(EmitMon):
    """the lines of a label or title are written by their own function"""
    LINESFN = ()

    def inline(self, eng, g):
        return g['id'] not in self.LINESFN

    def on_call(self, eng, cx, st, fr, args, site):
        if fr.get('id') in self.LINESFN and len(args) == 2:
            loc = self.target(eng, st, args[1])
            v = noid(flat(st, args[0], eng))
            if v.op == 'ref':
                v = noid(bare(eng.content(st, v)))
            self.emit(eng, st, loc, [mk('app', 'lines', v)])
            return [('ret', ok(), st)]
        return super().on_call(eng, cx, st, fr, args, site)


def parts(ty):
    """the types between the outer brackets of a type"""
    out, d, cur = [], 0, ''
    for c in ty:
        if c in '(<[':
            d += 1
        elif c in ')>]':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    return out + ([cur.strip()] if cur.strip() else [])


def shapes(F, ty, path, linesadt):
    """values of a type: every variant of the enums inside it; [(value, choices)]"""
    if ty.startswith('('):
        return prod(F, [(str(i), x) for i, x in enumerate(parts(ty[1:-1]))], '()', 0, path, linesadt)
    head = re.sub(r'<.*', '', ty)
    inner = [x for x in parts(ty[len(head) + 1:-1]) if not x.startswith("'")]
    if head == 'std::option::Option':
        some_ = [(some(x), ((head.split('::')[-1], 'Some'),) + c) for x, c in shapes(F, inner[0], path + ['Some'], linesadt)]
        return [(NONE, (('Option', 'None'),))] + some_
    if head == linesadt or head not in F.adts or head.startswith(('std::', 'core::', 'alloc::')):
        return [(sym('.'.join(path + (['Range'] if 'Range' in head else []))), ())]
    out = []
    vs = F.adts[head]['variants']
    for i, v in enumerate(vs):
        for x, c in prod(F, list(zip(v['fields'], v['ftys'])), head, i, path + ([v['name']] if len(vs) > 1 else []), linesadt):
            out.append((x, ((head.split('::')[-1], v['name']),) + c if len(vs) > 1 else c))
    return out


def prod(F, fields, head, i, path, linesadt):
    out = [((), ())]
    for n, t in fields:
        out = [(xs + (x,), c + d) for xs, c in out for x, d in shapes(F, t, path + [n], linesadt)]
    return [(agg(head, i, xs), c) for xs, c in out]


QUOTES = {'DoubleQuote': '""', 'SingleQuote': "''", 'Parentheses': '()'}


def written(cx, F):
    lines = [a for a in F.adts if a.endswith('::LinkLines')]
    whole = [a for a in F.adts if a.endswith('::' + LRD)]
    if len(lines) != 1 or len(whole) != 1:
        raise Missing('the types of a definition and of its lines')

    def writers(adt):
        return [g for g in F.local if not g['closure'] and g['impl'] and g['impl'][0].split('<')[0] == adt and g['argc'] == 2 and
                'Debug' not in str(g['impl'][1]) and 'Result<(), std::fmt::Error>' in F.tyname(g['locals'][0]['ty'])]
    lw, dw = writers(lines[0]), writers(whole[0])
    cx.oblige('writers', bool(lw) and bool(dw), 'no function that writes a definition, or the lines of its label and title', loop_fn(F)['sp'])
    for g in lw:
        bad, k = set(), 0
        for n in (1, 2, 3):
            a, b = lines_judge(F, g, lines[0], n)
            k += a
            bad |= b
        cx.count('paths', k)
        cx.oblige(f'lines:{g["path"]}', k > 0 and not bad, f'{g["name"]} of label and title lines: ' + ('; '.join(sorted(bad))[:600] or 'no path analysed'), g['sp'])
    # the test for an open escape
    for g in F.local:
        if g['closure'] or g['argc'] != 2 or F.tyname(g['locals'][0]['ty']) != 'bool' or [F.tyname(l['ty']) for l in g['locals'][1:3]] != ['char', 'bool']:
            continue
        bad = set()
        for c in ('\\', 'a', ']'):
            for prev in (False, True):
                e = Engine(F, EmitMon(F), cap=20, loopcap=4, budget=4000)
                outs = e.run(g, [mk('c', c), mk('c', prev)], {}, ('go', (), None), 1, frozenset())
                r = {o.ret for o in outs if o.kind == 'ret'}
                if r != {mk('c', c == '\\' and not prev)}:
                    bad.add(f'{c!r} after {"an open escape" if prev else "no escape"} gives {", ".join(sorted(map(show, r)))}')
        cx.oblige(f'escape:{g["path"]}', not bad, f'{g["name"]}: ' + '; '.join(sorted(bad)), g['sp'])
    # the marker of a title, by the character that opens it
    for g in F.local:
        if g['closure'] or g['argc'] != 1 or F.tyname(g['locals'][1]['ty']) != 'char' or not re.match(r'std::(result::Result|option::Option)<[\w:]*TitleMarker', F.tyname(g['locals'][0]['ty'])):
            continue
        adt = [a for a in F.adts if a.endswith('::TitleMarker')]
        vs = [v['name'] for v in F.adts[adt[0]]['variants']] if adt else []
        bad = set()
        for c in '"\'()<a ':
            e = Engine(F, EmitMon(F), cap=20, loopcap=4, budget=4000)
            r = {flat_ret(o.ret) for o in e.run(g, [mk('c', c)], {}, ('go', (), None), 1, frozenset()) if o.kind == 'ret'}
            want = [i for i, n in enumerate(vs) if QUOTES.get(n, '??')[0] == c]
            got = {x for x in r if x is not None}
            if got != set(want) or want and None in r:
                bad.add(f'{c!r} is taken for {", ".join(str(vs[x]) if isinstance(x, int) and x < len(vs) else "no marker" for x in r) or "nothing"}')
        ch = sym('CH')
        e = Engine(F, EmitMon(F), cap=20, loopcap=4, budget=4000)
        for o in e.run(g, [ch], {}, ('go', (), None), 1, frozenset(ch.syms)):
            if o.kind == 'ret' and flat_ret(o.ret) is not None:
                eq = {b.a[0] if isinstance(b.a[0], str) else b.a[0] for a, b in o.subs if a is ch and b.op == 'c'} | \
                     {a.a[2].a[0] for a, b in o.subs if a.op == 'bin' and a.a[0] == 'Eq' and a.a[1] is ch and a.a[2].op == 'c' and b is TRUE}
                eq = {chr(x) if isinstance(x, int) else x for x in eq}
                if not eq & set('"\'('):
                    bad.add('takes ' + (', '.join(map(repr, sorted(eq))) or 'other characters') + ' for a marker')
        cx.oblige(f'marker:{g["path"]}', not bad, f'{g["name"]}: ' + '; '.join(sorted(bad)), g['sp'])
    PartsMon.LINESFN = tuple(g['id'] for g in lw)
    for g in dw:
        for v, choices in shapes(F, whole[0], ['D'], lines[0]):
            ch = dict(choices)
            m = PartsMon(F)
            e = Engine(F, m, cap=60, loopcap=6, budget=60000)
            root = ('ev', 'def')
            outs = e.run(g, [ref(root, ()), ref(W, (), True)], {W: sym('W'), root: v}, ('go', (), None), 1, frozenset(v.syms | sym('W').syms))
            leaves = sorted(x.a[0] for x in leafs(v))
            dest = [x for x in leaves if ch.get('LinkDestination', '?') in x.split('.')]
            title = [x for x in leaves if 'Some' in x.split('.') and 'Range' not in x]
            bad = set()
            for o in outs:
                if o.kind != 'ret' or o.ret is not ok():
                    continue
                tr = o.mon[1]
                s = ''
                for x in tr:
                    if isinstance(x, str):
                        s += x
                    elif type(x) is N and x.op == 'app' and x.a[0] == 'lines' and x.a[1].op == 'sym':
                        s += '{' + x.a[1].a[0] + '}'
                    elif type(x) is N and x.op == 'sym':
                        s += '{' + x.a[0] + '}'
                    elif type(x) is N and x.op == 'app' and x.a[0] in ('as_ref', 'deref', 'as_str') and x.a[1].op == 'sym':
                        s += '{' + x.a[1].a[0] + '}'
                    else:
                        s += '{?}'
                label = re.match(r'\[\{([^}]*)\}\]: ', s)
                if not label or 'Some' in label.group(1).split('.') or ch.get('LinkDestination', '?') in label.group(1).split('.'):
                    bad.add(f'writes {s!r}: its label does not come first')
                    continue
                rest = s[label.end():]
                d = '|'.join(re.escape('{' + x + '}') for x in dest) or '(?!)'
                pat = f'<({d})>' if 'Bracket' in ch.get('LinkDestination', '?') else f'({d})'
                if ch.get('Option') == 'Some':
                    q = QUOTES.get(ch.get('TitleMarker'), '""')
                    tt = '|'.join(re.escape('{' + x + '}') for x in title) or '(?!)'
                    pat += ' ' + re.escape(q[0]) + f'({tt})' + re.escape(q[1])
                if not re.fullmatch(pat, rest):
                    bad.add(f'writes {s!r}')
            k = sum(o.kind == 'ret' and o.ret is ok() for o in outs)
            cx.count('paths', k)
            cx.oblige(f'definition:{g["path"]}:' + '/'.join(c[1] for c in choices), k > 0 and not bad, f'{g["name"]} of a definition with ' + ', '.join(f'{a} {b}' for a, b in choices) + ': ' + ('; '.join(sorted(bad))[:500] or 'no path analysed'), g['sp'])


def flat_ret(v):
    """the variant in Ok(variant) or Some(variant); None for the other case"""
    if v.op == 'agg' and (v.a[0].endswith('Result') and v.a[1] == 0 or v.a[0].endswith('Option') and v.a[1] == 1):
        x = v.a[2][0]
        return x.a[1] if x.op == 'agg' else '?'
    return None if v.op == 'agg' else '?'


def leafs(v):
    if v.op == 'sym':
        return {v}
    out = set()
    for x in v.a[2] if v.op == 'agg' else ():
        out |= leafs(x)
    return out


def run(cx):
    F = cx.facts('lib')
    absint.MAXDEPTH = 64
    cx.oblige('finders', bool(finders(F)), 'no function that finds definitions in a text', loop_fn(F)['sp'])
    ts = tasks(F)
    _CX.update(F=F, tasks=ts)
    for (name, nxt, want), (n, bad, steps) in zip(ts, pool(one, list(range(len(ts))))):
        name = name or 'end of input'
        cx.count('paths', n)
        cx.count('steps', steps)
        cx.oblige(f'step:{name}' + (f'/{nxt}' if nxt else ''), n > 0 and not bad, f'{name}' + (f' followed by {nxt}' if nxt else '') + ': ' + ('; '.join(sorted(bad))[:600] or 'no path analysed'), loop_fn(F)['sp'])
    written(cx, F)
