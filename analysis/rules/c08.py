"""For every event that carries content the loop body is analysed from an unknown formatting state, and
every path's writes to the current buffer are collected as terms over the input, the event's range and
its payload.  Each must be the content (whole, or character by character, or line by line, in order and
once), with nothing but escaping backslashes, line ends, line prefixes and blanks at line ends added.
Local helpers that cut text into lines, take off line prefixes or produce blanks are checked to do only
that."""
from util import *
from steps import *

RULE = __doc__
ASSUMES = ['std text functions (trimming, indexing, lines, chars) do what they document',
           'the ranges of the parser\'s events delimit their source text',
           'what the writer of the surrounding construct does with the text is a different property']
GAP = ('gap',)
MARK1, MARK2 = FIRST, LATER
_CX = {}
INPUT = sym('S.input')


def idx(x, r):
    return mk('app', 'index', x, r)


SRC = idx(INPUT, RANGE)


def app(n, *a):
    return mk('app', n, *a)


def whole(tr, X):
    """kind of the parts if tr starts with one whole loop over the parts of X"""
    return tr[0][1] if tr and isinstance(tr[0], tuple) and tr[0][0] == 'each' and tr[0][2] is X and tr[0][3] is None else None


class Spec:
    """matches traces against the allowed forms"""

    def __init__(self, F, mon):
        self.F, self.m = F, mon
        self.blanks = set()
        self.esc = True

    def bodies(self, kind, X):
        return {tuple(y for y in b if y not in (MARK1, MARK2)) for b in self.m.bodies.get((kind, X), ())}

    def is_blank(self, x):
        """a value that consists of blanks: a local function of numbers/texts checked separately"""
        if isinstance(x, str):
            return x.strip(' \t') == ''
        if type(x) is N and x.op == 'app':
            if x.a[0] == 'repeat' and x.a[1].op == 's':
                return x.a[1].a[0].strip(' \t') == ''
            if x.a[0] == 'index' and x.a[1].op == 's':
                return x.a[1].a[0].strip(' \t') == ''
            g = next((f for f in self.F.local if f['path'] == x.a[0]), None)
            if g is not None:
                self.blanks.add(g['id'])
                return True
        return False

    def chars(self, X, k='char'):
        """what a whole loop over the characters of X may write"""
        c = app('charof', X)
        bs = self.bodies(k, X)
        return bool(bs) and all(b == (c,) or self.esc and b == ('\\', c) for b in bs)

    def piece(self, tr, X):
        """tr starts with X written once; the rest, or None"""
        if self.esc and tr and tr[0] == '\\' and len(tr) > 1 and tr[1] is X:
            return tr[2:]
        if tr and tr[0] is X:
            return tr[1:]
        k = whole(tr, X)
        if k and base_kind(k) == 'char' and self.chars(X, k):
            return tr[1:]
        return None

    def line(self, b, X, end):
        """one iteration over the lines of X; end: must the line end be written?"""
        for L in (app('lineof', X), app('strip', app('lineof', X))):
            for E in (L, app('trim_end', L)):
                rest = self.piece(b, E)
                if rest is None:
                    continue
                if rest and rest[0] != GAP and self.is_blank(rest[0]):
                    rest = rest[1:]
                if rest == (GAP,) or rest == () and not end:
                    return True
        return False

    def lines(self, tr, X, end=False):
        k = whole(tr, X)
        if k and base_kind(k) == 'line':
            bs = self.bodies(k, X)
            # where the last line is told apart by counting, only ask that other lines can end
            if bs and all(self.line(b, X, end) or not self.m.peeked and self.line(b, X, False) and b + (GAP,) in bs for b in bs):
                return tr[1:]
        return None


def gapless(tr):
    return tr[1:] if tr and tr[0] == GAP else tr


def one(sp, tr, X):
    return sp.piece(tr, X) == ()


def t_text(sp, tr):
    tr = gapless(tr)
    return one(sp, tr, SRC) or one(sp, tr, PAY)


def t_source(sp, tr):
    return one(sp, gapless(tr), SRC)


PAY = sym('e.Text.0')
NOTE = sym('e.FootnoteReference.0')


def whole_run(sp, x):
    """the run of backticks the event begins with, found by a search for another character"""
    from rules.c11 import run_of
    return run_of(sp.F, x, sp.st)


TICK = (mk('c', '`'), cstr('`'))
INNER = [app('trim_matches', SRC, x) for x in TICK] + \
    [app('trim_end_matches', app('trim_start_matches', SRC, x), x) for x in TICK] + \
    [app('trim_start_matches', app('trim_end_matches', SRC, x), x) for x in TICK]


def ticks(x):
    """the run of backticks at the front of the event"""
    if not (type(x) is N and x.op == 'app' and x.a[0] == 'index' and x.a[1] is SRC and x.a[2].op == 'agg' and x.a[2].a[0].endswith('RangeTo')):
        return False
    k = x.a[2].a[2][0]
    return any(k is binop('Sub', app('len', SRC), app('len', app('trim_start_matches', SRC, t))) for t in TICK)


def t_code(sp, tr, end=False):
    if tr == (SRC,):
        return True
    # fences around the lines between them
    if len(tr) >= 2 and (ticks(tr[0]) or whole_run(sp, tr[0])):
        for X in INNER:
            rest = sp.lines(tr[1:], X, end)
            if rest is not None:
                return len(rest) == 1 and rest[0] is tr[0]
        return False
    return sp.lines(tr, SRC, end) == ()


def t_inline(sp, tr, end=False):
    return tr == (SRC,) or sp.lines(tr, SRC, end) == ()


def t_trimmed(sp, tr):
    return gapless(tr) in ((app('trim_end', SRC),), (SRC,))


def t_note(sp, tr):
    return tr == ('[^', NOTE, ']')


def joined(tr):
    """adjacent literals, with line ends as text"""
    return tr


def t_soft(sp, tr):
    return len(tr) == 1 and tr[0][0] == WS and tr[0][1] >= 1


def lit_gap(tr):
    """(text before a final line end) of a literal trace, or None"""
    if tr and isinstance(tr[-1], str) and tr[-1].endswith('\n') and len(tr) == 1:
        return tr[-1][:-1]
    return None


def same_break(src, out):
    """the same kind of hard line break"""
    a, b = src.rstrip('\r\n'), out.rstrip('\r\n')
    if src == a or out == b:
        return False
    return a == b or (len(a) >= 2 and a.strip(' ') == '' and len(b) >= 2 and b.strip(' ') == '')


def analyse(F, script, coarse=True, assume=None, more=False, follow=False, eq=False, stacks=None, remember=None):
    m = TraceMon(F, script)
    m.coarse, m.assume, m.more, m.follow_preds, m.subst_eq = coarse, assume, more, follow, eq
    m.remember = remember
    e, outs = run_step(F, script, m, cap=6, loopcap=4, budget=120000, init_mon=((),), stacks=stacks)
    return m, e


def job(name):
    F, S = _CX['F'], _CX['S']
    try:
        return leaf(F, S, name)
    except Budget as x:
        return name, 0, [('budget', f'{name}: not analysable within budget ({x})')], (), (), (), 0


def leaf(F, S, name):
    bad, n, steps = [], 0, 0
    blanks, split, strip = set(), set(), set()

    def go(kind, test, what, script=None, **kw):
        nonlocal n, steps
        m, e = analyse(F, script or S[name], **kw)
        sp = Spec(F, m)
        steps += e.steps
        if not m.ends:
            bad.append((kind, f'{name} is never handled'))
        for init, cur, mon, st in m.ends:
            n += 1
            tr = tidy(mon[1], m.bodies)
            sp.st = st
            sp.esc = kind != 'escape'
            if not test(sp, tr):
                bad.append((kind, f'{what}; it writes: {show_trace(tr, m.bodies)[:600]}'))
        blanks.update(sp.blanks)
        split.update(m.splitters)
        strip.update(m.stripped)

    def payload(val):
        ev = S[name].term
        return Script(name, mk('agg', ev.a[0], ev.a[1], (val,)))
    if name == 'Text':
        go('content', t_text, 'text is not written once and unchanged')
        tags = F.adts[TAG]['variants']
        html = [i for i, v in enumerate(tags) if v['name'] == 'HtmlBlock'][0]
        top = mk('X', sym('top'), frozenset({html}))
        go('source', t_source, 'outside HTML blocks text is not taken from the input as it stands',
           assume=lambda v: False if v.a[0] == 'is_empty' and v.a[1] is SRC else None, follow=True,
           stacks={'nested_context': vec(sym('S.nested_context'), (top,))})
    elif name == 'Code':
        go('content', t_code, 'a code span is not written once and unchanged')
        go('escape', t_code, 'backslashes are added to a code span, where they are content')
        go('lines', lambda sp, tr: t_code(sp, tr, True), 'the line ends of a code span are not kept', more=True)
    elif name == 'InlineHtml':
        go('content', t_inline, 'inline HTML is not written once and unchanged')
        go('escape', t_inline, 'backslashes are added to inline HTML, where they are content')
        go('lines', lambda sp, tr: t_inline(sp, tr, True), 'the line ends of inline HTML are not kept', more=True)
    elif name in ('Html', 'Rule'):
        go('content', t_trimmed, f'{"a line of an HTML block" if name == "Html" else "a thematic break"} is not written once and unchanged')
    elif name == 'FootnoteReference':
        go('content', t_note, 'a footnote reference is not written as [^label]')
    elif name == 'TaskListMarker':
        go('checked', lambda sp, tr: tr == ('[x] ',), 'a checked task is not written as [x]', script=payload(TRUE))
        go('unchecked', lambda sp, tr: tr == ('[ ] ',), 'an unchecked task is not written as [ ]', script=payload(FALSE))
    elif name == 'SoftBreak':
        go('content', t_soft, 'a line end in a paragraph is not kept', coarse=False)
    elif name == 'HardBreak':
        def brk(sp, tr):
            if tr == (SRC,):
                return True
            src = [b.a[0] for a, b in sp.st.subs if a is SRC and b.op == 's']
            out = lit_gap(tr)
            return out is not None and len(src) == 1 and same_break(src[0], out + '\n')
        go('content', brk, 'a hard line break is not kept', coarse=False, eq=True, remember=lambda a, b: a is SRC)
    return name, n, sorted(set(bad)), sorted(blanks), sorted(split), sorted(strip), steps


class HelperMon(Monitor):
    """a small function over text as terms"""

    def __init__(self, F, stripping=False):
        self.F, self.stripping = F, stripping
        self.entry = None

    def inline(self, eng, g):
        return g['closure'] or not g['local'] or not looping(eng, g)

    def call(self, eng, cx, st, fr, args, site):
        F = self.F
        n = fr.get('name', '')
        p = fr.get('res') or fr['fn']
        full = fr.get('full', '')
        r = identity_model(eng, st, fr, args)
        if r is not None:
            return r
        if n == 'deref' and len(args) == 1 and (fr.get('rkrate') or fr.get('krate')) in STD:
            v = flat(st, args[0], eng)
            if v is not T:
                return [('ret', mk('app', 'id', v), st)]
        if n in INTERNAL and fr.get('trait', '').split('<')[0].endswith('Iterator'):
            def step(s):
                item = PFX if self.stripping and 'Cow<' in full.split(' as ')[0] else eng.fresh(s, ('i', site))
                return [(item, s), (None, s.copy())]

            def counted(s):
                r = step(s)
                if self.stripping and 'Cow<' in full.split(' as ')[0]:
                    r[0][1].mon = (0,)
                return r
            r = internal(eng, cx, st, fr, args, site, counted)
            if r is not None:
                return r
        if self.stripping:
            if n == 'next' and 'str::Chars' in full.split(' as ')[0] and args[0].op == 'ref':
                v = noid(flat(st, eng.content(st, args[0]), eng))
                if v is app('chars', TEXT):
                    return [('ret', some(FIRST), st), ('ret', NONE, st.copy())]
            if args and PURE.search(p):
                vals = [noid(flat(st, a, eng)) for a in args]
                if vals[0] is TEXT and n == 'chars':
                    return [('ret', app('chars', TEXT), st)]
                if vals[0] is FIRST and n in ('is_whitespace', 'len_utf8'):
                    return [('ret', app(n, FIRST), st)]
                if n in ('index', 'get') and vals[0] is TEXT and vals[1].op == 'agg' and vals[1].a[0].endswith('RangeFrom'):
                    k = vals[1].a[2][0]
                    blank = any(a is app('is_whitespace', FIRST) and b is TRUE for a, b in st.subs)
                    if k is app('len_utf8', FIRST) and blank:
                        drop_first(st)
                        return [('ret', TEXT if n == 'index' else some(TEXT), st)]
            if n == 'next' and 'Cow<' in full and fr.get('trait', '').split('<')[0].endswith('Iterator'):
                st.mon = (0,)
                return [('ret', some(PFX), st), ('ret', NONE, st.copy())]
            if args and PURE.search(p):
                v = noid(flat(st, args[0], eng))
                if v is TEXT:
                    r = self.strip(eng, st, n, [noid(flat(st, a, eng)) for a in args[1:]], fr, args)
                    if r is not None:
                        return r
            if fr.get('trait', '').split('<')[0].endswith('Iterator'):
                return [('ret', eng.fresh(st, ('r', site)), st)]
            return None
        if PURE.search(p):
            vals = [noid(flat(st, a, eng)) for a in args]
            if not any(v is T for v in vals):
                return [('ret', mk('app', short_name(p), *vals), st)]
        if fr.get('trait', '').split('<')[0].endswith('Iterator') or 'Peekable' in p:
            return [('ret', eng.fresh(st, ('r', site)), st)]
        return None

    def strip(self, eng, st, n, rest, fr, args):
        """what removes only blanks or one quote marker from the front of the text leaves `TEXT`"""
        full = fr.get('full', '')
        quote = bool(rest) and rest[0].op in ('c', 's') and rest[0].a[0] == '>'
        blank = 'is_whitespace' in full or bool(rest) and (rest[0].op in ('c', 's') and rest[0].a[0] in (' ', '\t') or
                                                         rest[0].op == 'fn' and 'is_whitespace' in str(rest[0].a) or
                                                         rest[0].op == 'agg' and all(x.op == 'c' and x.a[0] in ' \t' for x in rest[0].a[2]))
        if n == 'trim_start' or n == 'trim_start_matches' and blank:
            drop_first(st)
            return [('ret', TEXT, st)]
        if n == 'strip_prefix' and (quote or blank):
            y, no = st, st.copy()
            drop_first(y)
            if quote:
                if st.mon[0] >= 1:
                    y.mon = (2,)
                else:
                    y.mon = (1,)
            return [('ret', some(TEXT), y), ('ret', NONE, no)]
        if n in ('starts_with', 'is_empty', 'len'):
            return None
        return None


TEXT = sym('text')
FIRST = sym('first')


def drop_first(st):
    """the text has changed: nothing is known about its first character any more"""
    st.subs = tuple((a, b) for a, b in st.subs if FIRST not in a.syms)
    st.mem = {r: (T if FIRST in v.syms else v) for r, v in st.mem.items()}
    st._k = None


def helper(F, g, m, args, mem, mon=(), loopcap=1, phi=True):
    e = Engine(F, m, cap=20, loopcap=loopcap, budget=20000)
    e.phi = phi
    ins = set()
    for a in list(args) + list(mem.values()):
        ins |= a.syms
    return e.run(g, args, mem, mon, 1, frozenset(ins)), e


def value_str(F, v):
    """the text of a constant or static"""
    if v.op == 's':
        return v.a[0]
    if v.op == 'static':
        s = F.statics.get(v.a[0])
        if s and not s['mut'] and 'str' in (s.get('v') or {}):
            return s['v']['str']
    return None


def check_blanks(F, fid):
    g = F.fns[fid]
    m = HelperMon(F)
    outs, e = helper(F, g, m, [sym(f'A.{i}') for i in range(g['argc'])], {})
    bad = []
    for o in outs:
        if o.kind != 'ret':
            continue
        v = noid(flat_out(e, o))
        v = plain(v)
        while v.op == 'app' and v.a[0] in ('index', 'repeat', 'get_unchecked'):
            v = plain(v.a[1])
        s = value_str(F, v)
        if s is None or s.strip(' \t'):
            bad.append(f'{g["path"]} may return something other than blanks: {show(o.ret)[:120]}')
    return g['path'], len(outs), sorted(set(bad)), g['sp']


def flat_out(e, o):
    return flat(State(o.mem, o.mon), o.ret, e)


def check_strip(F, fid):
    """returns the text with blanks and at most one quote marker per prefix entry taken off its front"""
    g = F.fns[fid]
    m = HelperMon(F, True)
    args = [sym('state'), TEXT]
    outs, e = helper(F, g, m, args, {}, (0,), loopcap=4, phi=False)
    bad = []
    for o in outs:
        if o.kind != 'ret':
            continue
        if noid(plain(flat_out(e, o))) is not TEXT:
            bad.append(f'{g["path"]} may take more than blanks and quote markers off a line: {show(o.ret)[:120]}')
        if o.mon[0] > 1:
            bad.append(f'{g["path"]} may take several quote markers off a line for one entry of the prefix')
    return g['path'], len(outs), sorted(set(bad)), g['sp']


def check_split(F, maker, nxt):
    """the pieces follow one another without anything but line ends between them"""
    f, g = F.fns[maker], F.fns[nxt]
    bad = []
    # the iterator starts at the beginning of the text
    outs, e = helper(F, f, HelperMon(F), [TEXT], {})
    adt = F.tyname(f['locals'][0]['ty']).split('<')[0]
    a = F.adts.get(adt)
    tys = a['variants'][0].get('ftys') if a else None
    if not tys:
        return f['path'], 0, [f'{f["path"]}: cannot tell the fields of {adt}'], f['sp']
    ti = [i for i, t in enumerate(tys) if t.endswith('str')]
    oi = [i for i, t in enumerate(tys) if t == 'usize']
    if len(ti) != 1 or len(oi) > 1:
        return f['path'], 0, [f'{f["path"]}: cannot tell the position in {adt}'], f['sp']
    ti, oi = ti[0], oi[0] if oi else None
    for o in outs:
        v = flat_out(e, o)
        if noid(field(v, (None, ti))) is not TEXT or oi is not None and field(v, (None, oi)) not in (cint(0), mk('c', False)):
            bad.append(f'{f["path"]} does not start at the beginning of the text')
    n = len(outs)
    it = sym('it')
    fs = [sym(f'it.{i}') for i in range(len(tys))]
    root = ('ev', 'it')
    outs, e = helper(F, g, HelperMon(F), [ref(root, (), True)], {root: agg(adt, 0, fs)})
    text, off = fs[ti], (fs[oi] if oi is not None else None)
    for o in outs:
        if o.kind != 'ret':
            continue
        n += 1
        r = flat_out(e, o)
        after = o.mem[root]
        if r.op == 'agg' and r.a[0] == OPT and r.a[1] == 0:
            if not at_end(o.subs, text, off):
                bad.append(f'{g["path"]} may stop before the end of the text')
            continue
        p = noid(plain(field(r, (1, 0)) if r.op != 'agg' else r.a[2][0]))
        t2 = noid(plain(flat(State(o.mem, o.mon), field(after, (None, ti)), e)))
        while p.op == 'app' and p.a[0] in ('trim_end_matches', 'trim_end') and (p.a[0] == 'trim_end' or line_ends(p.a[2])):
            p = p.a[1]
        if oi is not None:
            o2 = field(after, (None, oi))
            if t2 is not text:
                bad.append(f'{g["path"]} changes the text it walks over')
            if not (p.op == 'app' and p.a[0] == 'index' and p.a[1] is text and p.a[2].op == 'agg' and p.a[2].a[2][0] is off and
                    len(p.a[2].a[2]) == 2 and p.a[2].a[2][1] is o2 and o2 is not T):
                bad.append(f'{g["path"]} may skip or repeat a part of the text: piece {show(p)[:110]}, next position {show(o2)[:80]}')
        else:
            ok_ = p.op == 'app' and p.a[0] == 'index' and p.a[1] is text and t2.op == 'app' and t2.a[0] == 'index' and t2.a[1] is text and \
                p.a[2].a[0].endswith('RangeTo') and t2.a[2].a[0].endswith('RangeFrom') and p.a[2].a[2][0] is t2.a[2].a[2][0] and p.a[2].a[2][0] is not T
            if not ok_:
                bad.append(f'{g["path"]} may skip or repeat a part of the text: piece {show(p)[:110]}, rest {show(t2)[:80]}')
    return f['path'], n, sorted(set(bad)), g['sp']


def line_ends(v):
    if v.op == 'agg':
        return all(x.op == 'c' and x.a[0] in '\r\n' for x in v.a[2])
    return v.op in ('c', 's') and str(v.a[0]).strip('\r\n') == ''


def at_end(subs, text, off):
    """does the path know that the position has reached the end of the text?"""
    ln = app('len', text)
    for a, b in subs:
        if off is not None and a.op == 'bin' and b.op == 'c':
            op, x, y = a.a
            if (op, x, y, bool(b.a[0])) in (('Ge', off, ln, True), ('Lt', off, ln, False), ('Eq', off, ln, True), ('Ne', off, ln, False),
                                            ('Le', ln, off, True), ('Gt', ln, off, False)):
                return True
        if a.op == 'app' and a.a[0] == 'is_empty' and b.op == 'c' and b.a[0]:
            x = a.a[1]
            if off is None and x is text or off is not None and x.op == 'app' and x.a[0] == 'index' and x.a[1] is text and \
                    x.a[2].op == 'agg' and x.a[2].a[0].endswith('RangeFrom') and x.a[2].a[2][0] is off:
                return True
    return False


def run(cx):
    F = cx.facts('lib')
    S = {s.name: s for s in scripts(F)}
    _CX.update(F=F, S=S)
    names = [n for n in ('Text', 'Code', 'InlineHtml', 'Html', 'Rule', 'FootnoteReference', 'TaskListMarker', 'SoftBreak', 'HardBreak')]
    blanks, split, strip = set(), set(), set()
    for name, n, bad, bl, sp, stp, steps in pool(job, names):
        cx.count('paths', n)
        cx.count('steps', steps)
        for k, msg in bad:
            cx.violation(f'{name}:{k}', f'{name}: {msg}', loop_fn(F)['sp'])
        bad = [(k, m) for k, m in bad if k != 'escape']
        cx.oblige(f'event:{name}', n > 0 and not bad, '; '.join(m for _, m in bad)[:500] or f'{name}: no path analysed', loop_fn(F)['sp'])
        cx.samples.append(f'{name}: {n} paths')
        blanks |= set(bl)
        split |= set(sp)
        strip |= set(stp)
    for fid in sorted(blanks):
        path, n, bad, sp = check_blanks(F, fid)
        cx.oblige(f'blanks:{path}', n > 0 and not bad, '; '.join(bad)[:400], sp)
    for fid in sorted(strip):
        path, n, bad, sp = check_strip(F, fid)
        cx.oblige(f'prefix:{path}', n > 0 and not bad, '; '.join(bad)[:400], sp)
    for name in sorted(split):
        path, n, bad, sp = check_split(F, *splitters(F)[name])
        cx.oblige(f'lines:{path}', n > 0 and not bad, '; '.join(bad)[:400], sp)
    cx.counts['helpers'] = len(blanks) + len(strip) + len(split)
    cx.notes.append('helpers checked: ' + ', '.join(sorted([F.fns[x]['path'] for x in blanks | strip] + list(split))))
