"""The steps that open and close headings are analysed from an unknown formatting state for every level, and for
every kind of heading the formatter tells apart.  What is kept at the opening must be what the parser says,
with the underline taken from the last line of the source exactly where one is known to be there.  What is
written at the close must be as many number signs as the level, a blank exactly where text is known to
follow, and the lines of the finished text.  The function that finishes the text is analysed for every kind,
with and without id, classes and attributes: each path may take blanks off the end of the text, and number
signs or empty braces that it puts back escaped (number signs for good only where blanks that the parser does
not know follow them); it must write the attributes it has, all of them, once and in order, set off by single
blanks, and the underline, once, on a line of its own."""
from util import *
from steps import *
from emit import *
from rules.c08 import GAP, SRC, app, HelperMon
from rules.c09 import writers, Lines
from rules.c11 import accepts, closure_id, PredMon
from rules.c12 import LinkMon, View
import absint
import re

RULE = __doc__
ASSUMES = ['std text functions do what they document, and clones are equal to what they are cloned from',
           'textual order of the parser\'s attributes is theirs in the input',
           'which underline the parser accepts, and that a heading in one line has no line end, is the parser\'s business']
LV = 'pulldown_cmark::HeadingLevel'
_CX = {}
BUF = sym('W.buffer')


def nothing(F, it):
    """is it known that an iterator yields nothing, as no element passes its filter?"""
    while it.op == 'app' and it.a[0] in ('take', 'skip', 'rev', 'filter'):
        if it.a[0] == 'filter':
            x = it.a[1]
            while x.op == 'app' and x.a[0] == 'rev':
                x = x.a[1]
            if x.op == 'app' and x.a[0] in ('bytes', 'chars') and all(accepts(F, it.a[2], chr(c)) is False for c in range(128)):
                return x.a[0] == 'bytes' and all(accepts(F, it.a[2], chr(c)) is False for c in range(128, 256))
        it = it.a[1]
    return False


class HeadMon(EmitMon):
    """the text collected for a heading is known wherever it is moved"""

    def mine(self, eng, st, a):
        if a.op != 'ref':
            return False
        v = bare(eng.read(st.mem, *self.target(eng, st, a)))
        return v is BUF or v.op == 'app' and v.a[0] == WROTE and v.a[1] is BUF


    def on_other(self, eng, cx, st, fr, args, site):
        n = fr.get('name', '')
        tr = fr.get('trait', '').split('<')[0]
        if tr.endswith('Iterator') and n in ('find_map',) and not any(STATEMUT.search(self.F.tyname(t)) for t in self.captured(eng, st, args)):
            vals = [self.whole(eng, st, a) for a in args]
            if all(known(v) for v in vals):
                return [('ret', mk('app', n, *vals), st)]
        if n in ('is_empty', 'len') and len(args) == 1 and (fr.get('rkrate') or fr.get('krate')) in STD:
            v = noid(flat(st, eng.content(st, args[0]), eng))
            if v in ITEMS or v is VEC0:
                return [('ret', (TRUE if v is VEC0 else FALSE) if n == 'is_empty' else cint(0) if v is VEC0 else mk('app', 'len', v), st)]
        if tr.endswith('clone::Clone') and n == 'clone' and args:
            v = flat(st, eng.content(st, args[0]), eng)
            if v.op == 'agg' and known(v):
                return [('ret', v, st)]
        if tr.endswith('Iterator') and n == 'next' and args and args[0].op == 'ref' and nothing(self.F, noid(self.iterator(eng, st, args[0], True))):
            return [('ret', NONE, st)]
        return super().on_other(eng, cx, st, fr, args, site)

    # ---- versions of the text: a change is told from another by where it happens
    def on_call(self, eng, cx, st, fr, args, site):
        old, self.site = getattr(self, 'site', None), site
        try:
            return super().on_call(eng, cx, st, fr, args, site)
        finally:
            self.site = old

    def touch(self, eng, st, loc):
        v = bare(eng.read(st.mem, *loc))
        if not (v is BUF or v.op == 'app' and v.a[0] == WROTE and v.a[1] is BUF):
            return super().touch(eng, st, loc)
        new = mk('app', WROTE, BUF, cstr(str(self.site)))
        for r, x in list(st.mem.items()):
            if r != loc[0] and mentions(x, new):
                st.mem[r] = T
        st.subs = tuple((a, b) for a, b in st.subs if not mentions(a, new))
        eng.write(st.mem, loc[0], loc[1], new)
        st._k = None

    def string(self, eng, cx, st, fr, args, n, site):
        if n in ('insert', 'insert_str', 'split_off') and len(args) >= 2:
            loc = self.target(eng, st, args[0])
            v, k = bare(eng.read(st.mem, *loc)), noid(bare(flat(st, args[1], eng)))
            if before_signs(self.F, k, v):
                tail = mk('app', 'index', v, agg('std::ops::RangeFrom', 0, (k,)))
                self.put(st, pop_entry('#'))
                self.emit(eng, st, loc, [] if n == 'split_off' else self.texts(eng, st, args[-1], False) + [tail])
                return [('ret', tail if n == 'split_off' else UNIT, st)]
        return super().string(eng, cx, st, fr, args, n, site)

    def cut(self, eng, st, v, k):
        if before_signs(self.F, k, v):
            return '#'
        if k.op == 'app' and k.a[0] == 'len' and k.a[1].op == 'app' and k.a[1].a[0] == 'trim_end' and noid(bare(k.a[1].a[1])) is v:
            return 'all ws'
        x = k
        while x.op in ('fld', 'field'):
            x = x.a[0]
        if x.op == 'app' and x.a[0] == 'rfind' and noid(bare(x.a[1])) is v and accepts(self.F, x.a[2], '{') and not accepts(self.F, x.a[2], 'a'):
            return 'to {'
        return super().cut(eng, st, v, k)

    def put(self, st, x):
        if T not in st.mon[1]:
            super().put(st, x)

    def reason(self, eng, st, v):
        """why a character is taken off the end: what it is known to be, or else what it is known not to be"""
        b, best = bare(v), '?'
        for a, x in st.subs:
            if a.op == 'app' and a.a[0] == 'ends_with' and a.a[1] is b:
                c = self.patclass(eng, st, a.a[2])
                if c is None:
                    continue
                if x is TRUE:
                    return '|'.join(sorted(c))
                if x is FALSE and len(c) == 1:
                    best = 'until ' + next(iter(c))
        return best

    def nexts(self, eng, cx, st, it, full, site, repeated):
        k = iterated(it, self)
        if k is not None and k[0] == 'elem':
            e = mk('app', 'elemof', k[1])
            going = ongoing(st.mon[1], k[0], k[1])
            for a, b in st.subs:
                if b.op == 'V' and mentions(a, e) and ongoing(st.mon[1], k[0], k[1]):
                    self.put(st, HAS if b.a[1] else HASNT)
            r = super().nexts(eng, cx, st, it, full, site, repeated)
            if r is not None and k[1] in ITEMS and not going:
                r = [x for x in r if x[0] is not None]          # there is at least one
            return r
        return super().nexts(eng, cx, st, it, full, site, repeated)


HAS, HASNT = sym('has a value'), sym('has no value')
ID, CLASSES, ATTRS, OWN, MARKER, LEVEL = sym('W.id'), sym('W.classes'), sym('W.attrs'), sym('W.own'), sym('W.marker'), sym('W.level')
ITEMS = (CLASSES, ATTRS)


class Shape:
    """the buffer of headings: its fields by role, and the kinds of headings told apart"""

    def __init__(self, F):
        enum, vs = writers(F)
        k = [i for i, (n, _) in enumerate(vs) if n == 'Header']
        if not k:
            raise Missing('writer of headings')
        self.enum, self.variant, self.type = enum, k[0], vs[k[0]][1]
        v = F.adts[self.type]['variants'][0]
        self.fields, self.role = v['fields'], {}
        for i, t in enumerate(v['ftys']):
            r = 'buffer' if t.endswith('string::String') else 'classes' if re.search(r'Vec<[^(]*CowStr', t) else 'attrs' if re.search(r'Vec<\(', t) else \
                'id' if 'Option<' in t and 'CowStr' in t else 'own' if t == 'bool' else 'kind' if t.split('<')[0] in F.adts and any(
                    LV in ' '.join(x['ftys']) for x in F.adts[t.split('<')[0]]['variants']) else 'rest'
            if r in self.role and r != 'rest':
                raise Missing(f'{r} of headings')
            self.role[r] = i
            if r == 'kind':
                self.kind = t.split('<')[0]
        for r in ('buffer', 'classes', 'attrs', 'id', 'kind'):
            if r not in self.role:
                raise Missing(f'{r} of headings')
        self.kinds = []                    # (variant, is it underlined)
        for i, x in enumerate(F.adts[self.kind]['variants']):
            if len(x['ftys']) != 1 or not (LV in x['ftys'][0] or 'str' in x['ftys'][0]):
                raise Missing(f'kind {x["name"]} of headings')
            self.kinds.append((i, LV not in x['ftys'][0]))

    def make(self, **kw):
        names = {i: r for r, i in self.role.items() if r != 'rest'}
        return agg(self.type, 0, [kw.get(names.get(i), sym('W.' + f)) for i, f in enumerate(self.fields)])


# ---- opening
class StartMon(LinkMon):
    def on_other(self, eng, cx, st, fr, args, site):
        n = fr.get('name', '')
        if n in ('eq', 'ne') and len(args) == 2 and (fr.get('trait') or '').split('<')[0].endswith('PartialEq'):
            a, b = [bare(flat(st, eng.content(st, x) if x.op == 'ref' else x, eng)) for x in args]
            if a.op == b.op == 'agg' and a.a[0] == b.a[0] == LV:
                return [('ret', TRUE if (a.a[1] == b.a[1]) == (n == 'eq') else FALSE, st)]
        if n in ('next_back', 'next') and args and (fr.get('rkrate') or fr.get('krate')) in STD:
            it = noid(self.iterator(eng, st, args[0], True))
            if it.op == 'app' and it.a[0] in (('split', 'lines', 'split_terminator') if n == 'next_back' else ('rsplit',)) and known(it):
                root, path = self.place(eng, st, args[0])
                eng.write(st.mem, root, path, T)
                return [('ret', mk('app', 'last', it), st)]
        return super().on_other(eng, cx, st, fr, args, site)


def last_line(F, x, ended=False):
    """is x the last line of the source, without blanks and quote markers before it and blanks after it?"""
    prefix = suffix = False
    for _ in range(12):
        x = noid(bare(x))
        if x is SRC:
            return ended and prefix
        if x.op in ('fld', 'field') and x.a[0].op == 'app':
            y = x.a[0]
            if y.a[0] == 'last' and y.a[1].op == 'app' and y.a[1].a[0] in ('lines', 'split', 'rsplit', 'split_terminator'):
                p = y.a[1].a[2] if len(y.a[1].a) > 2 else None
                if p is None or any(accepts(F, p, c) for c in '\n\r') and not any(accepts(F, p, c) for c in '=- x'):
                    x, ended = y.a[1].a[1], ended or p is None or bool(accepts(F, p, '\n'))
                    continue
            if y.a[0] == 'rsplit_once' and any(accepts(F, y.a[2], c) for c in '\n\r'):
                x, ended = y.a[1], ended or bool(accepts(F, y.a[2], '\n'))
                continue
            return False
        if x.op == 'app' and x.a[0] in ('trim', 'trim_end', 'trim_start') and len(x.a) == 2:
            x = x.a[1]
            continue
        if x.op == 'app' and x.a[0] in ('trim_start_matches', 'trim_end_matches', 'trim_matches') and not any(accepts(F, x.a[2], c) is not False for c in '=-'):
            if x.a[0] != 'trim_end_matches' and accepts(F, x.a[2], '>') and accepts(F, x.a[2], ' ') and accepts(F, x.a[2], '\t'):
                prefix = True
            x = x.a[1]
            continue
        return False
    return False


def of_source(x):
    while x.op == 'app' and x.a[0] in ('trim', 'trim_end', 'trim_start') and len(x.a) == 2:
        x = x.a[1]
    return x is SRC


def no_underline(F, st):
    """is it known that the source has no line below the first, or does not end as an underline does?"""
    for a, b in st.facts:
        if a.op != 'app':
            continue
        no = b is FALSE or b.op == 'V' and b.a[1] == 0
        if no and a.a[0] in ('contains', 'find', 'rfind', 'split_once', 'rsplit_once') and of_source(a.a[1]) and accepts(F, a.a[2], '\n') and accepts(F, a.a[2], '\r'):
            return True
        if no and a.a[0] == 'ends_with' and of_source(a.a[1]) and accepts(F, a.a[2], '=') and accepts(F, a.a[2], '-'):
            return True
        if no and a.a[0] == 'last' and last_line(F, mk('field', a, 1, 0) if False else field(a, (1, 0)), True) is not None and SRC.syms <= a.syms:
            return True           # cannot be: there always is a last line
    return False


def underline(F, st):
    return any(b is not FALSE and not (b.op == 'V' and b.a[1] == 0) and a.op == 'app' and a.a[0] in ('contains', 'find', 'rfind', 'split_once', 'rsplit_once') and
               of_source(a.a[1]) and accepts(F, a.a[2], '\n') for a, b in st.facts)


def opening(F, S, level):
    sh = Shape(F)
    tg = F.adts[TAG]['variants']
    i = [j for j, v in enumerate(tg) if v['name'] == 'Heading'][0]
    fs = {'level': agg(LV, level, ()), 'id': sym('t.id'), 'classes': sym('t.classes'), 'attrs': sym('t.attrs')}
    name = 'Start(Heading)'
    ev = S[name].term
    m = StartMon(F, Script(name, mk('agg', ev.a[0], ev.a[1], (agg(TAG, i, [fs[n] for n in tg[i]['fields']]),))))
    m.remember = lambda a, b: a.op == 'app'
    e, _ = run_step(F, m.script, m, cap=60, loopcap=4, budget=120000, init_mon=((),))
    bad = set()
    for init, cur, mon, st in m.ends:
        v = View(m, st)
        tr = tuple(x for x in tidy(mon[1], m.bodies) if x != GAP)
        if tr:
            bad.add(f'it writes: {show_trace(tr, m.bodies)[:300]}')
        w = items(cur['writers'])[1]
        w = bare(w[-1]) if w else T
        if not (w.op == 'agg' and w.a[1] == sh.variant):
            bad.add('no buffer for a heading is opened')
            continue
        h = w.a[2][0]
        for r in ('id', 'classes', 'attrs'):
            if noid(bare(field(h, (None, sh.role[r])))) is not fs[r]:
                bad.add(f'its {r} are not kept')
        b = noid(plain(field(h, (None, sh.role['buffer']))))
        if not (b.op == 'app' and b.a[0] == TEXT and not [x for x in dec(b.a[2:]) if x != ''] or b is cstr('')):
            bad.add('its text does not begin empty')
        k = noid(bare(field(h, (None, sh.role['kind']))))
        if not (k.op == 'agg' and k.a[0] == sh.kind):
            bad.add(f'its kind is not known: {show(k)[:200]}')
            continue
        if dict(sh.kinds)[k.a[1]]:
            if level > 1:
                bad.add('it is taken for one with an underline, which this level cannot have')
            if not last_line(F, v.term(noid(k.a[2][0]))):
                bad.add(f'the underline is not the last line of its source: {show(k.a[2][0], -6)[:300]}')
            if not underline(F, v):
                bad.add('it is taken for one with an underline although it may be in one line')
        else:
            if noid(bare(k.a[2][0])) is not fs['level']:
                bad.add('its level is not kept')
            if level <= 1 and not no_underline(F, v):
                bad.add('it is taken for one without underline although it may have one')
    return m, e, bad


# ---- closing
def small_range(v):
    return v.op == 'agg' and isinstance(v.a[0], str) and v.a[0].endswith('ops::Range') and all(x.op == 'c' and int(x.a[0]) <= 8 for x in v.a[2])


def counted_loop(mon, eng, st, fr, args):
    """a range between small numbers is stepped through"""
    if fr.get('name') == 'into_iter' and len(args) == 1 and small_range(flat(st, args[0], eng)):
        return [('ret', flat(st, args[0], eng), st)]
    if fr.get('name') == 'next' and args and args[0].op == 'ref' and (fr.get('trait') or '').split('<')[0].endswith('Iterator'):
        root, path = mon.place(eng, st, args[0])
        v = bare(eng.read(st.mem, root, path))
        if small_range(v):
            a, b = v.a[2]
            if int(a.a[0]) >= int(b.a[0]):
                return [('ret', NONE, st)]
            eng.write(st.mem, root, path, agg(v.a[0], v.a[1], (cint(int(a.a[0]) + 1), b)))
            return [('ret', some(a), st)]
    return None


class EndMon(LinkMon):
    head = ''

    def on_call(self, eng, cx, st, fr, args, site):
        r = counted_loop(self, eng, st, fr, args)
        if r is not None:
            return r
        return super().on_call(eng, cx, st, fr, args, site)

    def inline(self, eng, g):
        if not g['closure'] and g['local'] and any(self.F.tyname(l['ty']).lstrip('&mut ').split('<')[0] == self.head for l in g['locals'][1:g['argc'] + 1]) \
                and 'string::String' in self.F.tyname(g['locals'][0]['ty']):
            return False
        return super().inline(eng, g)


def closing(F, S, kind, level):
    sh = Shape(F)
    lined = dict(sh.kinds)[kind]
    h = sh.make(kind=agg(sh.kind, kind, (MARKER if lined else agg(LV, level, ()),)))
    name = 'End(Heading)'
    m = EndMon(F, S[name])
    m.head = sh.type
    m.remember = lambda a, b: a.op == 'app'
    m.assume = lambda v: False if v.a[0] == 'is_empty' and lineof(v.a[1]) else None
    stacks = {'writers': vec(sym('S.writers'), (agg(sh.enum, sh.variant, (h,)),))}
    e, _ = run_step(F, S[name], m, cap=60, loopcap=10, budget=120000, init_mon=((),), stacks=stacks)
    sp = Lines(F, m)
    sp.esc = False
    bad, out = set(), set()
    for init, cur, mon, st in m.ends:
        v = View(m, st)
        tr = tuple(x for x in tidy(mon[1], m.bodies) if x != GAP)
        sign, rest = '', tr
        while rest and isinstance(rest[0], str):
            sign, rest = sign + rest[0], rest[1:]
        X = rest[0] if rest and type(rest[0]) is N else rest[0][2] if rest and isinstance(rest[0], tuple) and rest[0][0] == 'each' else None
        if X is None:
            if any(finished(a.a[1], h) for a, b in v.facts if a.op == 'app' and a.a[0] == 'is_empty' and b is TRUE) and sign == '#' * (level + 1) * (not lined):
                continue
            bad.add(f'its text is not written; it writes: {show_trace(tr, m.bodies)[:300]}')
            continue
        f = finished(X, h)
        if f is None:
            bad.add(f'what is written is not the finished text: {show(X, -3)[:200]}')
            continue
        out.add(f)
        full = X
        while full.op == 'app' and full.a[0] == 'trim_end':
            full = full.a[1]
        empty = {b for a, b in v.facts if a.op == 'app' and a.a[0] == 'is_empty' and noid(a.a[1]) in (noid(full), noid(X))}
        if lined:
            if sign:
                bad.add(f'{sign!r} is written before an underlined heading')
        elif sign != '#' * (level + 1) + ' ' * (FALSE in empty) or not empty:
            bad.add(f'{sign!r} is written before {"no" if TRUE in empty else "the" if empty else "any"} text of a heading of level {level + 1}')
        if not any(sp.lines(rest, Y, False) in ((), (GAP,)) for Y in dict.fromkeys([X, mk('app', 'trim_end', X)])):
            bad.add(f'the lines of its text are not all written, once and in order; it writes: {show_trace(tr, m.bodies)[:300]}')
    return m, e, bad, out


def lineof(x):
    while x.op == 'app' and x.a[0] in ('trim', 'trim_start', 'trim_end'):
        x = x.a[1]
    return x.op == 'app' and x.a[0] == 'lineof'


def finished(x, h):
    """(function, path) if x is what a function made of the heading"""
    path = ()
    while type(x) is N:
        if x.op == 'app' and x.a[0] in ('trim_end', 'id'):
            x = x.a[1]
        elif x.op in ('fld', 'field'):
            path, x = ((x.a[1], x.a[2]),) + path, x.a[0]
        elif x.op in ('V', 'X'):
            x = x.a[0]
        else:
            break
    if type(x) is N and x.op == 'app' and any(noid(y) is noid(h) for y in x.a[1:] if type(y) is N):
        return x.a[0], path
    return None


# ---- finishing the text
def text_of(x):
    x = bare(x)
    return x is BUF or x.op == 'app' and x.a[0] == WROTE and x.a[1] is BUF


def part_of(x):
    while type(x) is N and x.op == 'app' and x.a[0] in ('trim_end', 'trim_end_matches', 'index', 'trim', 'get_unchecked'):
        x = x.a[1]
    return type(x) is N and text_of(x)


def escapes(o):
    """what is known about the text before a position ending in a backslash: {term: bool}"""
    return {a: b is TRUE for a, b in o.subs if a.op == 'app' and len(a.a) == 2 and type(a.a[1]) is N and a.a[0] not in ('is_empty', 'ends_with') and part_of(a.a[1]) and b in (TRUE, FALSE)}


def chars(tr):
    out = []
    for x in tr:
        if isinstance(x, str):
            out += list(x)
        elif x == (WS, 1, False):
            out.append('\n')
        elif x != GAP:
            out.append(x)
    return out


class Text:
    """reads what is done to the text of a heading"""

    def __init__(self, F, m, o, lined, have):
        self.F, self.m, self.o, self.lined, self.have = F, m, o, lined, have
        self.xs = chars(tidy(o.mon[1], m.bodies))
        self.ps = {noid(a): b for a, b in escapes(o).items()}
        self.facts = [(noid(a), b) for a, b in o.subs]

    def at(self, i):
        return self.xs[i] if i < len(self.xs) else None

    def pop(self, i):
        x = self.at(i)
        return x.a[0] if type(x) is N and x.op == 'pop' else None

    def string(self, i, s):
        return self.xs[i:i + len(s)] == list(s)

    def last(self, x, c):
        """is it known that a version of the text ends with c?"""
        for a, b in self.facts:
            if a.op == 'app' and a.a[0] == 'ends_with' and a.a[1] is x and b is TRUE and accepts(self.F, a.a[2], c):
                return True
        return False

    def run(self):
        i, put, taken = 0, False, False
        while True:
            p = self.pop(i)
            if p is None:
                if not put and self.at(i) == '\\' and self.signs(i + 1) and self.ends_in_signs():
                    return None            # cannot be: it is known to end in number signs
                break
            if p in ('ws', 'all ws'):
                i += 1
            elif p == '#':
                if self.lined:
                    return 'number signs are taken off an underlined heading'
                if self.at(i + 1) != '\\':
                    return 'number signs that end the text are taken away'
                n = self.signs(i + 2)
                if n is None:
                    return f'number signs that end the text are not put back; it writes: {show_trace(tuple(self.xs[i:i + 5]), self.m.bodies)[:200]}'
                if True in self.escaped('#') or self.naive():
                    return 'number signs that are escaped are escaped again'
                i, put = n, True
            elif set(p.split('|')) == {'#', 'ws'}:
                if self.lined or self.have:
                    return 'number signs are taken off a heading that has an underline or attributes'
                if not any(a.op == 'app' and a.a[0] == 'ends_with' and text_of(a.a[1]) and b is FALSE and accepts(self.F, a.a[2], '#') for a, b in self.facts):
                    return 'number signs that end the text are taken away'
                i, taken = i + 1, True
            elif p in ('{', 'to {') or p.startswith('until '):
                while self.pop(i) in ('until {', '}', 'ws', 'until ws'):
                    i += 1
                if self.pop(i) not in ('{', 'to {'):
                    return 'text is taken away'
                i += 1
                if self.string(i, '{\\}'):
                    i, esc = i + 3, True
                elif self.string(i, '\\{\\}'):
                    i, esc = i + 4, False
                else:
                    return 'braces that end the text are not put back escaped'
                if not put and ((not esc) in self.escaped('{') or self.naive()):
                    return 'braces are escaped as if they were not yet' if not esc else 'braces are not escaped'
            else:
                return f'text is taken away ({p})'
        if self.have:
            i, w = self.attributes(i)
            if w:
                return w
        if self.lined:
            i, w = self.underline(i)
            if w:
                return w
        if not (self.lined or put or taken or self.no_signs()):
            return 'number signs that end the text may be left as they are'
        if i < len(self.xs):
            return f'it writes something else: {show_trace(tuple(self.xs[i:]), self.m.bodies)[:200]}'
        return None

    def escaped(self, c):
        """what is known about a backslash before the number signs, or the braces, that end the text"""
        return {v for a, v in self.ps.items() if self.before(a.a[1]) in (c, None)}

    def naive(self):
        """is it only known what character there is before?"""
        return not self.ps and any(a.op == 'app' and a.a[0] == 'ends_with' and accepts(self.F, a.a[2], '\\') for a, b in self.facts)

    def no_signs(self):
        """is it known that no number signs end the text, or that they are escaped, or are no closing ones?"""
        if True in self.escaped('#'):
            return True
        for a, b in self.facts:
            if a.op == 'app' and a.a[0] == 'ends_with' and part_of(a.a[1]) and b is FALSE:
                x = noid(a.a[1])
                if accepts(self.F, a.a[2], '#'):
                    return True
                if not self.have and x.op == 'app' and x.a[0] == 'trim_end_matches' and accepts(self.F, x.a[2], '#') and accepts(self.F, a.a[2], ' ') and accepts(self.F, a.a[2], '\t'):
                    return True
        return False

    def before(self, x):
        """up to which character does a part of the text go?"""
        x = noid(x)
        if text_of(x):
            return 'the end'
        if x.op == 'app' and x.a[0] == 'trim_end_matches':
            return next((c for c in '#{' if accepts(self.F, x.a[2], c)), None)
        if x.op == 'app' and x.a[0] in ('index', 'get_unchecked') and x.a[2].op == 'agg' and x.a[2].a[2]:
            k = bare(x.a[2].a[2][-1])
            if before_signs(self.F, k, x.a[1]):
                return '#'
            for _ in range(4):
                if k.op in ('fld', 'field'):
                    k = k.a[0]
                elif k.op == 'app' and k.a[0] in ('rfind', 'find'):
                    return next((c for c in '#{' if accepts(self.F, k.a[2], c)), None)
        return None

    def ends_in_signs(self):
        """is it known that the text ends in number signs, but for blanks, which have been taken off?"""
        ends = [(a.a[1], a.a[2], b) for a, b in self.facts if a.op == 'app' and a.a[0] == 'ends_with' and part_of(a.a[1])]
        bare_ = all(self.pop(i) == 'all ws' or not self.pop(i) for i in range(len(self.xs)) if '\\' not in self.xs[:i])
        sign = any(b is TRUE and accepts(self.F, p, '#') and accepts(self.F, p, 'a') is False for x, p, b in ends)
        return sign and any(accepts(self.F, p, '#') and accepts(self.F, p, ' ') is False and b is FALSE and (bare_ and part_of(x)) for x, p, b in ends) or \
            sign and any(x is y and b is c is FALSE and accepts(self.F, p, '#') and accepts(self.F, p, ' ') is False and accepts(self.F, q, ' ')
                            for x, p, b in ends for y, q, c in ends)

    def signs(self, i):
        """end of the number signs put back"""
        x = self.at(i)
        if isinstance(x, tuple) and x[0] == 'each' and base_kind(x[1]) == 'times' and x[3] is None:
            bs = {tuple(y for y in b if y not in (FIRST, LATER)) for b in self.m.bodies.get((x[1], x[2]), ())}
            if bs == {('#',)} and counted(self.F, x[2]):
                return i + 1
            return None
        if type(x) is N and (x.op == 'app' and x.a[0] == 'repeat' and show(x.a[1]) == "'#'" and counted(self.F, x.a[2]) or signs_of(self.F, noid(x))):
            return i + 1
        return None

    def attributes(self, i):
        x = self.at(i)
        own = [b for a, b in self.facts if a is OWN and b in (TRUE, FALSE)]
        if x in ('\n', ' '):
            if own and (x == '\n') != (own[0] is TRUE):
                return i, 'attributes are put on another line than they were on'
            i += 1
        elif not self.bare(own):
            return i, 'attributes are not set off from the text'
        if self.at(i) != '{':
            return i, 'attributes are not in braces'
        i += 1
        first = True
        has_id, has_cls, has_att = self.have

        def blank(i, first):
            if first:
                return i, self.at(i) != ' '
            return i + 1, self.at(i) == ' '
        if has_id:
            i, good = blank(i, first)
            if not good or self.at(i) != '#' or noid(bare(self.at(i + 1))) is not field(sym('W.id'), (1, 0)) and noid(bare(self.at(i + 1))) is not ID:
                return i, f'the id is not written; it writes: {show_trace(tuple(self.xs[i:i + 3]), self.m.bodies)[:200]}'
            i, first = i + 2, False
        def jump(i, first):
            """the blank before what is joined by blanks"""
            y = self.at(i + 1)
            return i + (not first and self.at(i) == ' ' and type(y) is N and y.op == 'app' and y.a[0] == 'joined')
        i = jump(i, first)
        if has_cls:
            w = self.each(i, CLASSES, first, self.klass)
            if w:
                return i, f'classes are {w}'
            i, first = i + 1, False
        i = jump(i, first)
        if has_att:
            w = self.each(i, ATTRS, first, self.attr)
            if w:
                return i, f'attributes are {w}'
            i, first = i + 1, False
        if self.at(i) != '}':
            return i, f'something else is written among the attributes: {show_trace(tuple(self.xs[i:i + 3]), self.m.bodies)[:200]}'
        return i + 1, None

    def bare(self, own):
        for a, b in self.facts:
            if a.op == 'app' and b is TRUE and text_of(a.a[1]):
                if a.a[0] == 'is_empty' or a.a[0] == 'ends_with' and self.accepts_only(a.a[2], '\n'):
                    return True
                if a in self.ps and self.before(a.a[1]) == 'the end':
                    return True
        return False

    def accepts_only(self, p, c):
        return bool(accepts(self.F, p, c)) and not any(accepts(self.F, p, x) is not False for x in 'a#{}\\')

    def each(self, i, X, first, form):
        x = self.at(i)
        if type(x) is N and x.op == 'app' and x.a[0] == 'joined' and len(x.a) == 4 and x.a[1].a[2] is X and x.a[3] is cstr(' '):
            if not first and self.at(i - 1) != ' ':
                return 'not set off by blanks'
            y = x.a[2]
            w = form(chars(dec(y.a[2:]) if y.op == 'app' and y.a[0] == TEXT else (y,)), False, False)
            return f'{w}: {show(x, -4)[:200]}' if w else None
        if not (isinstance(x, tuple) and x[0] == 'each' and x[2] is X and x[3] is None):
            return f'not all written: {show_trace(tuple(self.xs[i:i + 2]), self.m.bodies)[:200]}'
        for b in self.m.bodies.get((x[1], x[2]), ()):
            mark = FIRST in b
            b = chars(y for y in b if y not in (FIRST, LATER))
            has = HAS in b
            hasnt = HASNT in b
            b = [y for y in b if y not in (HAS, HASNT)]
            if not (mark and first):
                if b[:1] != [' ']:
                    return f'not set off by blanks: {show_trace(tuple(b), self.m.bodies)[:200]}'
                b = b[1:]
            w = form(b, has, hasnt)
            if w:
                return f'{w}: {show_trace(tuple(b), self.m.bodies)[:200]}'
        return None

    def klass(self, b, has, hasnt):
        return None if len(b) == 2 and b[0] == '.' and noid(bare(b[1])) is app('elemof', CLASSES) else 'not written as they are'

    def attr(self, b, has, hasnt):
        e = app('elemof', ATTRS)
        name, val = field(e, (None, 0)), field(field(e, (None, 1)), (1, 0))
        b = [noid(bare(y)) if type(y) is N else y for y in b]
        if not b or b[0] is not name:
            return 'not written with their names'
        if len(b) == 1:
            return None if hasnt else 'written without their values'
        return None if len(b) == 3 and b[1] == '=' and b[2] is val else 'not written with their values'

    def underline(self, i):
        if self.at(i) == '\\':
            if self.have or not any(a.op == 'app' and a.a[0] == 'is_empty' and text_of(a.a[1]) and b is TRUE for a, b in self.facts):
                return i, 'text is given a backslash'
            i += 1
        elif not self.have and not any(a.op == 'app' and a.a[0] == 'is_empty' and part_of(a.a[1]) and b is FALSE for a, b in self.facts) and i == 0:
            return i, 'an underline may be left without text'
        if self.at(i) != '\n' or self.at(i + 1) is None or noid(bare(self.at(i + 1))) is not MARKER or self.at(i + 2) not in ('\n', None):
            return i, f'the underline is not written on a line of its own; it writes: {show_trace(tuple(self.xs[i:i + 3]), self.m.bodies)[:200]}'
        return i + 2 + (self.at(i + 2) == '\n'), None


def counted(F, n):
    """is n the number of number signs at the end of the text?"""
    n = noid(bare(n))
    if n.op == 'bin' and n.a[0] == 'Sub' and n.a[1].op == 'app' and n.a[1].a[0] == 'len' and text_of(n.a[1].a[1]):
        y = n.a[2]
        return before_signs(F, y, n.a[1].a[1])
    if n.op == 'app' and n.a[0] in ('count', 'len'):
        x = n.a[1]
        if signs_of(F, x):
            return True
        if x.op == 'app' and x.a[0] == 'take_while' and x.a[1].op == 'app' and x.a[1].a[0] == 'rev':
            y = x.a[1].a[1]
            return y.op == 'app' and y.a[0] in ('chars', 'bytes') and text_of(y.a[1]) and accepts(F, x.a[2], '#') and accepts(F, x.a[2], 'a') is False
        return x.op == 'app' and x.a[0] in ('chars', 'bytes') and signs_of(F, x.a[1])
    return False


def signs_of(F, x):
    """is x the part of the text that is number signs at its end?"""
    return x.op == 'app' and x.a[0] in ('index', 'get_unchecked') and text_of(x.a[1]) and x.a[2].op == 'agg' and x.a[2].a[0].endswith('RangeFrom') and \
        before_signs(F, x.a[2].a[2][0], x.a[1])


def before_signs(F, k, X):
    """is k the position after the last character of X that is no number sign?"""
    k = noid(bare(k))
    if k is cint(0):
        return True                # there is none
    if k.op == 'app' and k.a[0] == 'len' and k.a[1].op == 'app' and k.a[1].a[0] == 'trim_end_matches' and k.a[1].a[1] is X:
        return bool(accepts(F, k.a[1].a[2], '#')) and accepts(F, k.a[1].a[2], 'a') is False
    if k.op == 'bin' and k.a[0] == 'Add':
        xs = k.a[1:]
        for a, b in (xs, xs[::-1]):
            if a.op in ('fld', 'field') and b.op in ('fld', 'field'):
                s, t = a, b
                while s.op in ('fld', 'field'):
                    s = s.a[0]
                while t.op in ('fld', 'field'):
                    t = t.a[0]
                if s is t and s.op == 'app' and s.a[0] == 'find_map' and (a.a[2], b.a[2]) == (0, 1):
                    it = s.a[1]
                    if it.op == 'app' and it.a[0] == 'rev' and it.a[1].op == 'app' and it.a[1].a[0] == 'char_indices' and it.a[1].a[1] is X:
                        return place_of_other(F, s.a[2])
            if b.op == 'c' and b.a[0] == 1 or b.op == 'app' and b.a[0] in ('len_utf8', 'len') or b.op in ('fld', 'field'):
                s = a
                while s.op in ('fld', 'field'):
                    s = s.a[0]
                if s.op == 'app' and s.a[0] in ('rfind',) and s.a[1] is X and accepts(F, s.a[2], '#') is False and accepts(F, s.a[2], 'a'):
                    return True
    return False


class SeqMon(HelperMon):
    def call(self, eng, cx, st, fr, args, site):
        if fr.get('name') in ('chars', 'bytes', 'fold', 'rev', 'take_while', 'skip_while', 'count') and (fr.get('rkrate') or fr.get('krate')) in STD:
            vals = [noid(bare(flat(st, a, eng))) for a in args]
            if all(known(v) for v in vals):
                return [('ret', mk('app', fr['name'], *vals), st)]
        return super().call(eng, cx, st, fr, args, site)


def odd(F, path):
    """does a function tell whether a text ends in an odd number of backslashes?  None if this cannot be seen"""
    g = next((f for f in F.local if f['path'] == path and not f['closure'] and f['argc'] == 1), None)
    if g is None:
        return None
    m = SeqMon(F)
    e = Engine(F, m, cap=20, loopcap=4, budget=4000)
    try:
        outs = [o for o in e.run(g, [sym('X')], {}, ('go', ()), 1, sym('X').syms) if o.kind == 'ret']
    except (Budget, RecursionError):
        return None
    if len(outs) != 1 or outs[0].ret is T:
        return None
    r = noid(flat(State(outs[0].mem, outs[0].mon), outs[0].ret, e))
    if r.op == 'app' and r.a[0] == 'fold' and r.a[1].op == 'app' and r.a[1].a[0] in ('chars', 'bytes') and r.a[2] in (TRUE, FALSE):
        if r.a[2] is TRUE:
            return False
        g = F.fns.get(closure_id(r.a[3]))
        if g is None or r.a[3].a[2]:
            return None
        for was in (False, True):
            for c in '\\a# ':
                vals = set()
                e = Engine(F, PredMon(F), cap=20, loopcap=4, budget=4000)
                for o in e.run(g, [r.a[3], mk('c', was), mk('c', c) if r.a[1].a[0] == 'chars' else cint(ord(c))], {}, ('go', ()), 1, frozenset()):
                    if o.kind == 'ret':
                        vals.add(noid(bare(o.ret)))
                if vals != {mk('c', c == '\\' and not was)}:
                    return False if all(v.op == 'c' for v in vals) else None
        return True
    return None


def place_of_other(F, c):
    """does the closure give the place and the length of a character unless it is a number sign?"""
    if not (c.op == 'agg' and isinstance(c.a[0], tuple)):
        return False
    g = F.fns.get(HASHED.get(c.a[0][1], c.a[0][1]))
    if g is None:
        return False
    i, ch = sym('I'), sym('CH')
    m = EmitMon(F)
    e = Engine(F, m, cap=20, loopcap=4, budget=4000)
    outs = e.run(g, [sym('ENV'), agg('()', 0, (i, ch))], {}, ('go', (), None), 1, i.syms | ch.syms)
    some_ = none_ = False
    for o in outs:
        if o.kind != 'ret':
            continue
        sign = [b for a, b in o.subs if a is ch or a.op == 'bin' and ch in a.a[1:]]
        r = bare(o.ret)
        if r.op != 'agg':
            return False
        if r.a[1] == 0:
            none_ = True
        else:
            some_ = True
            t = r.a[2][0]
            if not (t.op == 'agg' and noid(bare(t.a[2][0])) is i and show(t.a[2][1]).find('len_utf8') >= 0):
                return False
    return some_ and none_


def finishing(F, path, at, kind, have):
    sh = Shape(F)
    lined = dict(sh.kinds)[kind]
    g = next((f for f in F.local if f['path'] == path and not f['closure']), None)
    if g is None:
        raise Missing(path)
    kw = {'kind': agg(sh.kind, kind, (MARKER if lined else LEVEL,)), 'buffer': BUF, 'own': OWN,
          'id': some(ID) if have[0] else NONE, 'classes': CLASSES if have[1] else VEC0, 'attrs': ATTRS if have[2] else VEC0}
    h = sh.make(**kw)
    args = []
    mem = {}
    for l in g['locals'][1:g['argc'] + 1]:
        ty = F.tyname(l['ty'])
        if ty.startswith('&') and sh.type in ty:
            mem[W] = h
            args.append(ref(W, (), True))
        else:
            args.append(h if ty.split('<')[0] == sh.type else sym('A'))
    m = HeadMon(F)
    m.assume = lambda v: False if v.a[0] == 'is_empty' and v.a[1] in ITEMS else None
    m.remember = lambda a, b: a.op == 'app' and type(a.a[1]) is N and (
        len(a.a) == 2 and (text_of(a.a[1]) or part_of(a.a[1]) and b in (TRUE, FALSE)) or
        a.a[0] == 'ends_with' and part_of(a.a[1]) and (b is TRUE and show(a.a[2]) == repr('\n') or b is FALSE and not lined and (
            bool(accepts(F, a.a[2], '#')) or a.a[1].op == 'app' and a.a[1].a[0] == 'trim_end_matches')))
    m, e, outs = emit_run(F, g, args, mem, m, cap=400, loopcap=24, budget=250000)
    bad, n, whole_ = set(), 0, False
    for p in sorted({a.a[0] for o in outs if o.kind == 'ret' for a in escapes(o)}):
        if odd(F, p) is False:
            bad.add(f'{p} does not tell whether what follows is escaped')
    for o in outs:
        if o.kind != 'ret':
            continue
        r = flat(State(o.mem, o.mon), o.ret, e)
        if r.op == 'agg' and r.a[0].endswith('Result') and r.a[1] == 1:
            continue
        # loops over what there is run at least once
        if any(a.op == 'app' and a.a[0] == 'ended' and a.a[1] in ITEMS for a, b in o.subs):
            continue
        tr = tidy(o.mon[1], m.bodies)
        if any(have[1 + i] and not any(isinstance(y, tuple) and y[0] == 'each' and y[2] is X for y in tr) and skipped(o, X) for i, X in enumerate(ITEMS)):
            continue
        n += 1
        x = r
        for seg in at:
            x = field(x, seg)
        if text_of(x):
            whole_ = True
        elif x is not T:
            bad.add(f'what it returns is not the text: {show(x, -3)[:200]}')
            continue
        w = Text(F, m, o, lined, have if any(have) else ()).run()
        if w:
            bad.add(w + (f' ({", ".join(y for y, q in zip(("id", "classes", "attributes"), have) if q)})' if any(have) else ''))
    if n and not whole_:
        bad.add('what it returns is not the text')
    return m, e, n, bad


def skipped(o, X):
    return False


def job(t):
    absint.MAXDEPTH = 64
    F, S = _CX['F'], _CX['S']
    try:
        if t[0] == 'Start':
            m, e, bad = opening(F, S, t[1])
            n, out = len(m.ends), ()
        elif t[0] == 'End':
            m, e, bad, out = closing(F, S, *t[1:])
            n = len(m.ends)
        else:
            m, e, n, bad = finishing(F, *t[1:])
            out = ()
    except Budget as x:
        return t, 0, [f'not analysable within budget ({x})'], (), 0
    return t, n, sorted(bad), sorted(out, key=str), e.steps


def run(cx):
    F = cx.facts('lib')
    S = {s.name: s for s in scripts(F)}
    _CX.update(F=F, S=S)
    import rules.c12
    rules.c12._CX.update(F=F, S=S)
    sh = Shape(F)
    names = [v['name'] for v in F.adts[sh.kind]['variants']]
    tasks = [('Start', l) for l in range(6)] + [('End', k, l) for k, lined in sh.kinds for l in (range(1) if lined else range(6))]
    outs = set()

    def report(name, n, bad, steps, sp):
        cx.count('paths', n)
        cx.count('steps', steps)
        cx.oblige(name, n > 0 and not bad, f'{name}: ' + ('; '.join(bad)[:700] or 'never handled'), sp)
        cx.samples.append(f'{name}: {n} paths')
    for t, n, bad, out, steps in pool(job, tasks):
        outs |= set(out)
        what = f'Start(Heading {t[1] + 1})' if t[0] == 'Start' else f'End(Heading/{names[t[1]]}{"" if dict(sh.kinds)[t[1]] else " %d" % (t[2] + 1)})'
        report(what, n, bad, steps, loop_fn(F)['sp'])
    cx.oblige('finish', bool(outs), 'the text of a heading is never finished', None)
    tasks = [('Out', f, at, k, (a, b, c)) for f, at in sorted(outs, key=str) for k, _ in sh.kinds for a in (0, 1) for b in (0, 1) for c in (0, 1)]
    for t, n, bad, out, steps in pool(job, sorted(tasks, key=lambda t: -sum(t[4]))):
        what = f'{t[1]}/{names[t[3]]}' + ''.join('+' + x for x, q in zip(('id', 'classes', 'attributes'), t[4]) if q)
        sp = next((f['sp'] for f in F.local if f['path'] == t[1] and not f['closure']), None)
        report(what, n, bad, steps, sp)
