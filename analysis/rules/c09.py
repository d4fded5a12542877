"""Every function that writes into the buffer of an open construct is analysed with an unknown buffer and
an unknown text, for every kind of event the text can belong to.  Each path must append the text once (whole,
or character by character, or line by line, in order) at the buffer's own text, with nothing but one escaping
backslash added, and must leave every other text alone; the documented exceptions (a blank for blank text
while reflowing, a blank for a line break in a link, no blanks at the start of a link) are accepted only
where the path has established their condition.  The formatter itself must pass text to the innermost open
construct, or to the output if there is none.  What is taken out of a buffer when its construct ends must be
that text: unchanged but for blanks at its end, or refilled piece by piece by the wrapping library, with the
hard breaks between the pieces kept and words never broken; and every line of it must be written, in order."""
from util import *
from steps import *
from emit import *
from rules.c08 import Spec, GAP
import re

RULE = __doc__
ASSUMES = ['std text functions do what they document',
           'textwrap::fill only changes blanks and line ends where words are not broken and not split at hyphens',
           'where in a table the text goes, and how headings and tables are laid out, are different properties']
CTX = 'MarkdownContext'


def contexts(F):
    """(name, value, memory) of every kind of context a text can be written with"""
    adt = next((a for a in F.adts if a.endswith(CTX)), None)
    if adt is None:
        raise Missing(f'{CTX}')
    out = []
    for i, v in enumerate(F.adts[adt]['variants']):
        if not v['ftys']:
            out.append((v['name'], agg(adt, i, ()), {}))
        elif 'Event' in v['ftys'][0]:
            root = ('ev', 'ctx')
            ev = next(a for a in F.adts if a.endswith('pulldown_cmark::Event'))
            for j, e in enumerate(F.adts[ev]['variants']):
                x = agg(ev, j, tuple(sym(f'c.{e["name"]}.{k}') for k in range(len(e['ftys']))))
                out.append((f'{v["name"]}({e["name"]})', agg(adt, i, (ref(root, ()),)), {root: x}))
        else:
            root = ('ev', 'ctx')
            out.append((v['name'], agg(adt, i, (ref(root, ()),)), {root: sym('c.' + v['name'])}))
    return out


def writers(F):
    """the enum of open buffers: path, [(variant, type of its buffer)]"""
    for a, d in F.adts.items():
        if a.endswith('MarkdownWriter'):
            return a, [(v['name'], v['ftys'][0].split('<')[0].lstrip('(') if v['ftys'] else '') for v in d['variants']]
    raise Missing('MarkdownWriter')


def fact(subs, a, b):
    return any(noid(bare(x)) is a and y is b for x, y in subs)


class Sink:
    def __init__(self, F, m, link):
        self.F, self.m, self.link = F, m, link

    def bodies(self, kind, X):
        return {tuple(y for y in b if y not in (FIRST, LATER)) for b in self.m.bodies.get((kind, X), ())}

    def form(self, tr, o, brk):
        """None if the trace is the text written once, else what is wrong"""
        subs = o.subs
        if tr == (' ',):
            if self.link and brk:
                return None
            if fact(subs, mk('app', 'is_empty', mk('app', 'trim', TXT)), TRUE) and any(b is TRUE and a.op in ('fld', 'field') or
                                                                                       b is TRUE and W_SYM in a.syms and TXT not in a.syms for a, b in subs):
                return None
            return 'text is replaced by a blank'
        if len(tr) >= 2 and type(tr[0]) is N and tr[0].op == 'pop':
            c = tr[0].a[0]
            if len(c) == 1 and tr[1] == '\\' + c:
                tr = tr[2:]
            else:
                return 'something written before is taken away'
        elif tr and tr[0] == '\\' and len(tr) > 1:
            tr = tr[1:]
        xs = [TXT]
        if self.link and any(a.op == 'app' and a.a[0] == 'is_empty' and W_SYM in a.syms and b is TRUE for a, b in subs):
            xs.append(mk('app', 'trim_start', TXT))
        for X in xs:
            if tr == (X,):
                return None
            k = parted(tr[:1], X)
            if k and base_kind(k) == 'char' and len(tr) == 1:
                c = mk('app', 'charof', X)
                bs = self.bodies(k, X)
                if bs and all(b in ((c,), ('\\', c)) for b in bs):
                    return None
            if self.link and k and base_kind(k) == 'line' and (len(tr) == 1 or tr[1:] == (' ',)):
                l = mk('app', 'lineof', X)
                first, later = rounds(k, X, self.m.bodies)
                if lined(first, later, lambda b: b == (l,), lambda y: y == ' ', self.m.more and self.m.peeked):
                    return None
        return 'text is not written once and unchanged'


W_SYM = next(iter(sym('W').syms))


def where(loc, by_ref, o):
    """the path below the receiver a path of the function writes to; None if elsewhere"""
    if loc is None:
        return ()
    if loc[0] == W:
        return loc[1]
    return None


def changed(v, base, at=()):
    """paths below `base` whose value differs in v"""
    if v is base:
        return []
    if v.op in ('V', 'X') and v.a[0] is base:
        return []
    if v.op == 'upd':
        return changed(v.a[0], base, at) + [at + (p,) for p, _ in v.a[1]]
    return [at]


def is_text(F, t):
    return any(x in t for x in ('String', 'Cow<', 'str'))


def sinks(F, cx):
    """analyse the functions that write into a buffer; type -> set of locations written to"""
    state = state_adt(F)
    enum, vs = writers(F)
    link = {t for n, t in vs if n == 'Link'}
    tables = {t for n, t in vs if n == 'Table'}
    from .c14 import PlaceMon
    locs = {}
    for t, fns in sorted(sink_types(F).items()):
        if t == state or t.startswith('dyn ') or t.startswith('&'):
            continue
        for g in fns:
            if g['argc'] < 2:
                continue
            tys = [F.tyname(l['ty']) for l in g['locals'][1:g['argc'] + 1]]
            if not (tys[-1].endswith('str') or 'Arguments' in tys[-1]):
                continue
            cs = contexts(F) if any(CTX in x for x in tys) else [('', None, {})]
            bad, n = set(), 0
            for name, cv, mem in cs:
                args = [ref(W, (), True)] + [cv if CTX in F.tyname(g['locals'][i + 1]['ty']) else sym(f'A.{i}') for i in range(1, g['argc'] - 1)] + [TXT]
                try:
                    m, e, outs = emit_run(F, g, args, {W: sym('W'), **mem}, PlaceMon(F) if t in tables else None)
                    if m.peeked:
                        m2 = EmitMon(F)
                        m2.more = True
                        m2, e2, outs2 = emit_run(F, g, args, {W: sym('W'), **mem}, m2)
                        runs = [(m, outs), (m2, outs2)]
                    else:
                        runs = [(m, outs)]
                except Budget as x:
                    bad.add(f'not analysable within budget ({x})')
                    continue
                cx.count('steps', e.steps)
                for m, o in [(m, o) for m, outs in runs for o in outs]:
                    sp = Sink(F, m, t in link)
                    if o.kind != 'ret':
                        continue
                    n += 1
                    tr = tidy(o.mon[1], m.bodies)
                    if t in tables and len(tr) > 1 and is_app(tr[0], 'newcell'):
                        tr = tr[1:]
                    why = sp.form(tr, o, name.endswith('Break)'))
                    at = where(o.mon[2], True, o)
                    if at is None:
                        why = why or 'text does not go into the buffer'
                    elif at:
                        locs.setdefault(t, set()).add(at)
                    if why:
                        bad.add(f'{why}{" (for " + name + ")" if name else ""}; it writes: {show_trace(tr, m.bodies)[:300]}')
                    end = o.mem.get(W)
                    for p in changed(end, sym('W')) if end is not None and at is not None else ():
                        if len(at) and p and p[0] != at[0] and text_field(F, t, p[0]):
                            bad.add(f'field {field_name(F, t, p[0])} is changed besides the text written to')
            cx.count('paths', n)
            cx.oblige(f'into:{t}::{g["name"]}', n > 0 and not bad, f'{g["path"]}: ' + ('; '.join(sorted(bad))[:600] or 'no path analysed'), g['sp'])
    return locs


def shared(F, cx):
    """methods every text sink has: they pass the text on to the sink's own"""
    for g in F.local:
        if g['closure'] or g['impl'] or g['argc'] < 2 or g['path'].split('::')[-2:-1] != ['WriteContext']:
            continue
        tys = [F.tyname(l['ty']) for l in g['locals'][1:g['argc'] + 1]]
        if not (tys[-1].endswith('str') or 'Arguments' in tys[-1]):
            continue
        m, e, outs = emit_run(F, g, [ref(W, (), True)] + [sym(f'A.{i}') for i in range(1, g['argc'] - 1)] + [TXT], {W: sym('W')})
        bad = {f'text is not passed on once and unchanged: {show_trace(o.mon[1])[:200]}' for o in outs if o.kind == 'ret' and (o.mon[1] != (TXT,) or where(o.mon[2], True, o) != ())}
        cx.count('paths', len(outs))
        cx.oblige(f'shared:{g["name"]}:{tys[0].split("<")[0]}', outs and not bad, f'{g["path"]}: ' + ('; '.join(sorted(bad))[:400] or 'no path analysed'), g['sp'])


def adt_of(F, t, seg):
    a = F.adts.get(t)
    if not a:
        return None
    i = seg[0] if isinstance(seg, tuple) and isinstance(seg[0], int) else 0
    return a['variants'][i if i < len(a['variants']) else 0]


def text_field(F, t, seg):
    v = adt_of(F, t, seg)
    return bool(v) and isinstance(seg, tuple) and isinstance(seg[1], int) and seg[1] < len(v['ftys']) and is_text(F, v['ftys'][seg[1]])


def field_name(F, t, seg):
    v = adt_of(F, t, seg)
    return v['fields'][seg[1]] if v else str(seg)


def passes_on(F, cx):
    """the formatter hands text to the innermost open construct, or to the output if there is none"""
    state = state_adt(F)
    fi, v = state_fields(F)
    enum, _ = writers(F)
    wi = [i for i, t in enumerate(v['ftys']) if enum in t and 'Vec<' in t]
    bi = [i for i, t in enumerate(v['ftys']) if t.endswith('string::String')]
    if len(wi) != 1 or len(bi) != 1:
        raise Missing('the open buffers and the output of ' + state)
    w0, b0 = sym('S.' + v['fields'][wi[0]]), (None, bi[0])
    init = agg(state, 0, [sym('S.' + n) for n in v['fields']])
    done = 0
    for g in sink_types(F).get(state, []):
        tys = [F.tyname(l['ty']) for l in g['locals'][1:g['argc'] + 1]]
        if g['argc'] < 2 or not (tys[-1].endswith('str') or 'Arguments' in tys[-1]):
            continue
        args = [ref(W, (), True)] + [sym(f'A.{i}') for i in range(1, g['argc'] - 1)] + [TXT]
        m, e, outs = emit_run(F, g, args, {W: init})
        bad, n = set(), 0
        for o in outs:
            if o.kind != 'ret':
                continue
            n += 1
            tr = o.mon[1]
            if tr != (TXT,):
                bad.add(f'text is not passed on once and unchanged: {show_trace(tr)[:200]}')
                continue
            at = where(o.mon[2], True, o)
            empty = any(a is w0 and b is VEC0 for a, b in o.subs)
            full = any(a is w0 and b.op == 'vec' for a, b in o.subs)
            if at == (b0,) and empty or at == ((None, wi[0]), ('vl', 0)) and full:
                continue
            bad.add(f'text goes to {show_at(v, at)} although {"no construct has" if empty else "a construct may have"} an open buffer')
        done += 1
        cx.count('paths', n)
        cx.oblige(f'to:{g["name"]}', n > 0 and not bad, f'{g["path"]}: ' + ('; '.join(sorted(bad))[:500] or 'no path analysed'), g['sp'])
    cx.oblige('to', done > 0, 'the formatter has no function text is written with', None)


def show_at(v, at):
    if not at:
        return 'an unknown place'
    s = v['fields'][at[0][1]] if isinstance(at[0][1], int) else str(at[0])
    return s + (' (innermost)' if len(at) > 1 else '')


# ---- what comes out again
OPTS = ('break_words', 'word_separator', 'word_splitter', 'wrap_algorithm', 'clone', 'new', 'line_ending')


def options(x):
    """{option: value} of a chain of wrapping options, None if something else touches them"""
    out = {}
    while type(x) is N and x.op == 'app' and x.a[0].startswith('textwrap::'):
        n = x.a[0][10:]
        if n == 'new':
            out['width'] = x.a[1]
            return out
        if n == 'clone':
            x = x.a[1]
            continue
        if n in OPTS and len(x.a) == 3:
            out.setdefault(n, x.a[2])
            x = x.a[1]
            continue
        return None
    return None


def variant_name(F, x):
    if type(x) is N and x.op == 'agg' and isinstance(x.a[0], str):
        a = F.adts.get(x.a[0])
        if a:
            return a['variants'][x.a[1]]['name']
        return x.a[0].rsplit('::', 1)[-1] + '#' + str(x.a[1])
    return None


def called(F, x, d):
    """the results of a call of a local function, given as a term: [(value, bodies)], None if it does more"""
    g = next((f for f in F.local if f['path'] == x.a[0] and not f['closure']), None)
    if g is None or d > 3:
        return None
    try:
        m, e, outs = emit_run(F, g, x.a[1:], {})
    except Budget:
        return None
    out = []
    for o in outs:
        if o.kind != 'ret':
            continue
        if tidy(o.mon[1], m.bodies):
            return None
        out.append((noid(bare(flat(State(o.mem, o.mon), o.ret, e))), m.bodies))
    return out or None


def text(x, bodies):
    """the entries of a text under construction"""
    return tidy(dec(x.a[2:]), bodies)


def is_app(x, n):
    return type(x) is N and x.op == 'app' and x.a[0] == n


def parted(tr, X):
    """kind of the parts if tr is one whole loop over the parts of X"""
    return tr[0][1] if len(tr) == 1 and isinstance(tr[0], tuple) and tr[0][0] == 'each' and tr[0][2] is X and tr[0][3] is None else None


def rounds(k, X, bodies):
    """what the first and the later iterations of a loop write"""
    bs = bodies.get((k, X), ())
    return [{tuple(y for y in b if y is not q) for b in bs if q in b} for q in (FIRST, LATER)]


def is_end(y):
    return isinstance(y, tuple) and y[0] in (WS, 'gap') or isinstance(y, str) and y.strip(' \n') == ''


def one_line(F, t, X, bodies, d=0):
    """t is X, possibly with its line ends replaced by blanks or other line ends"""
    if t is X:
        return True
    if t.op != 'app':
        return False
    if t.a[0] == 'alt':
        return all(one_line(F, y, X, bodies, d) for y in t.a[1:])
    if t.a[0] == 'joined':
        sep = t.a[3]
        return t.a[1].a[1] is cstr('line') and t.a[1].a[2] is X and t.a[2] is mk('app', 'lineof', X) and sep.op in ('s', 'c') and sep.a[0] in (' ', '\n')
    if t.a[0] == 'replace' and len(t.a) == 4:
        return t.a[1] is X and all(y.op in ('s', 'c') for y in t.a[2:]) and t.a[2].a[0] in ('\n', '\r\n') and t.a[3].a[0] == ' '
    if t.a[0] == TEXT:
        tr = text(t, bodies)
        while tr and is_end(tr[-1]):
            tr = tr[:-1]
        if len(tr) == 1 and type(tr[0]) is N:
            return one_line(F, tr[0], X, bodies, d)
        k = parted(tr, X)
        if k and base_kind(k) == 'line':
            first, later = rounds(k, X, bodies)
            l = mk('app', 'lineof', X)
            return lined(first, later, lambda b: b == (l,))
        return False
    r = called(F, t, d)
    return r is not None and all(one_line(F, v, X, b, d + 1) for v, b in r)


def lined(first, later, one, ends=is_end, strict=False):
    """every iteration writes its line once (`one`), with a separator between lines; `strict`: there always is a next line"""
    def core(b):
        b = b[1:] if b and ends(b[0]) else b
        b = b[:-1] if b and ends(b[-1]) else b
        return b
    full = {b for b in first | later if b}
    if not full or not all(one(core(b)) for b in full):
        return False
    before = all(ends(b[0]) for b in later if b)
    after = all(ends(b[-1]) or not strict and b + (x,) in full for b in first | later if b for x in [next((c[-1] for c in full if ends(c[-1])), None)])
    return before and later or after


def refilled(F, x, X, bodies, bad):
    """x is X with its lines refilled; words are not broken"""
    if is_app(x, 'textwrap::fill') and len(x.a) == 3:
        t, o = x.a[1], x.a[2]
        if not one_line(F, t, X, bodies):
            if 'textwrap::unfill' in show(t):
                bad.add('textwrap::unfill takes characters like * or - off the start of lines')
            return False
        d = options(o)
        if d is None:
            bad.add('the wrapping options are not known, or indent lines')
            return True
        if d.get('break_words') is not FALSE:
            bad.add('wrapping may break words')
        if variant_name(F, d.get('word_splitter')) not in ('NoHyphenation', 'WordSplitter#0'):
            bad.add('wrapping may break words at hyphens')
        if variant_name(F, d.get('word_separator')) not in ('AsciiSpace', 'WordSeparator#0'):
            bad.add('wrapping may break lines at other places than blanks')
        return True
    return False


class Why(set):
    strict = False      # loops over parts always find another part when they look ahead


def split_at(k):
    """(kind of split, text between the parts) of loops over the parts of a text"""
    m = re.fullmatch(r"(split|split_inclusive) ('.*') ", base_kind(k), re.S)
    return (m[1], eval(m[2]) if m[1] == 'split' else '') if m else None


def soft(F, x, X, bodies, bad, d=0):
    """x is X, refilled between its hard breaks; blanks at its end may be missing"""
    if x is X or refilled(F, x, X, bodies, bad):
        return True
    if type(x) is not N or x.op != 'app':
        return False
    if x.a[0] == 'alt':
        return all(soft(F, y, X, bodies, bad, d) for y in x.a[1:])
    if x.a[0] == 'joined':
        k, Y = x.a[1].a[1].a[0], x.a[1].a[2]
        q = split_at(k)
        if q and Y is X:
            got = noid(plain(x.a[3]))
            if (got.a[0] if got.op in ('s', 'c') else None) != q[1]:
                bad.add('the breaks between the parts of a paragraph are not kept')
                return True
            return soft(F, x.a[2], mk('app', f'{k}of', X), bodies, bad, d)
        return False
    if x.a[0] == TEXT:
        tr = text(x, bodies)
        while len(tr) > 1 and (type(tr[-1]) is N and tr[-1].op == 'pop' and tr[-1].a[0] == 'ws' or tr[-1] == '\\'):
            tr = tr[:-1]
        if len(tr) == 1 and type(tr[0]) is N:
            return soft(F, tr[0], X, bodies, bad, d)
        k = parted(tr, X)
        q = k and split_at(k)
        if not q:
            return False
        e = mk('app', base_kind(k) + 'of', X)
        first, later = rounds(k, X, bodies)

        def one(b):
            return len(b) == 1 and type(b[0]) is N and soft(F, b[0], e, bodies, bad, d) or \
                len(b) == 1 and isinstance(b[0], tuple) and soft(F, mk('app', TEXT, x.a[1], *enc(b)), e, bodies, bad, d)
        if not q[1]:
            return bool(first) and all(one(b) for b in first | later)
        if not all(one(tuple(y for y in b if y != q[1])) and sum(y == q[1] for y in b) <= 1 for b in first | later):
            return False
        if not (first and later and lined(first, later, lambda b: True, lambda y: y == q[1], bad.strict)):
            bad.add('the hard breaks of a paragraph are not kept')
        return True
    r = called(F, x, d)
    return r is not None and all(soft(F, v, X, b, bad, d + 1) for v, b in r)


def taken(F, tr, ret, m, X, bad):
    """is the text returned the text X of the buffer?"""
    r = noid(bare(ret))
    if r is mk('app', WROTE, X):
        # changed in place
        rest = [y for y in tidy(tr, m.bodies) if not (type(y) is N and y.op == 'pop' and y.a[0] == 'ws')]
        return rest in ([], ['\\'])
    return not tidy(tr, m.bodies) and soft(F, r, X, m.bodies, bad)


TEXTS = ('trim', 'trim_start', 'trim_end', 'trim_matches', 'trim_end_matches', 'trim_start_matches', 'index', 'lineof', 'charof', 'id')


class Lines(Spec):
    def line(self, b, X, end):
        return super().line(b[1:] if b and b[0] == GAP else b, X, end)


def find_buf(x, w0):
    """subterms that are the popped buffer, or a local function's result on it"""
    if type(x) is not N:
        return []
    if x.op == 'app' and x.a[0] not in TEXTS and any(type(a) is N and top_of(a, w0) is not None for a in x.a[1:]):
        return [x]
    if top_of(x, w0) is not None:
        return [x]
    out = []
    for a in x.a:
        if type(a) is N:
            out += find_buf(a, w0)
        elif type(a) is tuple:
            for b in a:
                out += find_buf(b, w0) if type(b) is N else []
    return out


def top_of(x, w0):
    """(variant, path) if x is a part of the buffer on top of the stack"""
    path = []
    while type(x) is N and x.op in ('fld', 'field', 'V', 'X'):
        if x.op in ('fld', 'field'):
            path.append((x.a[1], x.a[2]))
        x = x.a[0]
    if type(x) is N and x.op == 'vtop' and x.a[0] is w0:
        return tuple(reversed(path))
    return None


def unempty(v):
    """assume that buffers and lines have text"""
    if v.a[0] != 'is_empty':
        return None
    x = v.a[1]
    while x.op == 'app' and x.a[0] in ('trim', 'trim_start', 'trim_end', 'lineof'):
        x = x.a[1]
    return False if any(y.a[0] == 'S.writers' for y in x.syms) and x.op != 'sym' else None


def ends(F, cx, locs, names):
    """what is written when a construct with a buffer ends"""
    S = {s.name: s for s in scripts(F)}
    fi, v = state_fields(F)
    enum, vs = writers(F)
    wi = [i for i, t in enumerate(v['ftys']) if enum in t and 'Vec<' in t]
    w0 = sym('S.' + v['fields'][wi[0]])
    outs = {}
    for name, variant, whole in names:
        k = [i for i, (n, _) in enumerate(vs) if n == variant]
        if not k:
            cx.oblige(f'end:{name}', False, f'no buffer for {variant}', None)
            continue
        bad, n = set(), 0
        m = TraceMon(F, S[name])
        m.assume = unempty
        m.coarse = True
        e, _ = run_step(F, S[name], m, cap=6, loopcap=4, budget=120000, init_mon=((),))
        sp = Lines(F, m)
        sp.esc = False
        for init, cur, mon, st in m.ends:
            n += 1
            tr = mon[1]
            flatten = [x if type(x) is N else x[2] if isinstance(x, tuple) and x[0] == 'each' else None for x in tr]
            found = [(i, b) for i, x in enumerate(flatten) if x is not None for b in dict.fromkeys(find_buf(x, w0))]
            if len(found) != 1:
                bad.add(f'what was collected is {"not written" if not found else "written more than once"}; it writes: {show_trace(tr, m.bodies)[:300]}')
                continue
            i, b = found[0]
            path = top_of(b if b.op != 'app' else next(a for a in b.a[1:] if top_of(a, w0) is not None), w0)
            if path[0][0] != k[0]:
                bad.add(f'the buffer of another kind of construct is taken')
                continue
            full = b
            x = flatten[i]
            y = x
            while y is not b and not (y.op == 'app'):
                full = y
                y = y.a[0]
            if b.op == 'app':
                outs.setdefault((b.a[0], vs[k[0]][1]), set()).add(strip_fields(x, b))
            if whole:
                tr = tuple(z for z in tr[:i] if z != GAP) + tr[i:]
                ok_ = any(sp.lines(tr, X, False) in ((), (GAP,)) for X in dict.fromkeys([x, mk('app', 'trim_end', x)]))
                if not ok_:
                    bad.add(f'the lines collected are not all written, once and in order; it writes: {show_trace(tr, m.bodies)[:400]}')
            elif flatten[i] is not tr[i]:
                bad.add(f'what was collected is written line by line')
            if b.op != 'app':
                want = {mk('dummy', p) for p in locs.get(vs[k[0]][1], ())}
                if path[1:] and not any(path[1:] and tuple(path[1:2]) == l[:1] for l in locs.get(vs[k[0]][1], ())):
                    bad.add('what is written is not the text that was collected')
        cx.count('paths', n)
        cx.count('steps', e.steps)
        cx.oblige(f'end:{name}', n > 0 and not bad, f'{name}: ' + ('; '.join(sorted(bad))[:700] or 'it is never handled'), loop_fn(F)['sp'])
    return outs


def strip_fields(x, b):
    """path from b up to the text in x"""
    def go(y):
        if y is b:
            return ()
        if y.op in ('fld', 'field'):
            r = go(y.a[0])
            return None if r is None else r + ((y.a[1], y.a[2]),)
        if y.op == 'app' and y.a[0] in ('trim_end', 'trim', 'id') and type(y.a[1]) is N:
            return go(y.a[1])
        return None
    return go(x)


def taken_out(F, cx, name, t, paths, locs):
    g = next((f for f in F.local if f['path'] == name and not f['closure']), None)
    if g is None:
        cx.oblige(f'out:{name}', False, f'{name} is not a function of the library', None)
        return
    bad, n = set(), 0
    ats = locs.get(t, set())
    if len(ats) != 1:
        cx.oblige(f'out:{name}', False, f'text goes to {len(ats)} different places of {t}', g['sp'])
        return
    X = sym('W')
    for seg in next(iter(ats)):
        X = field(X, seg)
    args = []
    for l in g['locals'][1:g['argc'] + 1]:
        ty = F.tyname(l['ty'])
        args.append(ref(W, (), True) if ty.startswith('&') and t in ty else sym('W') if ty.split('<')[0] == t else sym('A'))
    m, e, outs = emit_run(F, g, args, {W: sym('W')})
    runs = [(m, outs)]
    if m.peeked:
        m2 = EmitMon(F)
        m2.more = True
        runs.append(emit_run(F, g, args, {W: sym('W')}, m2)[::2])
    for m, o in [(m, o) for m, outs in runs for o in outs]:
        if o.kind != 'ret':
            continue
        n += 1
        r = flat(State(o.mem, o.mon), o.ret, e)
        for p in paths:
            x = r
            for seg in p or ():
                x = field(x, seg)
            why = Why()
            why.strict = m.more and m.peeked
            if p is None or not taken(F, o.mon[1], x, m, X, why):
                why.add(f'what it returns is not the text collected: {show(x)[:120]} after writing {show_trace(tidy(o.mon[1], m.bodies), m.bodies)[:400]}')
            bad |= why
    cx.count('paths', n)
    cx.count('steps', e.steps)
    cx.oblige(f'out:{name}', n > 0 and not bad, f'{name}: ' + ('; '.join(sorted(bad))[:800] or 'no path analysed'), g['sp'])


def run(cx):
    F = cx.facts('lib')
    locs = sinks(F, cx)
    passes_on(F, cx)
    shared(F, cx)
    outs = ends(F, cx, locs, [('End(Paragraph)', 'Paragraph', True), ('End(FootnoteDefinition)', 'FootnoteDefinition', True),
                              ('End(Link)', 'Link', False), ('End(Image)', 'Link', False)])
    for (name, t), paths in sorted(outs.items()):
        taken_out(F, cx, name, t, paths, locs)
