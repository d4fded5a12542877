"""The steps that open and close links and images are analysed from an unknown formatting state, with the
link's kind fixed to each of the parser's kinds in turn and its buffer and payload unknown, through all
local callees that do not loop.  What each path writes must be the form of that kind: the opener, the
buffered text once, and for inline links everything between the parentheses (cut into destination and title
at one position, blanks and the enclosing angle brackets or quotes apart, those facts being known on the
path), for references the label as it stands, lines after the first without the containers' prefixes."""
from util import *
from steps import *
from rules.c08 import SRC, INPUT, GAP, idx, app, check_strip, check_split
from rules.c09 import writers
from rules.c11 import MarkMon, accepts
import absint

RULE = __doc__
ASSUMES = ['std text functions do what they document',
           'the ranges of the parser\'s events delimit their source text',
           'which brackets, parentheses and quotes of the source enclose the label, the destination and the title is found by scanning loops that are not part of this']
LT = 'pulldown_cmark::LinkType'
LINK = sym('W.link')
DEST, TITLE, ID = sym('t.dest'), sym('t.title'), sym('t.id')
_CX = {}
FORM = {'Inline': '](', 'Reference': '][', 'ReferenceUnknown': '][', 'Collapsed': '][]', 'CollapsedUnknown': '][]',
        'Shortcut': ']', 'ShortcutUnknown': ']', 'Autolink': '>', 'Email': '>'}
BRACKETED = ('Autolink', 'Email')


class LinkMon(MarkMon):
    """lines put together again are terms; the buffered text of a link is taken out as a whole"""
    marks = True

    def append(self, st, v, xs, site):
        old, self.coarse = self.coarse, False
        try:
            return super().append(st, v, xs, site)
        finally:
            self.coarse = old

    def entries(self, x):
        # lines put together by a loop are looked at when all its iterations are known
        if not isinstance(x, str):
            y = noid(plain(x))
            if y.op == 'app' and y.a[0] == TEXT and any(isinstance(e, tuple) and e[0] == 'each' for e in dec(y.a[2:])):
                return [T] if is_open(dec(y.a[2:])[-1]) else [y]
        return super().entries(x)

    def kinds(self, v):
        return ('later', v.a[1]) if v.op == 'app' and v.a[0] == 'rest' else None

    def inline(self, eng, g):
        if not g['closure'] and g['local'] and any('LinkWriter' in self.F.tyname(l['ty']) for l in g['locals'][1:g['argc'] + 1]) \
                and 'String' in self.F.tyname(g['locals'][0]['ty']):
            return False
        if g['path'] in splitters(self.F):
            return False
        return super().inline(eng, g)

    def index(self, eng, st, name, first):
        return cint(0) if first else mk('X', eng.fresh(st, name), frozenset({0}))

    def on_call(self, eng, cx, st, fr, args, site):
        if fr.get('name') == 'next' and args and args[0].op == 'ref' and not self.repeated(eng, cx):
            it = noid(self.iterator(eng, st, args[0], True))
            if it.op == 'app' and it.a[0] in splitters(self.F) and len(it.a) == 2:
                y, no = st, st.copy()
                root, path = self.place(eng, st, args[0])
                for z in (y, no):
                    eng.write(z.mem, root, path, mk('app', 'rest', it.a[1]))
                no.subs += ((mk('app', 'ended', it), TRUE),)
                self.splitters.add(it.a[0])
                return [('ret', some(mk('app', 'headof', it.a[1])), y), ('ret', NONE, no)]
        n = fr.get('name', '')
        rk = fr.get('rkrate') or fr.get('krate')
        if n in ('to_owned', 'to_string', 'from', 'into') and len(args) == 1 and rk in STD:
            v = noid(bare(flat(st, args[0], eng)))
            if v.op == 'app' and v.a[0] == 'headof' or v is cstr(''):
                return [('ret', self.append(st, cstr(''), [v], site), st)]
        if n in ('join', 'concat') and args and rk in STD + ('itertools',):
            v = noid(self.iterator(eng, st, args[0], True))
            k = iterated(v, self)
            if k is not None:
                a, b = self.element(eng, cx, st, v, k, site, ()), self.element(eng, cx, st, v, k, site, (('each', k[0], k[1], ()),))
                sep = noid(flat(st, args[1], eng)) if len(args) > 1 else cstr('')
                if a is not None and b is not None:
                    return [('ret', mk('app', 'lines', k[1], a, b, sep), st)]
        return super().on_call(eng, cx, st, fr, args, site)

    def element(self, eng, cx, st, it, k, site, tr):
        s = st.copy()
        s.mon = (s.mon[0], tr) + s.mon[2:]
        r = self.nexts(eng, cx, s, it, '', site, True)
        vals = {noid(flat(y, x, eng)) for x, y in r or () if x is not None}
        return vals.pop() if len(vals) == 1 and all(known(v) for v in vals) else None


def facts(st):
    return st.facts if hasattr(st, 'facts') else [(noid(norm(a)), b) for a, b in st.subs]


class View:
    """what is known at the end of a path, with texts put together line by line recognised"""

    def __init__(self, m, st):
        self.memo = {}
        self.bodies = m.bodies
        self.ended = {a.a[1] for a, b in st.subs if a.op == 'app' and a.a[0] == 'ended' and b is TRUE}
        self.facts = [(self.term(noid(norm(a))), self.term(b)) for a, b in st.subs]

    def trace(self, tr):
        return tuple(self.term(noid(x)) if type(x) is N else x for x in tr)

    def term(self, x):
        if x in self.memo:
            return self.memo[x]
        y = x
        if x.a and x.op not in ('sym', 'c', 's', 'b'):
            if x.op == 'agg' and str(x.a[0]).endswith('borrow::Cow') and len(x.a[2]) == 1:
                y = self.term(x.a[2][0])
            else:
                out = tuple(self.term(z) if type(z) is N else tuple(self.term(w) if type(w) is N else w for w in z) if type(z) is tuple else z for z in x.a)
                y = rebuild(x.op, out) if any(z is not w for z, w in zip(out, x.a)) else x
                if y.op == 'app' and y.a[0] == TEXT:
                    y = self.lines(y)
        self.memo[x] = y
        return y

    def lines(self, x):
        tr = tuple(e for e in tidy(dec(x.a[2:]), self.bodies) if e != '')
        if not tr or not isinstance(tr[-1], tuple) or tr[-1][0] != 'each' or tr[-1][3] is not None:
            return x
        _, kind, X, _ = tr[-1]
        X = noid(X)
        k = base_kind(kind)
        head = [noid(e) if type(e) is N else e for e in tr[:-1]]
        fst = lat = None
        for b in self.bodies.get((tr[-1][1], tr[-1][2]), ()):
            mark = [e for e in b if e in (FIRST, LATER)]
            b = [e for e in b if e not in (FIRST, LATER)]
            nl = bool(b) and isinstance(b[0], tuple) and b[0] == (WS, 1, False)
            if len(b) - nl != 1 or type(b[-1]) is not N or not mark:
                return x
            v = (nl, self.term(noid(b[-1])))
            if k == 'later':
                if lat not in (None, v):
                    return x
                lat = v
            elif mark[0] is FIRST:
                if fst not in (None, v):
                    return x
                fst = v
            else:
                if lat not in (None, v):
                    return x
                lat = v
        X = self.term(X)
        line = app('lineof', X)
        if k == 'later':
            if head not in ([app('headof', X)], []) or not head and not any(noid(e).a[1] is X for e in self.ended):
                return x
            if lat is None or not lat[0] or lat[1] is not app('strip', app('laterof', X)):
                return x
            return app('lines', X, line, app('strip', line), cstr('\n'))
        if k != 'line' or head or fst is None or lat is None or fst[0] or not lat[0]:
            return x
        return app('lines', X, fst[1], lat[1], cstr('\n'))


def is_fact(st, t, val):
    return any(a is t and (b is TRUE if val else b is FALSE) for a, b in facts(st))


def bare_fact(st, name, x, pat, val):
    """is it known whether x starts or ends with a character?"""
    for a, b in facts(st):
        if a.op == 'app' and a.a[0] == name and a.a[1] is x and len(a.a) > 2 and a.a[2].op in ('c', 's') and a.a[2].a[0] == pat:
            if b is (TRUE if val else FALSE):
                return True
    return False


def zero(st, x, char='\n'):
    """is it known that x has no line end?"""
    F = _CX['F']
    for a, b in facts(st):
        v = b
        # a count compared with a number
        if a.op == 'bin' and a.a[2].op == 'c' and b.op == 'c':
            n, op, yes = int(a.a[2].a[0]), a.a[0], bool(b.a[0])
            none = (op, n, yes) in (('Eq', 0, True), ('Ne', 0, False), ('Gt', 0, False), ('Ge', 1, False), ('Lt', 1, True), ('Le', 0, True))
            if none and counts(F, a.a[1], x, char):
                return True
            continue
        if counts(F, a, x, char) and b.op == 'c' and not b.a[0]:
            return True
        if a.op == 'app' and a.a[0] in ('contains', 'find', 'memchr') and a.a[1] is x and accepts(F, a.a[2], char) and \
                (b is FALSE or b.op == 'V' and b.a[1] == 0 or b.op == 'X' and 1 in b.a[1]):
            return True
    return False


def counts(F, a, x, char):
    """does the term count line ends in x?"""
    if a.op != 'app':
        return False
    if len(a.a) == 2 and a.a[1] is x and any(f['path'] == a.a[0] for f in F.local):
        _CX.setdefault('counters', set()).add(a.a[0])
        return True
    return a.a[0] == 'count' and a.a[1].op == 'app' and a.a[1].a[0] in ('matches', 'filter') and mentions(a.a[1], x)


def continued(x, st, need=True):
    """the text whose lines after the first are stripped of prefixes (x itself if it has one line); None: neither"""
    if x.op == 'app' and x.a[0] == 'lines':
        X, a, b, sep = x.a[1:]
        line = app('lineof', X)
        good = sep.op == 's' and sep.a[0] == '\n' and b is app('strip', line) and (a is line or X is SRC and a is b)
        return X if good else None
    return x if not need or zero(st, x) or zero(st, SRC) else None


def untrim(x):
    while x.op == 'app' and x.a[0] in ('trim', 'trim_start', 'trim_end') and len(x.a) == 2:
        x = x.a[1]
    return x


def rng(x):
    """(text, lo, hi) of a part of a text, lo/hi None at its ends"""
    if x.op != 'app' or x.a[0] not in ('index', 'get_unchecked') or x.a[2].op != 'agg':
        return None
    k, r = x.a[2].a[0], x.a[2].a[2]
    if k.endswith('RangeFrom'):
        return x.a[1], r[0], None
    if k.endswith('RangeTo'):
        return x.a[1], None, r[0]
    if k.endswith('Range'):
        return x.a[1], r[0], r[1]
    return None


def minus_one(t, x):
    return t is not None and t is binop('Sub', app('len', x), cint(1))


def within(x, st, opener, closer):
    """the text that x is all of but its first and last character, which are known to be these"""
    for _ in range(2):
        r = rng(x)
        if r and r[1] is cint(1) and minus_one(r[2], r[0]):
            y = r[0]
            if opener is None or bare_fact(st, 'starts_with', y, opener, True) and bare_fact(st, 'ends_with', y, closer, True):
                return y
        y = taken(x, 'strip_suffix', closer)
        z = taken(y, 'strip_prefix', opener) if y is not None else None
        if z is not None:
            return z
        y = taken(x, 'strip_prefix', opener)
        z = taken(y, 'strip_suffix', closer) if y is not None else None
        if z is not None:
            return z
        return None
    return None


def taken(x, fn, pat):
    """Y if x is Y without the given end"""
    if x.op in ('fld', 'field') and x.a[0].op == 'app' and x.a[0].a[0] == fn and x.a[0].a[2].op in ('c', 's') and x.a[0].a[2].a[0] == pat:
        return x.a[0].a[1]
    return None


def bracketless(x, st):
    """x without angle brackets around it"""
    x = noid(bare(x))
    y = within(x, st, '<', '>')
    return untrim(y) if y is not None else untrim(x)


def between(x, st):
    """is x all that stands between a position in the link's source and its final parenthesis?"""
    x = untrim(x)
    r = rng(x)
    if r and r[1] is None and r[2] is None:
        return False
    if r and r[1] is None and minus_one(r[2], r[0]):
        r2 = rng(r[0])
        return bool(r2) and r2[1] is not None and r2[2] is None and continued(r2[0], st) is SRC
    if r and r[2] is None and any(a is app('strip_suffix', x, a.a[2]) and a.a[2].a[0] == ')' and b.op == 'V' and b.a[1] == 0
                                  for a, b in facts(st) if a.op == 'app' and a.a[0] == 'strip_suffix' and len(a.a) == 3 and a.a[2].op in ('c', 's')):
        return continued(r[0], st) is SRC        # cannot be: the source of an inline link ends with a parenthesis
    if not r or r[1] is None:
        y = taken(x, 'strip_suffix', ')')
        r2 = rng(y) if y is not None else None
        return continued(r2[0], st) is SRC if r2 and r2[2] is None else False
    return r[1] is not None and minus_one(r[2], r[0]) and continued(r[0], st) is SRC


def halves(u, q):
    """P if u and q are what lies before and after one position in P"""
    for a, b in ((u, q),):
        if a.op in ('fld', 'field') and b.op in ('fld', 'field') and a.a[0] is b.a[0]:
            s = a.a[0]
            if s.op == 'app' and s.a[0] == 'split_at' and (a.a[2], b.a[2]) == (0, 1):
                return s.a[1]
        x, y = rng(a), rng(b)
        if x and y and x[0] is y[0] and x[1] is None and y[2] is None and x[2] is y[1] and x[2] is not None:
            return x[0]
    return None


def quote_of(q):
    """terms for the last character of q"""
    return [field(app('last', app(n, q)), (1, 0)) for n in ('bytes', 'chars')]


def ends(x, c, st):
    """is it known whether x ends with c?  True, False or None"""
    F = _CX['F']
    qs = quote_of(x)
    for a, b in facts(st):
        if a.op == 'app' and a.a[0] == 'ends_with' and a.a[1] is x and len(a.a) == 3:
            r = accepts(F, a.a[2], c)
            if b is TRUE and r is False or b is FALSE and r is True:
                return False
            if b is TRUE and a.a[2].op in ('c', 's') and a.a[2].a[0] == c:
                return True
        if a in qs and b.op == 'c':
            return b.a[0] in (c, ord(c))
        if a in qs and b.op == 'X' and b.a[1] & {c, ord(c)}:
            return False
        if a.op == 'app' and a.a[0] == 'last' and a.a[1] in (app('bytes', x), app('chars', x)) and b.op == 'V' and b.a[1] == 0:
            return False
        if a.op == 'bin' and a.a[0] in ('Eq', 'Ne') and any(y in qs for y in a.a[1:]) and b in (TRUE, FALSE):
            o = [y for y in a.a[1:] if y not in qs]
            if len(o) == 1 and o[0].op == 'c' and o[0].a[0] in (c, ord(c)):
                return (b is TRUE) == (a.a[0] == 'Eq')
    return None


def flatten(tr):
    """a trace as a list of single characters and terms"""
    out = []
    for x in tr:
        if isinstance(x, str):
            out += list(x)
        elif x != GAP:
            out.append(x)
    return out


def untitled(P, st):
    """is it known that P has no title?"""
    F = _CX['F']
    if all(ends(P, c, st) is False for c in '"\')'):
        return True
    for a, b in facts(st):
        neg = b is FALSE or b.op == 'V' and b.a[1] == 0
        if a.op == 'app' and a.a[0] in ('contains', 'find', 'split_once') and untrim(a.a[1]) is untrim(P) and neg and \
                (is_ws(a.a[2]) or all(accepts(F, a.a[2], c) for c in ' \t\n')):
            return True
        if a.op == 'app' and len(a.a) == 2 and loc(F, a.a[0]) and untrim(strip_bytes(a.a[1])) is untrim(P) and \
                (b.op == 'c' and not b.a[0] or b.op == 'V' and b.a[1] == 0):
            return True
        if a.op == 'bin' and a.a[2].op == 'c' and not a.a[2].a[0] and b.op == 'c' and (a.a[0], bool(b.a[0])) in (('Eq', True), ('Ne', False), ('Gt', False)) and \
                a.a[1].op == 'app' and len(a.a[1].a) == 2 and loc(F, a.a[1].a[0]) and untrim(strip_bytes(a.a[1].a[1])) is untrim(P):
            return True
    return False


def is_ws(p):
    return p.op == 'fn' and 'is_whitespace' in str(p.a)


def strip_bytes(x):
    while x.op == 'app' and x.a[0] in ('as_bytes', 'bytes', 'chars'):
        x = x.a[1]
    return x


def loc(F, path):
    return any(f['path'] == path for f in F.local)


def empty(st, x):
    return is_fact(st, app('is_empty', x), True) or any(
        a.op == 'bin' and a.a[0] == 'Eq' and a.a[1] is app('len', x) and a.a[2] is cint(0) and b is TRUE for a, b in facts(st))


def bare_allowed(u, st, title):
    """is it known that u needs no angle brackets?"""
    F = _CX['F']
    blank = bal = False
    for a, b in facts(st):
        if a.op != 'app':
            continue
        if a.a[0] in ('contains', 'find') and a.a[1] is u and (b is FALSE or b.op == 'V' and b.a[1] == 0) and all(accepts(F, a.a[2], c) for c in ' \t'):
            blank = True
        if len(a.a) >= 2 and a.a[1] is u and loc(F, a.a[0]) and b is TRUE:
            bal = True
        if a.a[0] in ('any', 'position', 'find') and a.a[1] in (app('chars', u), app('bytes', u)) and (b is FALSE or b.op == 'V' and b.a[1] == 0) and \
                all(accepts(F, a.a[2], c) for c in ' \t'):
            blank = True
        if a.a[0] == 'all' and a.a[1] in (app('chars', u), app('bytes', u)) and b is TRUE and all(accepts(F, a.a[2], c) is False for c in ' \t'):
            blank = True
    if not blank:
        return 'with blanks is written without angle brackets'
    if not bal:
        return 'with unbalanced parentheses is written without angle brackets'
    if title and not any(a is app('is_empty', u) and b is FALSE for a, b in facts(st)):
        return 'that is empty is written without angle brackets before a title'
    return None


def inline_form(tr, st):
    """what is wrong with the trace of an inline link after `](`, or None"""
    cs = flatten(tr)
    if not cs or cs[-1] != ')':
        return 'an inline link does not end with a parenthesis'
    cs = cs[:-1]
    angle = cs[:1] == ['<']
    u = None
    if angle:
        if '>' not in cs:
            return 'an angle bracket is not closed'
        k = cs.index('>')
        body, rest = cs[1:k], cs[k + 1:]
    else:
        k = next((i for i, c in enumerate(cs) if c == ' '), len(cs))
        body, rest = cs[:k], cs[k:]
    if len(body) > 1 or body and type(body[0]) is not N:
        return f'the destination is not written as it stands: {show_trace(tuple(body))[:300]}'
    u = noid(bare(body[0])) if body else None
    if rest and (len(rest) != 4 or rest[0] != ' '):
        return f'the title is not set off by a blank and in its own quotes: {show_trace(tuple(rest))[:300]}'
    if u is not None and not angle:
        # the parser's own destination is only used if none is found in the source
        w = bare_allowed(u, st, bool(rest))
        if w:
            return f'a destination {w}'
    if u is None and rest and not angle:
        return 'an empty destination before a title is written without angle brackets'
    if not rest:
        if u is None:
            return None if any(a.op == 'app' and a.a[0] == 'is_empty' and b is TRUE and between(a.a[1], st) for a, b in facts(st)) else \
                'a destination is left out'
        if u is DEST:
            return None if empty(st, TITLE) else 'the title is left out'
        for P in candidates(u, st):
            if between(P, st) and titleless(P, st):
                return None
        return 'the destination written is not all that stands between the parentheses, although a title may follow it: ' + show(u)[:200]
    q1, t, q2 = rest[1:]
    if type(t) is not N:
        return 'the title is not written as it stands'
    t = noid(bare(t))
    if t is TITLE:
        return None if u is DEST and q1 == q2 and q1 in ('"', "'") else 'the parser\'s title is not written in quotes'
    Q = within(t, st, None, None)
    if Q is None:
        return f'the title is not written as it stands: {show(t)[:200]}'
    if ends(Q, ')', st):
        if (q1, q2) != ('(', ')'):
            return 'a title in parentheses is not written in parentheses'
    elif q1 is not q2 and q1 != q2:
        return 'a title is not written between the same quotes'
    elif type(q1) is N:
        if noid(bare(q1)) not in quote_of(Q):
            return 'a title is not written in its own quotes'
        if ends(Q, ')', st) is not False:
            return 'a title in parentheses may be written between two closing parentheses'
    elif not ends(Q, q1, st):
        return 'a title is not written in its own quotes'
    Q = untrim(Q)
    if u is None:
        return None if any(a.op == 'app' and a.a[0] == 'is_empty' and b is TRUE and any(
            (lambda P: P is not None and between(P, st))(halves(x, Q)) for x in candidates(noid(bare(a.a[1])), st)) for a, b in facts(st)) else 'a destination is left out'
    for x in candidates(u, st):
        P = halves(x, Q)
        if P is not None and between(P, st):
            return None
    return 'destination and title are not all that stands between the parentheses: ' + show(u)[:200]


def candidates(u, st):
    """u with and without the angle brackets it may have lost, and the blanks around it"""
    out = []
    for x in (u, untrim(u)):
        y = within(x, st, '<', '>')
        if y is not None:
            out += [y, untrim(y)]
        elif not (bare_fact(st, 'starts_with', x, '<', True) and bare_fact(st, 'ends_with', x, '>', True)):
            out += [x, untrim(x)]
    return out


def titleless(P, st):
    x = P
    while True:
        if untitled(x, st):
            return True
        if x.op == 'app' and x.a[0] in ('trim', 'trim_start', 'trim_end'):
            x = x.a[1]
            continue
        break
    # the facts may be about the text with blanks taken off
    return any(untitled(a.a[1], st) for a, b in facts(st) if a.op == 'app' and len(a.a) > 1 and type(a.a[1]) is N and untrim(a.a[1]) is x) or \
        any(untitled(strip_bytes(a.a[1]), st) for a, b in facts(st) if a.op == 'app' and len(a.a) == 2 and type(a.a[1]) is N and untrim(strip_bytes(a.a[1])) is x)


def label_form(tr, st):
    cs = flatten(tr)
    if not cs or cs[-1] != ']':
        return 'a reference does not end with a bracket'
    cs = cs[:-1]
    esc = cs[:1] == ['\\']
    if esc:
        cs = cs[1:]
    if len(cs) != 1 or type(cs[0]) is not N:
        return f'the label is not written as it stands: {show_trace(tuple(cs))[:300]}'
    x = noid(bare(cs[0]))
    src = continued(x, st)
    if src is None:
        return f'a label of several lines is written with line prefixes in it: {show(x)[:200]}'
    if not part(src):
        return f'the label is not a part of the input: {show(src)[:200]}'
    caret = [b is TRUE for a, b in facts(st) if a.op == 'app' and a.a[0] == 'starts_with' and a.a[1] in (x, src) and a.a[2].op in ('c', 's') and a.a[2].a[0] == '^']
    if esc != (True in caret) or not caret:
        return 'a label that begins with ^ is not escaped' if not esc else 'a label is escaped without need'
    return None


def part(x):
    x = untrim(noid(bare(x)))
    r = rng(x)
    return bool(r) and (r[0] is SRC or part(r[0])) or taken(x, 'strip_suffix', ']') is not None and part(taken(x, 'strip_suffix', ']')) or \
        taken(x, 'strip_prefix', '[') is not None and part(taken(x, 'strip_prefix', '['))


def rel(a, b):
    return a.op == 'app' or a.op == 'bin' or a.op in ('fld', 'field')


def tag_of(F, kind, lt):
    tg = F.adts[TAG]['variants']
    i = [j for j, v in enumerate(tg) if v['name'] == kind][0]
    li = [j for j, v in enumerate(F.adts[LT]['variants']) if v['name'] == lt][0]
    fs = {'link_type': agg(LT, li, ()), 'dest_url': DEST, 'title': TITLE, 'id': ID}
    return agg(TAG, i, [fs[n] for n in tg[i]['fields']])


def closing(F, S, kind, lt):
    enum, vs = writers(F)
    k = [i for i, (n, _) in enumerate(vs) if n == 'Link']
    if not k:
        raise Missing('writer of links')
    stacks = {'writers': vec(sym('S.writers'), (agg(enum, k[0], (LINK,)),)), 'nested_context': vec(sym('S.nested_context'), (tag_of(F, kind, lt),))}
    name = f'End({kind})'
    m = LinkMon(F, S[name])
    m.remember = rel
    e, _ = run_step(F, S[name], m, cap=160, loopcap=4, budget=120000, init_mon=((),), stacks=stacks)
    bad = []
    for init, cur, mon, st in m.ends:
        v = View(m, st)
        tr = v.trace(tidy(mon[1], m.bodies))
        w = form(kind, lt, tr, v)
        if w:
            bad.append(f'{w}; it writes: {show_trace(tr, m.bodies)[:500]}')
    return m, e, bad


def form(kind, lt, tr, st):
    tr = tuple(x for x in tr if x != GAP)
    op = '<' if lt in BRACKETED else '![' if kind == 'Image' else '['
    if not tr or tr[0] != op:
        return f'it does not open with {op}'
    if len(tr) < 2 or not (type(tr[1]) is N and tr[1].op == 'app' and tr[1].a[-1] is LINK and len(tr[1].a) == 2):
        return 'its text is not written once'
    rest = flatten(tr[2:])
    want = FORM[lt]
    if ''.join(x if isinstance(x, str) else '\0' for x in rest[:len(want)]) != want:
        return f'its text is not followed by {want}'
    rest = tuple(rest[len(want):])
    if lt == 'Inline':
        return inline_form(rest, st)
    if lt.startswith('Reference'):
        return label_form(rest, st)
    return None if not rest else 'something else is written after it'


def opening(F, S, kind, lt):
    """nothing is written, the tag is kept as it is, and only autolinks are collected as such"""
    name = f'Start({kind})'
    tag = tag_of(F, kind, lt)
    ev = S[name].term
    enum, vs = writers(F)
    k = [i for i, (n, _) in enumerate(vs) if n == 'Link'][0]
    m = LinkMon(F, Script(name, mk('agg', ev.a[0], ev.a[1], (tag,))))
    e, _ = run_step(F, m.script, m, cap=24, loopcap=4, budget=120000, init_mon=((),))
    bad = []
    adt = [a for a in F.adts if a.endswith('LinkWriter')]
    flags = [i for i, t in enumerate(F.adts[adt[0]]['variants'][0]['ftys']) if t == 'bool'] if adt else []
    for init, cur, mon, st in m.ends:
        tr = tuple(x for x in tidy(mon[1], m.bodies) if x != GAP)
        if tr:
            bad.append(f'it writes: {show_trace(tr, m.bodies)[:300]}')
        top = items(cur['nested_context'])[1]
        t = noid(bare(top[-1])) if top else T
        if t is not noid(tag):
            bad.append(f'what it keeps of the link is not the link: {show(t)[:200]}')
        w = items(cur['writers'])[1]
        w = bare(w[-1]) if w else T
        if not (w.op == 'agg' and w.a[1] == k):
            bad.append('no buffer for a link is opened')
            continue
        for i in flags:
            v = field(w.a[2][0], (None, i))
            if not (v.op == 'c' and bool(v.a[0]) == (lt in BRACKETED)):
                bad.append('an autolink is not told from other links' if lt in BRACKETED else 'it is taken for an autolink')
    return m, e, bad


def job(t):
    what, kind, lt = t
    absint.MAXDEPTH = 64
    F, S = _CX['F'], _CX['S']
    try:
        m, e, bad = (closing if what == 'End' else opening)(F, S, kind, lt)
    except Budget as x:
        return t, 0, [f'not analysable within budget ({x})'], (), (), 0
    if not m.ends:
        bad.append('never handled')
    return t, len(m.ends), sorted(set(bad)), sorted(m.splitters), sorted(m.stripped), e.steps


def run(cx):
    F = cx.facts('lib')
    S = {s.name: s for s in scripts(F)}
    _CX.update(F=F, S=S)
    tasks = []
    for v in F.adts[LT]['variants']:
        if v['name'] not in FORM:
            continue
        for kind in ('Link', 'Image'):
            if kind == 'Image' and v['name'] in BRACKETED:
                continue
            tasks += [('Start', kind, v['name']), ('End', kind, v['name'])]
    split, strip = set(), set()
    for (what, kind, lt), n, bad, sp, stp, steps in pool(job, tasks):
        cx.count('paths', n)
        cx.count('steps', steps)
        cx.oblige(f'{what}({kind}/{lt})', n > 0 and not bad, f'{what}({kind}), {lt}: ' + '; '.join(bad)[:700], loop_fn(F)['sp'])
        cx.samples.append(f'{what}({kind}/{lt}): {n} paths')
        split |= set(sp)
        strip |= set(stp)
    for fid in sorted(strip):
        path, n, bad, sp = check_strip(F, fid)
        cx.oblige(f'prefix:{path}', n > 0 and not bad, '; '.join(bad)[:400], sp)
    for name in sorted(split):
        path, n, bad, sp = check_split(F, *splitters(F)[name])
        cx.oblige(f'lines:{path}', n > 0 and not bad, '; '.join(bad)[:400], sp)
    cx.counts['helpers'] = len(split) + len(strip)
