"""The steps of the formatting loop that open and close constructs are analysed from an unknown formatting state,
through all local callees, and what each path writes is collected as terms over the input and the event's
range and payload.  Apart from line ends, line prefixes and recovered link reference definitions it must be
exactly the construct's marker: for emphasis, strikethrough, fences and front matter a part of the maximal run
of the character the event starts with (the search for the run's end is itself analysed), for list items the
bullet the path has seen at the item's start, or zeros, number and delimiter read from there (zeros counted,
number parsed and delimiter found by code whose predicates are evaluated per character), for quotes and footnote
definitions the fixed forms, and nothing for the rest."""
from util import *
from steps import *
from rules.c08 import SRC, INPUT, GAP, idx, app, HelperMon
from rules.c09 import Lines
from rules import c10
import re

RULE = __doc__
ASSUMES = ['std text functions do what they document',
           'the ranges of the parser\'s events delimit their source text, and a marker has the length the parser requires',
           'headings, links and tables are different properties']
R0, R1 = field(RANGE, (None, 0)), field(RANGE, (None, 1))
_CX = {}
BULLETS, DIGITS = '*+-', '0123456789'


class MarkMon(TraceMon):
    """loop-free local functions are followed, numbers are kept"""

    def inline(self, eng, g):
        return super().inline(eng, g) or not looping(eng, g)

    def on_call(self, eng, cx, st, fr, args, site):
        if fr.get('name') in ('saturating_sub', 'min', 'max', 'len_utf8') and (fr.get('rkrate') or fr.get('krate')) in STD:
            vals = [noid(bare(flat(st, a, eng))) for a in args]
            if all(known(v) for v in vals):
                return [('ret', mk('app', fr['name'], *vals), st)]
        return super().on_call(eng, cx, st, fr, args, site)


def relevant(a, b):
    """facts about the characters of the event"""
    while a.op in ('fld', 'field') and type(a.a[0]) is N:
        a = a.a[0]
    if a.op == 'bin':
        return any(type(x) is N and relevant(x, b) for x in a.a[1:])
    return a.op == 'app' and (a.a[0] in ('first', 'find', 'position', 'parse', 'starts_with', 'strip_prefix', 'ended') or a.a[0] in FOLDC) and \
        bool(a.syms & (RANGE.syms | INPUT.syms)) and not a.syms & sym('S.last_position').syms


# ---- predicates on characters, decided from their code
def closure_id(v):
    if v.op == 'agg' and isinstance(v.a[0], tuple) and v.a[0][0] == 'cl':
        k = v.a[0][1]
        return HASHED.get(k) if isinstance(k, str) else k
    return None


class PredMon(HelperMon):
    def call(self, eng, cx, st, fr, args, site):
        n = fr.get('name', '')
        if n in FOLDC and len(args) >= 1 and (fr.get('rkrate') or fr.get('krate')) in STD:
            v = noid(bare(flat(st, args[0], eng)))
            if v.op == 'ref':
                v = noid(bare(flat(st, eng.content(st, v), eng)))
            if v.op == 'c' and isinstance(v.a[0], (str, int)):
                return [('ret', mk('c', FOLDC[n](chr(v.a[0]) if isinstance(v.a[0], int) else v.a[0])), st)]
        return super().call(eng, cx, st, fr, args, site)


FOLDC = {'is_whitespace': str.isspace, 'is_ascii_whitespace': lambda c: c in ' \t\n\r\f', 'is_ascii_digit': lambda c: c in DIGITS,
         'is_control': lambda c: ord(c) < 32 or 127 <= ord(c) < 160, 'is_ascii_control': lambda c: ord(c) < 32 or ord(c) == 127,
         'is_numeric': str.isnumeric, 'is_alphanumeric': str.isalnum, 'is_ascii_punctuation': lambda c: c.isascii() and not c.isalnum() and c.isprintable() and c != ' '}


def run_pred(F, pat, x):
    """the value of the closure `pat` on the character x (a term), or None"""
    fid = closure_id(pat)
    if fid is None or F.fns[fid]['argc'] != 2:
        return None
    g = F.fns[fid]
    m = PredMon(F)
    e = Engine(F, m, cap=30, loopcap=4, budget=4000)
    me = agg(('cl', fid), 0, tuple(pat.a[2]))
    mem = {}
    if F.ty(g['locals'][1]['ty']).get('k') == 'ref':
        mem[('ev', 'me')] = me
        me = ref(('ev', 'me'), (), True)
    # captured references are given as the values behind them
    caps = []
    for i, c in enumerate(pat.a[2]):
        if c.op != 'ref':
            mem[('ev', 'cap', i)] = c
        caps.append(c)
    byref = set()
    for _, (local, proj) in g.get('upvars') or []:
        fs = [k for k, p in enumerate(proj) if p[0] == 'f']
        if fs and any(p[0] == 'd' for p in proj[fs[0] + 1:]):
            byref.add(proj[fs[0]][1])
    fixed = [ref(('ev', 'cap', i), ()) if i in byref and c.op != 'ref' else c for i, c in enumerate(caps)]
    val = agg(('cl', fid), 0, tuple(fixed))
    if ('ev', 'me') in mem:
        mem[('ev', 'me')] = val
    else:
        me = val

    def wrap(ty, depth=0):
        t = F.ty(ty)
        if t.get('k') == 'ref':
            v = wrap(t['t'], depth + 1)
            mem[('ev', 'x', depth)] = v
            return ref(('ev', 'x', depth), ())
        name = F.tyname(ty)
        if name == 'char':
            return x
        if name == 'u8':
            return cint(ord(x.a[0])) if x.op == 'c' else x
        if name == '(usize, char)':
            return agg('()', 0, (sym('at'), x))
        return T
    a = wrap(g['locals'][2]['ty'])
    ins = me.syms | a.syms
    for v in mem.values():
        ins |= v.syms
    try:
        outs = e.run(g, [me, a], mem, (), 1, frozenset(ins))
    except (Budget, RecursionError):
        return None
    vals = {noid(bare(flat(State(o.mem, o.mon), o.ret, e))) for o in outs if o.kind == 'ret'}
    return vals


def accepts(F, pat, c):
    """does the pattern accept the character c?  True, False or None"""
    pat = noid(bare(pat))
    if pat.op in ('c', 's'):
        if not isinstance(pat.a[0], str):
            return None
        return len(pat.a[0]) == 1 and pat.a[0] == c
    if pat.op == 'fn' or pat.op == 'agg' and not pat.a[2] and 'is_whitespace' in str(pat.a[0]):
        for n, f in FOLDC.items():
            if re.search(r'\b' + n + r'\b', str(pat.a)):
                return bool(f(c))
        return None
    if pat.op == 'agg' and isinstance(pat.a[0], tuple) and pat.a[0][0] == 'cl':
        vals = run_pred(F, pat, mk('c', c))
        if vals is None or len(vals) != 1:
            return None
        v = next(iter(vals))
        return bool(v.a[0]) if v.op == 'c' else None
    if pat.op == 'agg':
        rs = [accepts(F, x, c) for x in pat.a[2]]
        return None if None in rs else any(rs)
    if pat.op == 'static':
        return None
    return None


X = sym('X')


def not_equal(F, pat, c):
    """the closure accepts every character but the one denoted by c (a term)"""
    vals = run_pred(F, pat, X)
    if not vals or len(vals) != 1:
        return False
    v = next(iter(vals))
    if v.op == 'un' and v.a[0] == 'Not' and v.a[1].op == 'bin' and v.a[1].a[0] == 'Eq':
        return {strip_some(v.a[1].a[1]), strip_some(v.a[1].a[2])} == {X, c}
    return v.op == 'bin' and v.a[0] == 'Ne' and {strip_some(v.a[1]), strip_some(v.a[2])} == {X, c}


def strip_some(v):
    """the payload of an option, as the option's source"""
    v = noid(bare(v))
    while v.op in ('fld', 'field') and type(v.a[0]) is N and v.a[0].op == 'app' and v.a[0].a[0] == 'first':
        v = v.a[0]
    return v


def first_char(v):
    """is v the first character of the event?"""
    v = strip_some(v)
    return v.op == 'app' and v.a[0] == 'first' and v.a[1].op == 'app' and v.a[1].a[0] == 'chars' and from_start(v.a[1].a[1])


def from_start(v):
    """a part of the input that begins where the event begins and is not empty"""
    v = noid(bare(v))
    if v is SRC:
        return True
    return v.op == 'app' and v.a[0] == 'index' and v.a[1] is INPUT and v.a[2].op == 'agg' and v.a[2].a[0].endswith(('RangeFrom', 'Range')) and \
        v.a[2].a[2][0] is R0 and (len(v.a[2].a[2]) == 1 or v.a[2].a[2][1] is R1)


def run_length(F, v):
    """is v the number of bytes of the maximal run of the first character at the event's start?"""
    v = noid(bare(v))
    if v.op in ('fld', 'field') and v.a[0].op == 'app' and v.a[0].a[0] in ('position', 'find'):
        s = v.a[0]
        t = s.a[1]
        if s.a[0] == 'position':
            if not (t.op == 'app' and t.a[0] in ('chars', 'bytes')):
                return False
            t = t.a[1]
        pat = s.a[2]
        return from_start(t) and any(not_equal(F, pat, c) for c in firsts(pat))
    if v.op == 'app' and v.a[0] == 'count' and v.a[1].op == 'app' and v.a[1].a[0] == 'take_while':
        t, pat = v.a[1].a[1], v.a[1].a[2]
        return t.op == 'app' and t.a[0] in ('chars', 'bytes') and from_start(t.a[1]) and equal_first(F, pat)
    if v.op == 'bin' and v.a[0] == 'Sub':
        a, b = v.a[1], v.a[2]
        return a.op == 'app' and a.a[0] == 'len' and from_start(a.a[1]) and b.op == 'app' and b.a[0] == 'len' and \
            b.a[1].op == 'app' and b.a[1].a[0] == 'trim_start_matches' and b.a[1].a[1] is a.a[1] and first_char(b.a[1].a[2])
    return False


def firsts(pat):
    """the captured values of a closure that are the event's first character"""
    out = []
    for c in pat.a[2] if pat.op == 'agg' else ():
        c = noid(bare(c))
        if first_char(c):
            out.append(strip_some(c))
    return out


def equal_first(F, pat):
    for c in firsts(pat):
        vals = run_pred(F, pat, X)
        if vals and len(vals) == 1:
            v = next(iter(vals))
            if v.op == 'bin' and v.a[0] == 'Eq' and {strip_some(v.a[1]), strip_some(v.a[2])} == {X, c}:
                return True
    return False


def run_of(F, x, st):
    """is x the maximal run of the first character at the event's start?"""
    if type(x) is not N:
        return False
    x = noid(bare(x))
    if x.op != 'app' or x.a[0] != 'index':
        return False
    b, r = x.a[1], x.a[2]
    if b is INPUT and r is RANGE:
        return unfound(F, st)
    if r.op != 'agg':
        return False
    if b is INPUT and r.a[0].endswith('Range') and r.a[2][0] is R0:
        e = r.a[2][1]
        if e.op == 'bin' and e.a[0] == 'Add':
            return e.a[1] is R0 and run_length(F, e.a[2]) or e.a[2] is R0 and run_length(F, e.a[1])
        if e is R1:
            return unfound(F, st)
    if b is SRC and r.a[0].endswith('RangeTo'):
        return run_length(F, r.a[2][0])
    if from_start(b) and r.a[0].endswith('RangeTo'):
        return run_length(F, r.a[2][0])
    return False


def unfound(F, st):
    """has a search for the end of the run found nothing?"""
    return any(o.op == 'app' and o.a[0] in ('position', 'find') and (v.op == 'V' and v.a[1] == 0 or v.op == 'X' and 1 in v.a[1]) and
               run_length(F, field(o, (1, 0))) for o, v in st.subs)


def limited(F, x, k, st):
    """is x the first k characters of the event's marker?"""
    if isinstance(x, str):
        return len(x) == k and len(set(x)) == 1 and any(seen(a, b) == x[0] and (first_char(a) or starts(a)) for a, b in st.subs)
    if type(x) is not N:
        return False
    x = noid(bare(x))
    if k == 1 and first_char(x):
        return True
    if x.op != 'app' or x.a[0] != 'index' or x.a[2].op != 'agg':
        return False
    b, r = x.a[1], x.a[2]
    if r.a[0].endswith('RangeTo') and r.a[2][0] is cint(k):
        return run_of(F, b, st) or from_start(b)
    return b is INPUT and r.a[0].endswith('Range') and r.a[2][0] is R0 and r.a[2][1] is binop('Add', R0, cint(k))


def starts(a):
    return a.op == 'app' and a.a[0] == 'starts_with' and from_start(a.a[1])


def seen(a, b):
    """the character that the fact a = b establishes"""
    if b.op == 'c' and isinstance(b.a[0], str):
        return b.a[0]
    if a.op == 'app' and a.a[0] in ('starts_with', 'strip_prefix') and (b is TRUE or b.op == 'V' and b.a[1] == 1) and a.a[2].op in ('c', 's'):
        return a.a[2].a[0]
    if a.op == 'bin' and a.a[0] == 'Eq' and b is TRUE:
        for x in a.a[1:]:
            if x.op == 'c' and isinstance(x.a[0], str):
                return x.a[0]
    return None


def about(a):
    """the text a fact about a first character is about"""
    if a.op == 'bin':
        return next((about(x) for x in a.a[1:] if x.op != 'c'), None)
    a = strip_some(a)
    if a.op == 'app' and a.a[0] == 'first' and a.a[1].op == 'app' and a.a[1].a[0] == 'chars':
        return a.a[1].a[1]
    if a.op == 'app' and a.a[0] in ('starts_with', 'strip_prefix'):
        return a.a[1]
    return None


# ---- list items
def item_start(F, t):
    """the event's source without blanks and quote markers in front of the marker"""
    t = noid(bare(t))
    while t.op == 'app' and t.a[0] in ('trim', 'trim_start', 'trim_end', 'trim_matches', 'trim_start_matches', 'trim_end_matches'):
        if len(t.a) > 2:
            rs = [accepts(F, t.a[2], c) for c in BULLETS + DIGITS]
            if any(r is not False for r in rs):
                return False
        t = t.a[1]
    return from_start(t)


def delimiter(F, o, st):
    """(text before the delimiter's search, term of the delimiter) for the offset o of the delimiter"""
    o = noid(bare(o))
    if o.op not in ('fld', 'field'):
        return None
    s = o.a[0]
    idx_ = False
    if s.op in ('fld', 'field'):
        s, idx_ = s.a[0], True
    if s.op != 'app' or s.a[0] not in ('find', 'position'):
        return None
    t = s.a[1]
    if idx_:
        if t.op != 'app' or t.a[0] != 'char_indices':
            return None
        t = t.a[1]
    elif t.op == 'app' and t.a[0] in ('chars', 'bytes'):
        t = t.a[1]
    pat = s.a[2]
    yes = [accepts(F, pat, c) for c in '.)']
    no = [accepts(F, pat, c) for c in DIGITS]
    if all(r is True for r in yes) and all(r is False for r in no):
        return t, s
    # the first character that is not a digit
    if item_start(F, t) and all(r is False for r in no) and all(r is True for r in yes):
        return t, s
    return None


def leading_zeros(F, k, P):
    k = noid(bare(k))
    if k.op == 'app' and k.a[0] == 'count' and k.a[1].op == 'app' and k.a[1].a[0] == 'take_while':
        t, pat = k.a[1].a[1], k.a[1].a[2]
        return t.op == 'app' and t.a[0] in ('bytes', 'chars') and t.a[1] is P and \
            [accepts(F, pat, c) for c in DIGITS] == [True] + [False] * 9
    if k.op == 'bin' and k.a[0] == 'Sub':
        a, b = k.a[1], k.a[2]
        return a is app('len', P) and b.op == 'app' and b.a[0] == 'len' and b.a[1].op == 'app' and b.a[1].a[0] == 'trim_start_matches' and \
            b.a[1].a[1] is P and [accepts(F, b.a[1].a[2], c) for c in DIGITS] == [True] + [False] * 9
    return False


def zeros(F, z, P, zero):
    """z is the number's leading zeros (all but one if the number itself is zero)"""
    if type(z) is not N or z.op != 'app' or z.a[0] not in ('index', 'repeat') or z.a[1].op != 's' or z.a[1].a[0].strip('0'):
        return False
    k = z.a[2]
    if z.a[0] == 'index':
        if k.op != 'agg' or not k.a[0].endswith('RangeTo'):
            return False
        k = k.a[2][0]
    elif len(z.a[1].a[0]) != 1:
        return False
    if not zero:
        return leading_zeros(F, k, P)
    if k.op == 'app' and k.a[0] == 'saturating_sub' or k.op == 'bin' and k.a[0] == 'Sub':
        return k.a[2] is cint(1) and leading_zeros(F, k.a[1], P)
    return False


def number(v):
    """P of a number parsed from P"""
    v = noid(bare(v))
    if v.op == 'app' and v.a[0] == 'num':
        v = noid(bare(v.a[1]))
    while v.op in ('fld', 'field') and type(v.a[0]) is N:
        v = noid(bare(v.a[0]))
    return v.a[1] if v.op == 'app' and v.a[0] == 'parse' else None


def item(F, tr, st):
    tr = [x for x in tr if x != GAP]
    if not tr:
        return 'no marker is written'
    flat_ = list(tr)
    # the blank after the marker
    if isinstance(flat_[-1], str):
        s = flat_[-1][:-1] if flat_[-1].endswith(' ') else flat_[-1]
        flat_ = flat_[:-1] + ([s] if s else [])
    if len(flat_) == 1:
        x = flat_[0]
        if isinstance(x, str) and x in BULLETS and len(x) == 1:
            if any(seen(a, b) == x and about(a) is not None and item_start(F, about(a)) for a, b in st.subs):
                return None
            return f'the bullet {x!r} is written without having been seen at the item\'s start'
        if type(x) is N:
            y = strip_some(x)
            if y.op == 'app' and y.a[0] == 'first' and y.a[1].op == 'app' and y.a[1].a[0] == 'chars' and item_start(F, y.a[1].a[1]):
                return None
            # number and delimiter as they stand in the source
            if y.op == 'app' and y.a[0] == 'index' and item_start(F, y.a[1]) and y.a[2].op == 'agg':
                k = y.a[2].a[2][-1]
                if y.a[2].a[0].endswith('RangeToInclusive'):
                    d = delimiter(F, k, st)
                elif y.a[2].a[0].endswith('RangeTo') and k.op == 'bin' and k.a[0] == 'Add' and k.a[2] is cint(1):
                    d = delimiter(F, k.a[1], st)
                else:
                    d = None
                if d and d[0] is y.a[1]:
                    return None
    # number and delimiter
    delim = None
    if flat_ and isinstance(flat_[-1], str) and flat_[-1][-1:] in ('.', ')'):
        delim = flat_[-1][-1]
        s = flat_[-1][:-1]
        flat_ = flat_[:-1] + ([s] if s else [])
    elif flat_ and type(flat_[-1]) is N:
        delim = flat_[-1]
        flat_ = flat_[:-1]
    Ps = {number(a) for a, b in st.subs} - {None}
    zero = {P for P in Ps if any(number(a) is P and a.op in ('fld', 'field') and (b.op == 'c' and not isinstance(b.a[0], str) and b.a[0] == 0) or
                                 a.op == 'bin' and a.a[0] == 'Eq' and b is TRUE and number(a.a[1]) is P and a.a[2] is cint(0) for a, b in st.subs)}
    for P in Ps:
        if not (P.op == 'app' and P.a[0] == 'index' and P.a[2].op == 'agg' and P.a[2].a[0].endswith('RangeTo') and item_start(F, P.a[1])):
            continue
        d = delimiter(F, P.a[2].a[2][0], st)
        if d is None or d[0] is not P.a[1]:
            continue
        if isinstance(delim, str):
            if not any(b.op == 'c' and b.a[0] == delim and mentions(a, d[1]) or
                       a.op == 'bin' and a.a[0] == 'Eq' and b is TRUE and mentions(a, d[1]) and any(x.op == 'c' and x.a[0] == delim for x in a.a[1:]) for a, b in st.subs):
                continue
        elif delim is None or not mentions(delim, d[1]):
            continue
        body = list(flat_)
        if body == [P]:
            return None
        if not body or not (P in zero and body[-1] == '0' or type(body[-1]) is N and number(body[-1]) is P):
            continue
        body = body[:-1]
        if len(body) == 1 and zeros(F, body[0], P, P in zero):
            return None
        if not body and P in zero and False:
            return None
    return 'what is written is not the zeros, number and delimiter the item starts with'


# ---- fences
def info_text(F, x, st):
    """the info string as it stands after the opening fence"""
    if type(x) is not N:
        return False
    x = noid(bare(x))
    while x.op == 'app' and x.a[0] in ('trim', 'trim_start', 'trim_end'):
        x = x.a[1]
    if x.op == 'app' and x.a[0] == 'trim_start_matches' and first_char(x.a[2]) or x.op == 'app' and x.a[0] == 'index' and \
            x.a[2].op == 'agg' and x.a[2].a[0].endswith('RangeFrom') and run_length(F, x.a[2].a[2][0]):
        x = noid(bare(x.a[1]))
        while x.op == 'app' and x.a[0] in ('trim', 'trim_start', 'trim_end'):
            x = x.a[1]
        x = strip_some(x)
        if x.op == 'app' and x.a[0] == 'first' and x.a[1].op == 'app' and x.a[1].a[0] == 'lines' and from_start(x.a[1].a[1]):
            return True
        return x is INFO and any(a.op == 'app' and a.a[0] == 'ended' and b is TRUE and a.a[1].op == 'app' and a.a[1].a[0] == 'lines' and
                                 from_start(a.a[1].a[1]) for a, b in st.subs)
    return False


INFO = sym('t.Fenced.0')


def after_run(a):
    """is a about the text behind the fence?"""
    return any(y.op == 'app' and y.a[0] == 'trim_start_matches' and from_start(y.a[1]) and first_char(y.a[2]) for y in parts(a))


def fence(F, tr, st):
    tr = [x for x in tr if x != GAP]
    if not tr or not run_of(F, tr[0], st):
        return 'the opening fence is not the run of fence characters in the input'
    if len(tr) == 1:
        if any(a.op == 'app' and a.a[0] == 'is_empty' and b is TRUE and (noid(bare(a.a[1])) is INFO or info_text(F, a.a[1], st)) for a, b in st.subs):
            return None
        return 'the info string may be lost'
    blank = tr[1] in (' ',)
    if not info_text(F, tr[2 if blank else 1] if len(tr) > (2 if blank else 1) else '', st) or len(tr) != (3 if blank else 2):
        return 'the info string is not written as it stands in the input'
    found = False
    for a, b in st.subs:
        neg = a.op == 'un' and a.a[0] == 'Not'
        a = a.a[1] if neg else a
        val = None if b.op != 'c' else bool(b.a[0]) != neg
        if not after_run(a):
            continue
        if a.op == 'app' and a.a[0] in ('starts_with', 'strip_prefix'):
            yes = [accepts(F, a.a[2], c) for c in ' \t']
        elif a.op == 'app' and a.a[0] in FOLDC:
            yes = [FOLDC[a.a[0]](c) for c in ' \t']
        elif a.op == 'app' and (a.a[0] == 'first' and b.op == 'V' and b.a[1] == 0 or a.a[0] == 'ended' and b is TRUE) and not blank:
            found = True
            continue
        else:
            continue
        found = True
        if False in yes:
            return 'a blank or tab between fence and info string is overlooked'
        if a.a[0] != 'strip_prefix' and None not in yes and val is not None and val != blank:
            return 'a blank is written between fence and info string where the input has none, or the reverse'
    if not found:
        return 'whether a blank separates fence and info string is not taken from the input'
    return None


def parts(v):
    yield v
    for x in parts_of(v.a):
        yield from parts(x)


def lit(*forms):
    def test(F, tr, st):
        s = [x for x in tr if x != GAP]
        if len(s) == 0 and '' in forms:
            return None
        if len(s) == 1 and s[0] in forms:
            return None
        return 'expected ' + ' or '.join(repr(f) if f else 'nothing' for f in forms)
    return test


def comment(F, tr, st):
    """nothing, or HTML comments between a list and an indented code block"""
    for x in tr:
        if x == GAP:
            continue
        if not isinstance(x, str) or any(l and not re.fullmatch(r'<!-- (?:(?!-->).)* -->', l) for l in x.split('\n')):
            return 'more than HTML comments is written where a list ends'
    return None


def marks(k=None):
    def test(F, tr, st):
        s = [x for x in tr if x != GAP]
        if len(s) == 1 and (run_of(F, s[0], st) if k is None else limited(F, s[0], k, st)):
            return None
        return 'the marker is not the one at the start of the construct'
    return test


def note(F, tr, st):
    s = tuple(x for x in tr if x != GAP)
    return None if s == ('[^', sym('t.FootnoteDefinition.0'), ']:') else 'a footnote definition does not begin with [^label]:'


NOTHING = lit('')
SPEC = {
    'Start(Paragraph)': NOTHING, 'Start(Heading)': NOTHING, 'Start(Link)': NOTHING, 'Start(Image)': NOTHING, 'Start(HtmlBlock)': NOTHING,
    'Start(TableHead)': NOTHING, 'Start(TableRow)': NOTHING, 'Start(TableCell)': NOTHING, 'Start(List)': NOTHING,
    'End(HtmlBlock)': NOTHING, 'End(Item)': NOTHING, 'End(BlockQuote)': NOTHING, 'End(TableHead)': NOTHING, 'End(TableRow)': NOTHING, 'End(TableCell)': NOTHING,
    'Start(Table)': lit('|'), 'Start(BlockQuote)': lit('>', '> '), 'Start(CodeBlock/Indented)': lit('', '    '),
    'Start(CodeBlock/Fenced)': fence, 'Start(Item)': item, 'End(List)': comment, 'Start(FootnoteDefinition)': note,
    'Start(Emphasis)': marks(1), 'End(Emphasis)': marks(1), 'Start(Strong)': marks(2), 'End(Strong)': marks(2),
    'Start(Strikethrough)': marks(), 'End(Strikethrough)': marks(), 'Start(MetadataBlock)': marks(), 'End(MetadataBlock)': marks(),
}


class Seen:
    """a path's facts, closures named by their code as in the terms written"""

    def __init__(self, F, subs):
        self.subs = tuple((hashed(F, a), hashed(F, b)) for a, b in subs)


def hashed(F, v):
    if type(v) is not N or not any(type(x) is N or isinstance(x, tuple) for x in v.a):
        return v
    if v.op == 'agg':
        k = v.a[0]
        if isinstance(k, tuple) and k[0] == 'cl' and not isinstance(k[1], str):
            k = ('cl', body_hash(F, k[1]))
        return mk('agg', k, v.a[1], tuple(hashed(F, x) for x in v.a[2]))
    return mk(v.op, *[hashed(F, x) if type(x) is N else x for x in v.a])


def job(name):
    F, S = _CX['F'], _CX['S']
    m = MarkMon(F, S[name])
    m.remember = relevant
    try:
        e, outs = run_step(F, S[name], m, cap=24, loopcap=4, budget=200000, init_mon=((),))
    except Budget as x:
        return name, 0, [f'not analysable within budget ({x})'], 0
    bad, n = set(), 0
    for init, cur, mon, st in m.ends:
        n += 1
        tr = tuple(hashed(F, x) for x in tidy(mon[1], m.bodies))
        r = SPEC[name](F, tr, Seen(F, st.subs))
        if r:
            bad.add(f'{r}; it writes: {show_trace(tr, m.bodies)[:400]}')
    return name, n, sorted(bad), e.steps


def closing(cx, F, S):
    """the closing fence"""
    ck = 'pulldown_cmark::CodeBlockKind'
    kinds = {v['name']: i for i, v in enumerate(F.adts[ck]['variants'])}
    c10._CX.update(F=F, S=S, info=c10.callers(F))
    for label, kind in (('fenced', agg(ck, kinds['Fenced'], (c10.INFO,))), ('indented', agg(ck, kinds['Indented'], ()))):
        bad, n = set(), 0
        m, e = c10.step(F, S, c10._CX['info'], 'End(CodeBlock)', kind, assume=c10.unempty)
        old = m.remember
        sp = Lines(F, m)
        sp.esc = False
        cx.count('steps', e.steps)
        for init, cur, mon, st in m.ends:
            n += 1
            sp.st = st = Seen(F, st.subs)
            tr = [hashed(F, x) for x in tidy(mon[1], m.bodies)]
            ran = [i for i, x in enumerate(tr) if type(x) is N and x.op == 'app' and x.a[0] == 'ran']
            tr = tuple(tr[ran[-1] + 1:] if ran else tr)
            tr = tuple(x for x in tr if x != GAP and not c10.any_syms((x,)) & (c10.BUF.syms | c10.RES.syms | c10.OWN.syms))
            if label == 'fenced':
                if len(tr) != 1 or not run_of(F, tr[0], st):
                    bad.add(f'the closing fence is not the run of fence characters in the input; it writes: {show_trace(tr, m.bodies)[:300]}')
            elif tr:
                bad.add(f'something is written after an indented code block: {show_trace(tr, m.bodies)[:300]}')
        cx.count('paths', n)
        cx.oblige(f'event:End(CodeBlock/{label})', n > 0 and not bad, '; '.join(sorted(bad))[:800] or 'no path analysed', loop_fn(F)['sp'])


def run(cx):
    F = cx.facts('lib')
    S = {s.name: s for s in scripts(F)}
    _CX.update(F=F, S=S)
    names = sorted(SPEC, key=lambda n: n != 'Start(Item)')
    for n in names:
        if n not in S:
            cx.oblige(f'event:{n}', False, f'the parser no longer yields {n}', loop_fn(F)['sp'])
    for name, n, bad, steps in pool(job, [n for n in names if n in S]):
        cx.count('paths', n)
        cx.count('steps', steps)
        cx.oblige(f'event:{name}', n > 0 and not bad, f'{name}: ' + ('; '.join(bad)[:900] or 'no path analysed'), loop_fn(F)['sp'])
        cx.samples.append(f'{name}: {n} paths')
    closing(cx, F, S)
    cx.counts['events'] = len(names) + 2
