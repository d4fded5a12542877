"""Shared helpers of the rules."""
import re
from absint import *
from facts import Missing


def unwrap(st, v, eng=None):
    """follow references, derefs and transparent wrappers to the underlying value"""
    for _ in range(12):
        if v.op == 'ref' and eng is not None:
            v = eng.read(st.mem, v.a[0], v.a[1])
        elif v.op == 'lit':
            v = v.a[0]
        elif v.op == 'deref':
            v = v.a[0]
        elif v.op == 'app' and v.a[0] in ('deref', 'id'):
            v = v.a[1]
        elif v.op in ('V', 'X') and v.a[0].op in ('deref', 'ref', 'app'):
            v = v.a[0]
        elif v.op == 'agg' and v.a[0] == 'box':
            v = v.a[2][0]
        else:
            return v
    return v


def flat(st, v, eng, depth=0):
    """`unwrap` applied through aggregates: a store-independent term"""
    v = unwrap(st, v, eng)
    if depth > 6:
        return v
    if v.op == 'agg':
        return mk('agg', v.a[0], v.a[1], tuple(flat(st, x, eng, depth + 1) for x in v.a[2]))
    if v.op == 'app':
        return mk('app', v.a[0], *[flat(st, x, eng, depth + 1) if type(x) is N else x for x in v.a[1:]])
    return v


def bare(v):
    """strip variant knowledge everywhere (V/X refinements) so that terms compare by identity"""
    if v.op in ('V', 'X'):
        return bare(v.a[0])
    if not v.a:
        return v
    ch = False
    out = []
    for x in v.a:
        y = x
        if type(x) is N:
            y = bare(x)
        elif type(x) is tuple:
            y = tuple(bare_in(z) for z in x)
        ch = ch or y is not x
        out.append(y)
    return rebuild(v.op, tuple(out)) if ch else v


def bare_in(x):
    if type(x) is N:
        return bare(x)
    if type(x) is tuple:
        return tuple(bare_in(y) for y in x)
    return x


def template(b):
    """decode a compiled format template: list of str pieces and None for a plain {} placeholder"""
    out = []
    i = 0
    while i < len(b):
        c = b[i]
        if c == 0:
            break
        if c < 0x80:
            out.append(bytes(b[i + 1:i + 1 + c]).decode('utf8', 'replace'))
            i += 1 + c
        elif c == 0x80:
            n = b[i + 1] | b[i + 2] << 8
            out.append(bytes(b[i + 3:i + 3 + n]).decode('utf8', 'replace'))
            i += 3 + n
        elif c == 0xC0:
            out.append(None)
            i += 1
        else:
            # placeholder with options
            n = 0
            if c & 1:
                n += 4
            if c & 2:
                n += 2
            if c & 4:
                n += 2
            if c & 8:
                n += 2
            out.append(('opt', tuple(b[i:i + 1 + n])))
            i += 1 + n
    res = []
    for x in out:
        if isinstance(x, str) and res and isinstance(res[-1], str):
            res[-1] += x
        else:
            res.append(x)
    return res


def pieces(st, v, eng):
    """the pieces of a core::fmt::Arguments value: list of str | term (a displayed value)"""
    v = unwrap(st, v, eng)
    if v.op == 'app' and v.a[0] == 'fmtargs':
        t, args = v.a[1], v.a[2]
        t = unwrap(st, t, eng)
        if t.op == 's':
            return [t.a[0]]
        if t.op != 'b':
            return None
        tp = template(t.a[0])
        args = unwrap(st, args, eng)
        if args.op != 'agg':
            return None
        al = [unwrap(st, a, eng) for a in args.a[2]]
        out = []
        k = 0
        for x in tp:
            if isinstance(x, str):
                out.append(x)
            else:
                idx = k
                if isinstance(x, tuple) and x[1][0] & 8:
                    idx = x[1][-2] | x[1][-1] << 8
                k = idx + 1
                if idx >= len(al):
                    return None
                a = al[idx]
                if (x is None or x[1][0] == 0xC8) and a.op == 'app' and a.a[0] == 'display':
                    out.append(flat(st, a.a[1], eng))
                elif x is not None and not x[1][0] & 0x24 and x[1][0] & 1 and a.op == 'app' and a.a[0] == 'display' and x[1][4] & 7 == 0 and not x[1][3] & 0xE0:
                    # a fill character and a width, nothing else: nothing is cut off
                    fill = chr(x[1][1] | x[1][2] << 8 | (x[1][3] & 0x1F) << 16)
                    out.append(mk('app', 'padded', cstr(fill), cstr('<>^d'[(x[1][4] >> 5) & 3]), flat(st, a.a[1], eng)))
                else:
                    out.append(mk('app', 'formatted', x if x is None else x[1], a))
        return out
    if v.op == 's':
        return [v.a[0]]
    return None


INTEGER = re.compile(r'[<&\s](usize|isize|[ui](8|16|32|64|128))>$')
FMT_NEW = ('std::fmt::Arguments::<\'a>::new', 'core::fmt::Arguments::<\'a>::new')


def fmt_model(eng, st, fr, args):
    """core::fmt constructors as terms"""
    p = fr.get('res') or fr['fn']
    if 'fmt::Arguments' in p:
        n = fr['name']
        if n == 'new':
            # the argument array lives in a local: capture its content now
            return [('ret', mk('app', 'fmtargs', eng.content(st, args[0]) if args[0].op == 'ref' else args[0],
                               flat(st, args[1], eng)), st)]
        if n in ('from_str', 'new_const', 'from_str_nonconst'):
            return [('ret', mk('app', 'fmtargs', flat(st, args[0], eng), UNIT), st)]
        if n == 'as_str':
            ps = pieces(st, args[0], eng)
            if ps is not None:
                if all(isinstance(x, str) for x in ps):
                    return [('ret', agg('std::option::Option', 1, (cstr(''.join(ps)),)), st)]
                return [('ret', agg('std::option::Option', 0, ()), st)]
    if 'fmt::rt::Argument' in p:
        if fr['name'] == 'new_display':
            v = flat(st, args[0], eng)
            if INTEGER.search(fr.get('full', '')):
                v = mk('app', 'num', bare(v))
            return [('ret', mk('app', 'display', v), st)]
        return [('ret', mk('app', fr['name'], flat(st, args[0], eng)), st)]
    return None


STD = ('core', 'alloc', 'std')

TRANSPARENT = {'as_ref', 'as_str', 'as_path', 'to_owned', 'to_string', 'into', 'from', 'borrow', 'clone',
               'as_bytes', 'into_string', 'into_boxed_str', 'as_os_str', 'to_path_buf', 'into_bytes', 'into_owned',
               'as_mut', 'as_deref', 'new_ref', 'to_vec', 'as_mut_str', 'into_iter_id', 'must_use'}


def identity_model(eng, st, fr, args):
    """conversions between owned and borrowed forms of the same text/path"""
    if fr.get('name') in TRANSPARENT and len(args) == 1 and (fr.get('rkrate') or fr.get('krate')) in STD:
        if fr['name'] in ('as_ref', 'as_deref', 'as_mut') and 'Option' in (fr.get('res') or fr['fn']) + (fr.get('self') or ''):
            return None
        v = flat(st, args[0], eng)
        if v is T:
            return None
        if fr['name'] == 'to_string' and re.match(r'<&*(usize|isize|[ui](8|16|32|64|128)) as', fr.get('full', '')):
            v = mk('app', 'num', bare(v))
        return [('ret', mk('app', 'id', v), st)]
    if fr.get('res', '').endswith('Path::new') and len(args) == 1:
        return [('ret', mk('app', 'id', flat(st, args[0], eng)), st)]
    return None


def ok(v=UNIT):
    return agg('std::result::Result', 0, (v,))


def err(v=UNIT):
    return agg('std::result::Result', 1, (v,))


def some(v):
    return agg('std::option::Option', 1, (v,))


NONE = agg('std::option::Option', 0, ())
