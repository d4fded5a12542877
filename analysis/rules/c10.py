"""The step of the formatting loop that ends a code block is analysed with the block's buffer and info string
unknown, through all local callees, and every call of the user's code block formatter and of the formatter
itself is recorded with its arguments.  Each path for a fenced block must make exactly one such call: the
formatter itself if and only if the path has established that the info string contains `markdown`, the user's
function otherwise, always with the text collected, and with the info string and the context it is entitled
to; what it returns must be what is written, line by line (nothing only if that is blank).  Paths for indented
blocks make no such call and write the text collected.  The steps of all other events make none.  The step
that opens the block must push an empty buffer with the block's own kind and info string."""
from util import *
from steps import *
from emit import *
from rules.c08 import Spec, GAP, HelperMon, helper, flat_out
from rules.c09 import Lines, writers
import re

RULE = __doc__
ASSUMES = ['std text functions do what they document',
           'the text of the events between the block\'s start and end is its code, as the parser reports it',
           'which fences are written around the text is a different property']
BUF, INFO, RES, OWN = sym('BUF'), sym('INFO'), sym('RES'), sym('OWN')
_CX = {}
MINE = BUF.syms | RES.syms | OWN.syms | INFO.syms


def ctx_adt(F):
    return next((a for a in F.adts if a.endswith('CodeBlockContext')), None)


def callback(F, fr):
    """a call of the user's function"""
    return fr is not None and fr.get('name') in ('call', 'call_mut', 'call_once') and 'CodeBlockContext' in fr.get('full', '') and \
        'dyn ' in fr.get('full', '').split(' as ')[0] + ' '


def callers(F):
    """functions that may call the user's function or start formatting"""
    loop = loop_fn(F)['id']
    direct = {f['id'] for f in F.local if any(callback(F, fr) for _, _, fr in F.calls(f))}
    entry = {f['id'] for f in F.local if any(fr and fr.get('id') == loop for _, _, fr in F.calls(f))}
    g = F.callgraph()
    rev = {}
    for a, bs in g.items():
        for b in bs:
            rev.setdefault(b, set()).add(a)
    seen, work = set(), list(direct | entry)
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        work += rev.get(x, ())
    return direct, entry, seen


class BlockMon(TraceMon):
    def __init__(self, F, script):
        super().__init__(F, script)
        self.direct, self.entry, self.reach = _CX['info']
        self.small = re.compile(r'config::Config|MarkdownFormatter|CodeBlockContext|' + '|'.join(
            re.escape(a) for a, d in F.adts.items() if d.get('local') and d.get('dtor')))

    def inline(self, eng, g):
        if super().inline(eng, g) or g['id'] in self.reach:
            return True
        tys = ' '.join(self.F.tyname(l['ty']) for l in g['locals'][:g['argc'] + 1])
        return bool(self.small.search(tys)) and not looping(eng, g)

    def log(self, eng, st, k, args):
        vals = tuple(clean(noid(bare(self.whole(eng, st, a)))) for a in args)
        self.put(st, mk('app', 'ran', cstr(k)))
        if len(st.mon) > 2:
            st.mon = (st.mon[0], st.mon[1], st.mon[2] + ((k,) + vals + (clean(left(self.F, st.subs, self.width(eng, st))),),))

    def width(self, eng, st):
        """the width in the settings at this moment"""
        F = self.F
        fa = next((a for a in F.adts if a.endswith('MarkdownFormatter')), None)
        ca = next((a for a in F.adts if a.endswith('config::Config')), None)
        if not fa or not ca:
            return T
        fi = [i for i, t in enumerate(F.adts[fa]['variants'][0]['ftys']) if 'Config' in t]
        wi = [i for i, n in enumerate(F.adts[ca]['variants'][0]['fields']) if n == 'max_width']
        if len(fi) != 1 or len(wi) != 1:
            return T
        return noid(bare(eng.read(st.mem, ('*', sym('S.formatter')), ((None, fi[0]), (None, 'cell'), (None, wi[0])))))

    def on_call(self, eng, cx, st, fr, args, site):
        if callback(self.F, fr):
            self.log(eng, st, 'callback', args)
            return [('ret', RES, st)]
        fid = fr.get('id')
        if fid in self.entry:
            self.log(eng, st, 'format', args)
            return [('ret', OWN, st)]
        if fid is not None and not self.F.fns[fid].get('foreign'):
            g = self.F.fns[fid]
            if not g['closure'] and g['argc'] == 1 and is_state(self.F, g['locals'][1]['ty']) and self.F.tyname(g['locals'][0]['ty']) == 'usize' and \
                    not F_mut(self.F, g):
                root, path = eng.deref_loc(args[0])
                v = noid(bare(eng.read(st.mem, root, path + ((None, self.fi['indentation']),))))
                if known(v):
                    return [('ret', mk('app', g['path'], v), st)]
        if fr.get('name') == 'checked_sub' and len(args) == 2 and (fr.get('rkrate') or fr.get('krate')) in STD:
            a, b = [noid(bare(flat(st, x, eng))) for x in args]
            if known(a) and known(b):
                no = st.copy()
                st.subs += ((mk('bin', 'Ge', a, b), TRUE),)
                no.subs += ((mk('bin', 'Ge', a, b), FALSE),)
                st._k = no._k = None
                return [('ret', some(binop('Sub', a, b)), st), ('ret', NONE, no)]
        if fr.get('name') in ('saturating_sub', 'min', 'max') and len(args) == 2 and (fr.get('rkrate') or fr.get('krate')) in STD:
            vals = [noid(bare(flat(st, a, eng))) for a in args]
            if all(known(v) for v in vals):
                return [('ret', mk('app', fr['name'], *vals), st)]
        return super().on_call(eng, cx, st, fr, args, site)


def F_mut(F, g):
    t = F.ty(g['locals'][1]['ty'])
    return t.get('k') == 'ref' and t.get('mut')


def clean(x):
    """unknown values are not kept: their names depend on the path"""
    if type(x) is not N:
        return x
    if x.op == 'agg':
        return mk('agg', x.a[0], x.a[1], tuple(clean(y) for y in x.a[2]))
    return x if known(x) else T


def at_least(subs, a, b):
    """does the path know that a >= b?"""
    for x, y in subs:
        if x.op == 'bin' and y.op == 'c':
            op, l, r = x.a[0], noid(bare(x.a[1])), noid(bare(x.a[2]))
            yes = bool(y.a[0])
            if (l, r) == (a, b) and (op, yes) in (('Ge', True), ('Gt', True), ('Lt', False), ('Eq', True), ('Ne', False)):
                return True
            if (l, r) == (b, a) and (op, yes) in (('Le', True), ('Lt', True), ('Gt', False), ('Eq', True), ('Ne', False)):
                return True
    return False


def left(F, subs, w):
    """the width with subtractions that a comparison on the path guards, and zeros that one stands for, in one form;
    a width of None only where the settings have none"""
    if w.op != 'agg' or w.a[0] != OPT:
        return w
    if w.a[1] == 0:
        return w if any(settings_width(F, a, True) and (b.op in ('V', 'X') and not_some(b) or b is NONE) for a, b in subs) else T
    x = noid(bare(w.a[2][0]))
    if x.op == 'bin' and x.a[0] == 'Sub' and at_least(subs, noid(bare(x.a[1])), noid(bare(x.a[2]))):
        return some(mk('app', 'saturating_sub', noid(bare(x.a[1])), noid(bare(x.a[2]))))
    if x is cint(0):
        for a, b in subs:
            if a.op == 'bin' and a.a[0] in ('Ge', 'Gt', 'Lt', 'Le', 'Eq', 'Ne') and type(a.a[1]) is N and type(a.a[2]) is N:
                for p, q in ((a.a[1], a.a[2]), (a.a[2], a.a[1])):
                    p, q = noid(bare(p)), noid(bare(q))
                    if settings_width(F, p) and q.op == 'app' and (at_least(subs, q, p) or known_less(subs, p, q)):
                        return some(mk('app', 'saturating_sub', p, q))
    return w


def known_less(subs, a, b):
    return any(x.op == 'bin' and y.op == 'c' and (x.a[0], noid(bare(x.a[1])), noid(bare(x.a[2])), bool(y.a[0])) in
               (('Lt', a, b, True), ('Ge', a, b, False), ('Gt', b, a, True), ('Le', b, a, False)) for x, y in subs)


def not_some(b):
    return b.op == 'V' and b.a[1] == 0 or b.op == 'X' and 1 in b.a[1]


def marked(subs, want):
    """has the path established that the info string contains `markdown` (or that it does not)?"""
    for a, b in subs:
        if a.op != 'app' or not a.a[1:] or noid(bare(a.a[1])) is not INFO or len(a.a) < 3 or a.a[2].op != 's' or a.a[2].a[0] != 'markdown':
            continue
        if a.a[0] == 'contains' and b is mk('c', want):
            return True
        if a.a[0] == 'find' and b.op == 'V' and b.a[1] == (1 if want else 0):
            return True
    return False


def blank(subs, X):
    """has the path established that X is blank?"""
    for a, b in subs:
        if b is TRUE and a.op == 'app' and (a.a[0] == 'is_empty' or a.a[0] == 'all' and len(a.a) == 3 and 'is_whitespace' in str(a.a[2].a)):
            x = noid(bare(a.a[1]))
            if a.a[0] == 'all':
                if x.op != 'app' or x.a[0] != 'chars':
                    continue
                x = noid(bare(x.a[1]))
            while x.op == 'app' and x.a[0] in ('trim', 'trim_end', 'trim_start'):
                x = x.a[1]
            if x is X:
                return True
    return False


def unempty(v):
    if v.a[0] != 'is_empty':
        return None
    x = v.a[1]
    while x.op == 'app' and x.a[0] in ('trim', 'trim_start', 'trim_end', 'lineof'):
        x = x.a[1]
    return False if x.syms & (BUF.syms | RES.syms | OWN.syms) else None


def settings_width(F, v, opt=False):
    """v is the width in the settings as they were before the step"""
    v = noid(bare(v))
    if v.op not in ('fld', 'field'):
        return False
    return v.syms == sym('S.formatter').syms and 'upd' not in ops(v)


def ops(v):
    out = {v.op}
    for x in v.a:
        if type(x) is N:
            out |= ops(x)
        elif type(x) is tuple:
            for y in x:
                if type(y) is N:
                    out |= ops(y)
    return out


def step(F, S, info, name, kind=None, **kw):
    m = BlockMon(F, S[name])
    stacks = None
    if kind is not None:
        enum, vs = writers(F)
        k = [i for i, (n, _) in enumerate(vs) if n == 'CodeBlock']
        if len(k) != 1:
            raise Missing('a buffer for code blocks')
        stacks = {'writers': vec(sym('S.writers'), (agg(enum, k[0], (agg('()', 0, (BUF, kind)),)),))}
    if kind is not None:
        m.remember = lambda a, b: a.op == 'app' and a.a[0] in ('is_empty', 'contains', 'find') and bool(a.syms & MINE) or bool(a.syms & OWN.syms)
    for a, b in kw.items():
        setattr(m, a, b)
    e, _ = run_step(F, S[name], m, cap=6, loopcap=4, budget=120000, init_mon=((), ()) if kind is not None else ((),), stacks=stacks)
    return m, e


def ended(F, S, info, cx):
    """what happens at the end of a code block"""
    ck = 'pulldown_cmark::CodeBlockKind'
    kinds = {v['name']: i for i, v in enumerate(F.adts[ck]['variants'])}
    lens = set()
    fadt = next((a for a in F.adts if a.endswith('MarkdownFormatter')), None)
    where = loop_fn(F)['sp']

    def called(logs, st, bad):
        """the text to be written"""
        if len(logs) != 1:
            bad.add(f'{len(logs) or "no"} call{"s" if len(logs) > 1 else ""} of the code block formatter or the formatter itself for one fenced block')
            return None
        k, args, width = logs[0][0], logs[0][1:-1], logs[0][-1]
        if k == 'format':
            if not marked(st.subs, True):
                bad.add('a block is formatted as Markdown although its info string may not contain `markdown`')
            if len(args) != 2 or args[1] is not BUF:
                bad.add(f'the text of a Markdown block is not what is formatted: {show(args[-1])[:80]}')
            if args and args[0] is not sym('S.formatter') and args[0] is not mk('deref', sym('S.formatter')):
                bad.add(f'another formatter than the one in use formats a Markdown block: {show(args[0])[:80]}')
            w = width
            if w.op == 'agg' and w.a[0] == OPT and w.a[1] == 1 and w.a[2][0].op == 'app' and w.a[2][0].a[0].endswith('saturating_sub') and \
                    len(w.a[2][0].a) == 3 and settings_width(F, w.a[2][0].a[1]):
                lens.add(w.a[2][0].a[2])
            elif not none_width(w, st):
                bad.add(f'a Markdown block is not formatted with the width that is left: {show(w)[:160]}')
            return [field(OWN, (0, 0)), BUF]
        if not marked(st.subs, False):
            bad.add('the code block formatter is called although the info string may contain `markdown`')
        fn, rest = args[0], args[1]
        if not (sym('S.formatter').syms == fn.syms and fn.op in ('fld', 'field', 'deref')):
            bad.add(f'what is called is not the code block formatter in use: {show(fn)[:80]}')
        if rest.op != 'agg' or len(rest.a[2]) != 3:
            bad.add('the arguments of the code block formatter are not known')
            return [RES]
        ctx, info_, code = rest.a[2]
        if info_ is not INFO:
            bad.add(f'the code block formatter is not given the info string: {show(info_)[:80]}')
        if code is not BUF:
            bad.add(f'the code block formatter is not given the text of the block: {show(code)[:80]}')
        names = F.adts[ctx_adt(F)]['variants'][0]['fields']
        if ctx.op != 'agg':
            bad.add('the context given to the code block formatter is not known')
        else:
            d = dict(zip(names, ctx.a[2]))
            if 'max_width' in d and not settings_width(F, d['max_width']) and not none_width(d['max_width'], st):
                bad.add(f'the context does not carry the width in the settings: {show(d["max_width"])[:80]}')
            if 'indentation' in d:
                lens.add(d['indentation'])
        return [RES]

    def go(kind, label, **kw):
        bad, n = set(), 0
        fenced = kind.a[2] != ()
        m, e = step(F, S, info, 'End(CodeBlock)', kind, **kw)
        sp = Lines(F, m)
        sp.esc = False
        cx.count('steps', e.steps)
        for init, cur, mon, st in m.ends:
            n += 1
            sp.st = st
            tr, logs = tidy(mon[1], m.bodies), mon[2]
            ran = [i for i, x in enumerate(tr) if type(x) is N and x.op == 'app' and x.a[0] == 'ran']
            if fenced:
                Xs = called(logs, st, bad)
                if Xs is None:
                    continue
                if ran and any(x != GAP for x in tr[:ran[0]]):
                    bad.add('something is written before the code block formatter has run')
                tr = tr[ran[-1] + 1:] if ran else tr
            else:
                if logs or ran:
                    bad.add('a formatter is called for an indented code block')
                Xs = [BUF]
            mine = any_syms(tr) & (BUF.syms | RES.syms | OWN.syms)
            if not mine:
                if fenced and any(blank(st.subs, X) for X in Xs) or not fenced and blank(st.subs, BUF):
                    continue
                bad.add(f'the text of a code block may be lost; it writes: {show_trace(tr, m.bodies)[:300]}')
                continue
            if not m.assume:
                continue
            tr = gap_off(tr)
            good = False
            for X in Xs:
                if X.syms != frozenset(mine):
                    continue
                for Y in (X, mk('app', 'trim_end', X)):
                    rest = sp.lines(tr, Y, True) if m.more and m.peeked else sp.lines(tr, Y)
                    if rest is None and tr and tr[0] is Y:
                        rest = tr[1:]
                    if rest is not None and not any_syms(rest) & (BUF.syms | RES.syms | OWN.syms):
                        if X is BUF and fenced and not failed(st.subs):
                            continue
                        good = True
            if not good:
                bad.add(f'what is written is not {"what the code block formatter returned" if fenced else "the text of the block"}, line by line; it writes: '
                        f'{show_trace(tr, m.bodies)[:400]}')
        cx.count('paths', n)
        cx.oblige(f'end:{label}', n > 0 and not bad, f'{label}: ' + ('; '.join(sorted(bad))[:900] or 'no path analysed'), where)

    f, i = agg(ck, kinds['Fenced'], (INFO,)), agg(ck, kinds['Indented'], ())
    for k, what in ((f, 'a fenced code block'), (i, 'an indented code block')):
        go(k, what)
        go(k, f'the lines of {what}', assume=unempty)
        go(k, f'the line ends of {what}', assume=unempty, more=True)
    return lens


def failed(subs):
    """has the path established that formatting the block failed?"""
    return any(noid(bare(a)) is OWN and b.op == 'V' and b.a[1] == 1 or a is OWN and b.op == 'agg' and b.a[1] == 1 for a, b in subs)


def none_width(v, st):
    return v.op == 'agg' and v.a[0] == OPT and v.a[1] == 0


def any_syms(tr):
    out = set()
    for x in tr:
        if type(x) is N:
            out |= x.syms
        elif isinstance(x, tuple) and x and x[0] == 'each':
            out |= x[2].syms
            if x[3]:
                out |= any_syms(x[3])
    return out


def gap_off(tr):
    while tr and tr[0] == GAP:
        tr = tr[1:]
    return tr


# ---- the width of the line prefix
class LenMon(HelperMon):
    """entries of the prefix are numbered as they are visited; mon: how many"""

    def entry_(self, s):
        k = s.mon[0]
        s.mon = (k + 1,)
        return sym(f'pfx{k}')

    def call(self, eng, cx, st, fr, args, site):
        n = fr.get('name', '')
        full = fr.get('full', '')
        it = fr.get('trait', '').split('<')[0].endswith('Iterator')
        if it and n == 'next' and 'slice::Iter<' in full and 'Cow<' in full:
            no = st.copy()
            if st.mon[0] >= 3:
                return [('ret', NONE, no)]
            return [('ret', some(self.entry_(st)), st), ('ret', NONE, no)]
        if it and n == 'map' and 'Cow<' in full and args[1].op != 'T':
            return [('ret', mk('app', 'it:map', args[0], args[1]), st)]
        if it and n in ('sum', 'fold'):
            v = args[0]
            fs = []
            while v.op == 'app' and v.a[0] == 'it:map':
                fs.append(v.a[2])
                v = v.a[1]
            out, work = [], [(st, args[1] if n == 'fold' else cint(0))]
            for _ in range(4):
                nxt = []
                for s, acc in work:
                    out.append(('ret', acc, s.copy()))
                    if s.mon[0] >= 3:
                        continue
                    xs = [(self.entry_(s), s)]
                    for c in reversed(fs):
                        r = []
                        for x, s1 in xs:
                            g = eng.closure_of(s1, c)
                            if g is None:
                                return None
                            a0 = eng.closure_self(s1, g[0], g[1], c, site)
                            r += [(v_, s2) for k, v_, s2 in eng.call_local(cx, g[0], [a0, x], s1, (site, 'm')) if k == 'ret']
                        xs = r
                    for x, s1 in xs:
                        if n == 'sum':
                            nxt.append((s1, binop('Add', acc, x)))
                        else:
                            g = eng.closure_of(s1, args[2])
                            if g is None:
                                return None
                            a0 = eng.closure_self(s1, g[0], g[1], args[2], site)
                            nxt += [(s2, v_) for k, v_, s2 in eng.call_local(cx, g[0], [a0, acc, x], s1, (site, 'f')) if k == 'ret']
                work = nxt
            return out
        return super().call(eng, cx, st, fr, args, site)


def summands(v):
    v = noid(plain(v))
    if v.op == 'bin' and v.a[0] == 'Add':
        return summands(v.a[1]) + summands(v.a[2])
    if v.op == 'c' and v.a[0] in (0, False):
        return []
    return [v]


def prefix_length(F, g, cx):
    """the sum of the lengths of the entries of the prefix"""
    adt = state_adt(F)
    fi, var = state_fields(F)
    init = agg(adt, 0, [sym('S.' + n) for n in var['fields']])
    m = LenMon(F)
    root = ('ev', 'st')
    outs, e = helper(F, g, m, [ref(root, ())], {root: init}, (0,), loopcap=40, phi=False)
    bad, n = set(), 0
    for o in outs:
        if o.kind != 'ret':
            continue
        n += 1
        k = o.mon[0]
        got = sorted(show(x) for x in summands(flat_out(e, o)))
        ok_ = any(got == sorted(show(mk('app', w, sym(f'pfx{i}'))) for i in range(k)) for w in ('len',))
        if not ok_:
            bad.add(f'with {k} entries the result is {show(o.ret)[:120]}')
    cx.count('paths', n)
    cx.oblige(f'prefix length:{g["path"]}', n > 1 and not bad, f'{g["path"]} is not the length of the line prefix: ' + ('; '.join(sorted(bad))[:400] or 'no path analysed'), g['sp'])


# ---- everything else
def other(name):
    F, S, info = _CX['F'], _CX['S'], _CX['info']
    try:
        m, e = step(F, S, info, name)
    except Budget as x:
        return name, 0, 0, [f'not analysable within budget ({x})']
    bad = set()
    for init, cur, mon, st in m.ends:
        if any_ran(mon[1], m.bodies):
            bad.add('a formatter is called')
        if name.startswith('Start(CodeBlock'):
            ev = S[name].term.a[2][0].a[2][0]
            v = noid(bare(cur['writers']))
            top = v.a[1][-1] if v.op == 'vec' else None
            good = False
            if top is not None and top.op == 'agg' and len(top.a[2]) == 1 and top.a[2][0].op == 'agg' and len(top.a[2][0].a[2]) == 2:
                buf, kind = top.a[2][0].a[2]
                buf = noid(plain(buf))
                good = noid(bare(kind)) is noid(bare(ev)) and (buf.op == 'app' and buf.a[0] == 'text' and len(buf.a) == 2 or buf is cstr(''))
            if not good:
                bad.add(f'the buffer pushed is not an empty one with the block\'s own kind and info string: {show(top)[:200] if top is not None else "none"}')
    return name, len(m.ends), e.steps, sorted(bad)


def any_ran(tr, bodies, seen=None):
    seen = set() if seen is None else seen
    for x in tr:
        if type(x) is N and 'ran' in names(x):
            return True
        if isinstance(x, tuple) and x and x[0] == 'each' and (x[1], x[2]) not in seen:
            seen.add((x[1], x[2]))
            if x[3] and any_ran(x[3], bodies, seen) or any(any_ran(b, bodies, seen) for b in bodies.get((x[1], x[2]), ())):
                return True
    return False


def names(v):
    out = {v.a[0]} if v.op == 'app' else set()
    for x in v.a:
        if type(x) is N:
            out |= names(x)
        elif type(x) is tuple:
            for y in x:
                if type(y) is N:
                    out |= names(y)
    return out


def run(cx):
    F = cx.facts('lib')
    S = {s.name: s for s in scripts(F)}
    info = callers(F)
    if not info[0]:
        cx.oblige('callback', False, 'the code block formatter is never called', None)
        return
    _CX.update(F=F, S=S, info=info)
    lens = ended(F, S, info, cx)
    for v in sorted(lens, key=show):
        v = noid(plain(v))
        g = next((f for f in F.local if v.op == 'app' and f['path'] == v.a[0]), None)
        if g is None or len(v.a) != 2 or v.a[1] is not sym('S.indentation'):
            cx.oblige('prefix length', False, f'the context does not carry the length of the line prefix: {show(v)[:100]}', None)
        else:
            prefix_length(F, g, cx)
    for name, n, steps, bad in pool(other, [s for s in S if s != 'End(CodeBlock)']):
        cx.count('paths', n)
        cx.count('steps', steps)
        cx.count('events')
        cx.oblige(f'event:{name}', not bad and (n > 0 or name not in ('Start(CodeBlock/Fenced)', 'Start(CodeBlock/Indented)')), f'{name}: ' + ('; '.join(bad)[:400] or 'no path analysed'), loop_fn(F)['sp'])
    cx.counts['callback_call_sites'] = sum(1 for f in F.local for _, _, fr in F.calls(f) if callback(F, fr))
