"""A backslash escapes exactly the next character wherever the source is scanned character by character.

Every function with a loop over the characters or bytes of a text is analysed one iteration at a time,
from every combination of its flags and enum-valued states that earlier iterations can leave, the next
character being a backslash or anything else.  A flag that a backslash raises is an escape flag.
Required of it: it is up after an iteration only if that iteration's character was a backslash and it was
down before; and an iteration that begins with the flag up takes its character for text, whatever it is
(a line ending excepted): it has the same effect as for any other character."""
from steps import *
from emit import EmitMon
import absint

RULE = __doc__
ASSUMES = ['scans that use no flag (the standard library searches, slices compared by hand) are not covered']

SCAN = re.compile(r'std::str::(Chars|CharIndices|Bytes)\b')
BS = {'c': mk('c', '\\'), 'b': cint(92)}
CH = sym('CH')
BREAKS = {'\n', '\r'}


def scan_loops(F):
    """functions with a loop over characters or bytes in which a named flag or state is assigned"""
    out = []
    for g in F.local:
        at = [bb for bb, _, fr in F.calls(g) if fr and item(fr)]
        if not at or not knows_backslash(F, g):
            continue
        enums = {a for a in F.adts if not a.startswith(('std::', 'core::', 'alloc::'))}
        named = {i for i, l in enumerate(g['locals']) if l.get('n') and (F.tyname(l['ty']) == 'bool' or F.tyname(l['ty']).split('<')[0] in enums)}
        for bb in at:
            loop = around(g, bb)
            if any(i in named for x in loop for i in assigned(g['blocks'][x])):
                out.append(g)
                break
    return out


def knows_backslash(F, g, depth=2):
    """the function, a closure of it or a small function it calls compares with a backslash"""
    if '\\' in chars_of(F, g, True):
        return True
    return depth > 0 and any(h['local'] and len(h['blocks']) <= 40 and h is not g and knows_backslash(F, h, depth - 1)
                             for _, _, fr in F.calls(g) if fr and fr.get('id') is not None for h in [F.fns.get(fr['id'])] if h)


def assigned(b):
    for s in b['s']:
        if s[0] == '=':
            yield s[1][0]
    if b['t'].get('d'):
        yield b['t']['d'][0]


def succs(b):
    t = b['t']
    out = [t[k] for k in ('t', 'o') if isinstance(t.get(k), int)]
    return out + [x[1] for x in t.get('ts') or ()]


def around(g, bb):
    """blocks of the loop that contains block bb"""
    B = g['blocks']

    def reach(start, nxt):
        seen, todo = set(), list(start)
        while todo:
            x = todo.pop()
            if x not in seen and not B[x]['cu']:
                seen.add(x)
                todo += nxt(x)
        return seen
    pre = {}
    for i, b in enumerate(B):
        for j in succs(b):
            pre.setdefault(j, []).append(i)
    fwd = reach(succs(B[bb]), lambda x: succs(B[x]))
    return fwd & reach([bb], lambda x: pre.get(x, [])) if bb in fwd else set()


def item(fr):
    """shape of what `next` of an iterator over characters or bytes yields: a list of wrappers; None: not one"""
    if fr.get('name') != 'next' or 'Iterator' not in (fr.get('trait') or ''):
        return None
    self_ = fr.get('full', '')[1:].split(' as std::iter')[0]
    m = SCAN.search(self_)
    if not m:
        return None
    outer = self_[:m.start()]
    if not re.fullmatch(r"(&mut |std::iter::(Peekable|Enumerate|Fuse|Skip|Take|StepBy)<)*", outer) and not re.fullmatch(r"(&mut |std::iter::(Peekable|Enumerate|Fuse|Skip|Take)<)*", outer):
        return None
    w = ['idx'] * outer.count('Enumerate<')
    if m.group(1) == 'CharIndices':
        w.append('idx')
    return w, 'b' if m.group(1) == 'Bytes' else 'c'


def chars_of(F, g, backslash=False):
    """the characters the function and its closures compare with"""
    out = set()

    def walk(x):
        if isinstance(x, dict):
            v = x.get('v')
            if isinstance(v, dict) and 'char' in v:
                out.add(v['char'])
            elif isinstance(v, dict) and 'int' in v and isinstance(x.get('ty'), int) and F.tyname(x['ty']) == 'u8' and int(v['int']) < 128:
                out.add(chr(int(v['int'])))
            if x.get('k') == 'switch' and F.tyname(x['ty']) in ('char', 'u8'):
                out.update(chr(int(t[0])) for t in x['ts'] if int(t[0]) < 128)
            for y in x.values():
                walk(y)
        elif isinstance(x, (list, tuple)):
            for y in x:
                walk(y)
    walk(g['blocks'])
    for h in F.local:
        if h['closure'] and h['path'].startswith(g['path'] + '::'):
            walk(h['blocks'])
    return out if backslash else out - {'\\'}


PC = sym('PC')      # a character kept from an earlier iteration


def discrete(F, v, chars, d=0):
    """a flag, or an enum value without unknown parts worth keeping"""
    if v in (TRUE, FALSE):
        return v
    if v.op == 'agg' and d < 3 and isinstance(v.a[0], str) and not v.a[0].startswith(('std::', 'core::', '[]', '()')):
        a = F.adts.get(v.a[0])
        if a and len(a['variants']) > 1:
            return agg(v.a[0], v.a[1], tuple(discrete(F, x, chars, d + 1) or T for x in v.a[2]))
    if d and v.op == 'c' and isinstance(v.a[0], str) and len(v.a[0]) == 1:
        return v
    if d and bare(v) in (CH, PC):
        return mk('X', PC, chars)
    return None


class EscMon(EmitMon):
    """mon: ('go', (), None, loop, flags and states before, kind of character, effects)"""
    marks = False

    def __init__(self, F, g):
        super().__init__(F)
        self.g = g
        self.seen = set()       # (loop, before, kind, facts, effects, after)

    def inline(self, eng, g):
        # what tells one character from another
        return g['closure'] or g['local'] and len(g['blocks']) <= 40 and all(self.F.tyname(l['ty']) in ('char', 'u8', 'bool', '&char', '&u8', '&bool', '&mut bool') or
                                                                              self.F.tyname(l['ty']).lstrip('&').split('<')[0] in self.F.adts and not self.F.ty(l['ty']).get('mut')
                                                                              for l in g['locals'][1:g['argc'] + 1])

    def facts(self, st):
        return frozenset(x for x in st.subs if CH in x[0].syms)

    def skel(self, mem):
        return super().skel(mem) | frozenset((r, v) for r, v in mem.items() if self.keep(r) and discrete(self.F, v, self.codes) is not None)

    def keep(self, r):
        """a variable that holds a flag or an enum value"""
        return r[0] == 'l' and r[1] == 1 and self.g['locals'][r[2]].get('n') is not None and self.F.tyname(self.g['locals'][r[2]]['ty']) in self.kinds_

    def state(self, st):
        out = []
        for r, v in st.mem.items():
            if self.keep(r):
                d = discrete(self.F, noid(bare(v)), self.codes)
                if d is not None:
                    out.append((r[2], d))
        return tuple(sorted(out, key=lambda x: x[0]))

    def put(self, st, x):
        pass

    def emit(self, eng, st, loc, xs):
        self.effect(st, 'writes')
        self.touch(eng, st, loc)

    def effect(self, st, x):
        if len(st.mon[6]) < 12:
            st.mon = st.mon[:6] + (st.mon[6] + (x,),)

    def known_char(self, st):
        return tuple(sorted({show(a) + '=' + show(b) for a, b in st.subs if CH in a.syms}))

    def char_is(self, st):
        """characters the facts say it is; None: nothing of the kind is known"""
        out = set()
        for a, b in st.subs:
            if CH not in a.syms:
                continue
            if noid(bare(a)) is CH and b.op == 'c':
                out.add(b.a[0])
            elif a.op == 'bin' and a.a[0] == 'Eq' and b is TRUE:
                out |= {x.a[0] for x in a.a[1:] if x.op == 'c'} or {'?'}
            elif b is TRUE and a.op != 'bin':
                out.add('a kind of character')
        return frozenset(chr(x) if isinstance(x, int) and not isinstance(x, bool) else x for x in out) or None

    def delimiter(self, st):
        """the facts say that the backslash is the delimiter searched for"""
        for a, b in st.subs:
            if b.op == 'c' and not isinstance(b.a[0], bool) and b.a[0] in ('\\', 92) or \
                    a.op == 'bin' and a.a[0] == 'Eq' and b is TRUE and any(x.op == 'c' and not isinstance(x.a[0], bool) and x.a[0] in ('\\', 92) for x in a.a[1:]):
                return frozenset({'delimiter'})
        return None

    def close(self, st, site, after):
        loop = st.mon[3]
        if loop is not None and (site is None or loop == site):
            kind = st.mon[5]
            self.seen.add((loop, st.mon[4], kind, self.char_is(st) if kind == 'other' else frozenset({kind}) if kind != 'bs' else self.delimiter(st), st.mon[6], after))

    def on_call(self, eng, cx, st, fr, args, site):
        n = fr.get('name', '')
        rk = fr.get('rkrate') or fr.get('krate')
        if n in ('le', 'lt', 'ge', 'gt') and 'tracing' in fr.get('full', ''):
            return [('ret', FALSE, st)]
        if rk in ('tracing', 'tracing_core', 'log'):
            return None
        if n in ('into', 'from') and args and re.search(r'<char as std::convert::From<u8>>|<u8 as std::convert::Into<char>>|<(u32|u8) as std::convert::From<u8>>', fr.get('full', '')):
            v = noid(bare(flat(st, args[0], eng)))
            if v is BS['b']:
                return [('ret', BS['c'], st)]
            if v.op == 'X' and v.a[0] is CH:
                return [('ret', mk('X', CH, frozenset({BS['c'].a[0]})), st)]
        it = item(fr)
        if it is not None and len(eng.stack) == 1:
            # a flag that depends on the characters ahead can be either
            for r in [r for r, v in st.mem.items() if self.keep(r) and v.op in ('app', 'bin', 'un') and any(ahead(x) for x in v.syms)]:
                if self.F.tyname(self.g['locals'][r[2]]['ty']) == 'bool':
                    out = []
                    for v in (TRUE, FALSE):
                        y = st.copy()
                        y.mem[r] = v
                        y._k = None
                        out += self.on_call(eng, cx, y, fr, args, site)
                    return out
            now = self.state(st)
            self.close(st, site, now)
            st.subs = tuple(x for x in st.subs if CH not in x[0].syms)
            for r in list(st.mem):
                v = st.mem[r]
                if r[0] == 'l' and r[1] == 1:
                    d = discrete(self.F, noid(bare(v)), self.codes)
                    if d is not None and self.keep(r):
                        st.mem[r] = d
                    elif v.op not in ('ref', 'fn') and not (v.op == 'agg' and isinstance(v.a[0], tuple)) and r[2] > self.g['argc']:
                        st.mem[r] = T
                elif r[0] not in ('l', 'ev'):
                    del st.mem[r]
            st._k = None
            out = []
            code = (lambda c: mk('c', c)) if it[1] == 'c' else (lambda c: cint(ord(c)))
            for kind in ('bs', 'other', *sorted(self.chars)):
                y = st.copy()
                x = BS[it[1]] if kind == 'bs' else code(kind) if kind != 'other' else mk('X', CH, self.codes)
                for w in it[0]:
                    x = agg('()', 0, (T, x))
                y.mon = ('go', (), None, site, now, kind, ())
                out.append(('ret', some(x), y))
            st.mon = ('go', (), None, None, (), '', ())
            out.append(('ret', NONE, st))
            return out
        if n == 'peek' and 'Peekable' in fr.get('full', ''):
            y = st.copy()
            return [('ret', some(eng.fresh(y, ('pk', site))), y), ('ret', NONE, st)]
        if rk in STD and len(eng.stack) == 1 and n in ('push', 'pop', 'insert', 'remove', 'clear', 'truncate', 'push_str', 'extend', 'drain'):
            self.effect(st, n)
        return super().on_call(eng, cx, st, fr, args, site)


def ahead(x):
    x = x.a[0] if type(x) is N else x
    return type(x) is tuple and x[:1] == ('pk',)


def judge(F, g):
    m = EscMon(F, g)
    m.chars = chars_of(F, g)
    m.codes = frozenset(y for c in ('\\', *m.chars) for y in (c, ord(c)))
    enums = {a for a in F.adts if not a.startswith(('std::', 'core::', 'alloc::'))}
    m.kinds_ = {F.tyname(l['ty']) for l in g['locals'] if F.tyname(l['ty']) == 'bool' or F.tyname(l['ty']).split('<')[0] in enums}
    e = Engine(F, m, cap=4000, loopcap=4000, budget=1500000)
    args, mem = [], {}
    for i in range(1, g['argc'] + 1):
        t = F.ty(g['locals'][i]['ty'])
        if t.get('k') == 'ref':
            mem[('ev', 'arg', i)] = sym(f'A{i}')
            args.append(ref(('ev', 'arg', i), (), t.get('mut', False)))
        else:
            args.append(sym(f'A{i}'))
    outs = e.run(g, args, mem, ('go', (), None, None, (), '', ()), 1, frozenset(set().union(CH.syms, *[a.syms for a in list(mem.values()) + args])))
    for o in outs:
        if o.kind == 'ret':
            class S:
                mon, subs = o.mon, o.subs
            m.close(S, None, ('returns', noid(bare(o.ret)) if o.ret in (TRUE, FALSE) else None))
    return m, e


def name_of(g, i):
    return g['locals'][i].get('n') or f'_{i}'


def check(F, g):
    """(number of iterations judged, escape flags, violations)"""
    m, e = judge(F, g)
    bad, flags, k = set(), set(), 0
    for i in [i for i, l in enumerate(g['locals']) if l.get('n') and F.tyname(l['ty']) == 'bool']:
        vals = {v for x in m.seen for y in (x[1], x[5]) if y[:1] != ('returns',) for j, v in y if j == i}
        loops = {x[0][1] for x in m.seen}
        if vals == {FALSE} and any(i in assigned(g['blocks'][b]) and around(g, b) & loops for b in range(len(g['blocks'])) if b in set().union(*[around(g, l) for l in loops])):
            bad.add(f'{name_of(g, i)}: no character raises it')
    for loop in {x[0] for x in m.seen}:
        T_ = [x for x in m.seen if x[0] == loop]
        cand = {i for _, before, kind, _, _, after in T_ if kind == 'bs' and after[:1] != ('returns',) for i, v in before
                if v is FALSE and (i, TRUE) in after and
                # raised by a backslash only
                not any(k2 != 'bs' and (i, FALSE) in b2 and (i, TRUE) in a2 and a2[:1] != ('returns',) for _, b2, k2, _, _, a2 in T_ if b2 == before)}
        # one that is never put down again only remembers that there was a backslash
        cand = {i for i in cand if any((i, TRUE) in b and (i, FALSE) in a and a[:1] != ('returns',) for _, b, _, _, _, a in T_)}
        for i in cand:
            flags.add(i)
            plain = {}
            both = {tuple(x for x in b if x[0] != i) for _, b, *_ in T_ if (i, TRUE) in b}
            for _, before, kind, isc, eff, after in T_:
                k += 1
                up = (i, TRUE) in before
                if after[:1] != ('returns',) and up and (i, TRUE) in after:
                    bad.add(f'{name_of(g, i)}: still up after a character that is escaped' + (' (a backslash)' if kind == 'bs' else f' ({", ".join(map(repr, sorted(isc)))})' if isc else ''))
                if after[:1] != ('returns',) and (i, FALSE) in before and kind != 'bs' and (i, TRUE) in after:
                    bad.add(f'{name_of(g, i)}: raised by something else than a backslash')
                if after[:1] != ('returns',) and (i, FALSE) in before and kind == 'bs' and (i, FALSE) in after \
                        and tuple(x for x in after if x[0] != i) in both and isc is None:
                    bad.add(f'{name_of(g, i)}: a backslash does not raise it')
                if up:
                    a = after if after[:1] == ('returns',) else tuple(x for x in after)
                    if kind == 'other' and isc is None or kind == 'other' and isc == {'a kind of character'}:
                        plain.setdefault(before, set()).add((eff, a))
            for _, before, kind, isc, eff, after in T_:
                if (i, TRUE) not in before or isc == {'delimiter'} or kind == 'other' and isc is None or before not in plain:
                    continue
                if isc and (isc & BREAKS or 'a kind of character' in isc):
                    continue
                if (eff, after) not in plain[before]:
                    what = 'a backslash' if kind == 'bs' else ', '.join(map(repr, sorted(isc)))
                    bad.add(f'{name_of(g, i)}: {what} is taken for more than text although it is escaped')
    return k, flags, bad, e.steps


def folds(F):
    """closures that carry a flag from character to character: |flag, character| -> flag"""
    for g in F.local:
        if g['closure'] and g['argc'] == 3:
            t = [F.tyname(g['locals'][i]['ty']) for i in range(4)]
            if t[0] == 'bool' and t[2] == 'bool' and t[3] in ('char', 'u8'):
                yield g, t[3]


class FoldMon(EscMon):
    def on_call(self, eng, cx, st, fr, args, site):
        return EmitMon.on_call(self, eng, cx, st, fr, args, site)


def fold(F, g, t):
    """what the closure makes of a flag and a character: {(flag, kind): results}"""
    m = FoldMon(F, g)
    m.kinds_, m.chars, m.codes = set(), set(), frozenset({'\\', 92})
    e = Engine(F, m, cap=400, loopcap=200, budget=150000)
    bs = BS['c' if t == 'char' else 'b']
    out = {}
    for flag in (TRUE, FALSE):
        for kind in ('bs', 'other'):
            x = bs if kind == 'bs' else mk('X', CH, m.codes)
            out[flag, kind] = {noid(bare(o.ret)) for o in e.run(g, [T, flag, x], {}, ('go', (), None, None, (), '', ()), 1, CH.syms) if o.kind == 'ret'}
    return out, e.steps


def fold_check(F, g, t):
    r, steps = fold(F, g, t)
    bad = set()
    escape = r[FALSE, 'bs'] == {TRUE} and FALSE in r[FALSE, 'other']
    if escape:
        if r[FALSE, 'other'] != {FALSE}:
            bad.add('raised by something else than a backslash')
        for kind, what in (('bs', 'a backslash'), ('other', 'a character')):
            if r[TRUE, kind] != {FALSE}:
                bad.add(f'still up after {what} that is escaped')
    return escape, bad, steps


def run(cx):
    F = cx.facts('lib')
    absint.MAXDEPTH = 64
    n = 0
    for g in scan_loops(F):
        try:
            k, flags, bad, steps = check(F, g)
        except Budget as x:
            k, flags, bad, steps = 0, set(), {f'not analysable within budget ({x})'}, 0
        cx.count('scans', 1)
        cx.count('iterations', k)
        cx.count('steps', steps)
        n += len(flags)
        if flags or bad:
            cx.oblige(f'scan:{g["path"]}', not bad, f'{g["name"]}: ' + '; '.join(sorted(bad))[:600], g['sp'])
    for g, t in folds(F):
        escape, bad, steps = fold_check(F, g, t)
        cx.count('steps', steps)
        if escape:
            n += 1
            cx.oblige(f'fold:{g["path"]}', not bad, f'{g["path"]}: ' + '; '.join(sorted(bad)), g['sp'])
    cx.oblige('scans', n > 0, 'no scan with an escape flag found', loop_fn(F)['sp'])
    cx.count('escape_flags', n)
