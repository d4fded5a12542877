"""The command line driver as a history of effects: what it reads, formats, writes and prints."""
from util import *

CLI = sym('cli')
MODS = ('std::fs::', 'std::io::', 'std::process::', 'std::env::', 'std::net::', 'std::os::', 'std::thread::',
        'std::time::', 'std::sync::')
HARMLESS = {'flush', 'sync_all', 'sync_data', 'lock', 'by_ref', 'new', 'metadata', 'len', 'is_empty', 'eq', 'ne', 'from', 'into',
            'fmt', 'kind', 'drop'}


def name_of(fr):
    return fr.get('res') or fr['fn']


class CliMon(Monitor):
    """mon: tuple of events (kind, path, data, stdout flag)"""

    def __init__(self, flag_idx):
        self.flag_idx = flag_idx
        self.calls = set()
        self.exits = []

    def flag(self, st):
        v = st.mem.get(('ev', 'stdout'))
        return v.a[0] if v is not None and v.op == 'c' else None

    def ev(self, st, *e):
        st.mon = st.mon + (tuple(e) + (self.flag(st),),)

    def fallible(self, st, kind, payload, *e):
        good, bad = st.copy(), st.copy()
        self.ev(good, kind, *e)
        self.ev(bad, kind, *e)
        bad.mon = bad.mon + (('fail', kind, None, None),)
        return [('ret', ok(payload), good), ('ret', err(mk('app', 'error', cstr(kind))), bad)]

    def call(self, eng, cx, st, fr, args, site):
        p, n = name_of(fr), fr.get('name', '')
        rk = fr.get('rkrate') or fr.get('krate')
        F = lambda i: flat(st, args[i], eng)
        if n in ('parse', 'parse_from') and fr.get('krate', '').startswith('clap'):
            st.mem[('ev', 'stdout')] = field(CLI, (None, self.flag_idx))
            return [('ret', CLI, st)]
        if n == 'try_parse':
            s2 = st.copy()
            st.mem[('ev', 'stdout')] = field(CLI, (None, self.flag_idx))
            return [('ret', ok(CLI), st), ('ret', err(mk('app', 'error', cstr('parse'))), s2)]
        r = fmt_model(eng, st, fr, args)
        if r is not None:
            return r
        if p in ('std::fmt::format', 'alloc::fmt::format'):
            ps = pieces(st, args[0], eng)
            if ps and len(ps) == 1 and type(ps[0]) is N:
                return [('ret', mk('app', 'id', ps[0]), st)]
            return [('ret', mk('app', 'format', *[x if type(x) is N else cstr(x) for x in (ps or [T])]), st)]
        if rk == 'markdown_fmt' and fr.get('id') is None:
            self.calls.add(p)
            if n == 'default' and 'FormatBuilder' in p:
                return [('ret', mk('app', 'defaults'), st)]
            if p.endswith('FormatBuilder::max_width') or p.endswith('FormatBuilder::reflow_text') or \
                    p.endswith('FormatBuilder::code_block_formatter'):
                root, path = eng.deref_loc(args[0])
                old = eng.read(st.mem, root, path)
                eng.write(st.mem, root, path, mk('app', 'with', old, cstr(n), F(1)))
                return [('ret', args[0], st)]
            if p.endswith('FormatBuilder::build'):
                return [('ret', mk('app', 'built', F(0)), st)]
            if p.endswith('rewrite_markdown_with_builder'):
                return self.fallible(st, 'format', mk('app', 'formatted', F(0), F(1)), F(0), F(1))
            if p.endswith('MarkdownFormatter::format'):
                b = F(0)
                b = b.a[1] if b.op == 'app' and b.a[0] == 'built' else b
                return self.fallible(st, 'format', mk('app', 'formatted', F(1), b), F(1), b)
            if p.endswith('::rewrite_markdown'):
                b = mk('app', 'defaults')
                return self.fallible(st, 'format', mk('app', 'formatted', F(0), b), F(0), b)
        if rk in STD:
            if p == 'std::fs::read_to_string' or p == 'std::fs::read':
                return self.fallible(st, 'read', mk('app', 'content', F(0)), F(0), None)
            if p.endswith('String::from_utf8') or p == 'std::str::from_utf8' or p == 'core::str::from_utf8':
                return self.fallible(st, 'utf8', mk('app', 'id', F(0)), F(0), None)
            if p in ('std::fs::write',):
                return self.fallible(st, 'write', UNIT, F(0), F(1))
            if p.endswith('fs::File::open'):
                return self.fallible(st, 'open', mk('app', 'rfile', F(0)), F(0), None)
            if p.endswith('fs::File::create'):
                return self.fallible(st, 'truncate', mk('app', 'wfile', F(0)), F(0), None)
            if p.endswith('io::read_to_string'):
                h = F(0)
                if h.op == 'app' and h.a[0] == 'rfile':
                    return self.fallible(st, 'read', mk('app', 'content', h.a[1]), h.a[1], None)
            if n in ('read_to_string', 'read_to_end') and 'io::Read' in fr.get('trait', ''):
                h = F(0)
                path = h.a[1] if h.op == 'app' and h.a[0] == 'rfile' else T
                out = self.fallible(st, 'read', mk('app', 'usize'), path, None)
                for k, v, s in out:
                    root, pt = eng.deref_loc(args[1])
                    eng.write(s.mem, root, pt, mk('app', 'content', path) if v.a[1] == 0 else T)
                return out
            if p.endswith('io::stdout') or p.endswith('io::stderr'):
                return [('ret', mk('app', 'handle', cstr(n)), st)]
            if n == 'lock' or (n == 'new' and ('BufWriter' in p or 'LineWriter' in p or 'BufReader' in p)):
                return [('ret', mk('app', 'id', F(0)), st)]
            if n in ('write_all', 'write_fmt', 'write_str', 'write') and 'Write' in fr.get('trait', '') + p:
                h = F(0)
                if h.op == 'app' and h.a[0] == 'handle' and h.a[1].a[0] == 'stderr':
                    return [('ret', ok(), st), ('ret', err(mk('app', 'error', cstr('stderr'))), st.copy())]
                if h.op == 'app' and h.a[0] in ('handle', 'wfile'):
                    d = F(1)
                    if n == 'write_fmt':
                        d = payload(pieces(st, args[1], eng))
                    if n == 'write':
                        d = T       # may be partial
                    if h.a[0] == 'handle':
                        return self.fallible(st, 'print', UNIT, None, d)
                    return self.fallible(st, 'write', UNIT, h.a[1], d)
                if not any(m in p for m in ('io::', 'fs::')):
                    return None
                return self.fallible(st, 'other', T, cstr(p), None)
            if p.endswith('io::_print'):
                self.ev(st, 'print', None, payload(pieces(st, args[0], eng)))
                return [('ret', UNIT, st)]
            if p.endswith('io::_eprint'):
                return [('ret', UNIT, st)]
            if n in ('flush', 'sync_all', 'sync_data'):
                return self.fallible(st, 'flush', UNIT, None, None)
            if p.endswith('process::exit'):
                c = F(0)
                self.exits.append((c, st.mon))
                return []
            if any(p.startswith(m) or ('<' + m) in p or m in p.split('<')[0] for m in MODS) and n not in HARMLESS:
                return self.fallible(st, 'other', T, cstr(p), None)
            r = identity_model(eng, st, fr, args)
            if r is not None:
                return r
        return None


def payload(ps):
    if ps is None:
        return T
    if len(ps) == 1:
        return ps[0] if type(ps[0]) is N else cstr(ps[0])
    return mk('app', 'format', *[x if type(x) is N else cstr(x) for x in ps])


def analyse(F):
    main = F.fn_named('main')[0]
    clis = [k for k, a in F.adts.items() if 'ftys' in (a['variants'] or [{}])[0] and any(
        f['path'] == f'<{k} as clap::FromArgMatches>::from_arg_matches_mut' for f in F.local)]
    if len(clis) != 1:
        raise Missing('the command line argument struct')
    adt = F.adt(clis[0])['variants'][0]
    idx = {n: i for i, n in enumerate(adt['fields'])}
    if 'stdout' not in idx or 'input' not in idx:
        raise Missing('command line fields `input` and `stdout`')
    m = CliMon(idx['stdout'])
    e = Engine(F, m, cap=200)
    outs = e.run(main, [], {}, (), 1, frozenset())
    return main, idx, m, e, outs
