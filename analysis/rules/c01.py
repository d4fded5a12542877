"""Purity, as an effect system over resolved calls.  Every call, static and cast in every library
function reachable from the public API is classified: only crates and std modules without access to
the environment may be called, no clock/thread/random/address source, no writable or thread-local
static (one-time initialised statics only if their initialiser captures nothing), no iteration over
a randomly seeded hash container, no interior-mutable state behind the formatter other than settings
that C02's analysis shows are the same after every call."""
from util import *
from rules import c02
import re

RULE = __doc__
ASSUMES = ['pulldown-cmark, textwrap, regex, itertools, unicode-* and alloc/core are deterministic functions of their arguments',
           'tracing only produces diagnostics']

PURE_CRATES = {'core', 'alloc', 'pulldown_cmark', 'textwrap', 'regex', 'itertools', 'unicode_segmentation', 'unicode_width',
               'unicode_linebreak', 'smawk', 'bitflags', 'memchr', 'regex_syntax', 'regex_automata', 'either', 'unicase', 'aho_corasick'}
DIAG = {'tracing', 'tracing_core', 'log'}
STD_OK = re.compile(r'^(<)?(std::sync::(OnceLock|LazyLock|Once\b)|std::collections::|std::hash::DefaultHasher::new|std::panic::catch_unwind|std::panic::resume_unwind|std::path::Path|std::error|std::f32|std::f64|std::ascii)')
DENY = re.compile(r'(termwidth|with_termwidth|RandomState|thread_rng|std::env|std::time|SystemTime|Instant::now|std::thread|std::process|std::net|std::fs|std::io::|std::os::|std::random|core::arch|_rdtsc|option_env|atomic::Atomic|fmt::Pointer|new_pointer|from_exposed_addr|with_exposed_provenance|expose_provenance|<impl \*(const|mut) T>::addr|thread_local|LocalKey|hash::SipHasher)')
HASH = re.compile(r'(Hash(Map|Set)\b|hash_(map|set)\b|hash::(map|set)\b)')
HASH_OK = {'new', 'with_capacity', 'default', 'insert', 'get', 'get_mut', 'contains', 'contains_key', 'remove', 'entry', 'or_insert',
           'or_insert_with', 'or_default', 'and_modify', 'len', 'is_empty', 'reserve', 'clear', 'drop', 'clone', 'eq', 'get_or_insert_with',
           'take', 'replace', 'remove_entry', 'get_key_value', 'index', 'borrow', 'deref', 'deref_mut', 'as_ref', 'fmt', 'from', 'from_iter', 'collect',
           'get_or_init', 'key', 'into_mut', 'or_insert_entry', 'extend', 'unwrap', 'map', 'is_some', 'is_none', 'cloned', 'copied', 'unwrap_or',
           'unwrap_or_default', 'is_some_and', 'filter', 'and_then', 'or_else', 'expect', 'next', 'size_hint', 'call_once', 'call', 'call_mut', 'for_each',
           'try_fold', 'fold', 'any', 'all', 'dedup', 'retain'}
HASH_ITER = {'iter', 'iter_mut', 'keys', 'values', 'values_mut', 'drain', 'into_iter', 'into_keys', 'into_values', 'retain', 'union', 'intersection',
             'difference', 'symmetric_difference', 'extract_if'}
LAZY = re.compile(r'^std::(sync|cell)::(OnceLock|LazyLock|once_lock|lazy_lock)')


def reachable(F):
    roots = [f['id'] for f in F.local if not f['closure'] and
             re.search(r'(^rewrite_markdown$|^rewrite_markdown_with_builder$|MarkdownFormatter::format$|FormatBuilder::\w+$)', f['path'])]
    if not any(F.fns[r]['path'].endswith('MarkdownFormatter::format') for r in roots):
        raise Missing('MarkdownFormatter::format')
    r = F.reach(roots)
    return [f for f in F.local if f['id'] in r]


def sites(F, f):
    yield from F.calls(f)


def run(cx):
    F = cx.facts('lib')
    fns = reachable(F)
    n_calls = 0
    crates = {}
    lazy = []
    for f in fns:
        for bi, t, fr in F.calls(f):
            n_calls += 1
            w = f['blocks'][bi]['sp']
            if fr is None:
                continue
            p = fr.get('res') or fr['fn']
            full = fr.get('full', '')
            k = fr.get('rkrate') or fr.get('krate')
            crates[k] = crates.get(k, 0) + 1
            name = fr.get('name', '')
            here = f['path'].split('::')[-1] if not f['closure'] else f['path']
            bad = None
            if k == 'markdown_fmt' or k in DIAG:
                continue
            if DENY.search(p) and not (k in DIAG):
                bad = f'calls {p}, which depends on more than its arguments'
            elif k == 'std' and not STD_OK.search(p):
                bad = f'calls {p} (not known to be free of outside effects)'
            elif k not in PURE_CRATES and k != 'std':
                bad = f'calls into crate {k}: {p}'
            if bad:
                cx.violation(f'effect:{p}:in:{f["path"]}', bad, w)
            # randomly seeded containers
            s = p + ' ' + full
            if HASH.search(s):
                recv = p
                if name in HASH_ITER and HASH.search(p.split(' as ')[0] if p.startswith('<') else p) and not re.search(r'Entry|Option', p.split(' as ')[0]):
                    cx.violation(f'hash-order:{name}:in:{f["path"]}', f'iterates over a randomly ordered container: {full[:120]}', w)
                elif name in ('extend', 'from_iter', 'collect') and hash_source(F, f, t):
                    cx.violation(f'hash-order:{name}:in:{f["path"]}', f'consumes a randomly ordered container: {full[:120]}', w)
            if name in ('get_or_init', 'get_or_try_init') and ('OnceLock' in p or 'OnceCell' in p):
                lazy.append((f, bi, t, fr))
            if name in ('set', 'get_mut', 'take') and ('OnceLock' in p):
                cx.violation(f'once-set:in:{f["path"]}', f'a one-time cell is filled from run-time values: {p}', w)
        for bi, b in enumerate(f['blocks']):
            for st in b['s']:
                if st[0] == '=' and st[2][0] == 'cast' and ('Expose' in str(st[2][1]) or 'PtrToInt' in str(st[2][1])):
                    cx.violation(f'address:in:{f["path"]}', 'turns an address into a number', b['sp'])
                if st[0] == '=' and st[2][0] == 'tls':
                    cx.violation(f'thread-local:in:{f["path"]}', 'uses thread-local state', b['sp'])
    cx.counts.update(functions=len(fns), call_sites=n_calls, calls_by_crate=crates)
    cx.oblige('calls:only-effect-free-code', not cx.violations, 'see the individual reports')
    # every local value of a hash container type iterated through a loop
    # statics
    n_static = 0
    for name, s in F.statics.items():
        if s.get('foreign'):
            continue
        n_static += 1
        ty = F.tyname(s['ty'])
        if 'callsite' in ty or 'tracing' in ty:
            continue
        cx.oblige(f'static:{name}:not-mutable', not s['mut'], f'static mut {name}', s['sp'])
        cx.oblige(f'static:{name}:not-thread-local', not s['tls'], f'thread-local {name}', s['sp'])
        if not s['freeze']:
            inner = re.sub(r'^[\w:]+<', '', ty)
            okk = bool(LAZY.match(ty)) and not c02.CELL.search(inner) or 'OnceLock<regex::Regex>' in ty
            cx.oblige(f'static:{name}:no-run-time-state', okk, f'static {name}: {ty} can carry state from one call to the next', s['sp'])
    # initialisers of one-time statics capture nothing
    for f, bi, t, fr in lazy:
        arg = t['a'][1]
        okk, why = captures_nothing(F, f, arg)
        cx.oblige(f'lazy-init:in:{f["path"]}:captures-nothing', okk, f'the one-time initialiser {why}', f['blocks'][bi]['sp'])
    cx.counts.update(statics=n_static, one_time_initialisers=len(lazy))
    cx.counts['vtables'] = len(F.vtables)
    # state kept in the formatter
    n0 = len(cx.obl)
    c02.decide(cx, F, 'formatter-state:')
    fadt = c02.formatter_adt(F)
    for a, n, t in c02.cells(F, fadt):
        inner = [m for m in re.findall(r"[A-Za-z_][\w:]*", t) if m in F.adts and F.adts[m].get('local')]
        cx.oblige(f'formatter-state:{n}:is-the-settings', bool(inner) and 'RefCell' in t or t == 'std::cell::Cell<std::option::Option<usize>>',
                  f'field {n}: {t} of the formatter can remember earlier calls', '')
    cx.oblige('analysed', len(fns) >= 60 and n_calls >= 500, f'only {len(fns)} functions / {n_calls} calls reached')


def hash_source(F, f, t):
    """does the first or second argument carry a hash container (its type, not the result's)?"""
    for a in t['a']:
        if a[0] == 'k':
            continue
        p = a[1]
        ty = F.tyname(f['locals'][p[0]]['ty']) if not p[1] else ''
        if HASH.search(ty) and not ty.startswith('&mut'):
            return True
    return False


def captures_nothing(F, f, arg):
    if arg[0] == 'k':
        v = arg[1]['v']
        if 'fn' in v or 'closure' in v or 'zst' in v:
            return True, ''
        return True, ''
    p = arg[1]
    ty = F.ty(f['locals'][p[0]]['ty'])
    # find the closure aggregate assigned to this local
    for b in f['blocks']:
        for s in b['s']:
            if s[0] == '=' and s[1][0] == p[0] and not s[1][1] and s[2][0] == 'agg':
                return (len(s[2][2]) == 0), f'captures {len(s[2][2])} run-time values'
            if s[0] == '=' and s[1][0] == p[0] and not s[1][1] and s[2][0] == 'use':
                return captures_nothing(F, f, s[2][1])
    return False, 'could not be resolved'
