"""Loading and indexing of the MIR facts extracted from the checked tree."""
import json, os, collections


class Missing(Exception):
    """An anchor the rule needs does not exist in the analysed program."""


class Facts:
    def __init__(self, path):
        with open(path) as fh:
            d = json.load(fh)
        self.d = d
        self.kind = d['kind']
        self.types = d['types']
        self.adts = dict(d['adts'])
        self.fns = {f['id']: f for f in d['fns']}
        self.by_path = collections.defaultdict(list)
        for f in d['fns']:
            self.by_path[f['path']].append(f)
        self.statics = {s['path']: s for s in d['statics']}
        self.vtables = dict(d['vtables'])
        self.items = d['items']
        self.local = [f for f in d['fns'] if f['local'] and not f.get('foreign')]
        self.bodies = [f for f in d['fns'] if not f.get('foreign')]
        self._dyn = collections.defaultdict(list)
        for key, vt in self.vtables.items():
            if vt:
                tr = key.split(' as ')[-1].split('<')[0]
                for m in vt['methods']:
                    if m['id'] is not None:
                        self._dyn[(tr, m['name'])].append(m['id'])
        self._cg = None

    # -------------------------------------------------------------- lookup
    def tyname(self, i):
        return self.types[i]['s'] if i is not None else ''

    def ty(self, i):
        return self.types[i] if i is not None else {}

    def find(self, pred, what):
        r = [f for f in self.local if pred(f)]
        if not r:
            raise Missing(what)
        return r

    def fn_named(self, suffix, kind=None):
        """local, non-closure functions whose path ends with `suffix`"""
        r = [f for f in self.local if not f['closure'] and
             (f['path'] == suffix or f['path'].endswith('::' + suffix))]
        if not r:
            raise Missing('function ' + suffix)
        return r

    # -------------------------------------------------------------- calls
    def calls(self, f):
        """(block index, terminator, fnref or None) for each call of a body"""
        for bi, b in enumerate(f['blocks']):
            t = b['t']
            if t['k'] == 'call':
                fr = None
                if t['f'][0] == 'k':
                    v = t['f'][1]['v']
                    if 'fn' in v:
                        fr = v
                yield bi, t, fr

    def dyn_targets(self, fr):
        tr = fr.get('trait', '').split('<')[0]
        return self._dyn.get((tr, fr.get('name')), [])

    def callgraph(self):
        """fn id -> set of (callee id); foreign/closure edges included"""
        if self._cg is not None:
            return self._cg
        cg = collections.defaultdict(set)
        for f in self.d['fns']:
            i = f['id']
            if f.get('foreign'):
                for c in f['calls']:
                    self._edges(cg, i, c)
                continue
            for bi, b in enumerate(f['blocks']):
                for s in b['s']:
                    if s[0] == '=':
                        self._walk_ops(s[2], cg, i)
                t = b['t']
                if t['k'] == 'call':
                    if t['f'][0] == 'k':
                        v = t['f'][1]['v']
                        if 'fn' in v:
                            self._edges(cg, i, v)
                    for a in t['a']:
                        self._walk_ops(a, cg, i)
                elif t['k'] == 'drop' and t['dropfn'] is not None:
                    cg[i].add(t['dropfn'])
        self._cg = cg
        return cg

    def _edges(self, cg, i, fr):
        if fr.get('id') is not None:
            cg[i].add(fr['id'])
        if fr.get('rk') == 'virtual' or (fr.get('trait') and fr.get('rk') is None):
            for j in self.dyn_targets(fr):
                cg[i].add(j)

    def _walk_ops(self, x, cg, i):
        if isinstance(x, list):
            if len(x) >= 3 and x[0] == 'closure' and isinstance(x[1], str):
                if x[2] is not None:
                    cg[i].add(x[2])
                return
            for y in x:
                self._walk_ops(y, cg, i)
        elif isinstance(x, dict):
            v = x.get('v')
            if isinstance(v, dict):
                if 'fn' in v:
                    self._edges(cg, i, v)
                if 'closure' in v:
                    t = self.types[v['closure']]
                    if t.get('fn') is not None:
                        cg[i].add(t['fn'])

    def reach(self, roots):
        cg = self.callgraph()
        seen = set(roots)
        st = list(roots)
        while st:
            x = st.pop()
            for y in cg.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        return seen

    def rreach(self, targets):
        cg = self.callgraph()
        rev = collections.defaultdict(set)
        for a, bs in cg.items():
            for b in bs:
                rev[b].add(a)
        seen = set(targets)
        st = list(targets)
        while st:
            x = st.pop()
            for y in rev.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        return seen

    # -------------------------------------------------------------- adts
    def adt(self, p):
        a = self.adts.get(p)
        if a is None:
            raise Missing('type ' + p)
        return a

    def variant_index(self, adt, name):
        for i, v in enumerate(self.adt(adt)['variants']):
            if v['name'] == name:
                return i
        raise Missing(f'variant {adt}::{name}')

    def variants(self, adt):
        return [v['name'] for v in self.adt(adt)['variants']]

    def field_by_type(self, adt, pred, what):
        v = self.adt(adt)['variants'][0]
        r = [i for i, t in enumerate(v['ftys']) if pred(t)]
        if len(r) != 1:
            raise Missing(f'{what} field of {adt} (found {len(r)})')
        return r[0]


def strip_ref(t):
    for p in ('&mut ', '&', '*mut ', '*const '):
        if t.startswith(p):
            t = t[len(p):]
            if t.startswith("'"):
                t = t.split(' ', 1)[1] if ' ' in t else t
            return t[4:] if t.startswith('mut ') else t
    if t.startswith('std::boxed::Box<'):
        return t[len('std::boxed::Box<'):-1]
    return None


def place_steps(F, f, place):
    """[(type text before the projection, projection, type text after or None)] along a place"""
    t = F.tyname(f['locals'][place[0]]['ty'])
    out = []
    for p in place[1]:
        n = None
        if t is not None:
            if p[0] == 'd':
                n = strip_ref(t)
            elif p[0] == 'f':
                a = F.adts.get(t.split('<')[0])
                v = a['variants'] if a else []
                if len(v) == 1 and 'ftys' in v[0] and p[1] < len(v[0]['ftys']):
                    n = v[0]['ftys'][p[1]]
        out.append((t, p, n))
        t = n
    return out


def short(f):
    p = f['path']
    return p.replace("<'i, 'm, I>", '').replace("::<'i, '_, I>", '')


def where(f, bi=None):
    if bi is None or f.get('foreign'):
        return f.get('sp', '?')
    return f['blocks'][bi]['sp']
