#!/usr/bin/env python3
"""check.py PROPERTY  -- decide one property of the code in /repo by static analysis.

Extracts MIR facts of the current tree, runs the property's rule over them, writes
evidence/<id>.json and replay/<id>.txt, and exits 0 (held) or 1 (VIOLATION line printed)."""
import importlib, json, os, subprocess, sys, tempfile, time, traceback, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'analysis'))
sys.dont_write_bytecode = True


def known(pid):
    """key -> description of the recorded (unrepaired) findings of this property"""
    out = {}
    try:
        with open(os.path.join(HERE, 'known-findings.txt')) as fh:
            for line in fh:
                line = line.strip()
                if line.startswith('known: property=' + pid + ' '):
                    rest = line.split('key=', 1)[1]
                    key, _, desc = rest.partition(' :: ')
                    out[key.strip()] = desc
    except FileNotFoundError:
        pass
    return out


class Cx:
    def __init__(self, pid, tier, factdir):
        self.pid, self.tier, self.dir = pid, tier, factdir
        self.violations = []      # (key, message, where)
        self.counts = {}
        self.samples = []
        self.notes = []
        self.obl = []
        self._facts = {}

    def facts(self, kind='lib'):
        if kind not in self._facts:
            import facts
            self._facts[kind] = facts.Facts(os.path.join(self.dir, f'markdown_fmt-{kind}.json'))
        return self._facts[kind]

    def violation(self, key, msg, where=''):
        if key not in [v[0] for v in self.violations]:
            self.violations.append((key, msg, where))

    def oblige(self, name, ok, msg='', where=''):
        """one decided obligation; a failed one is a violation keyed by its name"""
        self.obl.append((name, bool(ok)))
        if not ok:
            self.violation(name, msg or 'obligation not met', where)
        return ok

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    tmp = os.environ.get('MFV_FACTS') or tempfile.mkdtemp(prefix='mfv-')
    cx = Cx(pid, tier, tmp)
    rule = None
    try:
        if not os.environ.get('MFV_FACTS'):
            r = subprocess.run([os.path.join(HERE, 'facts.sh'), tmp], capture_output=True, text=True)
            if r.returncode:
                cx.violation('facts:extraction', 'could not extract facts from the tree (does it build?):\n' + r.stderr[-3000:])
        if not cx.violations:
            rule = importlib.import_module('rules.' + pid.lower())
            from facts import Missing
            try:
                rule.run(cx)
            except Missing as e:
                cx.violation('anchor:' + str(e), 'the construct this rule is anchored on is gone: ' + str(e))
            except Exception as e:
                cx.violation('analysis:' + type(e).__name__, 'the analysis could not decide the tree:\n' + traceback.format_exc())
    finally:
        if not os.environ.get('MFV_FACTS'):
            shutil.rmtree(tmp, ignore_errors=True)
    kf = known(pid)
    new = [v for v in cx.violations if v[0] not in kf]
    old = [v for v in cx.violations if v[0] in kf]
    for k, m, w in old:
        print(f'KNOWN-FINDING: property={pid} {k}: {kf[k] or m}')
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': getattr(rule, 'RULE', (rule.__doc__ if rule else '') or 'fact extraction failed').strip(),
            'obligations': len(cx.obl), 'discharged': sum(1 for _, ok in cx.obl if ok),
            'known_findings': [v[0] for v in old],
            'obligation_names': [n for n, _ in cx.obl][:400],
            'samples': cx.samples[:40], 'notes': cx.notes[:40], **cx.counts,
        },
        'assumptions': list(getattr(rule, 'ASSUMES', [])),
        'violations': [{'key': k, 'what': m, 'where': w} for k, m, w in new],
        'wall_s': round(time.time() - t0, 2),
    }
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    if new:
        rp = os.path.join(HERE, 'evidence', pid + '.violations.txt')
        with open(rp, 'w') as fh:
            for k, m, w in new:
                fh.write(f'{k}\n    at {w}\n    {m}\n')
        for k, m, w in new:
            print(f'  {k}  [{w}]  {m}')
        print(f'VIOLATION property={pid} replay={rp}')
        return 1
    print(f'{pid}: held; {len(cx.obl)} obligations, {cx.counts} ({ev["wall_s"]} s)')
    return 0


if __name__ == '__main__':
    sys.exit(main())
