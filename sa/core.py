"""Check harness: dumps the current tree, runs one property's analysis, reports."""
import json
import os
import subprocess
import sys
import time
import traceback

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('OXO_REPO', '/repo')
_prog = None


def program():
    global _prog
    if _prog is None:
        from .mir import Program
        pre = os.environ.get('OXO_DUMPFILE')
        if pre:
            _prog = Program(pre)
            return _prog
        out = os.path.join(V, '.build', 'dump-%d.json' % os.getpid())
        r = subprocess.run([os.path.join(V, 'dump.sh'), out, REPO], capture_output=True, text=True)
        if r.returncode != 0 or not os.path.exists(out):
            sys.stderr.write(r.stderr[-4000:])
            raise RuntimeError('the core crate could not be analysed (does it compile?)')
        _prog = Program(out)
        os.unlink(out)
    return _prog


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.viol = []
        self.counts = {}
        self.samples = []
        self.undecided = []
        self.notes = []
        self.assumptions = []
        self.rule = ''
        self.required = []
        self._sc = {}

    @property
    def P(self):
        return program()

    @property
    def repo(self):
        return REPO

    def violation(self, key, msg):
        if key not in [k for k, _ in self.viol]:
            self.viol.append((key, msg))

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def ok(self, what, sample=None):
        self.count('obligations')
        self.count('discharged')
        self.count(what)
        if sample is not None and len(self.samples) < 12:
            self.samples.append(sample)

    def unknown(self, what, why):
        self.count('obligations')
        self.count('undecided')
        if len(self.undecided) < 60:
            self.undecided.append('%s: %s' % (what, why))

    def bad(self, key, msg):
        self.count('obligations')
        self.violation(key, msg)

    def need(self, what, n, floor):
        """Fail closed: an analysis that finds fewer instances than confirmed by hand is blind."""
        self.required.append((what, n, floor))
        if n < floor:
            self.violation('blind:' + what, 'analysis found %d instances of "%s", at least %d are required to decide the property' % (n, what, floor))

    # ---------------------------------------------------------- lookup helpers
    def fn(self, suffix):
        r = self.P.find(suffix, all=True)
        return r[0] if r else None

    def impl(self, trait, ty, method):
        for f in self.P.lib.values():
            if f.trait and f.trait.split('::')[-1] == trait and f.short.endswith('::' + method) and ('::' + ty + ' as ') in f.short:
                return f
        return None

    def scenario(self, name, *a, **k):
        return None


def known():
    p = os.path.join(V, 'known_findings.jsonl')
    r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                r.append(json.loads(l))
    return r


def main(argv):
    pid = argv[0]
    tier = 'thorough' if '--thorough' in argv else 'quick'
    t0 = time.time()
    ctx = Ctx(pid, tier)
    import importlib
    err = None
    try:
        mod = importlib.import_module('sa.checks.' + pid.lower())
        mod.run(ctx)
    except Exception as e:
        err = e
        tb = traceback.format_exc()
        sys.stderr.write(tb)
        ctx.violation('analysis-failed:' + type(e).__name__,
                      'the analysis could not be completed on this tree, so the property is not shown to hold: %s: %s' % (type(e).__name__, str(e)[:300]))
    kn = [k for k in known() if k.get('property') == pid and k.get('status') == 'known']
    kk = {k['key']: k for k in kn}
    new, old = [], []
    for k, m in ctx.viol:
        (old if k in kk else new).append((k, m))
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    cov = {'explanation': getattr(sys.modules.get('sa.checks.' + pid.lower()), 'EXPLAIN', '') or pid,
           'rule': ctx.rule or getattr(sys.modules.get('sa.checks.' + pid.lower()), 'RULE', ''),
           'counts': ctx.counts, 'samples': ctx.samples[:12], 'undecided': ctx.undecided,
           'floors': [{'what': a, 'found': b, 'floor': c} for a, b, c in ctx.required],
           'known_findings': [k for k, _ in old], 'notes': ctx.notes[:40]}
    for k in ('obligations', 'discharged'):
        if k in ctx.counts:
            cov[k] = ctx.counts[k]
    ev = {'property': pid, 'tier': os.environ.get('VERIF_TIER', tier) if tier == 'quick' else tier,
          'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other', 'coverage': cov,
          'assumptions': ctx.assumptions or getattr(sys.modules.get('sa.checks.' + pid.lower()), 'ASSUME', []),
          'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    if ev['tier'] not in ('quick', 'thorough'):
        ev['tier'] = 'quick'
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    rep = os.path.join(V, 'evidence', pid + '.report.txt')
    with open(rep, 'w') as f:
        for k, m in new:
            f.write('%s\n  %s\n' % (k, m))
    seen = {k for k, _ in old}
    for k in kn:
        if k['key'] in seen:
            print('KNOWN-FINDING: property=%s %s' % (pid, k.get('what', k['key'])))
    print('%s: %s' % (pid, ', '.join('%s=%s' % x for x in sorted(ctx.counts.items()))))
    if new:
        for k, m in new[:25]:
            print('  %s: %s' % (k, m[:600]))
        print('VIOLATION property=%s replay=%s' % (pid, rep))
        return 1
    return 0
