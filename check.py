#!/usr/bin/env python3
"""check.py <PROPERTY> : decides one property on /repo's current source. Exit 0 held, 1 violated."""
import importlib, json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from prv.program import Program, Broken  # noqa: E402
from prv.engine import Limit  # noqa: E402


class Check:
    """Collects obligations and violations of one property."""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.obligations = 0
        self.discharged = 0
        self.viol = {}
        self.cov = {}
        self.samples = []
        self.groups = {}
        self.assumptions = []

    def ob(self, ok, key, msg='', group=None):
        """One obligation; key identifies the construct without line numbers."""
        self.obligations += 1
        g = self.groups.setdefault(group or key.split(':')[0], [0, 0])
        g[0] += 1
        if ok:
            self.discharged += 1
            g[1] += 1
        else:
            self.fail(key, msg)
        return ok

    def fail(self, key, msg=''):
        if key not in self.viol:
            self.viol[key] = msg

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def floor(self, name, n, least):
        """A rule that stopped applying is a violation, not a pass."""
        self.cov.setdefault('floors', {})[name] = [n, least]
        if n < least:
            self.fail('floor:' + name, 'only %d of at least %d instances of "%s" were found: the rule lost its subject' % (n, least, name))

    def inlined(self, E):
        s = self.cov.setdefault('_fns', set())
        s |= E.inlined
        self.cov['abstract_steps'] = self.cov.get('abstract_steps', 0) + E.steps
        self.cov['call_sites_evaluated'] = self.cov.get('call_sites_evaluated', 0) + E.callsites


def known():
    """known_findings.txt: 'known: property=ID key=KEY :: text' and 'fixed: property=ID commit text'."""
    out = {}
    f = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line.startswith('known: '):
                head, _, text = line[7:].partition(' :: ')
                pid, _, key = head.partition(' key=')
                out[(pid.replace('property=', '').strip(), key.strip())] = text
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    for a in sys.argv[2:]:
        if a.startswith('--tier='):
            tier = a[7:]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    C = Check(pid, tier, seed)
    mod = importlib.import_module('prv.checks.' + pid.lower())
    try:
        p = Program()
        mod.run(p, C)
    except Broken as e:
        C.fail('anchor:' + str(e).splitlines()[0][:120], 'anchor of the analysis missing: %s' % e)
    except Limit as e:
        C.fail('undecided:' + str(e)[:120], 'analysis bound reached, property not established: %s' % e)
    except Exception as e:  # fail closed, with exit 1
        tb = traceback.format_exc()
        sys.stderr.write(tb)
        C.fail('internal:' + type(e).__name__, tb[-1500:])
    kn = known()
    real = {}
    lines = []
    for key, msg in C.viol.items():
        if (pid, key) in kn:
            lines.append('KNOWN-FINDING: property=%s %s' % (pid, kn[(pid, key)] or key))
        else:
            real[key] = msg
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    cov = dict(C.cov)
    fns = cov.pop('_fns', None)
    if fns is not None:
        cov['functions_analysed'] = len(fns)
        cov['functions_sample'] = sorted(fns)[:40]
    cov['obligations'] = C.obligations
    cov['discharged'] = C.discharged
    cov['groups'] = {g: '%d/%d' % (b, a) for g, (a, b) in C.groups.items()}
    cov['samples'] = C.samples
    cov.setdefault('explanation', getattr(mod, 'RULE', (mod.__doc__ or '').strip()))
    level = getattr(mod, 'LEVEL', 'other')
    if level == 'proof':
        cov['checker_cmd'] = 'python3 check.py %s' % pid
        cov['trusted_base'] = TRUSTED + getattr(mod, 'TRUSTED', [])
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=TRUSTED + getattr(mod, 'ASSUME', []), wall_s=round(time.time() - t0, 3), violations=len(real))
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for ln in sorted(set(lines)):
        print(ln)
    print('%s: %d obligations, %d discharged, %s, %.1f s' % (pid, C.obligations, C.discharged,
          'functions analysed: %d' % len(fns) if fns else '', time.time() - t0))
    if real:
        rp = os.path.join(HERE, 'evidence', pid + '.violation.txt')
        with open(rp, 'w') as f:
            for key, msg in real.items():
                f.write('== %s\n%s\n' % (key, msg))
        for key, msg in list(real.items())[:12]:
            print('  %s :: %s' % (key, str(msg).replace('\n', ' | ')[:500]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0


TRUSTED = ['rustc nightly MIR construction (the analysed program is the type-checked, borrow-checked MIR of the current source)',
           'transfer functions of std/prost calls in prv/models.py', 'the abstract interpreter prv/engine.py']

if __name__ == '__main__':
    sys.exit(main())
