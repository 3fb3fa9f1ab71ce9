"""Check framework: obligations, violations, known findings, evidence."""
import os, sys, json, time, traceback, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'lib'))
sys.path.insert(0, os.path.join(ROOT, 'checks'))
sys.setrecursionlimit(20000)
REPO = os.environ.get('VERIF_REPO', '/repo')

CHEAP = ('P03', 'P06', 'P12', 'P14', 'P15', 'P16', 'P22', 'P26')

class Fail(Exception):
    """The obligation does not hold; the message says why."""

class Check:
    def __init__(self, prop, tier):
        # bounds: checks that are quick enough run with the deep bounds on every change
        self.prop, self.asked = prop, tier
        self.tier = tier if prop not in CHEAP else {'quick': 'thorough', 'thorough': 'deep'}[tier]
        self.t0 = time.time()
        self.obs = []          # (key, where, ok, detail, seconds)
        self.cov = {}          # extra coverage numbers
        self.assumptions = []
        self.known = load_known(prop)

    def ob(self, key, where, fn):
        """One proof obligation.  key: stable identity of the obligation; where: the construct it is about."""
        t = time.time()
        try:
            d = fn()
            ok = True
        except Exception as e:   # fail closed: whatever stops the argument leaves it unproved
            ok = False
            n = type(e).__name__
            if n in ('Fail',):
                d = str(e)
            else:
                d = 'could not be decided (%s: %s)' % (n, str(e)[:600])
                if os.environ.get('VC_DEBUG'):
                    traceback.print_exc()
        self.obs.append((key, where, ok, d, time.time() - t))
        if os.environ.get('VC_TRACE') and (not ok or os.environ['VC_TRACE'] != '0'):
            print('%s %s %s %.2fs' % ('ok  ' if ok else 'FAIL', key, str(d)[:200 if ok else 600], time.time() - t), flush=True)
        return ok

    def fail(self, key, where, msg):
        def f():
            raise Fail(msg)
        self.ob(key, where, f)

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def finish(self, rule):
        bad = [o for o in self.obs if not o[2]]
        out, viol = [], []
        for key, where, ok, d, s in bad:
            k = self.known.get(key)
            if k is not None and re.search(k['match'], d if isinstance(d, str) else str(d)):
                out.append('KNOWN-FINDING: property=%s %s: %s' % (self.prop, key, k['what']))
            else:
                viol.append((key, where, d))
        ev = os.path.join(ROOT, 'evidence')
        os.makedirs(ev, exist_ok=True)
        if not self.obs:
            viol.append(('empty', 'check', 'nothing was analysed'))
        rep = os.path.join(ev, self.prop + '.violations.txt')
        if viol:
            with open(rep, 'w') as f:
                for key, where, d in viol:
                    f.write('%s\n  at %s\n  %s\n' % (key, where, d))
        elif os.path.exists(rep):
            os.remove(rep)
        data = {
            'property': self.prop, 'tier': self.asked, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
            'level': 'other',
            'coverage': {
                'explanation': rule,
                'obligations': len(self.obs), 'discharged': len(self.obs) - len(bad),
                'known_findings': len(bad) - len([v for v in viol if v[0] != 'empty']),
                'samples': [{'obligation': k, 'construct': w, 'result': 'holds' if ok else 'fails', 'detail': str(d)[:300], 'seconds': round(s, 3)} for k, w, ok, d, s in self.obs][:400],
                **self.cov},
            'assumptions': self.assumptions,
            'violations': [{'key': k, 'construct': w, 'detail': str(d)[:2000]} for k, w, d in viol],
            'wall_s': round(time.time() - self.t0, 2)}
        with open(os.path.join(ev, self.prop + '.json'), 'w') as f:
            json.dump(data, f, indent=1)
        for l in out:
            print(l)
        if viol:
            for key, where, d in viol[:20]:
                print('  %s: %s: %s' % (key, where, str(d)[:400]))
            print('VIOLATION property=%s replay=%s' % (self.prop, rep))
            return 1
        print('%s: %d obligations hold (%d known findings), %.1fs' % (self.prop, len(self.obs) - len(bad), len(bad), time.time() - self.t0))
        return 0

def load_known(prop):
    """known-findings.json: {"findings":[{property,key,match,what}], "fixed":[...]} (never written by a check)."""
    p = os.path.join(ROOT, 'known-findings.json')
    r = {}
    if os.path.exists(p):
        with open(p) as f:
            for k in json.load(f).get('findings', []):
                if k['property'] == prop:
                    r[k['key']] = k
    return r

SIZED = ('P05', 'P06', 'P07', 'P08', 'P09', 'P10', 'P11', 'P12', 'P13', 'P14', 'P15', 'P16', 'P26')

def main(prop, tier):
    import importlib
    # an analysis that outgrows its memory stops with MemoryError and leaves its obligation undischarged
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    c = Check(prop, tier)
    try:
        m = importlib.import_module(prop.lower())
        rule = m.run(c) or m.__doc__ or prop
    except Exception as e:
        rule = 'the analysis stopped: %s' % type(e).__name__
        import mir
        if isinstance(e, mir.BuildError):
            msg = 'the tree does not type-check:\n' + str(e)[-1500:]
        else:
            msg = 'analysis stopped: %s: %s' % (type(e).__name__, str(e)[:800])
            traceback.print_exc()
        c.fail('analysis', 'whole tree', msg)
    if prop in SIZED:
        import sizes
        sizes.gate(c)
    return c.finish(rule)
