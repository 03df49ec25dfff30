"""Common driver: loads the program, counts obligations, reports, writes evidence."""
import json, os, re, sys, time, traceback
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'sa'))
sys.setrecursionlimit(20000)
import build, ir

class Broken(Exception):
    """the analysis lost its footing (anchor vanished, zero instances): an error exit, never a verdict"""

class Ctx:
    def __init__(s, pid, tier):
        s.pid, s.tier = pid, tier
        s.t0 = time.time()
        s.obl = 0; s.ok = 0; s.viol = []; s.counts = {}; s.samples = []; s.notes = []
        s.rules = []
        s._prog = {}
        s._stage = None
    def prog(s, inline=0, keep=()):
        kx = (inline, tuple(sorted(keep)))
        if kx not in s._prog:
            s._prog[kx] = ir.Prog(build.export(inline, keep))
        return s._prog[kx]
    def rule(s, text):
        s.rules.append(text)
    def count(s, name, n=1):
        s.counts[name] = s.counts.get(name, 0) + n
    def ob(s, ok, key, where, msg, detail=''):
        """one obligation: decided true or reported"""
        s.obl += 1
        if ok:
            s.ok += 1
            if len(s.samples) < 12: s.samples.append('%s: %s' % (where, key))
        else:
            s.fail(key, where, msg, detail)
        return ok
    def fail(s, key, where, msg, detail=''):
        for v in s.viol:
            if v['key'] == key: return
        s.viol.append({'key': key, 'where': where, 'msg': msg, 'detail': detail})
    def need(s, cond, what):
        if not cond: raise Broken(what)
    def floor(s, name, n):
        """fail as broken when fewer instances than confirmed by hand were seen"""
        if s.counts.get(name, 0) < n:
            raise Broken('%s: only %d instances (expected at least %d)' % (name, s.counts.get(name, 0), n))
    def fn(s, p, name):
        f = p.funcs.get(name)
        if f is None or f.decl: raise Broken('function %s not found in the program' % name)
        return f

def known():
    """key -> text of the known findings of each property"""
    res = {}
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l.strip())
            if m: res.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return res

def main(pid, runner, tier):
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    c = Ctx(pid, tier)
    try:
        runner(c)
        if c.obl == 0: raise Broken('no obligations were generated')
    except Exception as e:
        print('ANALYSIS-BROKEN property=%s %s: %s' % (pid, type(e).__name__, e))
        if not isinstance(e, Broken): traceback.print_exc()
        return 2
    kn = known().get(pid, {})
    new = [v for v in c.viol if v['key'] not in kn]
    old = [v for v in c.viol if v['key'] in kn]
    for r in c.rules: print('rule:', r)
    for k in sorted(c.counts): print('analysed: %s = %d' % (k, c.counts[k]))
    print('obligations: %d, discharged: %d, known findings: %d, violations: %d' % (c.obl, c.ok, len(old), len(new)))
    for n in c.notes: print('note:', n)
    for v in old:
        print('KNOWN-FINDING: property=%s %s [%s] %s' % (pid, kn[v['key']], v['key'], v['where']))
    rep = os.path.join(ev, pid + '.violations.txt')
    if os.path.exists(rep): os.unlink(rep)
    out = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'other',
        'coverage': {
            'explanation': 'Static analysis of the IR of the sources in %s as the Makefile builds them. Rules: %s' % (build.REPO, ' | '.join(c.rules)),
            'obligations': c.obl, 'discharged': c.ok, 'counts': c.counts, 'samples': c.samples,
            'known_findings': [v['key'] for v in old], 'exhaustive': True,
        },
        'assumptions': c.notes,
        'wall_s': round(time.time() - c.t0, 2), 'violations': len(new),
    }
    json.dump(out, open(os.path.join(ev, pid + '.json'), 'w'), indent=1)
    if new:
        with open(rep, 'w') as f:
            for v in new:
                f.write('%s\n  at %s\n  %s\n  %s\n\n' % (v['key'], v['where'], v['msg'], v['detail']))
        for v in new:
            print('  %s: %s  [%s]' % (v['where'], v['msg'], v['key']))
            if v['detail']: print('      ' + v['detail'])
        print('VIOLATION property=%s replay=%s' % (pid, rep))
        return 1
    return 0
