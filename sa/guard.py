"""Guarded operations: every listed operation must be reached only with its condition established,
locally, in all callers, or where the command that leads to it is registered."""
from ir import *
import paths

def isfld(e, n):
    return isinstance(e, tuple) and len(e) == 2 and e[0] == 'ld' and isinstance(e[1], tuple) and e[1][0] == 'fld' and e[1][2] == n

def loadfield(f, v):
    """'Struct.field' a value is loaded from"""
    r = strip(f, v)
    if not isinstance(r, int): return None
    e = expr(f, r)
    if isinstance(e, tuple) and len(e) == 2 and e[0] == 'ld' and isinstance(e[1], tuple) and e[1][0] == 'fld': return e[1][2]
    return None

def store_field(f, I):
    """('Struct.field', value) written by a store, bitfields included"""
    if I.op != 'store': return None
    bs = bitfield_store(f, I)
    if bs: return bs[1], bs[2]
    e = expr(f, I.ops[1], 4)
    if e[0] == 'fld': return e[2], I.ops[0]
    return None

class Guard:
    def __init__(s, c, p, atoms, sat, kills=None, track=None, tables=True, stop=(), opts=None):
        """atoms(f, ex, pred, a, b, facts) -> iterable of atoms; sat(kind, atoms, I, ex, facts) -> bool
        kills(f, I, atoms) -> atoms at an instruction"""
        s.c, s.p, s.atoms, s.sat, s.kills, s.track = c, p, atoms, sat, kills, track
        s.stop = stop; s.opts = opts
        s.uses = {}
        for f in p.funcs.values():
            if f.decl: continue
            for I in f.insts():
                if I.op != 'call': continue
                for o in I.ops:
                    if isinstance(o, tuple) and len(o) == 3 and o[0] == 'g': s.uses.setdefault(o[1], []).append(I)
        s.tabs = {}
        for gn, g in p.globals.items():
            if 'Jsi_CmdSpec' in g.get('dt', ''):
                for r in p.structarray(gn):
                    if r.get('proc', ('n',))[0] == 'f': s.tabs.setdefault(r['proc'][1], set()).add(gn)
    def bad_sites(s, f, sites):
        """sites [(I, kind)] not guarded inside f"""
        ids = {}
        for I, k in sites: ids.setdefault(I.id, []).append((I, k))
        bad = set(); hold = {}
        def edge(imp, cur, facts):
            out = []
            for pred, a, b in imp:
                out += s.atoms(f, ex, pred, a, b, facts) or ()
            return out
        def hook(I, a, facts, st):
            for J, k in ids.get(I.id, ()):
                if not s.sat(k, a, I, ex, facts): bad.add((I.id, k)); hold.setdefault((I.id, k), (a, st))
            if s.kills:
                n = s.kills(f, I, a)
                if n is not a: return n
            return None
        ex = paths.Explorer(f, edge_atoms=edge, inst=hook, track=s.track(f) if s.track else (), **(s.opts(f) if s.opts else {}))
        ex.run()
        s.hold = {k: (a, ex.trace(st)) for k, (a, st) in hold.items()}
        return bad
    def decide(s, sites):
        """sites: [(I, kind, label)].  Reports one obligation per site."""
        cache = {}
        def check(f, I, k):
            kx = (f.name, I.id, k)
            if kx not in cache:
                b = s.bad_sites(f, [(I, k)])
                cache[kx] = None if not b else s.hold[(I.id, k)]
            return cache[kx]
        def guarded(f, I, k, seen):
            """None when guarded, else a chain of text"""
            r = check(f, I, k)
            if r is None: return None
            here = '%s in %s' % (I.where(), f.name)
            if f.name in seen or f.name in s.stop: return [here]
            seen = seen | {f.name}
            ups = [J for J in s.p.callers().get(f.name, [])]
            tabs = s.tabs.get(f.name, ())
            for gn in tabs: ups += s.uses.get(gn, [])
            other = [x for x in s.p.addr_taken().get(f.name, []) if not (x[0] == 'g' and x[1] in tabs)]
            if not ups or other: return [here + (' (address taken: %s)' % other[:2] if other else '')]
            for J in ups:
                w = guarded(J.fn, J, k, seen)
                if w: return [here] + w
            return None
        for I, k, label in sites:
            w = guarded(I.fn, I, k, frozenset())
            s.c.ob(w is None, '%s:%s' % (k, label), '%s in %s' % (I.where(), I.fn.name), 'reached without its guard: %s' % s.describe(k), 'unguarded chain: %s' % ' <- '.join(w or []))
    def describe(s, k): return k
