"""C03: what Jsi_InterpAccess grants."""
from ir import *
import paths

def run(c):
    p = c.prog(2000, [])
    c.rule('on every path of the access decision that returns success: READ/WRITE only when the interpreter is not safe, or the resolved real path equals an entry of the list for that kind, or starts with the '
           'whole entry and either the entry ends in "/" or the next character is "/"; CREATE only when not (safe and Lockdown); NETWORK only when noNetwork is clear; MAININTERP only without a parent; '
           'an unlisted kind never')
    f = c.fn(p, 'Jsi_InterpAccess')
    ev = p.enumval
    K = {n: ev.get('JSI_INTACCESS_' + n) for n in ('READ', 'WRITE', 'CREATE', 'NETWORK', 'MAININTERP', 'SETSSL')}
    c.need(all(v is not None for v in K.values()), 'JSI_INTACCESS_* not found')
    lock = ev.get('jsi_safe_Lockdown'); c.need(lock is not None, 'jsi_safe_Lockdown')
    fi = f.argindex('aflag'); 
    # the kind is the only integer parameter
    ints = [i for i, a in enumerate(f.args) if a[1] == 'i32'] if isinstance(f.args[0], (list, tuple)) else []
    kind = ints[0] if len(ints) == 1 else fi
    c.need(kind is not None, 'kind parameter')
    ptrs = [i for i in range(f.nargs) if i != kind]
    res = ptrs[1]
    def isfld(e, n): return isinstance(e, tuple) and len(e) == 2 and e[0] == 'ld' and e[1][0] == 'fld' and e[1][2] == n
    # values
    def realp(v):
        v = strip(f, v); I = f.inst.get(v) if isinstance(v, int) else None
        return I is not None and I.op == 'call' and I.callee_name in ('Jsi_Realpath', 'Jsi_FileRealpath') and strip(f, I.ops[1]) == res
    track = set()
    def listof(v, rs):
        """field(s) the entry list comes from"""
        v = rs(strip(f, v))
        if isinstance(v, int): v = strip(f, v)
        I = f.inst.get(v) if isinstance(v, int) else None
        if I is None: return {'?'}
        if I.op in ('phi', 'select'):
            r = set()
            for o in (I.ops if I.op == 'phi' else I.ops[1:]): r |= listof(o, lambda x: x)
            return r
        e = expr(f, v)
        if isfld(e, 'Jsi_Interp.safeWriteDirs'): return {'W'}
        if isfld(e, 'Jsi_Interp.safeReadDirs'): return {'R'}
        return {'?'}
    def entry(v, rs):
        """string of a list entry: -> kinds of list, length slot"""
        v = strip(f, v); I = f.inst.get(v) if isinstance(v, int) else None
        if I is None or I.op != 'call' or I.callee_name not in ('Jsi_ValueString', 'Jsi_ValueToString', 'Jsi_ValueGetStringLen'): return None
        J = f.inst.get(strip(f, I.ops[1]))
        if J is None or J.op != 'call' or J.callee_name != 'Jsi_ValueArrayIndex': return None
        return listof(J.ops[1], rs), I
    for I in f.calls(('Jsi_ValueArrayIndex',)):
        v = strip(f, I.ops[1])
        if isinstance(v, int) and v in f.inst and f.inst[v].op in ('phi', 'select'): track.add(v)
    ex = None
    def lenof(v, ent):
        """v is the length of the entry string (out-parameter of its call, or a strlen of it)"""
        v = strip(f, v); I = f.inst.get(v) if isinstance(v, int) else None
        if I is None: return False
        if I.op == 'load': return I.ops[0] == ent.ops[2]
        return I.op == 'call' and I.callee_name in ('Jsi_Strlen', 'strlen') and strip(f, I.ops[0]) == ent.id
    def atoms(imp, cur, facts):
        out = []
        rs = lambda v: ex.resolve(v, facts)
        for pred, a, b in imp:
            cb = const_int(b)
            if strip(f, a) == kind and cb is not None:
                if pred == 'eq': out.append(('k', cb))
                elif pred == 'ne': out.append(('nk', cb))
                continue
            if not isinstance(a, int): continue
            r = strip(f, a); I = f.inst.get(r)
            if I is None: continue
            e = expr(f, r)
            if pred == 'eq' and cb == 0:
                for n, t in (('isSafe', 'notsafe'), ('noNetwork', 'net'), ('parent', 'noparent')):
                    if isfld(e, 'Jsi_Interp.' + n): out.append((t,))
            if isfld(e, 'Jsi_Interp.safeMode') and ((pred == 'ne' and cb == lock) or (pred == 'eq' and cb != lock)): out.append(('notlock',))
            if I.op == 'call' and I.callee_name == 'Jsi_InterpSafe' and pred == 'eq' and cb == 0: out.append(('notsafe',))
            if I.op == 'call' and pred == 'eq' and cb == 0 and I.callee_name in ('Jsi_Strcmp', 'strcmp', 'Jsi_Strncmp', 'strncmp', 'memcmp'):
                for x, y in ((0, 1), (1, 0)):
                    en = entry(I.ops[x], rs)
                    if en and realp(I.ops[y]):
                        whole = len(I.ops) == 2
                        if whole: out.append(('exact', I.ops[x], frozenset(en[0])))
                        elif lenof(I.ops[2], en[1]): out.append(('prefix', strip(f, I.ops[x]), frozenset(en[0])))
            if pred == 'eq' and cb == 47 and I.op == 'load':
                g = f.inst.get(I.ops[0]) if isinstance(I.ops[0], int) else None
                if g is not None and g.op == 'getelementptr' and len(g.ops) == 2:
                    for en_id in [x.id for x in f.calls(('Jsi_ValueString', 'Jsi_ValueToString', 'Jsi_ValueGetStringLen'))]:
                        ent = f.inst[en_id]
                        if realp(g.ops[0]) and lenof(g.ops[1], ent): out.append(('sep', en_id))
                        if strip(f, g.ops[0]) == en_id:
                            ix = f.inst.get(strip(f, g.ops[1]))
                            if ix is not None and ix.op in ('sub', 'add') and lenof(ix.ops[0], ent) and abs(const_int(ix.ops[1]) or 0) == 1: out.append(('sep', en_id))
        return out
    ex = paths.Explorer(f, edge_atoms=atoms, track=track)
    ex.run()
    c.count('success paths', 0)
    badk = set()
    for I, a, facts, st in ex.rets:
        v = ex.val(I.ops[0], facts)
        if v is not None and v != 'nz' and v != 0: continue
        if v == 'nz': continue
        c.count('success paths')
        ks = {x[1] for x in a if x[0] == 'k'}
        nk = {x[1] for x in a if x[0] == 'nk'}
        if not ks: ks = {v for v in list(K.values()) + [99] if v not in nk}
        for kk in ks:
            nm = [n for n, v in K.items() if v == kk]; nm = nm[0] if nm else 'OTHER'
            if nm in ('READ', 'WRITE'):
                good = ('notsafe',) in a or any(x[0] == 'exact' and x[2] == {nm[0]} for x in a) or \
                    any(x[0] == 'prefix' and x[2] == {nm[0]} and ('sep', x[1]) in a for x in a)
            elif nm == 'CREATE': good = ('notsafe',) in a or ('notlock',) in a
            elif nm == 'NETWORK': good = ('net',) in a
            elif nm == 'MAININTERP': good = ('noparent',) in a
            elif nm == 'SETSSL': good = True
            else: good = False
            c.ob(good, 'grant:%s' % nm, '%s in %s' % (I.where(), f.name), 'access kind %s may be granted without its condition' % nm, 'facts on the path: %s' % sorted(map(str, a)))
    c.floor('success paths', 5)
