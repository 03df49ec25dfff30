"""C01: safe-mode mediation of native paths."""
from ir import *
import fsmodel
from fsmodel import *

KINDS = ('R', 'W', 'A', 'O', 'S', 'SW')

def run(c, kinds=KINDS, lockdown=False, floor=40):
    p = c.prog(2000, KEEP)
    m = Model(c, p, lockdown)
    if lockdown:
        c.rule('in code reachable from a script command, every operation that creates, removes, renames, links, truncates or changes the mode of a native file, and every open for writing of a file '
               'not known to exist, is reached only on paths where the interpreter is not safe, its safe mode is not Lockdown, or the CREATE access (denied under Lockdown) was granted')
    else:
        c.rule('every operation on a native path (remove, rename, chmod, link, mkdir, mknod, mkstemp, readlink, opendir/scandir, stat in File commands, fopen, database open) in code reachable from a '
               'script command is preceded, on every path with isSafe set, by a granted Jsi_InterpAccess on that same path value with the matching READ/WRITE kind; paths that come from a caller are '
               'decided at the callers')
    hs = handlers(p)
    c.need(len(hs) > 200, 'command handlers not found')
    reach = reachable(p, list(hs))
    req = {}
    changed = True; rounds = 0
    results = {}
    while changed and rounds < 6:
        changed = False; rounds += 1
        results = {}
        for n in sorted(reach):
            f = p.funcs[n]
            if n in m.drv or n in EXEMPT or f.file.startswith('miniz/'): continue
            ss = [x for x in m.sites(f, req) if x[2] in kinds]
            if not ss: continue
            ex = m.explore(f, ss, {x[2] for x in ss})
            for I, ai, kx, what in ss:
                org = origin(f, I.ops[ai])
                bad = [a for a, o in ex.rec[(I.id, ai, kx)] if not m.satisfied(a, o, kx)]
                params = sorted(o[1] for o in org if o[0] == 'arg' and len(o) == 2)
                key = '%s:%s:%d:%s' % (n, what, ai, kx)
                results.setdefault(key, []).append((f, I, bad, params, org, ex, kx, what))
                if bad and n not in hs and params and len(org) == 1:
                    r = req.setdefault(n, set())
                    if (params[0], kx) not in r: r.add((params[0], kx)); changed = True
    for key, lst in sorted(results.items()):
        for f, I, bad, params, org, ex, kx, what in lst:
            c.count('path operations')
            if bad and f.name in req and len(params) == 1 and (params[0], kx) in req[f.name] and f.name not in hs:
                cl = [x for x in p.callers().get(f.name, []) if x.fn.name in reach]
                if cl:
                    c.count('delegated to callers'); continue
            c.ob(not bad, key, '%s in %s' % (I.where(), f.name),
                 '%s on a script-supplied path without a granted %s access check for it' % (what, {'R': 'read', 'W': 'write', 'A': 'read/write', 'O': 'open-mode', 'S': 'database', 'SW': 'write', 'C': 'create', 'SC': 'create', 'L': 'lockdown (create)', 'OC': 'lockdown (create)'}[kx]),
                 'path comes from %s; states without the grant: %d' % (sorted(map(str, org)), len(bad)))
    # raw primitives: who may call
    allowed = set(m.drv) | set(EXEMPT)
    for n in sorted(reach):
        f = p.funcs[n]
        for I in f.calls():
            if I.callee_name in RAW and p.funcs[I.callee_name].decl:
                c.count('raw primitive call sites')
    c.floor('path operations', floor)
    if not lockdown: authorizer(c, p)

KEEP = ['RmdirAll', 'GetStringVal', 'mkdir_all'] + sorted(EXEMPT)

SQLITE_ATTACH = 24
def authorizer(c, p):
    """ATTACH in a safe interpreter is refused unless the file is granted"""
    m = Model(c, p)
    dec = set()
    for n in p.funcs:
        if any(True for _ in p.funcs[n].calls(('Jsi_InterpAccess',))) if not p.funcs[n].decl else False: dec.add(n)
    cbs = set()
    def mk(f, exref):
        def atoms(imp, cur, facts):
            out = []
            for pred, a, b in imp:
                if not isinstance(a, int): continue
                cb = const_int(b); r = strip(f, a); I = f.inst.get(r)
                if I is None:
                    if cb is not None and ((pred == 'ne' and cb == SQLITE_ATTACH) or (pred == 'eq' and cb != SQLITE_ATTACH)): out.append(('notattach',))
                    continue
                if I.op == 'call' and I.callee_name == 'Jsi_InterpSafe' and pred == 'eq' and cb == 0: out.append(('notsafe',))
                if I.op == 'call' and I.callee_name == 'Jsi_InterpAccess' and pred == 'eq' and cb == 0: out.append(('granted',))
                if I.op == 'call' and I.callee_name in dec and I.callee_name != 'Jsi_InterpAccess' and pred == 'ne' and cb == 0: out.append(('granted',))
                if I.op == 'load':
                    e = expr(f, r)
                    if m.isfld(e, 'Jsi_Interp.isSafe') and pred == 'eq' and cb == 0: out.append(('notsafe',))
                    if e[0] == 'ld' and e[1] == ('arg', 2) and cb == 0 and pred == 'eq': out.append(('empty',))
                if I.op == 'call' and I.callee_name in ('Jsi_Strcmp', 'strcmp') and pred == 'eq' and cb == 0 and ':memory:' in (p.cstr(I.ops[0]), p.cstr(I.ops[1])): out.append(('empty',))
            return out
        return atoms
    n = 0
    for f in p.funcs.values():
        if f.decl: continue
        ss = list(f.calls(('sqlite3_set_authorizer',)))
        if not ss: continue
        ex = paths.Explorer(f, edge_atoms=mk(f, None)); ex.run(watch=[I.id for I in ss])
        for I in ss:
            n += 1
            cb = I.ops[1]
            if isinstance(cb, tuple) and cb[0] == 'f':
                cbs.add(cb[1])
                c.ob(True, 'authorizer:%s' % f.name, I.where(), '')
            else:
                c.ob(all(('notsafe',) in a for a in ex.at[I.id]), 'authorizer-removed:%s' % f.name, '%s in %s' % (I.where(), f.name),
                     'the SQL authorizer that confines ATTACH is removed although the interpreter may be safe')
    for g in cbs:
        f = p.funcs[g]
        ex = paths.Explorer(f, edge_atoms=mk(f, None)); ex.run()
        bad = [1 for I, a, fc, st in ex.rets if not ({('notattach',), ('granted',), ('notsafe',), ('empty',)} & a) and ex.val(I.ops[0], fc) in (0, None)]
        c.ob(not bad, 'authorizer-callback:%s' % g, '%s:%d' % (f.file, f.line), 'the authorizer may allow ATTACH in a safe interpreter without a granted access check')
    opens = [I for f in p.funcs.values() if not f.decl for I in f.calls(('sqlite3_open_v2',))]
    c.count('SQL authorizer installations', n)
    c.need(n >= 1 or not opens, 'databases are opened but no SQL authorizer is installed')
    if opens: c.ob(bool(cbs), 'authorizer-missing', opens[0].where(), 'databases are opened but ATTACH is not confined by an authorizer')
