"""C07: locks are balanced on every path; the queue between interpreters is used only under its lock."""
from ir import *
import paths
from guard import *

LOCK, UNLOCK = 'Jsi_MutexLock', 'Jsi_MutexUnlock'
CB = {'lockHashProc': 1, 'lockTreeProc': 1}
PRIM = ('Jsi_MutexLock', 'Jsi_MutexUnlock', 'MutexLock', 'MutexUnlock', 'KeyLocker', 'KeyLockerTree')
QFIELDS = ('Jsi_Interp.interpStrEvents', 'Jsi_Interp.interpEvalQ')

def cbfield(f, I):
    """field an indirect call goes through when that is one of the lock callbacks"""
    if not isinstance(I.callee, int): return None
    l = loadfield(f, I.callee)
    if l and l.split('.')[-1].split('+')[0] in CB: return l
    return None

def mutexof(f, I):
    """key of the mutex of a lock/unlock operation, None for other instructions"""
    if I.op != 'call': return None
    if I.callee_name in (LOCK, UNLOCK): return ('m',) + (expr(f, I.ops[1], 20),)
    l = cbfield(f, I)
    if l: return ('cb',) + (expr(f, I.ops[0], 20),)
    return None

def fname(e):
    while isinstance(e, tuple) and e and e[0] not in ('fld',): e = e[1] if len(e) > 1 else None
    return e[2] if e else '?'

def run(c):
    p = c.prog(400, PRIM)
    c.rule('in every function, on every path to every return, each mutex (and each lock callback of a shared table) has been locked as often as unlocked, never unlocked more often than locked except to release and re-take; '
           'only a failed lock may leave it short, and only when the function then returns')
    c.rule('the request queue of an interpreter is read or changed only while its queue mutex is held, a request is unlinked before script code runs on its behalf, and no script code runs while a queue mutex is held')
    c.rule('the deadline of a timed lock is computed from the current time')
    balance(c, p); queue(c, p); deadline(c, p)

def evalreach(p):
    """functions that may run script code"""
    base = {'jsiEvalCodeSub', 'jsi_evalcode', 'Jsi_EvalString', 'Jsi_FunctionInvoke'}
    cal = p.callers()
    work = list(base); seen = set(base)
    while work:
        n = work.pop()
        for I in cal.get(n, ()):
            if I.fn.name not in seen: seen.add(I.fn.name); work.append(I.fn.name)
    return seen

def balance(c, p):
    for f in sorted(p.funcs.values(), key=lambda f: f.name):
        if f.decl or f.name in PRIM: continue
        ops = [(I, mutexof(f, I)) for I in f.insts() if I.op == 'call']
        ops = {I.id: (I, m) for I, m in ops if m}
        if not ops: continue
        c.count('functions that lock or unlock')
        c.count('lock operations', len(ops))
        name = {}
        for I, m in ops.values(): name.setdefault(m, 'm%d' % len(name))
        bad = {}
        checked = {}   # lock calls whose result is tested
        for iid, (I, m) in ops.items():
            checked[iid] = bool(f.users.get(iid))
        def mode(I, facts):
            if I.callee_name == LOCK: return 1
            if I.callee_name == UNLOCK: return -1
            v = ex.val(I.ops[1], facts)
            if v in (0, 1): return 1 if v else -1
            return None
        def get(a, m):
            for x in a:
                if x[0] == 'n' and x[1] == '!' and x[2] == m: return x[3]
            return 0
        def put(a, m, n):
            a = {x for x in a if not (x[0] == 'n' and x[2] == m)}
            if n: a.add(('n', '!', m, n))
            return frozenset(a)
        def hook(I, a, facts, st):
            if I.id in ops:
                m = name[ops[I.id][1]]
                d = mode(I, facts)
                if d is None:
                    bad.setdefault('mode', (I, st)); return None
                n = get(a, m)
                if abs(n + d) > 3: bad.setdefault('loop', (I, st)); return None
                if d == 1 and checked[I.id]: return frozenset(put(a, m, n + 1) | {('try', '!', m, I.id)})
                return put(a, m, n + d)
            return None
        def atoms(imp, cur, facts):
            out = []
            for pred, x, b in imp:
                r = strip(f, x)
                if r in ops and const_int(b) == 0 and ('try', '!', name[ops[r][1]], r) in cur:
                    m = name[ops[r][1]]
                    if pred == 'eq': out.append(('-', ('try', '!', m, r)))
                    elif pred == 'ne':
                        out.append(('-', ('try', '!', m, r)))
                        n = get(cur, m)
                        if n: out.append(('-', ('n', '!', m, n)))
                        if n - 1: out.append(('n', '!', m, n - 1))
                        out.append(('failed', '!', m))
            return out
        ex = paths.Explorer(f, edge_atoms=atoms, inst=hook); ex.run()
        for I, a, facts, st in ex.rets:
            for m, nm in name.items():
                n = get(a, nm)
                if n > 0: bad.setdefault(('held', fname(m[1])), (I, st))
                elif n < 0 and ('failed', '!', nm) not in a: bad.setdefault(('released', fname(m[1])), (I, st))
        if not bad: c.ob(True, 'balance:%s' % f.name, f.name, '')
        for k, (I, st) in sorted(bad.items(), key=lambda x: str(x[0])):
            t = {'held': 'a path returns with %s still locked', 'released': 'a path unlocks %s without having locked it'}
            msg = t[k[0]] % k[1] if isinstance(k, tuple) else ('a lock is taken or released repeatedly in a loop' if k == 'loop' else 'a lock callback is called without a fixed mode')
            c.ob(False, 'balance:%s' % f.name, '%s in %s' % (I.where(), f.name), msg, 'lines %s' % ex.trace(st)[-14:])
    c.floor('functions that lock or unlock', 14); c.floor('lock operations', 50)

def qaccess(f, I):
    """(base expr, field) when the instruction touches a queue field"""
    for o in I.ops:
        if not isinstance(o, int) or o not in f.inst: continue
        e = expr(f, o, 20)
        while isinstance(e, tuple) and e and e[0] == 'fld' and e[2].split('+')[0] not in QFIELDS: e = e[1]
        if isinstance(e, tuple) and e and e[0] == 'fld' and e[2].split('+')[0] in QFIELDS: return e[1], e[2]
    return None

EXEMPT = {'jsi_InterpNew', 'Jsi_Main', 'jsi_DoMain', 'jsiInterpDelete', 'jsi_InitAll'}

def queue(c, p):
    ev = evalreach(p)
    cons = 0
    for f in sorted(p.funcs.values(), key=lambda f: f.name):
        if f.decl: continue
        acc = {}
        for I in f.insts():
            if I.op in ('load', 'store', 'call'):
                q = qaccess(f, I)
                if q: acc[I.id] = q
        locks = [I for I in f.calls((LOCK, UNLOCK)) if fname(expr(f, I.ops[1], 20)) == 'Jsi_Interp.QMutex']
        if not acc and not locks: continue
        c.count('functions using the queue')
        # construction and destruction happen before/after any other thread can see the interpreter
        exempt = creates(f) or f.name in EXEMPT
        peek = not locks and all(f.inst[i].op == 'load' and onlytested(f, f.inst[i]) or f.inst[i].callee_name == 'Jsi_DSLength' for i in acc)
        heads = {i for i in acc if f.inst[i].op == 'load' and 'interpStrEvents' in acc[i][1]}
        unl = {i for i in acc if f.inst[i].op == 'store' and 'interpStrEvents' in acc[i][1]}
        lk = {I.id: I for I in locks}
        bad = {}
        mine = slice_(f, heads)
        def hook(I, a, facts, st):
            if I.id in lk:
                b = expr(f, I.ops[1], 20)[1][1]
                if I.callee_name == LOCK: return frozenset(a | {('held', '!', b)})
                return frozenset(x for x in a if not (x[0] == 'held' and x[2] == b))
            if I.id in acc and not exempt and not peek:
                if ('held', '!', acc[I.id][0]) not in a: bad.setdefault('unlocked', (I, st))
            if I.id in heads and any(x[0] == 'held' for x in a): return frozenset(a | {('got', '!')})
            if I.id in unl: return frozenset(a - {('got', '!')})
            if I.op == 'call' and (I.callee_name in ev):
                if any(x[0] == 'held' for x in a) : bad.setdefault('eval', (I, st))
                if ('got', '!') in a and any(o in mine for o in I.ops): bad.setdefault('unlink', (I, st))
            return None
        def atoms(imp, cur, facts):
            out = []
            for pred, x, b in imp:
                r = strip(f, x)
                if pred == 'ne' and const_int(b) == 0 and r in lk and lk[r].callee_name == LOCK:
                    out.append(('-', ('held', '!', expr(f, lk[r].ops[1], 20)[1][1])))
                # the queue was empty
                if pred == 'eq' and const_int(b) == 0 and ex.resolve(r, facts) in heads: out.append(('-', ('got', '!')))
            return out
        ex = paths.Explorer(f, edge_atoms=atoms, inst=hook); ex.run()
        if heads and any(J.callee_name in ev for J in f.calls()): cons += 1
        msg = {'unlocked': 'the request queue of an interpreter is used without holding its queue mutex', 'eval': 'script code may run while a queue mutex is held', 'unlink': 'script code may run on behalf of a queued request that is still in the queue'}
        for k in msg:
            if k in bad:
                I, st = bad[k]
                c.ob(False, '%s:%s' % (k, f.name), '%s in %s' % (I.where(), f.name), msg[k], 'lines %s' % ex.trace(st)[-14:])
            else: c.ob(True, '%s:%s' % (k, f.name), f.name, '')
    c.need(cons >= 1, 'consumer of the request queue')
    c.floor('functions using the queue', 6)

def slice_(f, roots):
    """values computed from the roots"""
    seen = set(roots); w = list(roots)
    while w:
        for J in f.users.get(w.pop(), ()):
            if J.id not in seen and J.op not in ('store', 'br', 'icmp'): seen.add(J.id); w.append(J.id)
    return seen

def creates(f):
    return any(I.callee_name == 'Jsi_MutexNew' for I in f.calls()) or any(I.callee_name == 'Jsi_MutexDelete' for I in f.calls())

def onlytested(f, I):
    return all(J.op == 'icmp' for J in f.users.get(I.id, ()))

def deadline(c, p):
    n = 0
    for f in p.funcs.values():
        if f.decl: continue
        for I in f.calls(('pthread_mutex_timedlock', 'sem_timedwait', 'pthread_cond_timedwait')):
            n += 1
            ts = strip(f, I.ops[-1])
            ok = any(J.callee_name in ('clock_gettime', 'timespec_get') and strip(f, J.ops[-1] if J.callee_name == 'clock_gettime' else J.ops[0]) == ts and f.dominates(J, I)
                     and (J.callee_name != 'clock_gettime' or const_int(J.ops[0]) == 0) for J in f.calls())
            if not ok:
                # computed from gettimeofday/time through stores
                ok = any(J.callee_name in ('gettimeofday', 'time') and f.dominates(J, I) for J in f.calls())
            c.ob(ok, 'deadline:%s' % f.name, '%s in %s' % (I.where(), f.name), 'the deadline of a timed lock is not derived from the current (real) time')
    c.need(n > 0, 'timed lock')
