"""C08: nesting counters and scoped state are what they were before, on every way out of a call."""
from ir import *
import paths
from guard import *

# nesting counters: each function that counts one up counts it down again on every path (push/pop primitives apart)
COUNTERS = {
    'Jsi_Interp.callDepth', 'Jsi_Interp.includeDepth', 'Jsi_Interp.level', 'Jsi_Interp.logMsgDepth', 'Jsi_Interp.pkgReqDepth',
    'Jsi_Interp.refCount', 'AliasCmd.refCount', 'Jsi_Db.disableAuth', 'objwalker.depth', 'Jsi_JsonParser.depth', 'jsi_Frame.tryDepth',
}
# state that a call changes for its own duration only
SCOPED = {
    'Jsi_Interp.activeFunc', 'Jsi_Interp.prevActiveFunc', 'Jsi_Interp.callee', 'Jsi_Interp.curDir', 'Jsi_Interp.curFunction', 'Jsi_Interp.dumpedStack',
    'Jsi_Interp.evalFlags', 'Jsi_Interp.framePtr', 'Jsi_Interp.isMain', 'Jsi_Interp.lastParseOpt', 'Jsi_Interp.parseMsgSpec', 'Jsi_Interp.parsePs',
    'Jsi_Interp.ps', 'jsi_Pstate.eval_flag', 'jsi_SubOptions.noproto', 'jsi_Frame.arguments', 'jsi_Frame.funcName', 'Jsi_Interp.noCheck', 'Jsi_Db.optPtr',
    'Jsi_Interp.curIp', 'Jsi_Interp.callerErr',
}
# the evaluator loop owns these while it runs (its caller restores them), constructors create them
OWNER = {'Jsi_Interp.curIp': {'jsiEvalCodeSub'}, 'jsi_Frame.tryDepth': {'jsiEvalCodeSub', 'jsiPushTry', 'jsiPopTry'}, 'jsi_Frame.arguments': {'jsiEvalCodeSub'},
         # marks that the stack was printed; cleared by the evaluator
         'Jsi_Interp.dumpedStack': {'jsi_DumpStackTrace'},
         # the first file another interpreter sources becomes its main script for good
         'Jsi_Interp.isMain': {'InterpEvalCmd_'}}
CREATE = {'Jsi_Interp': ('jsi_InterpNew',), 'Jsi_Db': ('SqliteConstructor', 'Jsi_DbNew'), 'jsi_SubOptions': ('jsi_InterpNew',), 'jsi_Pstate': ('jsiPstateNew',)}

def run(c):
    p = c.prog(400, ())
    c.rule('a function that counts up a nesting counter (call, include, evaluation, try, log, package depth, reference held for the duration of a call) has counted it down again at every return, and never below where it was')
    c.rule('a function that changes state meant for the duration of a call (current frame, function, instruction, file directory, parser, evaluation flags, main-script flag, suppressed checks) has stored back the value it found at every return')
    c.rule('taking an entry off the list of entered try and with blocks counts down the depth of with blocks exactly when the entry is a with block')
    counters(c, p); scoped(c, p); withdepth(c)

BIG = ('jsiEvalCodeSub',)

def functions(c, p):
    """each function with its static helpers inlined; what was inlined into the evaluator loop without"""
    q = c.prog(0, ())
    out = {f.name: f for f in p.funcs.values() if not f.decl and f.name not in BIG}
    inbig = {I.callee_name for n in BIG if n in q.funcs for I in q.funcs[n].insts() if I.op == 'call'}
    for f in q.funcs.values():
        if not f.decl and f.name not in out and f.name in inbig: out[f.name] = f
    return [out[n] for n in sorted(out)]

def base(f, ptr):
    e = expr(f, ptr, 20)
    return e

def counters(c, p):
    for f in functions(c, p):
        ops = {}
        for I in f.insts():
            if I.op != 'store': continue
            sf = store_field(f, I)
            if not sf or sf[0] not in COUNTERS or f.name in OWNER.get(sf[0], ()): continue
            v = sf[1]
            J = f.inst.get(strip(f, v)) if isinstance(v, int) else None
            d = None
            if J is not None and J.op in ('add', 'sub') and const_int(J.ops[1]) is not None and loadfield(f, J.ops[0]) == sf[0]:
                d = const_int(J.ops[1]) * (1 if J.op == 'add' else -1)
            if d is None: continue
            ops[I.id] = (I, (sf[0], base(f, I.ops[1])), d)
        if not ops: continue
        keys = {k for _, k, _ in ops.values()}
        name = {k: 'k%d' % i for i, k in enumerate(sorted(keys, key=repr))}
        bad = {}
        def get(a, m):
            for x in a:
                if x[0] == 'n' and x[2] == m: return x[3]
            return 0
        def hook(I, a, facts, st):
            if I.id in ops:
                _, k, d = ops[I.id]; m = name[k]; n = get(a, m) + d
                if abs(n) > 3: bad.setdefault((k[0], 'drifts'), (I, st)); return None
                a = {x for x in a if not (x[0] == 'n' and x[2] == m)}
                if n: a.add(('n', '!', m, n))
                return frozenset(a)
            return None
        ex = paths.Explorer(f, inst=hook)
        # a nesting counter that was tested before is not zero either once it is counted up for a while
        for i in ops: ex.storekills.pop(i, None)
        ex.run()
        for I, a, facts, st in ex.rets:
            for k, m in name.items():
                n = get(a, m)
                if n: bad.setdefault((k[0], 'is %d too %s' % (abs(n), 'high' if n > 0 else 'low')), (I, st))
        for fl in sorted({k[0] for k in keys}):
            c.count('counting functions')
            b = [(x, y) for x, y in bad.items() if x[0] == fl]
            if not b: c.ob(True, 'count:%s:%s' % (fl, f.name), f.name, '')
            for (x, t), (I, st) in b[:1]:
                c.ob(False, 'count:%s:%s' % (fl, f.name), '%s in %s' % (I.where(), f.name), '%s %s when the function returns' % (fl, t), 'lines %s' % ex.trace(st)[-14:])
    c.floor('counting functions', 10)

def withdepth(c):
    q = c.prog(0, ())
    DEP, LST = 'jsi_Frame.tryDepth', 'Jsi_Interp.tryList'
    prim = []
    for f in q.funcs.values():
        if f.decl: continue
        sf = {s[0] for s in (store_field(f, I) for I in f.insts() if I.op == 'store') if s}
        if DEP in sf and LST in sf: prim.append(f.name)
    c.need(prim, 'no function takes entries off the list of try blocks')
    p = c.prog(400, tuple(sorted(prim)))
    W = q.enumval.get('jsi_TL_WITH')
    c.need(W is not None, 'jsi_TL_WITH is gone')
    n = 0
    for f in p.funcs.values():
        if f.decl or f.name in prim: continue
        for I in f.insts():
            sf = store_field(f, I) if I.op == 'store' else None
            if not sf or sf[0] != 'jsi_Frame.withDepth': continue
            J = f.inst.get(strip(f, sf[1])) if isinstance(sf[1], int) else None
            if J is not None and J.op in ('add', 'sub') and (const_int(J.ops[1]) or 0) * (1 if J.op == 'add' else -1) < 0:
                c.ob(False, 'withdec:%s' % f.name, '%s in %s' % (I.where(), f.name), 'the depth of with blocks is counted down apart from taking an entry off the list')
    for nm in sorted(prim):
        f = p.funcs[nm]
        ops = {}
        for I in f.insts():
            if I.op != 'store': continue
            sf = store_field(f, I)
            if not sf or sf[0] not in (DEP, 'jsi_Frame.withDepth'): continue
            J = f.inst.get(strip(f, sf[1])) if isinstance(sf[1], int) else None
            if J is not None and J.op in ('add', 'sub') and const_int(J.ops[1]) is not None:
                ops[I.id] = ('t' if sf[0] == DEP else 'w', const_int(J.ops[1]) * (1 if J.op == 'add' else -1))
        def hook(I, a, facts, st):
            if I.id in ops:
                k, d = ops[I.id]
                o = [x for x in a if x[0] == k]
                v = (o[0][2] if o else 0) + d
                if abs(v) > 2: v = 2 if v > 0 else -2
                return frozenset((a - set(o)) | ({(k, '!', v)} if v else set()))
        def atoms(imp, cur, facts):
            out = []
            for pred, x, b in imp:
                for u, w in ((x, b), (b, x)):
                    if loadfield(f, u) == 'jsi_TryList.type' and const_int(w) is not None:
                        is_w = const_int(w) == W
                        if pred == 'eq': out.append(('type', '!', is_w))
                        elif pred == 'ne' and is_w: out.append(('type', '!', False))
                        elif pred == 'ne' and const_int(w) == q.enumval.get('jsi_TL_TRY'): out.append(('type', '!', True))
            return out
        bad = None; pops = 0
        ex = paths.Explorer(f, edge_atoms=atoms, inst=hook); ex.run()
        for I, a, facts, st in ex.rets:
            d = {x[0]: x[2] for x in a}
            if d.get('t', 0) >= 0: continue
            pops += 1
            if d.get('t') != -1 or d.get('type') is None or d.get('w', 0) != (-1 if d['type'] else 0): bad = bad or (I, st)
        if not pops: continue
        n += 1
        c.ob(bad is None, 'with:%s' % nm, '%s in %s' % (bad[0].where(), nm) if bad else nm, 'an entry is taken off the list of try and with blocks and the count of with blocks does not follow its type', 'lines %s' % ex.trace(bad[1])[-10:] if bad else '')
    c.need(n, 'no function takes entries off the list of try blocks')

def scoped(c, p):
    for f in functions(c, p):
        st_, ld = {}, {}
        for I in f.insts():
            if I.op == 'store':
                sf = store_field(f, I)
                if not sf or sf[0] not in SCOPED or f.name in OWNER.get(sf[0], ()) or f.name in CREATE.get(sf[0].split('.')[0], ()): continue
                b = base(f, I.ops[1])
                if isinstance(b, tuple) and local(f, I.ops[1]): continue
                st_[I.id] = (I, (sf[0], b), sf[1])
        if not st_: continue
        keys = {k for _, k, _ in st_.values()}
        for I in f.insts():
            if I.op == 'load':
                e = expr(f, I.ops[0], 20)
                for k in keys:
                    if e == k[1]: ld[I.id] = k
        name = {k: 'k%d' % i for i, k in enumerate(sorted(keys, key=repr))}
        # copies kept in local records
        slot = {}
        for I in f.insts():
            if I.op in ('store', 'load'):
                q = I.ops[1] if I.op == 'store' else I.ops[0]
                if I.id not in st_ and local(f, q): slot[I.id] = expr(f, q, 20)
        params = {i for i, a in enumerate(f.args)}
        bad = {}
        def origin(v, facts):
            for _ in range(20):
                v = strip(f, ex.resolve(v, facts)) if isinstance(v, int) else v
                if isinstance(v, int):
                    b = bitfield(f, v)
                    I = f.inst.get(v)
                    if b and I is not None and I.op != 'load':
                        # the load inside the extraction
                        w = v
                        while f.inst[w].op != 'load': w = f.inst[w].ops[0]
                        return w
                    if I is not None and I.op == 'icmp' and I.x == 'ne' and const_int(I.ops[1]) == 0: v = I.ops[0]; continue
                    if I is not None and I.op == 'phi':
                        # a value that is a saved one on every way
                        return v
                break
            return v
        def hook(I, a, facts, st):
            if I.id in ld:
                k = name[ld[I.id]]
                if ('mod', '!', k) not in a: return frozenset(a | {('saved', '!', k, I.id)})
                return frozenset(a - {('saved', '!', k, I.id)})
            if I.id in slot:
                if I.op == 'store':
                    b = frozenset(x for x in a if not (x[0] == 'stash' and x[3] == slot[I.id]))
                    o = origin(I.ops[0], facts)
                    return b | {('stash', '!', x[2], slot[I.id]) for x in a if x[0] == 'saved' and x[3] == o}
                return frozenset({x for x in a if not (x[0] == 'saved' and x[3] == I.id)} | {('saved', '!', x[2], I.id) for x in a if x[0] == 'stash' and x[3] == slot[I.id]})
            if I.id in st_:
                _, key, v = st_[I.id]; k = name[key]
                o = origin(v, facts)
                # the evaluator is handed the parser in effect
                if key[0] == 'Jsi_Interp.ps' and isinstance(o, int) and o < f.nargs and o not in f.inst: return frozenset(x for x in a if not (x[0] == 'mod' and x[2] == k))
                if ('saved', '!', k, o) in a: return frozenset(x for x in a if not (x[0] == 'mod' and x[2] == k))
                return frozenset(a | {('mod', '!', k)})
            return None
        def edges(imp, cur, facts): return ()
        trk = [strip(f, v) for _, _, v in st_.values() if isinstance(v, int) and ld]
        ex = paths.Explorer(f, inst=hook, track=trk) if f.name not in BIG else paths.Explorer(f, inst=hook, correlate=False, widen=20)
        ex.run()
        for I, a, facts, st in ex.rets:
            for k, m in name.items():
                if ('mod', '!', m) in a: bad.setdefault(k[0], (I, st))
        for fl in sorted({k[0] for k in keys}):
            c.count('functions with scoped state')
            if fl in bad:
                I, st = bad[fl]
                c.ob(False, 'scope:%s:%s' % (fl, f.name), '%s in %s' % (I.where(), f.name), '%s is not restored on a path to this return' % fl, 'lines %s' % ex.trace(st)[-16:])
            else: c.ob(True, 'scope:%s:%s' % (fl, f.name), f.name, '')
    c.floor('functions with scoped state', 20)

def local(f, ptr):
    """field of a record that lives in this call"""
    while isinstance(ptr, int) and ptr in f.inst and f.inst[ptr].op in ('getelementptr', 'bitcast'): ptr = f.inst[ptr].ops[0]
    I = f.inst.get(ptr) if isinstance(ptr, int) else None
    return I is not None and (I.op == 'alloca' or I.op == 'call' and I.callee_name in ('Jsi_Calloc', 'Jsi_Malloc', 'calloc', 'malloc', 'jsi_PstateNew'))
