"""C11: runaway scripts and deeply nested data end in an error."""
from ir import *
import paths

NEVER = frozenset()
LIMITS = ('Jsi_Interp.maxDepth', 'Jsi_Interp.maxIncDepth', 'Jsi_Interp.maxOpCnt', 'Jsi_Interp.maxUserObjs', 'Jsi_Interp.maxArrayList', 'Jsi_Interp.maxInterpDepth')
UP = {'slt', 'sle', 'ult', 'ule'}
DOWN = {'sgt', 'sge', 'ugt', 'uge'}

# recursion that is bounded by its own structure: reason
BOUNDED = {
    'insert_case1 insert_case2 insert_case3 delete_case1 delete_case2 delete_case3 destroy_node tree_preorder tree_inorder tree_postorder tree_levelorder jsi_treeHeight': 'height of a balanced tree',
    'jsi_DumpCustomSpec jsi_DumpOptionSpec jsi_DumpOptionSpecs Jsi_OptionsSet Jsi_OptionsGet jsi_EnumToValue jsi_typeGet': 'nesting of static tables',
    'jsiPopArgs': 'nesting of a literal, which the stack of the parser bounds',
    'freeArchiveHashTbl freeVfsArchiveHashTbl freeEventTbl freeUserdataTbl jsi_AliasFree sockFreePss freeCodeTbl freeFuncsTbl': 'tables of the interpreter, which do not contain each other',
    'lexer_getchar': 'one level: what follows the backslash is a newline',
    'mkdir_all RmdirAll': 'length of a path',
    'Jsi_PkgProvideEx': 'one level: the top interpreter', 'Jsi_EventProcess': 'nesting of interpreters',
    'Jsi_NameLookup': 'called back only with the names of built-in objects',
}
# calls that do not nest, with the reason
BOUNDED_CALLS = {
    ('ValueFree', 'Jsi_DecrRefCount'): 'a reference to a variable refers to a plain value (objects are released by Jsi_ObjDecrRefCount)',
    ('jsi_SharedArgs', 'Jsi_ValueInsert'): 'a setter is called with an argument list of its own, which has none',
    ('jsi_FuncArgsToString', 'Jsi_ValueGetDString'): 'the default of a parameter is a literal no script gets hold of',
    ('Jsi_LogMsg', 'jsi_InterpDebugHook'): 'the hook is switched off while it runs',
    ('jsiValueGetString', 'jsi_objectGetterFmt'): 'there are no members when it is reached: an empty object is printed before',
    ('MutexLock', 'Jsi_LogMsg'): 'a lock that fails', ('Jsi_HashNew', 'Jsi_LogMsg'): 'a key size no caller passes', ('Jsi_TreeNew', 'Jsi_LogMsg'): 'a key size no caller passes',
}

class Trial:
    def __init__(s): s.log = []
    def count(s, *a): s.log.append(('count', a))
    def ob(s, *a): s.log.append(('ob', a))
    def bad(s): return any(k == 'ob' and not a[0] for k, a in s.log)
    def into(s, c):
        for k, a in s.log: getattr(c, k)(*a)

def run(c):
    p = c.prog(0)
    c.rule('the evaluator dispatches an instruction only after counting it and testing the count against maxOpCnt, after testing that the interpreter is neither exited nor interrupted, and with the evaluation depth within maxDepth')
    c.rule('each cycle of calls (indirect calls to commands included) contains a call that is reached only while a depth that grows with it is below a limit, or recurses over a structure of bounded depth')
    c.rule('source and require go on to evaluate only with their nesting depth within maxIncDepth; new makes an object only with the count below maxUserObjs; storage of an array only grows to a size within maxArrayList')
    dispatch(c, p)
    # a limit may be tested in a helper: what is not decided on the functions as written is decided with small helpers inlined
    for inl, keep in ((0, ()), (15, ('ValueFree',)), (40, ('ValueFree',))):
        t = Trial()
        try: recursion(t, p if not inl else c.prog(inl, keep))
        except paths.TooBig:
            if not inl: raise
            continue
        if not inl or not t.bad():
            first = t
        if not t.bad(): break
    first.into(c)
    sites(c, p)
    interps(c, c.prog(40, ('ValueFree',)))
    arrays(c, c.prog(400, ()))
    c.floor('opcodes dispatched', 50); c.floor('functions', 1200); c.floor('call edges', 4500); c.floor('recursive calls', 250); c.floor('calls below a depth limit', 15); c.floor('calls that count a depth', 50)

def place(e):
    """name of the counter or flag at an address: field of a record, or a variable of the file"""
    return e[2] if e[0] == 'fld' else '=' + e[1] if e[0] == 'g' and e[2] == 0 else None

def fieldof(f, v):
    """field an int value was loaded from, looking through casts and +-const"""
    v = strip(f, v)
    d = 0
    while isinstance(v, int) and v in f.inst:
        I = f.inst[v]
        if I.op in ('add', 'sub') and const_int(I.ops[1]) is not None:
            d += const_int(I.ops[1]) if I.op == 'add' else -const_int(I.ops[1]); v = strip(f, I.ops[0]); continue
        if I.op in CASTS: v = I.ops[0]; continue
        if I.op == 'load':
            n = place(expr(f, I.ops[0], 6))
            return (n, d) if n else None
        if I.op == 'freeze': v = I.ops[0]; continue
        break
    if isinstance(v, int) and v not in f.inst: return ('arg%d' % v, d)
    if isinstance(v, int) and f.inst[v].op == 'phi': return ('phi%d' % v, d)
    return None

def limits(f, pred, a, b):
    """a comparison that bounds a counter from above by a limit: yields (counter, limit) and (None, limit) when the limit is switched off"""
    for x, y, pr in ((a, b, pred), (b, a, paths.SWAP[pred])):
        fx = fieldof(f, x); fy = fieldof(f, y); cy = const_int(y)
        if fx and fx[0] in LIMITS and cy is not None and (pr in ('sle', 'ule', 'eq') and cy == 0 or pr in ('slt', 'ult') and cy in (0, 1)): yield (None, fx[0])
        if fx and pr in UP and (fy and fy[0] != fx[0] or cy is not None and cy > 0): yield (fx[0], fy[0] if fy else 'const' if cy >= 16 else 'small')
        if fx and pr in DOWN and cy is not None and cy >= 0 and fx[0] not in LIMITS: yield (fx[0], 'floor')

def dispatch(c, p0):
    p = c.prog(400, ())
    fs = []
    for f in p.funcs.values():
        if f.decl: continue
        for I in f.insts():
            if I.op == 'switch' and len(I.x) > 40 and 'jsi_OpCode.op' in str(expr(f, I.ops[0], 8)) and any(J.op == 'call' and J.callee_name in ('jsiEvalFunction', 'jsiEvalSubscript') or J.op == 'store' and 'Jsi_Interp.opCnt' in str(expr(f, J.ops[1], 4)) for J in f.insts()): fs.append((f, I))
    c.need(len(fs) == 1, 'one evaluator loop (found %s)' % [f.name for f, _ in fs])
    f, S = fs[0]
    newop = p.enumval.get('OP_NEWFCALL')
    c.need(newop is not None, 'OP_NEWFCALL')
    sel = strip(f, S.ops[0])
    def atoms(imp, cur, facts):
        out = []
        for pred, a, b in imp:
            if isinstance(a, int) and strip(f, a) == sel and const_int(b) is not None:
                out += [('-', x) for x in cur if x[0] in ('cnt', 'cap', 'exited', 'interrupted', 'new')]
                if pred == 'eq' and const_int(b) == newop: out.append(('new',))
                continue
            for fld, lim in limits(f, pred, a, b):
                if lim == 'Jsi_Interp.maxOpCnt' and (fld is None or fld[0:] == 'Jsi_Interp.opCnt' and ('cnt',) in cur): out.append(('cap',))
                if lim == 'Jsi_Interp.maxDepth' and (fld is None or fld == 'Jsi_Interp.level'): out.append(('depth',))
                if lim == 'Jsi_Interp.maxUserObjs' and (fld is None or fld == 'Jsi_Interp.userObjCnt' and pred in ('slt', 'sgt')): out.append(('-', ('new',)))
            for x, y in ((a, b), (b, a)):
                e = fieldof(f, x) if isinstance(x, int) else None
                if e and pred == 'eq' and const_int(y) == 0 and e[0] in ('Jsi_Interp.exited', 'Jsi_Interp.interrupted'): out.append((e[0][11:],))
        return out
    bad = {}; seen = set()
    def hook(I, a, facts, st):
        if I.op == 'store':
            e = expr(f, I.ops[1], 4)
            if e == ('fld', e[1] if len(e) > 1 else None, 'Jsi_Interp.opCnt'):
                v = fieldof(f, I.ops[0])
                return a | {('cnt',)} if v and v[0] == 'Jsi_Interp.opCnt' and v[1] > 0 else a - {('cnt',)}
        if I.op == 'call':
            n = I.callee_name
            if n in EVALFN:
                seen.add(I.id)
                if ('new',) in a: bad.setdefault('new', ex.trace(st))
        return None
    ex = paths.Explorer(f, edge_atoms=atoms, inst=hook, correlate=False, widen=20)
    ex.run(watch=[S.id])
    c.count('opcodes dispatched', len(S.x) - 1)
    for k, txt in (('cnt', 'without being counted'), ('cap', 'without a test of the instruction count against maxOpCnt'), ('depth', 'without a test of the evaluation depth against maxDepth'), ('exited', 'without a test whether the interpreter has exited'), ('interrupted', 'without a test whether it was interrupted')):
        miss = [a for a in ex.at[S.id] if (k,) not in a]
        c.ob(bool(ex.at[S.id]) and not miss, 'dispatch:%s' % k, '%s in %s' % (S.where(), f.name), 'an instruction is dispatched %s' % txt)
    c.need(seen, 'the call instruction of the evaluator calls jsiEvalFunction')
    c.ob('new' not in bad, 'new:maxUserObjs', '%s in %s' % (S.where(), f.name), 'new makes an object without a test of the count against maxUserObjs', str(bad.get('new', ''))[:200])
EVALFN = {'jsiEvalFunction', 'jsiFunctionSubCall', 'jsi_FuncCallSub'}

def sccs(g):
    """strongly connected components with a cycle"""
    idx = {}; low = {}; st = []; on = set(); out = []; n = 0
    for root in sorted(g):
        if root in idx: continue
        work = [(root, iter(sorted(g[root])))]
        idx[root] = low[root] = n; n += 1; st.append(root); on.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in g: continue
                if w not in idx:
                    idx[w] = low[w] = n; n += 1; st.append(w); on.add(w)
                    work.append((w, iter(sorted(g[w])))); break
                elif w in on: low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    s = []
                    while True:
                        w = st.pop(); on.discard(w); s.append(w)
                        if w == v: break
                    if len(s) > 1 or v in g[v]: out.append(sorted(s))
    return out

def climbs(f, I):
    """a call on behalf of the parent of the interpreter: the chain of parents is finite"""
    if not I.ops or not isinstance(I.ops[0], int): return False
    J = f.inst.get(strip(f, I.ops[0]))
    if J is None or J.op != 'load': return False
    e = expr(f, J.ops[0], 4)
    return e[0] == 'fld' and e[2] == 'Jsi_Interp.parent'

REGISTER = {'Jsi_HashNew': 'Jsi_MapOpts.freeHashProc', 'Jsi_TreeNew': 'Jsi_MapOpts.freeHashProc', 'Jsi_MapNew': 'Jsi_MapOpts.freeHashProc', 'Jsi_ListNew': 'Jsi_MapOpts.freeHashProc',
    'jsi_MakeFuncValue': 'Jsi_Func.callback', 'jsi_CommandCreate': 'Jsi_Func.callback', 'Jsi_ValueNewFunction': 'Jsi_Func.callback', 'jsi_MakeFuncValueSpec': 'Jsi_Func.callback', 'Jsi_CommandCreate': 'Jsi_Func.callback', 'jsi_MakeFuncObjValue': 'Jsi_Func.callback',
    'Jsi_EventNew': 'Jsi_Event.handler', 'Jsi_PkgProvideEx': 'jsi_PkgInfo.initProc', 'Jsi_EventuallyFree': 'anon.8.@24', 'Jsi_InterpOnDelete': None, 'Jsi_InterpSetData': None, 'pthread_create': None, 'signal': None, 'atexit': None}

def pointers(p):
    """functions called back: commands, and by the field of the record they are kept in"""
    stored = {}
    def add(fld, n):
        if n in p.funcs and not p.funcs[n].decl: stored.setdefault(fld, set()).add(n)
    for gn, g in p.globals.items():
        dt = g.get('dt', '')
        base = dt.split('[')[0].replace('const ', '').replace('struct ', '').strip()
        if not base: continue
        try: rows = p.structarray(gn)
        except Exception: continue
        for r in rows:
            for k, v in r.items():
                if isinstance(v, tuple) and v and v[0] == 'f': add('%s.%s' % (base, k), v[1])
    for f in p.funcs.values():
        if f.decl: continue
        for I in f.insts():
            if I.op == 'store' and isinstance(I.ops[0], tuple) and I.ops[0][0] == 'f':
                e = expr(f, I.ops[1], 4)
                if e[0] == 'fld': add(e[2], I.ops[0][1])
            if I.op == 'call' and REGISTER.get(I.callee_name):
                for o in I.ops:
                    if isinstance(o, tuple) and o[0] == 'f': add(REGISTER[I.callee_name], o[1])
    cmds = stored.get('Jsi_CmdSpec.proc', set()) | stored.get('Jsi_Func.callback', set())
    return cmds, stored

OFF = {'Jsi_Interp.maxDepth': ('Jsi_Interp.level', 'Jsi_Interp.callDepth', 'objwalker.depth')}

def recursion(c, p):
    cmds, stored = pointers(p)
    bounded = {n for k in BOUNDED for n in k.split()}
    calls = {}
    for f in p.funcs.values():
        if f.decl: continue
        d = calls.setdefault(f.name, {})
        for I in f.insts():
            if I.op != 'call': continue
            n = I.callee_name
            if n:
                if (f.name, n) in BOUNDED_CALLS or climbs(f, I): continue
                if n in p.funcs and not p.funcs[n].decl: d.setdefault(n, []).append(I)
                if n not in REGISTER:      # a callback may be called back
                    for o in I.ops:
                        if isinstance(o, tuple) and o[0] == 'f' and o[1] in p.funcs and not p.funcs[o[1]].decl: d.setdefault(o[1], []).append(I)
            else:      # through a record
                e = expr(f, I.callee, 6)
                fld = e[1][2] if e[0] == 'ld' and e[1][0] == 'fld' else None
                ts = cmds if fld in ('Jsi_Func.callback', 'Jsi_CmdSpec.proc') else stored.get(fld, ())
                for m in ts: d.setdefault(m, []).append(I)
                if ts: c.count('calls through records')
                elif fld is None or not fld.startswith(('mz_', 'tdefl', 'Jsi_Filesystem')): c.count('other indirect calls')
    g = {k: set(v) - bounded for k, v in calls.items() if k not in bounded}
    comps = sccs(g)
    c.count('functions', len(g)); c.count('call edges', sum(len(v) for v in g.values())); c.count('recursive components', len(comps))
    inc = {k: set(v) for k, v in g.items()}
    for comp in comps:
        cs = set(comp)
        # depths that grow in this component: fields stored one higher, parameters passed one higher or lower
        grow = set(); reset = set(); shrink = set()
        for n in comp:
            f = p.funcs[n]
            for I in f.insts():
                if I.op == 'store':
                    e = expr(f, I.ops[1], 4)
                    v = fieldof(f, I.ops[0])
                    if e[0] == 'fld' and v and v[0] == e[2] and v[1] == 1: grow.add(e[2])
                    if e[0] == 'fld' and v and v[0] == e[2] and v[1] == -1: shrink.add(e[2])
                    if e[0] == 'fld' and const_int(I.ops[0]) == 0: reset.add(e[2])
        grow &= shrink
        cuts = {}; ups = {}      # depth -> edges below its limit, edges on which it grows
        for n in comp:
            f = p.funcs[n]
            steps = set()
            for I in f.insts():
                if I.op == 'call' and I.callee_name in cs:
                    for x in I.ops:
                        v = fieldof(f, x) if isinstance(x, int) else None
                        if v and v[0].startswith('arg') and v[1]: steps.add(v[0])
            ok, up = guarded(f, cs, grow, steps, calls[n], reset)
            for m, l in calls[n].items():
                if m not in cs: continue
                c.count('recursive calls', len(l))
                com = set.intersection(*[ok.get(I.id, set()) for I in l])
                for F in com: cuts.setdefault(F, set()).add((n, m))
                com = set.intersection(*[up.get(I.id, set()) for I in l])
                for F in com: ups.setdefault(F, set()).add((n, m))
        # a limit counts on the cycles on which its depth grows: no cycle avoids, for every depth, either its limit or its growth
        for n, m in cuts.pop('', ()): inc[n].discard(m); c.count('calls below a depth limit')
        for F in sorted(cuts): c.count('calls below a depth limit', len(cuts[F])); c.count('calls that count a depth', len(ups.get(F, ())))
        Fs = [F for F in sorted(cuts) if ups.get(F)]
        c.count('depths', len(Fs))
        bad = []
        for k in range(1 << len(Fs)):
            rm = set().union(*[(ups if k >> i & 1 else cuts)[F] for i, F in enumerate(Fs)]) if Fs else set()
            left = sccs({n: {m for m in v if (n, m) not in rm} for n, v in inc.items() if n in cs})
            for s in left:
                if s not in [x for x, _ in bad]: bad.append((s, [F for i, F in enumerate(Fs) if k >> i & 1]))
        bad.sort(key=lambda x: len(x[0]))
        if not bad: c.ob(True, 'recursion:%s' % comp[0], '%s and %d more' % (comp[0], len(comp) - 1), '')
        for s, fs in bad[:3]:
            c.ob(False, 'recursion:%s' % s[0], ', '.join(s[:12]), 'this recursion has no limit on its depth', 'not counted: %s' % ', '.join(fs))
    for comp in comps:
        for n in comp:
            f = p.funcs[n]; ks = set()
            for I in f.insts():
                if I.op == 'call' and I.callee_name == n:
                    for k, x in enumerate(I.ops):
                        v = fieldof(f, x) if isinstance(x, int) else None
                        if v and v[0].startswith('arg') and v[1] < 0: ks.add((int(v[0][3:]), k))
            for a, k in sorted(ks):
                if a != k: continue
                for I in p.callers().get(n, ()):
                    if I.fn.name == n: continue
                    c.count('starts of a depth that counts down')
                    c.ob(startbound(p, I.fn, I, k), 'start:%s:%s' % (n, I.fn.name), '%s in %s' % (I.where(), I.fn.name), '%s is entered with a depth that no limit bounds' % n)
def startbound(p, f, I, k):
    """the number passed as a depth that counts down is a constant, or compared with one so that a bigger one does not get to the call"""
    v = I.ops[k]
    if const_int(v) is not None: return const_int(v) < 65536
    def loc(x):
        while isinstance(x, int) and x in f.inst and (f.inst[x].op in CASTS or f.inst[x].op in ('fptosi', 'fptoui', 'freeze', 'sitofp')): x = f.inst[x].ops[0]
        if isinstance(x, int) and x in f.inst and f.inst[x].op == 'load': return ('at', str(expr(f, f.inst[x].ops[0], 5)))
        return x
    def num(x):
        if const_int(x) is not None: return const_int(x)
        if isinstance(x, tuple) and x[0] == 'd':
            try: return float(x[1])
            except ValueError: return None
        return None
    L = loc(v)
    bi = {i: b for b, l in enumerate(f.blocks) for i in [J.id for J in l]}
    for C in f.insts():
        if C.op not in ('icmp', 'fcmp'): continue
        a, b = C.ops[:2]; pr = C.x[-2:]
        if num(a) is not None: a, b, pr = b, a, {'gt': 'lt', 'ge': 'le', 'lt': 'gt', 'le': 'ge'}.get(pr)
        if num(b) is None or not 0 < num(b) < 65536 or loc(a) != L or pr not in ('gt', 'ge', 'lt', 'le'): continue
        for B in f.insts():
            if B.op != 'br' or list(B.ops) != [C.id]: continue
            s = f.succs[bi[B.id]]
            if len(s) != 2: continue
            t = s[0] if pr in ('gt', 'ge') else s[1]
            seen = set(); work = [t]
            while work:
                x = work.pop()
                if x in seen or x == bi[B.id]: continue
                seen.add(x); work += f.succs[x]
            if bi[I.id] not in seen: return True
    return False

def guarded(f, cs, grow, steps, calls, reset):
    """calls of the component that are reached only below a depth limit, or once: a flag tested to be clear is set before"""
    once = {}
    for I in f.insts():
        if I.op == 'store' and const_int(I.ops[0]):
            e = place(expr(f, I.ops[1], 4))
            if e and e not in reset: once[I.id] = e
    tested = set()
    for I in f.insts():
        if I.op == 'load':
            v = place(expr(f, I.ops[0], 6))
            if v: tested.add(v)
    once = {k: v for k, v in once.items() if v in tested}
    fields = grow | steps | set(once.values())
    use = bool(once)
    for I in f.insts():
        if I.op == 'icmp':
            for x in I.ops:
                v = fieldof(f, x) if isinstance(x, int) else None
                if v and (v[0] in fields): use = True
    if not use and not any(I.op == 'store' and (lambda e: e[0] == 'fld' and e[2] in grow)(expr(f, I.ops[1], 4)) for I in f.insts()): return {}, {}
    ids = {I.id for m, l in calls.items() if m in cs for I in l}
    big = sum(len(b) for b in f.blocks) > 1200
    mv = {}
    for I in f.insts():
        if I.op == 'store':
            e = expr(f, I.ops[1], 4); v = fieldof(f, I.ops[0])
            if e[0] == 'fld' and e[2] in grow and v and v[0] == e[2] and v[1] in (1, -1): mv[I.id] = (e[2], v[1])
    def atoms(imp, cur, facts):
        out = []
        for pred, a, b in imp:
            for fld, lim in limits(f, pred, a, b):
                if fld is None and lim in OFF: out += [('ok', x) for x in OFF[lim] if x in grow]      # the limit is switched off
                elif fld in grow | steps and (lim in LIMITS or lim == 'const'): out.append(('ok', fld))
                elif fld in steps and lim == 'floor': out.append(('ok', fld))
            for x, y in ((a, b), (b, a)):
                v = fieldof(f, x) if isinstance(x, int) and pred == 'eq' and const_int(y) is not None else None
                if v and v[1] == 0 and v[0] in grow: out.append(('ok', v[0]))
                elif const_int(y): pass
                elif v and v[1] == 0 and v[0] in fields and not big: out.append(('clear', v[0]))
        return out
    def hook(I, a, facts, st):
        if I.id in once and ('clear', once[I.id]) in a: return a | {('ok', '')}
        if I.id in mv:
            F, d = mv[I.id]
            return a | {('up', F)} if d > 0 else a - {('up', F)}
        return None
    ex = paths.Explorer(f, edge_atoms=atoms, inst=hook, **({'correlate': False, 'widen': 20} if big else {}))
    ex.run(watch=ids)
    ok = {}; up = {}
    for i in ids:
        if not ex.at[i]: continue
        com = frozenset.intersection(*[frozenset(a) for a in ex.at[i]])
        # a parameter counts on the calls that pass it on one higher or lower
        moved = {v[0] for v in (fieldof(f, o) for o in f.inst[i].ops if isinstance(o, int)) if v and v[1]}
        ok[i] = {'' if x[1].startswith('arg') else x[1] for x in com if x[0] == 'ok' and (not x[1].startswith('arg') or x[1] in moved)}; up[i] = {x[1] for x in com if x[0] == 'up'}
    return ok, up

def reach(p, targets, cut):
    """functions from which a target is reached over direct calls"""
    r = set(targets); ch = True
    work = list(targets)
    while work:
        n = work.pop()
        for I in p.callers().get(n, ()):
            m = I.fn.name
            if m not in r and m not in cut: r.add(m); work.append(m)
    return r

def sites(c, p0):
    p = c.prog(400, ('jsi_evalStrFile', 'jsi_PkgLoad', 'Jsi_EvalFile'))
    cut = {'Jsi_LogMsg', 'Jsi_DecrRefCount', 'Jsi_FunctionInvoke', 'jsi_FunctionInvoke', 'Jsi_FunctionInvokeJSON', 'Jsi_FunctionInvokeBool', 'Jsi_FunctionInvokeString', 'Jsi_ObjFree', 'Jsi_ValueFree', 'Jsi_Open', 'Jsi_Stat', 'Jsi_Access', 'Jsi_OptionsProcess', 'jsi_GetterCall', 'jsi_SetterCall'}
    ev = reach(p, {'jsi_evalStrFile'}, cut)
    for F, L in (('Jsi_Interp.includeDepth', 'Jsi_Interp.maxIncDepth'), ('Jsi_Interp.pkgReqDepth', 'Jsi_Interp.maxIncDepth')):
        n = 0
        for f in p.funcs.values():
            if f.decl: continue
            ups = set()
            for I in f.insts():
                if I.op == 'store':
                    e = expr(f, I.ops[1], 4); v = fieldof(f, I.ops[0])
                    if e[0] == 'fld' and e[2] == F and v and v[0] == F:
                        if v[1] > 0: ups.add(I.id)
            if not ups: continue
            n += 1; c.count('nesting commands')
            bad = []; evs = set()
            def atoms(imp, cur, facts):
                return [('ok',) for pred, a, b in imp for fld, lim in limits(f, pred, a, b) if lim == L and (fld is None or fld == F)]
            def hook(I, a, facts, st):
                if I.id in ups:
                    if ('ok',) not in a: bad.append(('store', I))
                    return a | {('in',)}
                if I.op == 'store' and I.id not in ups:
                    e = expr(f, I.ops[1], 4)
                    if e[0] == 'fld' and e[2] == F: return a - {('in',)}
                if I.op == 'call' and I.callee_name in ev:
                    evs.add(I.id)
                    if ('in',) not in a: bad.append(('eval', I))
                return None
            paths.Explorer(f, edge_atoms=atoms, inst=hook).run()
            c.count('evaluations below a nesting limit', len(evs))
            c.ob(not [b for b in bad if b[0] == 'store'], 'limit:%s:%s' % (F.split('.')[1], f.name), '%s in %s' % ((bad[0][1] if bad else f.inst[min(ups)]).where(), f.name), 'nests deeper without a test of %s against %s' % (F.split('.')[1], L.split('.')[1]))
            c.ob(not [b for b in bad if b[0] == 'eval'] and evs, 'nest:%s:%s' % (F.split('.')[1], f.name), '%s in %s' % ((bad[0][1] if bad else f.inst[min(ups)]).where(), f.name), 'evaluates a file without counting %s' % F.split('.')[1])
        c.ob(n > 0, 'counted:%s' % F, 'src', 'nothing counts %s up' % F)

def interps(c, p):
    """an interpreter is only returned with its nesting depth tested against maxInterpDepth"""
    n = 0
    F, L = 'Jsi_Interp.interpDepth', 'Jsi_Interp.maxInterpDepth'
    for f in p.funcs.values():
        if f.decl: continue
        ups = set()
        for I in f.insts():
            if I.op == 'store':
                e = expr(f, I.ops[1], 4); v = fieldof(f, I.ops[0])
                if e[0] == 'fld' and e[2] == F and v and v[0] == F and v[1] > 0: ups.add(I.id)
        if not ups: continue
        n += 1; c.count('makers of interpreters')
        bad = []
        def atoms(imp, cur, facts):
            if ('deep',) not in cur: return []
            return [('-', ('deep',)) for pred, a, b in imp for fld, lim in limits(f, pred, a, b) if lim == L and fld == F]
        def hook(I, a, facts, st):
            if I.id in ups: return a | {('deep',)}
            if I.op == 'call' and ('deep',) in a and I.callee_name and I.callee_name not in ('Jsi_Free', 'Jsi_LogMsg', 'Jsi_DecrRefCount', 'jsi_Free'): bad.append(I)
            return None
        ex = paths.Explorer(f, edge_atoms=atoms, inst=hook, correlate=False, widen=20); ex.run()
        c.ob(not bad, 'interps:%s' % f.name, '%s in %s' % ((bad[0] if bad else f.inst[min(ups)]).where(), f.name), 'goes on to make a nested interpreter without a test of its depth against maxInterpDepth')
    c.ob(n > 0, 'counted:%s' % F, 'src', 'nothing counts %s up' % F)

def cone(f, v, depth=8):
    out = set(); work = [(v, depth)]
    while work:
        x, d = work.pop()
        if not isinstance(x, int) or x in out or d < 0: continue
        out.add(x)
        if x in f.inst and f.inst[x].op in ('mul', 'shl', 'add', 'sub', 'phi', 'select', 'freeze') + tuple(CASTS): work += [(o, d - 1) for o in f.inst[x].ops]
    return out

def arrays(c, p):
    n = 0
    for f in p.funcs.values():
        if f.decl: continue
        sts = []
        for I in f.insts():
            if I.op != 'store' or not isinstance(I.ops[0], int): continue
            e = expr(f, I.ops[1], 4)
            if e[0] != 'fld' or e[2] != 'Jsi_Obj.arr': continue
            v = strip(f, I.ops[0]); J = f.inst.get(v)
            if J is not None and J.op == 'call' and J.callee_name and any(k in J.callee_name.lower() for k in ('alloc',)): sts.append((I, J))
        for I, J in sts:
            n += 1; c.count('array allocations')
            szs = set()
            for o in J.ops: szs |= cone(f, o) if isinstance(o, int) else set()
            bad = []
            def atoms(imp, cur, facts):
                out = []
                for pred, a, b in imp:
                    for x, y, pr in ((a, b, pred), (b, a, paths.SWAP[pred])):
                        fy = fieldof(f, y) if isinstance(y, int) else None
                        if pr in UP and fy == ('Jsi_Interp.maxArrayList', 0) and isinstance(x, int) and (x in szs or strip(f, x) in szs): out.append(('ok',))
                return out
            def hook(K, a, facts, st):
                if K is J and ('ok',) not in a: bad.append(st)
                return None
            paths.Explorer(f, edge_atoms=atoms, inst=hook).run()
            c.ob(not bad, 'array:%s' % f.name, '%s in %s' % (I.where(), f.name), 'storage of an array grows without a test of its new size against maxArrayList')
    c.need(n, 'a function that allocates the storage of an array')
