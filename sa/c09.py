"""C09: frozen objects stay as they are."""
from ir import *
import paths
from guard import *

FREEZE, NOMOD, FROZEN = 'Jsi_Obj.freeze', 'Jsi_Obj.freezeNoModify', 'frozen'
SETTERS = {'jsi_TreeObjSetValue': 0, 'Jsi_TreeObjSetValue': 0}
LOOKUP = ('Jsi_TreeObjGetValue',)
# functions that change the value they are given: position of the value, or of the address of its pointer
WRITE = {'Jsi_ValueCopy': 1, 'Jsi_ValueMove': 1, 'jsi_ValueCopyMove': 1, 'Jsi_ValueToNumber': 1, 'Jsi_ValueToString': 1, 'Jsi_ValueToBool': 1}
WRITEP = {'Jsi_ValueReset': 1, 'Jsi_ValueMakeNumber': 1, 'Jsi_ValueMakeBool': 1, 'Jsi_ValueMakeString': 1, 'Jsi_ValueMakeStringKey': 1, 'Jsi_ValueMakeStringDup': 1,
          'Jsi_ValueMakeNull': 1, 'Jsi_ValueMakeUndef': 1, 'Jsi_ValueMakeObject': 1, 'Jsi_ValueMakeBlob': 1, 'Jsi_ValueMakeDStringObject': 1, 'Jsi_ValueReplace': 1, 'Jsi_ValueDup2': 1}
KEEP = tuple(SETTERS) + LOOKUP + tuple(WRITE) + tuple(WRITEP) + ('jsi_ObjSetFlag', 'Jsi_TreeEntryDelete', 'Jsi_TreeEntryNew')

# commands the host takes back
HOST = ('Jsi_CommandDelete', 'ValueObjDeleteStr')

def run(c):
    p = c.prog(400, KEEP)
    c.rule('an entry of an object is stored only after the object was found not frozen, or frozen with changes allowed and the member present; an entry is deleted only after the object was found not frozen (locally or in every caller)')
    c.rule('the evaluator changes a variable or member through its reference only after the value was found not frozen')
    c.rule('copying or moving a value leaves the frozen mark of the destination as it was on every path')
    c.rule('a function that changes whether the members of an object may be modified marks the members of that object so')
    entries(c, p); lvals(c, p); copymove(c); marks(c, p)

def objof(f, v):
    return expr(f, v, 20)

def isfield(e, n):
    return isinstance(e, tuple) and len(e) == 2 and e[0] == 'ld' and isinstance(e[1], tuple) and e[1][0] == 'fld' and e[1][2] == n

def entries(c, p):
    q = c.prog(0, ())
    g = Guard(c, p, None, None)
    def atoms(f, ex, pred, a, b, facts):
        out = []
        for x, y in ((a, b), (b, a)):
            if not isinstance(x, int) or const_int(y) != 0 or pred not in ('eq', 'ne'): continue
            fl = loadfield(f, x)
            if fl == FREEZE and pred == 'eq': out.append(('free',))
            if fl == NOMOD and pred == 'eq': out.append(('mod',))
            r = strip(f, x); I = f.inst.get(r)
            if I is not None and I.op == 'call' and I.callee_name in LOOKUP and pred == 'ne': out.append(('has',))
        return out
    def sat(k, a, I, ex, facts):
        if ('free',) in a: return True
        return k == 'a member is stored in a frozen object' and ('mod',) in a and ('has',) in a
    def kills(f, I, a):
        if I.op == 'switch' and len(I.x) > 40: return frozenset()
        return a
    g = Guard(c, p, atoms, sat, kills=kills, opts=lambda f: {'correlate': False, 'widen': 20} if f.name == 'jsiEvalCodeSub' else {})
    n = 0; sites = []
    for f in q.funcs.values():
        if f.decl or f.name in SETTERS: continue
        for I in f.insts():
            if I.op != 'call': continue
            if I.callee_name in SETTERS: sites.append((f.name, 'a member is stored in a frozen object'))
            if I.callee_name == 'Jsi_TreeEntryNew' and isfield(expr(f, I.ops[0]), 'Jsi_Obj.tree'): sites.append((f.name, 'a member is stored in a frozen object'))
            if I.callee_name == 'Jsi_TreeEntryDelete' and objentry(f, I.ops[0]): sites.append((f.name, 'a member of a frozen object is deleted'))
    done = []
    for f in p.funcs.values():
        if f.decl or f.name in SETTERS: continue
        for I in f.insts():
            if I.op != 'call': continue
            k = None
            if I.callee_name in SETTERS: k = 'a member is stored in a frozen object'
            elif I.callee_name == 'Jsi_TreeEntryNew' and isfield(expr(f, I.ops[0]), 'Jsi_Obj.tree'): k = 'a member is stored in a frozen object'
            elif I.callee_name == 'Jsi_TreeEntryDelete' and objentry(f, I.ops[0]): k = 'a member of a frozen object is deleted'
            if k and f.name not in HOST: done.append((I, k, f.name))
    c.count('entry changes', len(done))
    g.decide(done)
    c.floor('entry changes', 2)

def objentry(f, v):
    """entry found in the tree of an object"""
    v = strip(f, v); I = f.inst.get(v) if isinstance(v, int) else None
    if I is None: return False
    if I.op == 'phi': return any(objentry(f, o) for o in I.ops if o != v)
    return I.op == 'call' and bool(I.ops) and isfield(expr(f, I.ops[0]), 'Jsi_Obj.tree')

def lval(f, v):
    """value a reference designates: a pointer loaded from the data of another value"""
    e = expr(f, v, 4)
    return isfield(e, 'Jsi_Value.d')

def lvals(c, p):
    FB = p.enumval.get('JSI_OM_ISFROZEN')
    c.need(FB, 'JSI_OM_ISFROZEN is gone')
    n = 0
    for f in p.funcs.values():
        if f.decl or f.file.split('/')[-1] != 'jsiEval.c': continue
        sites = {}
        slot = {}
        for I in f.insts():
            if I.op == 'store':
                a = I.ops[1]
                if isinstance(I.ops[0], int) and isinstance(a, int) and a in f.inst and f.inst[a].op == 'alloca' and lval(f, I.ops[0]): slot.setdefault(a, []).append(I.ops[0])
                # a field of the designated value written directly
                J = f.inst.get(a) if isinstance(a, int) else None
                if J is not None and J.op == 'getelementptr' and f.p.sname(J.x[0]) == 'Jsi_Value':
                    fl = store_field(f, I)
                    if fl and fl[0] == 'Jsi_Value.d' and (lval(f, J.ops[0]) or fromslot(f, J.ops[0])): sites[I.id] = I
        for I in f.insts():
            if I.op != 'call': continue
            if I.callee_name in WRITE and (lval(f, I.ops[WRITE[I.callee_name]]) or fromslot(f, I.ops[WRITE[I.callee_name]])): sites[I.id] = I
            if I.callee_name in WRITEP:
                a = strip(f, I.ops[WRITEP[I.callee_name]])
                if isinstance(a, int) and a in f.inst and f.inst[a].op == 'alloca' and a in slot: sites[I.id] = I
                elif isinstance(a, int) and expr(f, a, 4)[0] == 'fld' and expr(f, a, 4)[2] == 'Jsi_Value.d': sites[I.id] = I
        if not sites: continue
        bad = {}
        def atoms(imp, cur, facts):
            out = []
            for pred, a, b in imp:
                for x, y in ((a, b), (b, a)):
                    if isinstance(x, int) and const_int(y) == 0 and pred == 'eq' and frozenload(f, x, FB): out.append(('ok',))
            return out
        disp = max([len(I.x or ()) for I in f.insts() if I.op == 'switch'] or [0])
        def hook(I, a, facts, st):
            if I.op == 'switch' and len(I.x) == disp and disp > 20: return frozenset(x for x in a if x != ('ok',))
            if I.id in sites and ('ok',) not in a: bad.setdefault(I.id, st)
            return None
        big = f.name == 'jsiEvalCodeSub'
        ex = paths.Explorer(f, edge_atoms=atoms, inst=hook, **({'correlate': False, 'widen': 20} if big else {}))
        ex.run()
        for i, I in sites.items():
            n += 1
            k = '%s:%s' % (f.name, I.callee_name or 'store')
            c.ob(i not in bad, 'lval:' + k, '%s in %s' % (I.where(), f.name), 'a referenced value is changed without a test whether it is frozen', 'lines %s' % ex.trace(bad[i])[-8:] if i in bad else '')
    c.count('changes through references', n)
    c.floor('changes through references', 6)

def fromslot(f, v):
    """loaded from a local that holds a designated value"""
    I = f.inst.get(strip(f, v)) if isinstance(v, int) else None
    if I is None or I.op != 'load': return False
    a = I.ops[0]
    if not isinstance(a, int) or a not in f.inst or f.inst[a].op != 'alloca': return False
    return any(J.op == 'store' and J.ops[1] == a and isinstance(J.ops[0], int) and lval(f, J.ops[0]) for J in f.insts())

def frozenload(f, v, bit):
    """the load of the flags a test of the frozen mark looks at"""
    v = strip(f, v); sh = 0; m = None
    I = f.inst.get(v) if isinstance(v, int) else None
    while I is not None and I.op in ('and', 'lshr') + CASTS:
        k = const_int(I.ops[1]) if I.op in ('and', 'lshr') else None
        if I.op == 'and':
            if k is None: return None
            m = k if m is None else m & k
        elif I.op == 'lshr':
            if k is None: return None
            m = (m << k) if m is not None else None
            if m is None: return None
        I = f.inst.get(I.ops[0]) if isinstance(I.ops[0], int) else None
    if I is None or I.op != 'load' or m != bit: return None
    e = expr(f, I.ops[0], 20)
    return I if e[0] == 'fld' and e[2] == 'Jsi_Value.f' else None

def frozenstore(f, I, bit):
    """(value) a store puts in the frozen mark, keeping the other flags"""
    if I.op != 'store': return None
    e = expr(f, I.ops[1], 20)
    if e[0] != 'fld' or e[2] != 'Jsi_Value.f': return None
    V = f.inst.get(I.ops[0]) if isinstance(I.ops[0], int) else None
    if V is None or V.op != 'or': return None
    for a, b in ((V.ops[0], V.ops[1]), (V.ops[1], V.ops[0])):
        J = f.inst.get(a) if isinstance(a, int) else None
        if J is not None and J.op == 'and' and const_int(J.ops[1]) is not None and (~const_int(J.ops[1])) & 0xff == bit:
            while isinstance(b, int) and b in f.inst and (f.inst[b].op in CASTS or f.inst[b].op in ('shl', 'and') and const_int(f.inst[b].ops[1]) is not None): b = f.inst[b].ops[0]
            return b
    return None

def copymove(c):
    p = c.prog(400, ())
    FB = p.enumval['JSI_OM_ISFROZEN']
    st = [x for n, x in p.structs.items() if n == '%struct.Jsi_Value']
    c.need(st, 'Jsi_Value is gone')
    size = st[0]['size']
    n = 0
    for f in p.funcs.values():
        if f.decl: continue
        cp = {}
        for I in f.insts():
            if I.op == 'call' and (I.callee_name or '').startswith('llvm.memcpy') and const_int(I.ops[2]) == size and valueptr(f, I.ops[0]) and not localrec(f, I.ops[0]) and not localrec(f, I.ops[1]): cp[I.id] = I
        if not cp: continue
        bad = {}
        def origin(v, facts):
            for _ in range(20):
                v = strip(f, ex.resolve(v, facts)) if isinstance(v, int) else v
                I = f.inst.get(v) if isinstance(v, int) else None
                if I is not None and I.op == 'icmp' and I.x == 'ne' and const_int(I.ops[1]) == 0: v = I.ops[0]; continue
                break
            return v
        def hook(I, a, facts, st):
            L = frozenload(f, I.id, FB) if I.op == 'and' else None
            if L is not None and not any(x[0] == 'copied' for x in a): return frozenset(a | {('pre', '!', I.id, expr(f, L.ops[0], 20)[1])})
            if I.id in cp: return frozenset(a | {('copied', '!', expr(f, I.ops[0], 20))})
            v = frozenstore(f, I, FB)
            if v is not None:
                t = expr(f, I.ops[1], 20)[1]
                o = origin(v, facts)
                # the mark the destination had before
                if any(x[0] == 'pre' and x[2] == o and x[3] == t for x in a): return frozenset(x for x in a if not (x[0] == 'copied' and x[2] == t))
            return None
        ex = paths.Explorer(f, inst=hook); ex.run()
        for I, a, facts, st in ex.rets:
            if any(x[0] == 'copied' for x in a): bad.setdefault(f.name, (I, st))
        n += len(cp)
        b = bad.get(f.name)
        c.ob(b is None, 'copy:%s' % f.name, '%s in %s' % (b[0].where(), f.name) if b else f.name, 'a value is overwritten by another and its frozen mark with it', 'lines %s' % ex.trace(b[1])[-12:] if b else '')
    c.count('whole-value copies', n)
    c.floor('whole-value copies', 1)

def localrec(f, v, depth=4):
    """a value record of this call"""
    v = strip(f, v); I = f.inst.get(v) if isinstance(v, int) else None
    if I is None or not depth: return False
    if I.op == 'alloca': return True
    if I.op in ('phi', 'select'): return all(localrec(f, o, depth - 1) for o in I.ops[I.op == 'select':])
    if I.op == 'load' and isinstance(I.ops[0], int) and I.ops[0] in f.inst and f.inst[I.ops[0]].op == 'alloca':
        return all(localrec(f, J.ops[0], depth - 1) for J in f.insts() if J.op == 'store' and J.ops[1] == I.ops[0])
    return False

def valueptr(f, v):
    """pointer to a value that is not a local record"""
    v = strip(f, v)
    e = expr(f, v, 20)
    I = f.inst.get(v) if isinstance(v, int) else None
    if I is not None and I.op == 'alloca': return False
    for J in f.insts():
        if J.op == 'getelementptr' and f.p.sname(J.x[0]) == 'Jsi_Value' and expr(f, J.ops[0], 20) == e: return True
    return False

def marks(c, p):
    FB = p.enumval['JSI_OM_ISFROZEN']
    n = 0
    for f in p.funcs.values():
        if f.decl: continue
        ss = {}
        for I in f.insts():
            sf = store_field(f, I) if I.op == 'store' else None
            if sf and sf[0] == NOMOD and const_int(sf[1]) != 0: ss[I.id] = I
        if not ss: continue
        n += 1
        bad = {}
        def hook(I, a, facts, st):
            if I.id in ss: return frozenset(a | {('need', '!', expr(f, I.ops[1], 20)[1])})
            if I.op == 'call' and I.callee_name == 'jsi_ObjSetFlag' and (const_int(I.ops[2]) or 0) & FB and const_int(I.ops[3]) != 0:
                return frozenset(x for x in a if x != ('need', '!', expr(f, I.ops[1], 20)))
            return None
        ex = paths.Explorer(f, inst=hook); ex.run()
        for I, a, facts, st in ex.rets:
            if any(x[0] == 'need' for x in a): bad.setdefault(f.name, (I, st))
        b = bad.get(f.name)
        c.ob(b is None, 'mark:%s' % f.name, '%s in %s' % (b[0].where(), f.name) if b else f.name, 'members may not be modified from here on but are not marked so', 'lines %s' % ex.trace(b[1])[-12:] if b else '')
    c.count('functions that protect members', n)
    c.floor('functions that protect members', 2)
