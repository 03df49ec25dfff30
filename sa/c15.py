"""C15: references to values and objects are taken and given back in balance."""
from ir import *
import paths
from guard import *

INC = {'Jsi_IncrRefCount', 'Jsi_ObjIncrRefCount'}
DEC = {'Jsi_DecrRefCount', 'Jsi_ObjDecrRefCount'}
ONE = {'Jsi_ValueNew1', 'Jsi_ValueDup', 'Jsi_ValueDupJSON'}
INVOKE = {'Jsi_FunctionInvoke': (2, 3), 'jsi_FunctionInvoke': (2, 3), 'jsi_FuncCallSub': (1, 3)}
FREE = {'Jsi_Free': 0, 'free': 0, 'fclose': 0, 'closedir': 0, 'sqlite3_free': 0}
KEEPCALL = {'Jsi_HashValueSet': 1, 'Jsi_HashSet': 2, 'Jsi_StackPush': 1, 'Jsi_StackPushAt': 1, 'Jsi_MapValueSet': 1, 'Jsi_MapSet': 2, 'Jsi_ListPushBack': 1, 'Jsi_ListValueSet': 1}
HELD = ('Jsi_Value*', 'Jsi_Obj*')

MAKE = {'Jsi_ValueMakeObject', 'Jsi_ValueMakeArrayObject', 'Jsi_ValueMakeString', 'Jsi_ValueMakeStringDup', 'Jsi_ValueMakeStringKey', 'Jsi_ValueMakeBlob',
        'jsi_ValueMakeBlobDup', 'Jsi_ValueMakeNumber', 'Jsi_ValueMakeBool', 'Jsi_ValueMakeNull', 'Jsi_ValueMakeUndef', 'Jsi_ValueMakeDStringObject'}

# fields that hold a value without counting it, and why that is safe
WEAK = {
    'Jsi_Interp.NaNValue': 'the value belongs to the table of constants of the interpreter',
    'Jsi_Interp.InfValue': 'the value belongs to the table of constants of the interpreter',
    'Jsi_Interp.callee': 'set for the length of one call, whose caller holds the function',
    'Jsi_Interp.lastParseOpt': 'set for the length of one parse of options',
    'Jsi_Interp.execZip': 'kept by genValueTbl',
    'Jsi_Interp.csc': 'the scope a running function was entered with, which its frame holds',
    'Jsi_Obj.__proto__': 'counted only when clearProto is set; the others live as long as the interpreter',
    'Jsi_Obj.constructor': 'links the objects waiting to be freed',
    'Jsi_Interp.objFreeList': 'links the objects waiting to be freed',
    'Jsi_CmdSpecItem_.proto': 'prototypes live as long as the interpreter',
    'AliasCmd.cmdVal': 'the command clears it when it goes',
    'FileObj.fobj': 'back reference of the object to itself', 'InterpObj.fobj': 'back reference of the object to itself',
    'SocketObj.fobj': 'back reference of the object to itself', 'Jsi_Db.fobj': 'back reference of the object to itself',
    'jsi_TryList.curscope_save': 'the frame that runs the try holds it',
    'jsi_Frame.incsc': 'the frame it came from holds it',
}
def weak(fl): return fl in WEAK or fl.startswith('Jsi_Interp.') and '_prototype' in fl
WEAKTABLE = {'Jsi_PrototypeDefine': 'prototypes live as long as the interpreter', 'Jsi_UserObjNew': 'the entry goes with the object', 'jsiPushFunc': 'names of functions, never read as values'}
# fields whose content is given back while the record stays, and why nothing reads it there again
SPENT = {
    'Jsi_Hash.buckets': 'the table is started again (or its static buckets are used) right after', 'Jsi_Map.v': 'the map is started again',
    'Jsi_Value.d': 'a function value just made holds its object twice', 'Jsi_Obj.__proto__': 'replaced before',
    'ZvfsChannelInfo.zBuf': 'the channel is being closed', 'ZvfsFile.zName': 'the archive is being unmounted',
    'AliasCmd.cmdVal': 'the alias is taken out of its table', 'AliasCmd.func': 'the alias is taken out of its table', 'AliasCmd.args': 'the alias is taken out of its table',
    'SocketPss.stack': 'the socket is being erased', 'Jsi_CmdSpec.reserved': 'the command was replaced', 'Jsi_Chan.data': 'the channel is being closed',
}
BORROW = {'jsi_SharedArgs': 'gives back what the same function took when it was called with alloc=1 for the same arguments'}

def key_id(k): return k[1] if k[0] == 'V' else '!'

class Refs:
    def __init__(s, c, p):
        s.c, s.p = c, p
        s.fields = {}
        for n in p.di:
            for x in p.fields(n):
                t = x[4] if len(x) > 4 else None
                s.fields[n + '.' + x[0]] = t
    def isvalue(s, f, k):
        if k[0] != 'V': return False
        if k[1] not in f.inst: return len(f.sig) > k[1] + 1 and f.sig[k[1] + 1] in HELD
        I = f.inst[k[1]]
        if I.op == 'call':
            g = s.p.funcs.get(I.callee_name)
            return bool(g and g.sig and g.sig[0] in HELD)
        return False
    # ---- what a call's result is: own (counted 1), fresh (counted 0), None
    def kind(s, I):
        n = I.callee_name
        if n in ONE: return 1
        if n == 'Jsi_StackPop': return None
        if n in s.p.funcs and n in MAKE: return 0 if const_int(I.ops[1]) == 0 else None
        return s.rk.get(n)
    def slot(s, f, a, ex, facts):
        """local variable (or element of a local list) an address designates"""
        a = strip(f, a); off = 0
        if isinstance(a, int) and a in f.inst and ex: a = ex.resolve(a, facts)
        n = 0
        while isinstance(a, int) and a in f.inst and f.inst[a].op == 'getelementptr' and n < 8:
            I = f.inst[a]; n += 1
            o = I.x[1]
            if o is None:
                ix = I.ops[-1]
                v = ex.val(ix, facts) if ex else const_int(ix)
                if not isinstance(v, int): return ('?', None)
                o = v * 8
            off += o; a = strip(f, I.ops[0])
        if isinstance(a, int) and a in f.inst and f.inst[a].op == 'alloca': return ('S', a, off)
        return None
    def key(s, f, v, ex, facts, atoms):
        v = strip(f, v)
        if isinstance(v, int): v = ex.resolve(v, facts)
        if isinstance(v, int): v = strip(f, v)
        if not isinstance(v, int): return None
        if v in f.inst and f.inst[v].op == 'load':
            a = f.inst[v].ops[0]
            k = s.slot(f, a, ex, facts)
            if k:
                if k[0] == '?': return None
                return s.after(f, v, k, atoms)
            return s.after(f, v, ('F', expr(f, a, 20)), atoms)
        return ('V', v)
    def after(s, f, v, k, atoms):
        """what was loaded before something else was put there is not what is there now"""
        for x in atoms:
            if x[0] == 'a' and x[2] == k:
                if x[4] in f.inst and before(f, f.inst[v], f.inst[x[4]]): return ('V', v)
                return x[3]
        return k

def build_kinds(c, p):
    """fresh results: functions that return what they have just made, with the references they took on it"""
    rk = {}
    for n in ('Jsi_ValueNew1', 'Jsi_ValueDup'): rk[n] = 1
    for n in ('Jsi_ValueNew', 'Jsi_ObjNew', 'Jsi_ObjNewType'): rk[n] = 0
    ch = True; rounds = 0
    while ch and rounds < 6:
        ch = False; rounds += 1
        for f in p.funcs.values():
            if f.decl or f.name in rk or not f.sig or f.sig[0] not in HELD: continue
            ks = set()
            for b in f.blocks:
                t = b[-1]
                if t.op == 'ret' and t.ops: ks |= roots(f, t.ops[0])
            ks = {k for k in ks if k is not None}
            if not ks: continue
            val = set()
            for k in ks:
                if k in f.inst and f.inst[k].op == 'call':
                    n = f.inst[k].callee_name
                    if n not in rk: val.add(None); continue
                    d = rk[n]
                    for u in f.users.get(k, ()):
                        if u.op == 'call' and u.callee_name in INC and strip(f, u.ops[1]) == k: d += 1
                        if u.op == 'call' and u.callee_name in DEC and strip(f, u.ops[1]) == k: d -= 1
                    val.add(d)
                else: val.add(None)
            if len(val) == 1 and None not in val: rk[f.name] = max(0, val.pop()); ch = True
    return rk

def build_dsptr(p):
    """functions that return text kept in the dynamic string they are given"""
    out = {'Jsi_DSValue': 0}
    for n in ('Jsi_DSAppend', 'Jsi_DSAppendLen', 'Jsi_DSSet', 'Jsi_DSPrintf'):
        if n in p.funcs: out[n] = 0
    ch = True
    while ch:
        ch = False
        for f in p.funcs.values():
            if f.decl or f.name in out or not f.sig: continue
            for b in f.blocks:
                t = b[-1]
                if t.op != 'ret' or not t.ops or not isinstance(t.ops[0], int): continue
                for k in roots(f, t.ops[0]):
                    I = f.inst.get(k)
                    if I is not None and I.op == 'call' and I.callee_name in out:
                        o = strip(f, I.ops[out[I.callee_name]])
                        if isinstance(o, int) and o not in f.inst and f.args[o][1] == 'ptr': out[f.name] = o; ch = True
    return out

def build_lookups(p, rk):
    """functions that return what some container or record goes on holding"""
    out = set(); ch = True
    while ch:
        ch = False
        for f in p.funcs.values():
            if f.decl or f.name in out or f.name in rk or f.name in MAKE or not f.sig or f.sig[0] not in HELD: continue
            ks = set()
            for b in f.blocks:
                t = b[-1]
                if t.op == 'ret' and t.ops: ks |= roots(f, t.ops[0])
            ks.discard(None)
            ok = bool(ks)
            for k in ks:
                I = f.inst.get(k)
                if I is None: ok = False
                elif I.op == 'load': ok = ok and not (isinstance(I.ops[0], int) and I.ops[0] in f.inst and f.inst[I.ops[0]].op == 'alloca')
                elif I.op == 'call': ok = ok and (I.callee_name in out or I.callee_name in ('Jsi_HashValueGet', 'Jsi_TreeValueGet', 'Jsi_HashGet', 'Jsi_TreeGet'))
                else: ok = False
            if ok: out.add(f.name); ch = True
    return out

def roots(f, v, seen=None):
    seen = set() if seen is None else seen
    v = strip(f, v)
    if not isinstance(v, int): return {None}
    if v in seen: return set()
    seen.add(v)
    I = f.inst.get(v)
    if I is not None and I.op in ('phi', 'select'):
        r = set()
        for o in I.ops[I.op == 'select':]: r |= roots(f, o, seen)
        return r
    return {v}

class Body:
    limit = 12000
    def __init__(s, R, f, groups=None, focus=None):
        s.R, s.f = R, f
        s.groups, s.focus = groups, focus      # only what belongs to one group of connected values is followed
        s.bad = {}
        s.cons = {}       # parameter -> net references taken away
        s.keptp = {}; s.took = []
        s.rel = set(); s.dead = {}; s.allrets = []
    def report(s, rule, I, st, msg): s.bad.setdefault((rule, I.id), (I, st, msg))
    def run(s, full=True):
        R, f = s.R, s.f
        phis = [I.id for I in f.insts() if I.op == 'phi' and I.ty == 'ptr' and (s.focus is None or s.groups.of(('V', I.id)) == s.focus)]
        ints = [I.id for I in f.insts() if I.op == 'phi' and I.ty in ('i32', 'i64')] if any(I.op == 'alloca' and '[' in I.x[0] for I in f.insts() if I.x) else []
        idx = set()
        for I in f.insts():
            if I.op == 'getelementptr' and I.x[1] is None:
                o = strip(f, I.ops[-1])
                if o in ints: idx.add(o)
        ex = s.ex = paths.Explorer(f, inst=s.hook if s.focus is None else s.narrow, edge_atoms=s.edge, track=phis + sorted(idx), limit=s.limit, widen=60 if full else 6, correlate=full, refine=True)
        ex.run()
        for I, a, facts, st in ex.rets: s.atret(I, a, facts, st)
    def narrow(s, I, a, facts, st):
        b = s.hook(I, a, facts, st)
        if b is None or b == a: return b
        g = s.groups; o = s.focus
        return frozenset(x for x in b if x in a or x[0] == '0' or g.of(x[3] if x[0] == 'a' else ('F', x[2]) if x[0] in 'rs' else x[2]) == o)
    def edge(s, imp, a, facts):
        add = []
        for pred, x, y in imp:
            if pred == 'eq' and const_int(y) == 0 and isinstance(x, int):
                x = strip(s.f, x)
                if isinstance(x, int) and x not in s.f.inst: add.append(('0', '!', ('V', x)))
        # the same value is not different from itself
        for pred, x, y in imp:
            if pred == 'ne' and isinstance(x, int) and isinstance(y, int):
                k = s.R.key(s.f, x, s.ex, facts, a)
                if k and k == s.R.key(s.f, y, s.ex, facts, a): return False
            if pred == 'eq' and isinstance(x, int) and isinstance(y, int):
                k = s.R.key(s.f, x, s.ex, facts, a); k2 = s.R.key(s.f, y, s.ex, facts, a)
                if k and k2 and k != k2 and (s.has(a, 'f', k) or s.has(a, 'f', k2)): return False
        return add or None
    def n(s, a, k):
        for x in a:
            if x[0] == 'n' and x[2] == k: return x[3]
        return None
    def setn(s, a, k, n):
        a = {x for x in a if not (x[0] == 'n' and x[2] == k)}
        if n is not None: a.add(('n', key_id(k), k, max(n, -4)))      # a loop that keeps a value again and again is no news after the fourth time
        return a
    def has(s, a, t, k): return any(x[0] == t and x[2] == k for x in a)
    def hook(s, I, a, facts, st):
        R, f, ex = s.R, s.f, s.ex
        if I.op == 'call': return s.call(I, a, facts, st)
        if I.op == 'load':
            p = I.ops[0]
            q = p
            if any(x[0] == 's' for x in a):
                e = expr(f, p, 20)
                if ('s', '!', e) in a: a = a - {('s', '!', e)}; r = s.load(I, q, a, facts, st); return a
            return s.load(I, q, a, facts, st)
        if I.op == 'store':
            v, p = I.ops
            q = gepbase(f, p)
            if isinstance(q, int) and not (q in f.inst and f.inst[q].op == 'alloca') and any(x[0] == 'd' for x in a):
                k = R.key(f, q, ex, facts, a)
                if k and s.has(a, 'd', k): s.report('dead', I, st, 'what was released is written to')
            k = R.slot(f, p, ex, facts)
            if k:
                if k[0] == '?': return None
                b = {x for x in a if not (x[0] in ('a', 'n', 'd', 'f') and x[2] == k)}
                kv = R.key(f, v, ex, facts, a) if isinstance(v, int) else None
                if kv and kv != k: b.add(('a', '!', k, kv, I.id))
                return frozenset(b)
            e = expr(f, p, 20)
            b = {x for x in a if not (x[0] == 'r' and x[2] == e)}
            for x in a:
                if x[0] == 'k' and x[5] == e:
                    b.discard(x); b = s.setn(b, x[2], (s.n(b, x[2]) or 0) + 1)
            b = {x for x in b if not (x[0] in ('n', 'd') and x[2] == ('F', e))}
            fl = e[2] if e[0] == 'fld' else None
            b = set(b); b.add(('s', '!', e))
            if e[0] == 'gep' and const_int(v) == 0: b = {x for x in b if not (x[0] == 'r' and x[2][0] == 'gep' and x[2][1] == e[1])}
            if e[0] == 'fld' and const_int(v) == 0: b = {x for x in b if not (x[0] == 'r' and x[4] == e[1])}
            held = fl and R.fields.get(fl) in HELD
            if held and isinstance(v, int) and not weak(fl):
                kv = R.key(f, v, ex, facts, a)
                if kv and kv[0] in 'VS' and not (kv[0] == 'V' and kv[1] in f.inst and f.inst[kv[1]].op == 'load'):
                    n = s.n(a, kv)
                    b = s.setn(b, kv, (n or 0) - 1)
                    b.add(('k', '!', kv, fl, I.id, e))
            if isinstance(v, int):
                kv = R.key(f, v, ex, facts, a)
                b = {x for x in b if not (x[0] == 'a' and x[2] == ('F', e))}
                if kv and held: b = set(b); b.add(('a', '!', ('F', e), kv, I.id))
            b = frozenset(b)
            return b if b != a else None
        return None
    def load(s, I, q, a, facts, st):
        R, f, ex = s.R, s.f, s.ex
        q = gepbase(f, q)
        if isinstance(q, int) and not (q in f.inst and f.inst[q].op == 'alloca') and any(x[0] == 'd' for x in a):
            k = R.key(f, q, ex, facts, a)
            if k and s.has(a, 'd', k): s.report('dead', I, st, 'what was released is read')
        return None
    def addrel(s, b, e, I):
        """a field of a record is released: it has to be overwritten, or the record freed"""
        if ('s', '!', e) in b: return b          # it was moved out of the record before
        if e[0] in ('arg', 'g', 'v'): return b
        r = rootx(e)
        for x in b:
            if x[0] == 'f' and isincall(x[2][1], e): return b
        b = set(b); b.add(('r', '!', e, I.id, basex(e), r))
        return b
    def call(s, I, a, facts, st):
        R, f, ex = s.R, s.f, s.ex
        n = I.callee_name
        b = set(a)
        ops = I.ops
        if n in INC and len(ops) > 1:
            k = R.key(f, ops[1], ex, facts, b)
            if k:
                if s.has(b, 'd', k): s.report('dead', I, st, 'a reference is taken on a value after its last one was given back')
                c = s.n(b, k)
                if (c or 0) < 4: b = s.setn(b, k, (c or 0) + 1)
            return frozenset(b)
        if n in DEC and len(ops) > 1:
            k = R.key(f, ops[1], ex, facts, b)
            return frozenset(s.dec(I, k, b, st, facts))
        if n and n.startswith('llvm.dbg'): return None
        for i in ([FREE[n]] if n in FREE else sorted(R.frees.get(n, ()))):
            if i >= len(ops) or not isinstance(ops[i], int): continue
            k = R.key(f, ops[i], ex, facts, b)
            if not k: continue
            if s.has(b, 'd', k): s.report('twice', I, st, 'memory is freed twice'); continue
            b = {x for x in b if not (x[0] == 'r' and (isin(k[1], x[2]) if k[0] == 'F' else isin(('v', k[1]), x[2]) or isin(('arg', k[1]), x[2]) or isincall(k[1], x[2])))}
            if k[0] == 'F': b = s.addrel(b, k[1], I)
            elif k[0] == 'V' and k[1] in f.inst and f.inst[k[1]].op == 'alloca': pass
            else: b.add(('d', key_id(k), k))
        if n == 'Jsi_DSFree':
            pl = R.slot(f, ops[0], ex, facts) or ('P', expr(f, ops[0], 20))
            for x in list(b):
                if x[0] == 'w' and x[3] == pl: b.add(('d', key_id(x[2]), x[2])); b.discard(x)
            return frozenset(b)
        if n in R.dsptr:
            i = R.dsptr[n]
            if i < len(ops):
                pl = R.slot(f, ops[i], ex, facts) or ('P', expr(f, ops[i], 20))
                if const_int(ops[i]) is None: b.add(('w', I.id, ('V', I.id), pl))
        if n == 'Jsi_StackPop':
            e = expr(f, ops[0], 20)
            for J in f.calls(('Jsi_StackPeek',)):
                if expr(f, J.ops[0], 20) == e: k = ('V', J.id); b = s.setn(b, k, (s.n(b, k) or 0) + 1)
        if n in KEEPCALL and f.name not in WEAKTABLE and KEEPCALL[n] < len(ops) and isinstance(ops[KEEPCALL[n]], int):
            k = R.key(f, ops[KEEPCALL[n]], ex, facts, b)
            if k and k[0] in 'VS' and (s.has(b, 'f', k) or s.n(b, k) is not None or R.isvalue(f, k)):
                b = s.setn(b, k, (s.n(b, k) or 0) - 1)
                b.add(('k', '!', k, 'a table', I.id, None))
        for i, o in enumerate(ops):
            if not isinstance(o, int): continue
            sl = R.slot(f, o, ex, facts)
            if sl:
                if sl[0] == '?': continue
                if n and n.startswith('llvm.mem'):
                    b = {x for x in b if not (x[0] in ('a', 'n', 'd', 'f') and x[2][0] == 'S' and x[2][1] == sl[1])}
                    continue
                # a call that is given the address of a variable may put another value there: the references stay
                for x in list(b):
                    if x[0] == 'a' and x[2] == sl:
                        b.discard(x)
                        kv = x[3]
                        for t in ('n', 'd', 'f'):
                            for y in list(b):
                                if y[0] == t and y[2] == kv:
                                    b.add((t, '!', sl) + y[3:])
                                    if t != 'f' : b.discard(y)
                continue
            if n in FREE or i in R.frees.get(n, ()): continue
            k = R.key(f, o, ex, facts, b)
            if k and s.has(b, 'd', k): s.report('dead', I, st, 'what was released is handed to %s' % n)
            elif any(x[0] == 'd' for x in b):
                k2 = R.key(f, gepbase(f, o), ex, facts, b)
                if k2 and k2 != k and s.has(b, 'd', k2): s.report('dead', I, st, 'what was released is handed to %s' % n)
            if k and R.escapes(n, i): 
                if s.n(b, k) is not None or s.has(b, 'f', k): b.add(('e', key_id(k), k))
        # released fields: given away with the record, or cleared
        for x in list(b):
            if x[0] == 'r':
                e = x[2]
                if n and n.startswith('llvm.mem') and isinstance(ops[0], int) and isin(x[5], expr(f, ops[0], 20)): b.discard(x); continue
                for o in ops:
                    if not isinstance(o, int): continue
                    eo = expr(f, o, 20)
                    if eo == e or (e[0] == 'fld' and eo == e[1]) or (n in ('Jsi_Free', 'free') and isin(eo, e)) or eo == x[4]: b.discard(x); break
        for i, fl in R.rels.get(n, ()):
            if i < len(ops) and isinstance(ops[i], int):
                q = strip(f, ops[i])
                if q in f.inst and f.inst[q].op == 'alloca': continue
                b = s.addrel(b, ('fld', expr(f, ops[i], 20), fl), I)
        if n in INVOKE:
            ai, ri = INVOKE[n]
            if f.name not in INVOKE:
                sl = R.slot(f, ops[ri], ex, facts) if isinstance(ops[ri], int) else None
                if sl and sl[0] == 'S':
                    c = s.n(b, sl)
                    if c is not None: c += sum(1 for x in b if x[0] == 'k' and x[2] == sl)
                    if c is not None and c < 1 or (c is None and s.has(b, 'f', sl)): s.report('slot', I, st, 'the result of a function is put in a value nobody holds')
                k = R.key(f, ops[ai], ex, facts, b)
                if k and s.has(b, 'f', k) and (s.n(b, k) or 0) + sum(1 for x in b if x[0] == 'k' and x[2] == k) < 1: s.report('slot', I, st, 'a function is called with an argument list nobody holds')
        for i, d in R.consumes.get(n, {}).items():
            if i < len(ops):
                k = R.key(f, ops[i], ex, facts, b)
                fl = R.kept.get((n, i))
                if fl is None: b = s.dec(I, k, b, st, facts)
                elif k and k[0] in 'VS' and isinstance(ops[i], int) and const_int(ops[i]) is None:
                    b = s.setn(b, k, (s.n(b, k) or 0) - 1); b.add(('k', '!', k, fl, I.id, None))
        for i, d in R.takes.get(n, {}).items():
            if i < len(ops) and isinstance(ops[i], int):
                k = R.key(f, ops[i], ex, facts, b)
                if k: b = s.setn(b, k, (s.n(b, k) or 0) + d)
        kd = R.kind(I)
        if kd is not None:
            k = ('V', I.id)
            b = {x for x in b if not (x[0] == 'a' and x[3] == k)}
            if kd: b.add(('n', I.id, k, kd))
            b.add(('f', I.id, k))
        b = frozenset(b)
        return b if b != a else None
    def dec(s, I, k, b, st, facts):
        R, f = s.R, s.f
        if not k: return b
        if s.has(b, 'd', k): s.report('twice', I, st, 'a reference is given back that is held no more'); return b
        c = s.n(b, k)
        fresh = s.has(b, 'f', k)
        if (c or 0) > 0:
            b = s.setn(b, k, c - 1 if c > 1 else (0 if fresh else None))
            if c == 1 and fresh and not s.has(b, 'e', k): b = set(b); b.add(('d', key_id(k), k))
            return b
        if fresh:
            b = set(b)
            if not s.has(b, 'e', k): b.add(('d', key_id(k), k))
            elif c == 0 or c is None: 
                if not s.has(b, 'z', k): b.add(('z', key_id(k), k))
                else: s.report('twice', I, st, 'more references are given back than were taken')
            return b
        # borrowed
        if k[0] == 'F':
            return s.addrel(b, k[1], I)
        if k[0] == 'V' and k[1] not in f.inst:
            b = s.setn(b, k, (c or 0) - 1)
            return b
        if k[0] == 'S': return b
        J = f.inst.get(k[1]) if k[0] == 'V' else None
        if J is None or J.op != 'call' or J.callee_name not in R.lookups and J.callee_name not in ('Jsi_StackPeek','Jsi_HashValueGet','Jsi_TreeValueGet','Jsi_HashGet','Jsi_TreeGet'): return b
        s.report('borrowed', I, st, 'a reference is given back that was not taken')
        return b
    def atret(s, I, a, facts, st):
        f = s.f
        rv = None
        for x in a:
            if x[0] == 'd' and x[2][0] == 'V' and x[2][1] not in f.inst: s.dead.setdefault(st, set()).add(x[2][1])
        s.allrets.append((st, {i for i in range(f.nargs) if s.has(a, '0', ('V', i))}, {x[2][1] for x in a if x[0] == 'd' and x[2][0] == 'V' and x[2][1] not in f.inst}))
        if I.ops: rv = s.R.key(f, I.ops[0], s.ex, facts, a)
        s.took.append({x[2][1]: x[3] for x in a if x[0] == 'n' and x[3] > 0 and x[2][0] == 'V' and x[2][1] not in f.inst})
        for x in a:
            if x[0] == 'n' and x[3] < 0 and x[2] != rv:
                k = x[2]
                kept = sorted((y for y in a if y[0] == 'k' and y[2] == k), key=str)
                if kept and k[0] == 'V' and k[1] not in f.inst and f.name in s.R.inner:
                    s.cons[k[1]] = min(s.cons.get(k[1], 0), x[3]); s.keptp[k[1]] = kept[0][3]
                elif kept: 
                    s.report('keep', f.inst[kept[0][4]], st, 'a value is kept in %s without a reference' % kept[0][3])
                elif k[0] == 'V' and k[1] not in f.inst:
                    s.cons[k[1]] = min(s.cons.get(k[1], 0), x[3])
            if x[0] == 'r':
                s.rel.add((x[3], x[2]))
            if x[0] == 'n' and x[3] > 0 and x[2] != rv and not s.has(a, 'e', x[2]) and not s.has(a,'k',x[2]):
                s.bad.setdefault(('leak', x[2]), (I, st, 'leak %s' % (x[2],)))

class Groups:
    """values of a function that may be one another: through variables, joins and fields"""
    def __init__(s, R, f):
        s.up = {}; s.f = f
        def mem(p):
            b = gepbase(f, p)
            if isinstance(b, int) and b in f.inst and f.inst[b].op == 'alloca': return ('S', b)
            return ('F', expr(f, p, 20))
        for I in f.insts():
            if I.op in ('phi', 'select'):
                for o in I.ops[I.op == 'select':]:
                    if isinstance(o, int): s.join(I.id, o)
            elif I.op in CASTS and isinstance(I.ops[0], int): s.join(I.id, I.ops[0])
            elif I.op == 'load': s.join(I.id, mem(I.ops[0]))
            elif I.op == 'store' and isinstance(I.ops[0], int): s.join(I.ops[0], mem(I.ops[1]))
            elif I.op == 'call' and I.callee_name in R.dsptr:
                i = R.dsptr[I.callee_name]
                if i < len(I.ops): s.join(I.id, mem(I.ops[i]))
    def find(s, x):
        r = x
        while s.up.get(r, r) != r: r = s.up[r]
        while s.up.get(x, x) != r: s.up[x], x = r, s.up[x]
        return r
    def join(s, a, b):
        a, b = s.find(a), s.find(b)
        if a != b: s.up[a] = b
    def of(s, k):
        if k[0] == 'V': return s.find(k[1])
        if k[0] == 'S': return s.find(('S', k[1]))
        return s.find(('F', k[1]))

def before(f, a, b):
    """instruction a ran before b, not after it"""
    if f.dominates(a, b): return True
    if a.bb == b.bb and b.idx < a.idx: return False
    if not hasattr(f, '_reachc'): f._reachc = {}
    if b.bb not in f._reachc: f._reachc[b.bb] = f.reach(b.bb)
    return a.bb not in f._reachc[b.bb]

def gepbase(f, a):
    a = strip(f, a)
    while isinstance(a, int) and a in f.inst and f.inst[a].op == 'getelementptr': a = strip(f, f.inst[a].ops[0])
    return a

def isincall(v, e):
    """does an expression contain the result of this call"""
    if isinstance(e, tuple):
        if len(e) == 3 and e[0] == 'call' and e[2] == v: return True
        return any(isincall(v, y) for y in e)
    return False

def basex(e):
    return e[1] if isinstance(e, tuple) and len(e) > 1 else None

def rootx(e):
    """the pointer an element address is computed from"""
    while isinstance(e, tuple) and e and e[0] in ('gep', 'fld'): e = e[1]
    return e

def isin(x, e):
    if x == e: return True
    return isinstance(e, tuple) and any(isin(x, y) for y in e)

def escapes_of(p):
    """(function, parameter) pairs that may keep what they are given"""
    esc = {}
    for f in p.funcs.values():
        if f.decl: continue
        esc[f.name] = set()
    def derived(f, i):
        out = {i}; w = [i]
        while w:
            v = w.pop()
            for u in f.users.get(v, ()):
                if u.op in CASTS or u.op in ('phi', 'select'):
                    if u.id not in out: out.add(u.id); w.append(u.id)
        return out
    dv = {}
    ch = True
    while ch:
        ch = False
        for f in p.funcs.values():
            if f.decl: continue
            for i, (an, t) in enumerate(f.args):
                if t != 'ptr' or i in esc[f.name]: continue
                d = dv.get((f.name, i))
                if d is None: d = dv[f.name, i] = derived(f, i)
                hit = False
                for v in d:
                    for u in f.users.get(v, ()):
                        if u.op == 'store' and u.ops[0] == v: hit = True
                        elif u.op == 'call' and u.callee_name not in INC and u.callee_name not in DEC:
                            n = u.callee_name
                            if n is None or n not in p.funcs: hit = True
                            elif p.funcs[n].decl: hit = hit or not n.startswith(('llvm.', 'str', 'mem', 'sn', 'print', 'fprint'))
                            else: hit = hit or any(strip(f, o) == v and j in esc[n] for j, o in enumerate(u.ops))
                        elif u.op == 'ret': hit = True
                    if hit: break
                if hit: esc[f.name].add(i); ch = True
    return esc

def setup(c, inl=0):
    p = c.prog(inl, tuple(sorted(INC | DEC | ONE | set(INVOKE)))) if inl else c.prog(0)
    R = Refs(c, p)
    R.rk = build_kinds(c, p)
    R.consumes = {}
    R.frees = {}; R.rels = {}; R.kept = {}; R.takes = {}
    at = p.addr_taken(); callers = p.callers()
    R.inner = {f.name for f in p.funcs.values() if not f.decl and callers.get(f.name) and f.name not in at}
    R.dsptr = build_dsptr(p)
    R.lookups = build_lookups(p, R.rk)
    esc = escapes_of(p)
    R.escapes = lambda n, i: n is None or n not in p.funcs or (p.funcs[n].decl and not n.startswith('llvm.')) or i in esc.get(n, ())
    return p, R

def relevant(R, f):
    for I in f.insts():
        if I.op == 'call' and (I.callee_name in FREE or I.callee_name in R.frees or I.callee_name in KEEPCALL or I.callee_name == 'Jsi_DSFree'): return True
        if I.op == 'call' and (I.callee_name in INC or I.callee_name in DEC or I.callee_name in INVOKE or R.rk.get(I.callee_name) is not None or I.callee_name in R.consumes): return True
        if I.op == 'store':
            sf = store_field(f, I)
            if sf and R.fields.get(sf[0]) in HELD: return True
    return False

def events(R, f):
    """the operands references are taken on, given back, freed or made"""
    for I in f.insts():
        if I.op == 'call':
            n = I.callee_name
            if (n in INC or n in DEC) and len(I.ops) > 1: yield I.ops[1]
            if R.kind(I) is not None: yield I.id
            for i in ([FREE[n]] if n in FREE else R.frees.get(n, ())):
                if i < len(I.ops): yield I.ops[i]
            for i in R.consumes.get(n, ()):
                if i < len(I.ops): yield I.ops[i]
            if n in KEEPCALL and KEEPCALL[n] < len(I.ops): yield I.ops[KEEPCALL[n]]
            if n in INVOKE:
                for i in INVOKE[n]:
                    if i < len(I.ops): yield I.ops[i]
            if n == 'Jsi_DSFree': yield ('S', gepbase(f, I.ops[0]))
            if n in R.rels:
                for i, fl in R.rels[n]:
                    if i < len(I.ops) and isinstance(I.ops[i], int): yield ('F', ('fld', expr(f, I.ops[i], 20), fl))
        elif I.op == 'store':
            sf = store_field(f, I)
            if sf and R.fields.get(sf[0]) in HELD: yield I.ops[0]

class Res:
    """what was found out about one function"""
    def __init__(s):
        s.bad = {}; s.cons = {}; s.rel = {}; s.frees = set(); s.keptp = {}; s.takes = {}; s.skipped = 0; s.events = 0; s.groups = 1; s.states = 0
    def add(s, f, b):
        for k, (I, st, msg) in b.bad.items(): s.bad.setdefault(k, (I.id, trail(b, st), msg))
        for i, d in b.cons.items(): s.cons[i] = min(s.cons.get(i, 0), d)
        for iid, e in b.rel: s.rel[iid, e] = 1
        s.frees |= {i for i in range(f.nargs) if any(i in d for _, _, d in b.allrets) and all(i in d or i in z for _, z, d in b.allrets)}
        s.states += b.ex.nstates
        s.keptp.update(b.keptp)
        for i in range(f.nargs):
            m = min([t.get(i, 0) for t in b.took] or [0])
            if m > 0: s.takes[i] = max(m, s.takes.get(i, 0))

def trail(b, st):
    return 'path: ' + ' '.join(str(x) for x in b.ex.trace(st)[-40:])

LIMITS = (20000, 40000)

def explore(R, f):
    r = Res()
    try:
        b = Body(R, f); b.run(); r.add(f, b); return r
    except paths.TooBig: pass
    g = Groups(R, f)
    gs = []
    for v in events(R, f):
        if isinstance(v, int): v = g.find(v)
        elif isinstance(v, tuple) and v and v[0] in ('S', 'F'): v = g.find(v)
        else: continue
        if v not in gs: gs.append(v)
    r.groups = len(gs)
    for o in gs:
        for full in (True, False):
            try:
                b = Body(R, f, g, o); b.limit = LIMITS[not full]; b.run(full); r.add(f, b); break
            except paths.TooBig: pass
        else: r.skipped += 1
    return r

_P = None
def work(n):
    p, R = _P
    f = p.funcs[n]
    import time; t = time.time(); r = explore(R, f); r.t = time.time() - t
    return n, r

def solve(c, p, R, only=None, maxrounds=6):
    global _P
    import multiprocessing, os
    todo = {f.name for f in p.funcs.values() if not f.decl and f.name not in DEC | INC and f.name != 'yyparse'} if only is None else set(only)
    res = {}; callers = p.callers(); rounds = 0
    _P = (p, R)
    mp = multiprocessing.get_context('fork')
    late = {n for n in todo if sum(len(b) for b in p.funcs[n].blocks) > 900}     # long ones once, with what the others turned out to do
    last = set(late); todo -= late
    while (todo or last) and rounds < maxrounds:
        rounds += 1; nxt = set()
        if not todo: todo, last = last, set()
        names = [n for n in todo if relevant(R, p.funcs[n])]
        names.sort(key=lambda n: (-sum(len(b) for b in p.funcs[n].blocks), n))
        if len(names) > 1:
            with mp.Pool(min(8, os.cpu_count() or 1)) as pool: out = list(pool.imap_unordered(work, names, 1))
        else: out = [work(n) for n in names]
        for n, b in sorted(out, key=lambda x: x[0]):
            f = p.funcs[n]
            res[n] = b
            fr = b.frees
            cons = {i: d for i, d in b.cons.items() if i not in fr}
            rl = tuple(sorted({(e[1][1], e[2]) for _, e in b.rel if e[0] == 'fld' and e[1][0] == 'arg'}))
            tk = {i: d for i, d in b.takes.items() if n in R.inner}
            kp = {i: R.kept.get((n, i)) for i in b.keptp}
            if fr != R.frees.get(n, set()) or cons != R.consumes.get(n, {}) or rl != R.rels.get(n, ()) or tk != R.takes.get(n, {}) or kp != b.keptp:
                R.frees[n] = fr; R.consumes[n] = cons; R.rels[n] = rl; R.takes[n] = tk
                for i, fl in b.keptp.items(): R.kept[n, i] = fl
                nxt |= {J.fn.name for J in callers.get(n, [])}
        last |= nxt & late; nxt -= late
        todo = {n for n in nxt if n in p.funcs and not p.funcs[n].decl and n not in DEC | INC and n != 'yyparse'}
    return res

def relfield(e):
    while isinstance(e, tuple) and e and e[0] == 'gep': e = e[1]
    if e[0] == 'ld': e = e[1]
    return e[2] if isinstance(e, tuple) and e[0] == 'fld' else None

def reports(p, R, res):
    """(rule, function, what) -> (place, message, trail)"""
    out = {}
    for n, b in sorted(res.items()):
        f = p.funcs[n]
        for (rule, i), (I, tr, msg) in sorted(b.bad.items(), key=str):
            if rule == 'leak' or n in BORROW and rule == 'borrowed': continue
            out.setdefault((rule, n, f.inst[I].where(), msg), tr)
        for iid, e in sorted(b.rel, key=str):
            if e[0] == 'fld' and e[1][0] == 'arg': continue
            fl = relfield(e)
            if fl is None or fl in SPENT or e[0] == 'gep': continue
            out.setdefault(('rel', n, f.inst[iid].where(), 'what %s refers to is given back, but the field goes on referring to it' % fl), '')
    return out

RULES = {
    'twice': 'twice: on no path a reference counted value, or a block of memory, is given back or freed again after it was given back for good',
    'dead': 'dead: what was freed (or given back with the only reference to it), and the text of a dynamic string that was freed, is not read, written or handed on afterwards',
    'borrowed': 'borrowed: a value looked up in a container, an array or a record is not given back without a reference having been taken on it',
    'keep': 'keep: a value stored in a record or a table that outlives the function has a reference taken for it (fields that do not count are listed with the reason)',
    'slot': 'slot: the result of a script function is put in a value somebody holds, and its argument list is held, while it runs',
    'rel': 'rel: a field whose value is given back, or whose memory is freed, is overwritten before the function returns, or the record goes too',
}

def run(c):
    p, R = setup(c)
    for r in RULES.values(): c.rule(r)
    c.need(len(R.dsptr) >= 3 and len(R.lookups) >= 4 and len(R.rk) >= 12, 'the functions that make, look up and return values were not recognised: %d %d %d' % (len(R.dsptr), len(R.lookups), len(R.rk)))
    res = solve(c, p, R)
    rep = reports(p, R, res)
    nf = set()
    if rep:
        p2, R2 = setup(c, 400)
        R2.frees, R2.rels, R2.consumes, R2.takes, R2.kept = R.frees, R.rels, R.consumes, R.takes, R.kept
        at = {k[2] for k in rep}
        res2 = solve(c, p2, R2, {f.name for f in p2.funcs.values() if not f.decl and f.name not in DEC | INC and any(I.where() in at for I in f.insts())}, 2)
        rep2 = reports(p2, R2, res2)
        at2 = {(k[0], k[2]) for k in rep2}
        for n, b in res2.items():
            if b.skipped: at2 |= {(r, I.where()) for r in RULES for I in p2.funcs[n].insts()}
        nf = {k for k in rep if (k[0], k[2]) not in at2}
    for n, b in sorted(res.items()):
        f = p.funcs[n]
        bad = [k for k in rep if k[1] == n and k not in nf]
        ev = list(events(R, f))
        c.count('functions followed along every path'); c.count('references taken, given back, made, kept or freed', len(ev))
        c.count('groups of connected values followed', b.groups - b.skipped); c.count('states', b.states)
        if b.skipped: c.count('groups of connected values too entangled to follow (not decided)', b.skipped); c.notes.append('%s: %d of %d groups of values not decided' % (n, b.skipped, b.groups))
        for r in RULES:
            x = [k for k in bad if k[0] == r]
            if not x: c.ob(True, '%s:%s' % (r, n), '%s (%s)' % (f.blocks[0][0].where(), n), '')
            for k in x: c.ob(False, '%s:%s' % (r, n), k[2], '%s: %s' % (n, k[3]), rep[k])
    for k, why in sorted(list(WEAK.items()) + list(WEAKTABLE.items()) + list(SPENT.items()) + list(BORROW.items())): c.notes.append('%s: %s' % (k, why))
    c.floor('functions followed along every path', 430); c.floor('references taken, given back, made, kept or freed', 2000)

