"""C10: containers do not share the values they hold."""
from ir import *
import paths

# calls that put a value in a container: position of the value
SINK = {'Jsi_ValueInsert': 3, 'Jsi_ObjInsert': 3, 'jsi_ObjValInsert': 3, 'Jsi_ValueInsertArray': 3, 'Jsi_ObjArrayAdd': 2, 'Jsi_ObjArraySet': 2,
        'jsi_TreeObjSetValue': 2, 'Jsi_TreeObjSetValue': 2, 'Jsi_ValueArrayPush': 2, 'Jsi_ValueReplace': 2, 'jsi_ValueObjSet': 3, 'Jsi_HashValueSet': None}
SINK = {k: v for k, v in SINK.items() if v is not None}
# calls that build a container from a list of values: list, copy flag (None: always shares)
LIST = {'Jsi_ObjNewArray': (1, 3), 'Jsi_ValueNewArrayObj': (1, 3)}
# calls that run a function with a list of arguments
INVOKE = {'Jsi_FunctionInvoke': 2, 'jsi_FuncCallSub': 1}
# calls that hand out a value a container goes on holding
SRC = {'Jsi_ValueArrayIndex', 'Jsi_TreeValueGet', 'Jsi_TreeObjGetValue', 'Jsi_ValueObjLookup', 'jsi_ValueSubscript', 'Jsi_TreeGet', 'Jsi_NameLookup', 'Jsi_VarLookup', 'jsi_ValueObjKeyAssign'}
CONV = {'Jsi_ValueToNumber': 1, 'Jsi_ValueToString': 1, 'Jsi_ValueToBool': 1, 'Jsi_ValueToObject': 1, 'jsi_ValueToPrimitive': 1}
COPYFN = {'Jsi_ValueDup', 'Jsi_ValueNew', 'Jsi_ValueNew1'}
ELEM = 'elem'

def run(c):
    keep = SRC | set(SINK) | set(LIST) | set(INVOKE) | set(CONV) | COPYFN
    p = c.prog(400, tuple(sorted(keep)))
    c.rule('a value taken out of an array, object, scope or structure is stored in another container, or listed as an argument of a call, only as a copy')
    c.rule('a call never runs with an array of the script as its argument list')
    c.rule('a value that stays in a container is not converted to another type where it is')
    a = An(c, p)
    a.solve()
    a.report()

def gepbase(f, a):
    while isinstance(a, int) and a in f.inst and f.inst[a].op == 'getelementptr': a = f.inst[a].ops[0]
    return a

def reaching(f, L, slot):
    """the stores to a local that a load of it may see"""
    out = []; seen = set()
    def back(b, k):
        ins = f.blocks[b]
        for J in reversed(ins[:k] if k is not None else ins):
            if J.op == 'store' and J.ops[1] == slot: out.append(J); return
        for q in f.preds[b]:
            if q not in seen: seen.add(q); back(q, None)
    for b, ins in enumerate(f.blocks):
        for k, J in enumerate(ins):
            if J is L: back(b, k); return out
    return out

class An:
    def __init__(s, c, p):
        s.c, s.p = c, p
        s.src = set(SRC)
        s.fresh = {}
        s.memo = {}
    def iscmd(s, f):
        """functions called with their own copy of the arguments: the signature of a command"""
        return f.nargs in (5, 6) and f.name in s.cmds
    def origins(s, f, v, seen=frozenset()):
        v = strip(f, v)
        if not isinstance(v, int): return set()
        if v in seen: return set()
        seen = seen | {v}
        if v not in f.inst: return {('arg', v)}
        I = f.inst[v]
        if I.op in ('phi', 'select'):
            r = set()
            for o in I.ops[I.op == 'select':]: r |= s.origins(f, o, seen)
            return r
        if I.op == 'call': return {('call', I.callee_name, I.id)}
        if I.op == 'load':
            a = I.ops[0]
            if isinstance(a, int) and a in f.inst and f.inst[a].op == 'alloca':
                r = set()
                for J in reaching(f, I, a): r |= s.origins(f, J.ops[0], seen)
                return r
            e = expr(f, a, 20)
            if e[0] == 'gep' and "'Jsi_Obj.arr'" in str(e): return {('arr', I.id)}
            if e[0] == 'fld' and e[2] == 'Jsi_Obj.arr': return {('arr0', I.id)}
            if e[0] == 'fld': return {('fld', e[2], I.id)}
            b = gepbase(f, a)
            if b != a and isinstance(strip(f, b), int) and strip(f, b) not in f.inst: return {('list', I.id)}
            return {('ld', I.id)}
        return {('?', I.op)}
    def ownarg(s, f, o):
        """element of the command's own argument list"""
        if o[0] != 'call' or o[1] != 'Jsi_ValueArrayIndex' or not (f.name in s.cmds or f.name in INVOKE): return False
        os = s.origins(f, f.inst[o[2]].ops[1])
        return os == {('arg', INVOKE.get(f.name, 1))}
    def localarr(s, f, v):
        """an array made in this function: every origin of the value or object that holds it is a constructor"""
        os = s.origins(f, v)
        return bool(os) and all(o[0] == 'call' and o[1] in ('Jsi_ValueNewArrayObj', 'Jsi_ObjNewArray', 'Jsi_ValueMakeObject', 'Jsi_ObjNewType', 'Jsi_ValueNewObj', 'Jsi_ObjNew', 'Jsi_ValueMakeArrayObject', 'Jsi_ValueArrayConcat') for o in os)
    def shared(s, f, o, null=False):
        """does this origin designate a value some container goes on holding"""
        if o[0] == 'call':
            if o[1] not in s.src: return None
            if s.ownarg(f, o): return None
            if o[1] == 'Jsi_ValueArrayIndex' and s.localarr(f, f.inst[o[2]].ops[1]): return None
            return o[1]
        if o[0] == 'fld' and null and (o[1] == 'Jsi_Interp.NullValue' or not o[1].startswith('Jsi_Interp.')) and not o[1].startswith('?'): return o[1]
        if o[0] == 'list': return 'an element of the list given'
        if o[0] in ('arr', 'arr0'):
            b = s.arrobj(f, o[1])
            if b is not None and s.localarr(f, b): return None
            return 'array element'
        return None
    def arrobj(s, f, i):
        """the object (or the value that holds it) an element is loaded from"""
        a = gepbase(f, f.inst[i].ops[0]); hops = 0
        while isinstance(a, int) and a in f.inst and hops < 6:
            J = f.inst[a]; hops += 1
            if J.op == 'load':
                e = expr(f, J.ops[0], 4); a2 = gepbase(f, J.ops[0])
                if e[0] == 'fld' and e[2] in ('Jsi_Obj.arr', 'Jsi_Value.d'):
                    a = a2; continue
                return a
            if J.op in ('phi', 'select'):
                # a list kept in a local: all ways lead to the same kind of base
                return None if len(set(J.ops)) > 1 else J.ops[0]
            return a
        return a
    def solve(s):
        p = s.p
        s.cmds = set()
        for gn, g in p.globals.items():
            if 'Jsi_CmdSpec' in g.get('dt', ''):
                for r in p.structarray(gn):
                    if r.get('proc', ('n',))[0] == 'f': s.cmds.add(r['proc'][1])
        # commands hand their arguments on to shared bodies
        ch = True
        while ch:
            ch = False
            for f in p.funcs.values():
                if f.decl or f.name in s.cmds or f.name in p.addr_taken(): continue
                cs = p.callers().get(f.name, [])
                if f.nargs >= 4 and cs and all(J.fn.name in s.cmds and len(J.ops) > 2 and strip(J.fn, J.ops[1]) == 1 for J in cs): s.cmds.add(f.name); ch = True
        for f in p.funcs.values():   # made into a function value directly
            if not f.decl and f.nargs == 5 and f.name in p.addr_taken(): s.cmds.add(f.name)
        # parameters that end up in a container, are converted, or are run as an argument list
        s.psink = {}; s.pelem = {}
        ch = True
        while ch:
            ch = False
            for f in p.funcs.values():
                if f.decl: continue
                for kind, I, k in s.uses(f):
                    tab = {'sink': s.psink, 'conv': None, 'run': None, 'elemconv': s.pelem}.get(kind)
                    prim = f.name in SINK or f.name in CONV or f.name in SRC or f.name in COPYFN or f.name in s.cmds
                    for o in s.origins(f, I.ops[k]):
                        if tab is not None and o[0] == 'arg' and not prim and o[1] not in tab.setdefault(f.name, set()): tab[f.name].add(o[1]); ch = True
                        # conversion of an element of a list given as parameter
                        if kind == 'conv' and o[0] == 'call' and o[1] == 'Jsi_ValueArrayIndex' and f.name not in s.cmds:
                            for q in s.origins(f, f.inst[o[2]].ops[1]):
                                if q[0] == 'arg' and not prim and q[1] not in s.pelem.setdefault(f.name, set()): s.pelem[f.name].add(q[1]); ch = True
    def uses(s, f):
        for I in f.insts():
            if I.op != 'call': continue
            n = I.callee_name
            if n in SINK: yield 'sink', I, SINK[n]
            elif n in CONV: yield 'conv', I, CONV[n]
            elif n in INVOKE: yield 'run', I, INVOKE[n]
            else:
                for k in s.psink.get(n, ()): yield 'sink', I, k
                for k in s.pelem.get(n, ()): yield 'elemconv', I, k
    def repeated(s, f, I, v):
        """an object made once is stored again by each round of a loop"""
        bi = next(b for b, ins in enumerate(f.blocks) if I in ins)
        os = [o for o in s.origins(f, v) if isinstance(o[-1], int)]
        # a value merged on the way is a new one
        ids = {o[-1] for o in os}; work = [strip(f, v)]
        while work:
            x = work.pop()
            if isinstance(x, int) and x in f.inst and x not in ids and f.inst[x].op in ('phi', 'select'): ids.add(x); work += [strip(f, y) for y in f.inst[x].ops]
        bar = {b for b, ins in enumerate(f.blocks) if any(J.id in ids and J.op != 'store' for J in ins)}
        for o in os:
            if o[0] != 'call': continue
            n = o[1]
            if not (n in s.src or n in COPYFN or n and n.startswith('Jsi_ValueNew')): continue
            D = f.inst[o[2]]
            bd = next(b for b, ins in enumerate(f.blocks) if D in ins)
            if bi in bar: continue
            seen = set(); work = list(f.succs[bi])
            while work:
                b = work.pop()
                if b == bi: return n
                if b in seen or b in bar: continue
                seen.add(b); work += f.succs[b]
        return None
    def onpath(s, f, I, k, bad):
        """the values stored on each path, when the stored value was merged from several"""
        vals = set(); phis = set(); work = [strip(f, I.ops[k])]
        while work:
            v = work.pop()
            if isinstance(v, int) and v in f.inst and f.inst[v].op == 'phi' and v not in phis: phis.add(v); work += [strip(f, o) for o in f.inst[v].ops]
        loads = {o[-1] for o in s.origins(f, I.ops[k]) if o[0] in ('fld', 'call', 'arr', 'arr0', 'list')}
        def hook(J, a, facts, st):
            if J is I and not any(x[0] == 'nz' and ('z', x[1]) in a for x in a): vals.add(strip(f, ex.resolve(strip(f, J.ops[k]), facts)))
            return None
        def atoms(imp, cur, facts):
            out = []
            for pred, a, b in imp:
                if pred in ('eq', 'ne') and isinstance(a, int) and (b == ('n',) or const_int(b) == 0):
                    v = strip(f, ex.resolve(a, facts))
                    if v in loads: out.append(('nz' if pred == 'ne' else 'z', v))
            return out
        ex = paths.Explorer(f, edge_atoms=atoms, inst=hook, track=phis, correlate=False)
        ex.run()
        out = []
        for v in vals: out += [w for w in (s.shared(f, o, True) for o in s.origins(f, v)) if w]
        return out
    def items(s, f, I, a):
        """values put in the local list a call builds a container from; None when it is not a local list"""
        b = strip(f, gepbase(f, strip(f, a)))
        J = f.inst.get(b) if isinstance(b, int) else None
        roots = {b}
        if J is not None and J.op == 'phi': roots |= {strip(f, o) for o in J.ops}
        out = []; known = J is not None and J.op == 'alloca'
        for K in f.insts():
            if K.op == 'store' and strip(f, gepbase(f, K.ops[1])) in roots: out.append(K); known = True
        return out if known else None
    def report(s):
        c, p = s.c, s.p
        def ob(ok, kind, I, what, why):
            c.ob(ok, '%s:%s:%s' % (kind, I.fn.name, what), '%s in %s' % (I.where(), I.fn.name), why)
        for f in sorted(p.funcs.values(), key=lambda f: f.name):
            if f.decl or f.name in SINK or f.name in COPYFN: continue
            for kind, I, k in s.uses(f):
                os = s.origins(f, I.ops[k])
                if kind == 'sink':
                    c.count('values stored by a call')
                    bad = [x for x in (s.shared(f, o, True) for o in os if not (I.callee_name == 'Jsi_ValueReplace' and o[0] == 'list')) if x]
                    if f.name in SRC: bad = []
                    if bad and I.ops[k] in f.inst and f.inst[I.ops[k]].op == 'phi': bad = s.onpath(f, I, k, bad)
                    r = s.repeated(f, I, I.ops[k])
                    if r and f.name not in SRC: bad = bad + ['%s, the same in each round of a loop' % r]
                    ob(not bad, 'store', I, I.callee_name, 'a value another container holds is stored without a copy (%s)' % ', '.join(sorted(set(bad))))
                elif kind in ('conv',):
                    c.count('conversions in place')
                    bad = [x for x in (s.shared(f, o) for o in os) if x and not s.elemparam(f, os)]
                    if f.name in CONV: bad = []
                    ob(not bad, 'convert', I, I.callee_name, 'a value that stays in a container is converted where it is (%s)' % ', '.join(sorted(set(bad))))
                elif kind == 'elemconv':
                    bad = [o for o in os if not (o == ('arg', 1) and f.name in s.cmds) and not (o[0] == 'arg' and o[1] in s.pelem.get(f.name, ())) and not (o[0] == 'call' and o[1] not in s.src) ]
                    c.count('conversions of arguments')
                    ob(not bad, 'convert', I, I.callee_name, 'elements of a list that is not the own argument list are converted where they are')
                elif kind == 'run':
                    c.count('calls with an argument list')
                    bad = [o for o in os if o[0] in ('arr', 'arr0') or o[0] == 'call' and o[1] in s.src]
                    ob(not bad, 'run', I, I.callee_name, 'a function is run with an array that belongs to the script as its argument list')
            for I in f.insts():
                if I.op == 'call' and I.callee_name in LIST:
                    li, ci = LIST[I.callee_name]
                    if const_int(I.ops[ci]) == 1 or const_int(I.ops[li]) == 0 or const_int(I.ops[2]) == 0: continue
                    if strip(f, I.ops[li]) not in f.inst: continue     # passed on: decided at the callers
                    st = s.items(f, I, I.ops[li])
                    c.count('lists made into containers')
                    if st is None:
                        if s.argobj(f, I): continue
                        ob(False, 'list', I, I.callee_name, 'values held elsewhere are made into a container without a copy'); continue
                    bad = []
                    for K in st:
                        os = s.origins(f, K.ops[0])
                        hasnew = any(o[0] == 'call' and o[1] not in s.src for o in os)
                        for o in os:
                            w = s.shared(f, o) or (o[1] if o[0] == 'fld' else None)
                            if w == 'Jsi_Interp.NullValue' and hasnew: w = None   # stands for an argument that is not passed
                            if w: bad.append('%s at %s' % (w, K.where()))
                    ob(not bad, 'list', I, I.callee_name, 'a value held elsewhere is made part of a new container without a copy (%s)' % ', '.join(bad))
                if I.op == 'store' and isinstance(I.ops[0], int):
                    e = expr(f, I.ops[1], 20)
                    if e[0] not in ('gep', 'fld') or "'Jsi_Obj.arr'" not in str(e): continue
                    if e[0] == 'fld' and e[2] != 'Jsi_Obj.arr': continue
                    b = gepbase(f, I.ops[1]); J = f.inst.get(b) if isinstance(b, int) else None
                    if J is None or J.op != 'load': continue
                    os = s.origins(f, I.ops[0])
                    c.count('element stores')
                    bad = []
                    for o in os:
                        w = s.shared(f, o)
                        if not w: continue
                        if o[0] == 'list' and f.name in LIST and s.nocopy(f, I, LIST[f.name][1]): continue
                        if o[0] in ('arr', 'arr0') and s.move(f, I, o[1]): continue
                        if o[1] == 'Jsi_TreeValueGet' and s.treemove(f, f.inst[o[2]]): continue
                        bad.append(w)
                    r = s.repeated(f, I, I.ops[0])
                    if r: bad = bad + ['%s, the same in each round of a loop' % r]
                    ob(not bad, 'element', I, 'store', 'an array gets the value another container holds (%s)' % ', '.join(sorted(set(bad))))
        c.floor('values stored by a call', 60); c.floor('conversions in place', 30); c.floor('lists made into containers', 25); c.floor('element stores', 12); c.floor('calls with an argument list', 30)
    def elemparam(s, f, os):
        """all shared origins are elements of a parameter: decided at the callers"""
        if f.name in s.cmds: return False
        ok = False
        for o in os:
            if o[0] == 'call' and o[1] == 'Jsi_ValueArrayIndex':
                qs = s.origins(f, f.inst[o[2]].ops[1])
                if qs and all(q[0] == 'arg' and q[1] in s.pelem.get(f.name, ()) for q in qs): ok = True; continue
            if s.shared(f, o): return False
        return ok
    def argobj(s, f, I):
        """the arguments object: made once per call from the arguments, which it shares by design"""
        for J in f.insts():
            if J.op == 'store':
                e = expr(f, J.ops[1], 4)
                if e[0] == 'fld' and e[2].endswith('.arguments') and 'Frame' in e[2]:
                    for o in s.origins(f, J.ops[0]):
                        if o[0] == 'call' and any(strip(f, x) == I.id for x in f.inst[o[2]].ops): return True
        return False
    def move(s, f, I, ld):
        """the element leaves its old place: same array, or the old slot is cleared"""
        L = f.inst[ld]
        src = s.arrobj(f, ld); b = gepbase(f, I.ops[1])
        dst = s.base(f, b)
        if dst is not None and str(expr(f, src, 20) if isinstance(src, int) else src) == str(expr(f, dst, 20) if isinstance(dst, int) else dst): return True
        for K in f.insts():
            if K.op == 'store' and const_int(K.ops[0]) == 0 and str(expr(f, K.ops[1], 20)) == str(expr(f, L.ops[0], 20)): return True
        return False
    def nocopy(s, f, I, k):
        """reached only when the copy flag is off"""
        bad = []
        def atoms(imp, cur, facts):
            return [('off',) for pred, a, b in imp for x, y in ((a, b), (b, a)) if pred == 'eq' and const_int(y) == 0 and isinstance(x, int) and strip(f, x) == k]
        def hook(J, a, facts, st):
            if J is I and ('off',) not in a: bad.append(st)
            return None
        paths.Explorer(f, edge_atoms=atoms, inst=hook).run()
        return not bad
    def base(s, f, a):
        hops = 0
        while isinstance(a, int) and a in f.inst and hops < 6:
            J = f.inst[a]; hops += 1
            if J.op == 'load':
                e = expr(f, J.ops[0], 4)
                if e[0] == 'fld' and e[2] in ('Jsi_Obj.arr', 'Jsi_Value.d'): a = gepbase(f, J.ops[0]); continue
            return a
        return a
    def treemove(s, f, I):
        """the entry is marked as moved to the list of the array, and is deleted by the walk that follows"""
        for K in f.insts():
            if K.op == 'store':
                bs = bitfield_store(f, K)
                if bs and 'isarrlist' in str(bs[1]): return True
                e = expr(f, K.ops[1], 4)
                if e[0] == 'fld' and e[2] == 'Jsi_TreeEntry.f' and strip(f, gepbase(f, K.ops[1])) == strip(f, I.ops[0]): return True
        return False
