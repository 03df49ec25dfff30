"""Type tags: which tag a value (Jsi_Value.vt) or object (Jsi_Obj.ot) is known to have at each point.
Facts are atoms ('vt'|'ot'|'nn', key, T) on access paths; functions get post-conditions (what holds after a
call, by its result) and requirements (what their callers have to establish)."""
from ir import *
import paths

VT, OT = 'vt', 'ot'

def vtkey(e):
    """expression of a tag read -> (kind, key) """
    if isinstance(e, tuple) and len(e) == 3 and e[0] == 'and' and isinstance(e[2], tuple) and e[2][:2] == ('i', 255): e = e[1]
    if isinstance(e, tuple) and len(e) == 2 and e[0] == 'ld' and isinstance(e[1], tuple) and e[1][0] == 'fld':
        n = e[1][2]
        if n in ('Jsi_Value.vt', 'Jsi_Value.@8'): return VT, e[1][1]
        if n in ('Jsi_Obj.ot', 'Jsi_Obj.@8'): return OT, e[1][1]
        if n == 'Jsi_Obj.isarrlist': return 'arr', e[1][1]
    return None

def mentions(e, x):
    if e == x: return True
    return isinstance(e, tuple) and any(mentions(y, x) for y in e)

def subst(e, m):
    """replace ('arg', i) by m(i); None when some argument has no expression"""
    if isinstance(e, tuple):
        if len(e) == 2 and e[0] == 'arg': return m(e[1])
        if e and e[0] in ('v', 'call', 'i'): return e if e[0] == 'i' else None
        r = []
        for x in e:
            y = subst(x, m)
            if y is None: return None
            r.append(y)
        return tuple(r)
    return e

def depth(e):
    return 1 + max([depth(x) for x in e] + [0]) if isinstance(e, tuple) else 0

DEEP = 11

def derefs(e, n):
    """e reads through pointer n"""
    if isinstance(e, tuple):
        if len(e) > 1 and e[0] in ('ld', 'fld') and e[1] == n: return True
        return any(derefs(x, n) for x in e)
    return False

def plain(e):
    """an argument, what it points to, or the object of one: what callers can be asked to establish"""
    if not isinstance(e, tuple): return False
    if e[0] == 'arg': return True
    if e[0] == 'ld': return plain(e[1])
    if e[0] == 'fld': return e[2] in ('Jsi_Value.d', 'Jsi_Obj.d') and plain(e[1])
    return False

def rooted(e):
    """only arguments, loads and fields"""
    if not isinstance(e, tuple): return True
    if e and e[0] in ('v', 'call', 'g'): return False
    if e and e[0] == 'gep': return all(rooted(x) for x in e[1:])
    return all(rooted(x) for x in e)

class Tags:
    def __init__(s, p, contracts=None, opts=None, trace=None):
        s.p = p; s.post = {}; s.req = {}; s.busy = set(); s.ev = p.enumval
        s.contracts = contracts or (lambda f: ())
        s.opts = opts or (lambda f: {})
        s.failed = {}
        s.mods = None
        s.getters = {'Jsi_ValueArrayIndex', 'Jsi_ValueObjLookup', 'Jsi_TreeObjGetValue', 'Jsi_NameLookup'}
        s.copies = {'Jsi_ValueDup': ('ret', ('arg', 1)), 'Jsi_ValueDup2': (('ld', ('arg', 1)), ('arg', 2)), 'Jsi_ValueCopy': (('arg', 1), ('arg', 2))}   # the copy holds what was copied
        s.releases = {'Jsi_DecrRefCount', 'Jsi_ObjDecrRefCount', 'Jsi_ValueFree', 'Jsi_ObjFree'}   # giving up a reference is not a change of tag
        s.fieldinv = {}
        s.toobig = []; s.big = set(); s.analysed = []; s.fields = set(); s.fieldbad = {}
    # ---- what a call may overwrite
    def mod(s, name):
        if s.mods is None: s.allmods()
        return s.mods.get(name, ())
    def allmods(s):
        """which arguments' tags a function may overwrite: (i, 0) the value argument i designates,
        (i, 1) the pointer it designates, (i, 2) the value behind that pointer; least fixpoint over the call graph"""
        m = s.mods = {}
        defs = [f for f in s.p.funcs.values() if not f.decl]
        for f in defs: m[f.name] = set()
        callers = s.p.callers()
        work = {f.name for f in defs}
        while work:
            n = work.pop(); f = s.p.funcs[n]; out = set()
            for I in f.insts():
                if I.op == 'store': s._modaddr(f, I.ops[1], out)
                elif I.op == 'call':
                    cn = I.callee_name
                    if cn and cn.startswith(('llvm.memcpy', 'llvm.memset', 'llvm.memmove')): s._modaddr(f, I.ops[0], out, whole=True)
                    elif cn and cn not in s.releases:
                        for (i, l) in m.get(cn, ()):
                            if i < len(I.ops): s._modcall(f, I.ops[i], l, out)
            if out - m[n]:
                m[n] |= out
                for J in callers.get(n, ()): work.add(J.fn.name)
    def _roots(s, f, v, seen=None):
        """expressions a pointer may have (through phis)"""
        seen = set() if seen is None else seen
        v = strip(f, v)
        if isinstance(v, int) and v in f.inst and f.inst[v].op in ('phi', 'select'):
            if v in seen: return set()
            seen.add(v); r = set()
            for o in (f.inst[v].ops if f.inst[v].op == 'phi' else f.inst[v].ops[1:]): r |= s._roots(f, o, seen)
            return r
        return {expr(f, v)}
    def _modaddr(s, f, a, out, whole=False):
        e0 = s._roots(f, a)
        I = f.inst.get(a) if isinstance(a, int) else None
        if I is not None and I.op == 'getelementptr':
            fl = s.p.gepfield(I)
            if not fl: return
            if fl[0] == 'Jsi_Value' and (fl[1] in ('vt', '@8', 'd') ):
                for e in s._roots(f, I.ops[0]):
                    if e[0] == 'arg': out.add((e[1], 0))
                    elif e[0] == 'ld' and e[1][0] == 'arg': out.add((e[1][1], 2))
            return
        for e in e0:
            if e[0] == 'arg':
                out.add((e[1], 0 if whole else 1))
            elif whole and e[0] == 'ld' and e[1][0] == 'arg': out.add((e[1][1], 2))
    def _modcall(s, f, a, l, out):
        b = strip(f, a)
        if l and isinstance(b, int) and b in f.inst and f.inst[b].op == 'alloca':
            # what the local holds
            for u in f.users.get(b, ()):
                if u.op == 'store' and u.ops[1] == b:
                    for e in s._roots(f, u.ops[0]):
                        if l != 2: continue
                        if e[0] == 'arg': out.add((e[1], 0))
                        elif e[0] == 'ld' and e[1][0] == 'arg': out.add((e[1][1], 2))
            return
        for e in s._roots(f, a):
            if e[0] == 'arg': out.add((e[1], l))
            elif l == 0 and e[0] == 'ld' and e[1][0] == 'arg': out.add((e[1][1], 2))
    # ---- per function
    def key(s, f, v, ex, facts):
        return rx(f, v, ex, facts)
    def tagargs(s, name):
        """indices of the arguments that name a tag"""
        f = s.p.funcs.get(name)
        if f is None or f.decl: return ()
        return [i for i, t in enumerate(f.sig[1:]) if t in ('Jsi_vtype', 'Jsi_otype')]
    def context(s, J):
        """constant tags passed in a call"""
        return tuple((i, const_int(J.ops[i])) for i in s.tagargs(J.callee_name) if i < len(J.ops) and const_int(J.ops[i]) is not None)
    def summary(s, name, ctx=()):
        n = (name, ctx) if ctx else name
        if n in s.post: return s.post[n]
        f = s.p.funcs.get(name)
        if f is None or f.decl or n in s.busy or s.skip(f): return {}
        s.busy.add(n)
        s.analyse(f, ctx)
        s.busy.discard(n)
        return s.post[n]
    def skip(s, f):
        n = f.file.rsplit('/', 1)[-1].lower(); return 'parser' in n or 'lexer' in n or any(len(b[-1].x) > 60 for b in f.blocks if b and b[-1].op == 'switch')
    def uses_of(s, f, I):
        """how a pointer loaded out of a union is used: set of kinds"""
        r = set(); seen = set(); st = [I.id]
        while st:
            v = st.pop()
            if v in seen: continue
            seen.add(v)
            for u in f.users.get(v, ()):
                if u.op == 'getelementptr' and u.ops[0] == v:
                    r.add(s.p.sname(u.x[0]) if u.x[0].startswith('%') else 'char' if u.x[0] == 'i8' else '?')
                elif u.op in ('load', 'store') and u.ops[-1] == v: r.add('char' if (u.op == 'load' and u.ty == 'i8') else '?')
                elif u.op == 'call' and u.callee_name:
                    g = s.p.funcs.get(u.callee_name)
                    for i, o in enumerate(u.ops):
                        if o == v and g is not None and i + 1 < len(g.sig): r.add(g.sig[i + 1].replace('const ', '').replace('*', '').replace('struct ', '').strip())
                elif u.op in ('phi', 'select') or u.op in CASTS: st.append(u.id)
        return r
    def need_of(s, f, I):
        """obligation of a load: [(kind, base value, T, text)]"""
        if I.op != 'load': return None
        a = I.ops[0]
        G = f.inst.get(a) if isinstance(a, int) else None
        if G is None or G.op != 'getelementptr': return None
        fl = s.p.gepfield(G)
        if not fl or fl[1] != 'd' or fl[2] not in (0,): return None
        ev = s.ev
        if fl[0] == 'Jsi_Value':
            if I.ty == 'double': return (VT, G.ops[0], ev['JSI_VT_NUMBER'], 'number')
            if I.ty == 'ptr':
                us = s.uses_of(f, I)
                if 'Jsi_Obj' in us: return (VT, G.ops[0], ev['JSI_VT_OBJECT'], 'object')
                if 'Jsi_Value' in us: return (VT, G.ops[0], ev['JSI_VT_VARIABLE'], 'variable')
                if 'char' in us: return (VT, G.ops[0], ev['JSI_VT_STRING'], 'string')
            return None
        if fl[0] == 'Jsi_Obj':
            if I.ty == 'double': return (OT, G.ops[0], ev['JSI_OT_NUMBER'], 'number')
            if I.ty == 'ptr':
                us = s.uses_of(f, I)
                for n, t in (('Jsi_FuncObj', 'JSI_OT_FUNCTION'), ('Jsi_UserObj', 'JSI_OT_USEROBJ'), ('Jsi_Regex_', 'JSI_OT_REGEXP'),
                             ('Jsi_Regex', 'JSI_OT_REGEXP'), ('Jsi_IterObj', 'JSI_OT_ITER'), ('char', 'JSI_OT_STRING')):
                    if n in us: return (OT, G.ops[0], ev[t], n)
            return None
        return None
    def elements(s, I, p):
        """contract: what containers hold is never a reference to a VM slot"""
        if I.callee_name in s.getters: return {('!vt', ('call', I.callee_name, I.id), frozenset([s.ev['JSI_VT_VARIABLE']]))}
        return None
    def derefs_of(s, f, I):
        """instructions that use the pointer I loads, None when it is kept for later (phi, stored, returned)"""
        if I.ty != 'ptr': return None
        out = []; st = [I.id]
        while st:
            v = st.pop()
            for u in f.users.get(v, ()):
                if u.op == 'icmp': continue
                if u.op in CASTS: st.append(u.id)
                elif u.op == 'getelementptr' and u.ops[0] == v:
                    for w in f.users.get(u.id, ()): out.append(w)
                elif u.op == 'call' or u.op == 'load' or (u.op == 'store' and u.ops[1] == v): out.append(u)
                else: return None
        return out
    def tagphis(s, f):
        out = []
        for I in f.insts():
            if I.op != 'store': continue
            bs = bitfield_store(f, I)
            v = None
            if bs and bs[1] in ('Jsi_Value.vt', 'Jsi_Obj.ot'): v = bs[2]
            elif I.ops and isinstance(I.ops[0], int):
                e = expr(f, I.ops[1], 3)
                if e[0] == 'fld' and e[2] in ('Jsi_Value.@8', 'Jsi_Value.vt'): v = I.ops[0]
            v = strip(f, v) if v is not None else None
            if isinstance(v, int) and v in f.inst and f.inst[v].op in ('phi', 'select'): out.append(v)
        return out
    def relevant(s, f):
        for I in f.insts():
            if I.op == 'getelementptr' and I.x[0] in ('%struct.Jsi_Value', '%struct.Jsi_Obj'): return True
            if I.op == 'store':
                e = expr(f, I.ops[1], 3)
                if e[0] == 'fld' and e[2] in s.fields: return True
        return False
    def analyse(s, f, ctx=()):
        p = s.p; name = (f.name, ctx) if ctx else f.name
        sites = {}; soft = set(); atuse = {}

        for I in f.insts():
            n = s.need_of(f, I)
            if not n: continue
            sites.setdefault(I.id, []).append(n)
            ds = s.derefs_of(f, I)
            if ds is not None:
                soft.add((I.id, n))
                for u in ds: atuse.setdefault(u.id, []).append((I.id, n))
        calls = {}
        for I in f.calls():
            cn = I.callee_name
            if not cn: continue
            s.summary(cn)
            if s.tagargs(cn): s.summary(cn, s.context(I))
        if not s.relevant(f) and not any(s.req.get(I.callee_name) for I in f.calls()) and not (f.sig and any(('Jsi_Value' in t or 'Jsi_Obj' in t) for t in f.sig)):
            s.post[name] = {}; s.req[name] = []; s.failed[name] = []; return
        s.analysed.append(f.name)
        unsat = {}; seenok = {}
        phis = [I.id for I in f.insts() if I.op in ('phi', 'select') and I.ty == 'ptr'] + s.tagphis(f)
        phiblk = {}
        for I in f.insts():
            if I.op == 'phi': phiblk.setdefault(I.bb, []).append(I.id)
        firstnp = {}
        for b in f.blocks:
            for I in b:
                if I.op != 'phi': firstnp[I.id] = b[0].bb; break
        def norm(kx):
            return kx
        def edge(imp, cur, facts):
            out = []
            for pred, a, b in imp:
                if isinstance(a, int):
                    ra = ex.resolve(strip(f, a), facts)
                    c = const_int(b)
                    if c is None:
                        # equal pointers share what is known
                        if pred == 'eq':
                            ka, kb = s.key(f, a, ex, facts), s.key(f, b, ex, facts)
                            if ka[0] == 'arg' and kb[0] == 'ld': out.append(('eq', kb, ka))
                            elif kb[0] == 'arg' and ka[0] == 'ld': out.append(('eq', ka, kb))
                            for at in cur:
                                if at[1] == ka: out.append((at[0], kb, at[2]))
                                elif at[1] == kb: out.append((at[0], ka, at[2]))
                                else:
                                    if mentions(at[1], ka): out.append((at[0], repl(at[1], ka, kb), at[2]))
                                    elif mentions(at[1], kb): out.append((at[0], repl(at[1], kb, ka), at[2]))
                            # tags compared with each other
                            va, vb = vtkey(tagexpr(f, a, ex, facts)), vtkey(tagexpr(f, b, ex, facts))
                            if va and vb and va[0] == vb[0] and va[1] != vb[1]:
                                out.append(('same', (va[1], vb[1]), va[0]))
                                for at in cur:
                                    if at[0] == va[0] and at[1] == va[1]: out.append((at[0], vb[1], at[2]))
                                    if at[0] == vb[0] and at[1] == vb[1]: out.append((at[0], va[1], at[2]))
                            elif va and isinstance(b, int) and b < f.nargs: out.append((va[0], va[1], ('arg', b)))
                            elif vb and isinstance(a, int) and a < f.nargs: out.append((vb[0], vb[1], ('arg', a)))
                        continue
                    if isinstance(ra, int) and ra not in f.inst and c == 0 and pred in ('eq', 'ne'):
                        if pred == 'eq': out.append(('null', ('arg', ra), 1))
                        continue
                    e = tagexpr(f, a, ex, facts)
                    if c == 0 and pred == 'eq' and e[0] == 'ld' and plain(e): out.append(('null', e, 1))
                    t = vtkey(e)
                    if t and t[0] in (VT, OT):
                        if pred == 'eq':
                            for at in cur:
                                if at[0] == t[0] and at[1] == t[1] and isinstance(at[2], int) and at[2] != c: return False
                                if at[0] == '!' + t[0] and at[1] == t[1] and c in at[2]: return False
                            out.append((t[0], t[1], c))
                        elif pred == 'ne':
                            ne = frozenset()
                            for at in cur:
                                if at[0] == t[0] and at[1] == t[1] and at[2] == c: return False
                                if at[0] == '!' + t[0] and at[1] == t[1]: ne = at[2]; out.append(('-', at))
                            ne = ne | {c}
                            out.append(('!' + t[0], t[1], ne))
                    # results of calls
                    J = f.inst.get(ra) if isinstance(ra, int) else None
                    if J is not None and J.op == 'call' and J.callee_name:
                        cls = None
                        if c == 0 and pred in ('eq', 'ne'): cls = 'z' if pred == 'eq' else 'nz'
                        elif pred == 'eq' and c: cls = 'nz'
                        if cls:
                            for at in cur:
                                if isinstance(at[0], tuple) and at[0][2] == J.id:
                                    out.append(('-', at))
                                    if at[0][1] == cls: out += s.instant(at[0][3], at[1], at[2], cur)
            return resolve(cur, out)
        def resolve(cur, out):
            ne = {}
            for x in list(out):
                if x[0] in ('!vt', '!ot'): ne.setdefault((x[0], x[1]), set()).update(x[2])
            for (k0, k1), ex_ in ne.items():
                for x in cur:
                    if x[0] == k0 and x[1] == k1: ex_ |= x[2]; out = out + [('-', x)]
                out = [x for x in out if not (x[0] == k0 and x[1] == k1)] + [(k0, k1, frozenset(ex_))]
                rest = s.full(k0[1:]) - ex_
                if any(x[0] == k0[1:] and x[1] == k1 and x[2] in ex_ for x in cur): return False
                if not rest: return False
                if len(rest) == 1: out = out + [(k0[1:], k1, min(rest))]
            for q in [x for x in cur if x[0] == 'eq']:
                for x in list(out):
                    if x[0] in (VT, OT) and mentions(x[1], q[1]): out = out + [(x[0], s.replret2(x[1], q[1], q[2]), x[2])]
            return resolve2(cur, out)
        def resolve2(cur, out):
            """drop the alternatives of ('or', keys, alts) that what is known excludes"""
            if any(x[0] == 'same' for x in cur):
                for x in cur:
                    if x[0] == 'same':
                        for y in list(out):
                            if y[0] == x[2] and y[1] in x[1]: out = out + [(y[0], x[1][1 - x[1].index(y[1])], y[2])]
            if not any(x[0] == 'or' for x in cur) and not any(x[0] == 'or' for x in out): return out
            gone = {x[1] for x in out if x[0] == '-'}
            known = [x for x in cur if x not in gone] + [x for x in out if x[0] != '-']
            for o in [x for x in known if x[0] == 'or']:
                alive = [al for al in o[2] if not any(contra(y, x) for x in known for y in al) and
                         not any(y[0] == VT and y[2] == s.ev['JSI_VT_VARIABLE'] and y[1][0] == 'call' and y[1][1] in s.getters for y in al)]
                if len(alive) == len(o[2]): continue
                if not alive: return False
                out = [x for x in out if x != o] + [('-', o)]
                if len(alive) == 1: out += list(alive[0])
                else: out.append(('or', o[1], tuple(alive)))
            return out
        def contra(y, x):
            if x[1] != y[1]: return False
            return (x[0] == y[0] and isinstance(x[2], int) and x[2] != y[2]) or (x[0] == '!' + y[0] and y[2] in x[2])
        def repl(e, a, b):
            if e == a: return b
            return tuple(repl(x, a, b) for x in e) if isinstance(e, tuple) else e
        def kill(a, ids):
            return frozenset(at for at in a if not any(mentions(at[1], ('v', i)) or mentions(at[1], ('call', cn(i), i)) for i in ids))
        def cn(i):
            J = f.inst.get(i); return J.callee_name if J is not None and J.op == 'call' else None
        def hook(I, a, facts, st):
            if I.id in firstnp and firstnp[I.id] in phiblk:
                a = kill(a, phiblk[firstnp[I.id]])
            for n in sites.get(I.id, ()):
                kind, base, T, txt = n
                k = s.key(f, base, ex, facts)
                if s.holds(f, a, kind, k, T):
                    seenok[(I.id, n)] = 1
                    if (I.id, n) in soft: a = frozenset(a | {('ok', ('v', I.id), n)})
                elif (I.id, n) not in soft: unsat.setdefault((I.id, kind, k, T, txt), (a, st))
            for i, n in atuse.get(I.id, ()):
                if ('ok', ('v', i), n) in a: continue
                kind, base, T, txt = n
                k = s.key(f, base, ex, facts)
                if s.holds(f, a, kind, k, T): continue
                unsat.setdefault((i, kind, k, T, txt), (a, st))
            if I.op == 'call':
                pre_call = a
                a = s.atcall(f, I, a, ex, facts, st, unsat, seenok)
                a = kill(a, [I.id])
                if I.callee_name:
                    add = set(s.apply(f, I, 'any', ex, facts, a))
                    for cls in ('z', 'nz') if any(u.op in ('icmp', 'phi', 'select', 'trunc', 'zext', 'xor', 'br', 'switch') for u in f.users.get(I.id, ())) else ():
                        for at in s.apply(f, I, cls, ex, facts, a, True):
                            if at not in add: add.add((('?', cls, I.id, at[0]), at[1], at[2]))
                    if I.callee_name in s.copies:
                        d, r = (e if e == 'ret' else subst2(e, lambda i: s.key(f, I.ops[i], ex, facts)) for e in s.copies[I.callee_name])
                        if d == 'ret': d = ('call', I.callee_name, I.id)
                        if r is not None and d is not None:
                            for x in pre_call:
                                if x[0] in (VT, OT, '!vt', '!ot') and mentions(x[1], r) and depth(x[1]) < DEEP: add.add((x[0], s.replret2(x[1], r, d), x[2]))
                    el = s.elements(I, s.p)
                    if el: add |= el
                    if add:
                        r = resolve(a, list(add))
                        if r is not False:
                            gone = {x[1] for x in r if x[0] == '-'}
                            new = {x for x in r if x[0] != '-'}
                            for q in [x for x in a if x[0] == 'eq' and x not in gone]:
                                for x in list(new):
                                    if x[0] in (VT, OT) and mentions(x[1], q[1]): new.add((x[0], s.replret2(x[1], q[1], q[2]), x[2]))
                            a = frozenset((set(a) - gone) | new)
            elif I.op == 'store':
                a = s.atstore(f, I, a, ex, facts)
            return a
        init = set(s.contracts(f)) | {a for x in ctx if x[0] == 'pre' for a in x[1]}
        o = dict(s.opts(f))
        mk = lambda ph, o: paths.Explorer(f, edge_atoms=edge, inst=hook, track=ph, init=frozenset(init), const=dict(x for x in ctx if x[0] != 'pre'), **o)
        ex = mk(phis, o)
        posts = {'z': [], 'nz': [], 'any': []}
        def on_ret(I, a, facts, st):
            rv = I.ops[0] if I.ops else None
            outs = []
            if rv is None: outs.append(('any', a))
            else:
                v = ex.val(rv, facts)
                if v is None:
                    for truth in (True, False):
                        imp = []
                        ex.implied(rv, truth, facts, imp)
                        add = edge(imp, a, facts) if imp else []
                        if add is False: continue
                        outs.append(('nz' if truth else 'z', ex._add(a, add) if add else a))
                elif v == 'nz' or v != 0: outs.append(('nz', a))
                else: outs.append(('z', a))
            rk = s.key(f, rv, ex, facts) if rv is not None else None
            for cls, at in outs:
                res = set(); nul = frozenset(x[1] for x in at if x[0] == 'null') | (frozenset([('ret',)]) if cls == 'z' and f.sig and f.sig[0].endswith('*') else frozenset())
                for x in at:
                    if isinstance(x[0], tuple) or x[0] in ('null', 'ok', 'same'): continue
                    if x[0] == 'or': continue
                    if rooted(x[1]): res.add(x)
                    if rk is not None and rk[0] not in ('i', 'n', 'z') and mentions(x[1], rk):
                        y = repl(x[1], rk, ('ret',))
                        if rooted(y): res.add((x[0], y, x[2]))
                for cl in {cls, 'any'}: posts[cl].append((frozenset(res), nul))
        def vacuous(x, nul):
            """a fact about what a null argument designates"""
            return any(derefs(x[1], n) or (x[0] in (VT, OT, '!vt', '!ot') and x[1] == n) or (x[0] == 'eq' and x[2] == n) or (x[0] == 'eq' and derefs(x[2], n)) for n in nul)
        def meet(l):
            l = list(set(l)); out = set()
            for x in set().union(*[r for r, _ in l]) if l else ():
                if all(x in r or vacuous(x, nul) for r, nul in l): out.add(x)
            alts = {tuple(sorted((y for y in r if y[0] in (VT, OT) and isinstance(y[2], int) and y not in out and plain(y[1])), key=repr)) for r, nul in l if not nul}
            if 2 <= len(alts) <= 4 and () not in alts and not any(x[0] == 'or' for x in out):
                al = tuple(sorted(alts, key=repr))
                out.add(('or', tuple(sorted({y[1] for a in al for y in a}, key=repr)), al))
            return out
        try:
            try:
                ex.run(on_ret=on_ret)
            except paths.TooBig:
                # once more, following only the pointers that values are read through, and joining sooner
                unsat.clear(); seenok.clear()
                for l in posts.values(): del l[:]
                def base(i):
                    return any(u.op == 'getelementptr' and u.x[0] in ('%struct.Jsi_Value', '%struct.Jsi_Obj') and u.ops[0] == i for u in f.users.get(i, ()))
                tp = set(s.tagphis(f))
                ex = mk([i for i in phis if i in tp or base(i)], dict(o, widen=12, limit=2 * o.get('limit', 60000)))
                ex.run(on_ret=on_ret)
        except paths.TooBig:
            s.toobig.append(f.name) if not ctx else s.big.add(name)
            posts = {'z': [], 'nz': [], 'any': []}; unsat = {(i, n[0], None, n[2], n[3]): (None, None) for i, l in sites.items() for n in l}
        # what an argument pointer designates may be replaced by the callee: only facts about the final state were collected
        s.post[name] = {k: meet(v) for k, v in posts.items()}
        req = {}; bad = []
        for (iid, kind, k, T, txt), (a, st) in unsat.items():
            if k is not None and rooted(k) and plain(k):
                req.setdefault((kind, k, T), txt)
            bad.append((iid, kind, k, T, txt, ex.trace(st) if st else None))
        s.req[name] = [(a, b, c, t) for (a, b, c), t in req.items()]
        s.failed[name] = bad
    def holds(s, f, atoms, kind, k, T):
        if (kind, k, T) in atoms: return True
        if k and k[0] == 'n' or k == ('i', 0, 0): return True
        inv = s.invariant(f, kind, k)
        if inv == T: return True
        # every other tag excluded
        for at in atoms:
            if at[0] == '!' + kind and at[1] == k:
                if s.full(kind) - set(at[2]) == {T}: return True
        return False
    def full(s, kind):
        return set(range(s.ev['JSI_VT__MAX'] + 1)) if kind == VT else set(range(s.ev['JSI_OT__MAX'] + 1))
    def invariant(s, f, kind, k):
        if kind == OT:
            if not (isinstance(k, tuple) and len(k) == 2 and k[0] == 'ld' and isinstance(k[1], tuple) and k[1][0] == 'fld' and k[1][2] == 'Jsi_Value.d'): return None
            k = k[1][1]
        if isinstance(k, tuple) and len(k) == 2 and k[0] == 'ld' and isinstance(k[1], tuple) and k[1][0] == 'fld':
            return s.fieldinv.get((kind, k[1][2]))
        return None
    def instant(s, kind, k2, T2, cur):
        """facts a post-condition gives in a state"""
        if kind != 'eq': return [(kind, k2, T2)]
        out = []
        for x in cur:
            if isinstance(x[1], tuple) and mentions(x[1], T2) and depth(x[1]) < DEEP: out.append((x[0], s.replret2(x[1], T2, k2), x[2]))
        if rooted(T2) and T2[0] in ('arg', 'ld'): out.append(('eq', k2, T2))
        return out
    def apply(s, f, J, cls, ex, facts, cur, later=False):
        po = s.summary(J.callee_name, s.context(J)).get(cls)
        if not po: return []
        out = []
        for kind, k, T in po:
            if mentions(k, ('ret',)):
                r = ('call', J.callee_name, J.id)
                k = s.replret(k, r)
                k2 = subst2(k, lambda i: s.key(f, J.ops[i], ex, facts) if i < len(J.ops) else None)
            else:
                k2 = subst2(k, lambda i: s.key(f, J.ops[i], ex, facts) if i < len(J.ops) else None)
            if k2 is None: continue
            if kind == 'or':
                T2 = subst2(T, lambda i: s.key(f, J.ops[i], ex, facts) if i < len(J.ops) else None)
                if T2 is not None: out.append(('or', k2, T2))
                continue
            if kind == 'eq':
                T2 = subst2(T, lambda i: s.key(f, J.ops[i], ex, facts) if i < len(J.ops) else None)
                if T2 is None: continue
                out += [('eq', k2, T2)] if later else s.instant('eq', k2, T2, cur)
                continue
            if isinstance(T, tuple):
                T = const_int(J.ops[T[1]]) if T[1] < len(J.ops) else None
                if T is None: continue
            out.append((kind, k2, T))
        return out
    def replret(s, e, r):
        if e == ('ret',): return r
        return tuple(s.replret(x, r) for x in e) if isinstance(e, tuple) else e
    def atcall(s, f, I, a, ex, facts, st, unsat, seenok):
        cn = I.callee_name
        if cn is None: return a
        cx = s.context(I)
        rq = s.req.get((cn, cx) if cx else cn, ())
        def unheld(rq):
            for kind, k, T, txt in rq:
                k2 = subst2(k, lambda i: s.key(f, I.ops[i], ex, facts) if i < len(I.ops) else None)
                if k2 is not None and not isinstance(T, tuple) and not s.holds(f, a, kind, k2, T): return True
        if rq and unheld(rq):
            c2 = tuple((i, const_int(o)) for i, o in enumerate(I.ops) if const_int(o) is not None and i < len(s.p.funcs[cn].sig) - 1 and not s.p.funcs[cn].sig[i + 1].endswith('*'))
            if c2 and c2 != cx and (cn, c2) not in s.busy:
                s.summary(cn, c2); rq = s.req.get((cn, c2), rq)
        for kind, k, T, txt in rq:
            k2 = subst2(k, lambda i: s.key(f, I.ops[i], ex, facts) if i < len(I.ops) else None)
            if k2 is None: continue
            if isinstance(T, tuple): continue
            if s.holds(f, a, kind, k2, T): seenok[(I.id, kind, k)] = 1
            else: unsat.setdefault((I.id, kind, k2, T, txt if ' in ' in txt else '%s in %s' % (txt, cn)), (a, st))
        if cn.startswith(('llvm.memcpy', 'llvm.memmove')):
            d, r = s.key(f, I.ops[0], ex, facts), s.key(f, I.ops[1], ex, facts)
            n = {x for x in a if not mentions(x[1], d)}
            for x in a:
                if mentions(x[1], r): n.add((x[0], s.replret2(x[1], r, d), s.replret2(x[2], r, d) if x[0] == 'or' else x[2]))
            return frozenset(n)
        if cn.startswith('llvm.memset'):
            d = s.key(f, I.ops[0], ex, facts)
            return frozenset(x for x in a if not mentions(x[1], d))
        m = s.mod(cn)
        if m:
            dead = []; soft = []
            for i, l in m:
                if i < len(I.ops):
                    k = s.key(f, I.ops[i], ex, facts)
                    if l == 1: dead.append(('ld', k))
                    else:
                        k = k if l == 0 else ('ld', k)
                        for q in {k} | {x[2] for x in a if x[0] == 'eq' and x[1] == k} | {x[1] for x in a if x[0] == 'eq' and x[2] == k}: soft.append(q)
            if dead: a = frozenset(x for x in a if not any(mentions(x[1], d) for d in dead))
            keep = set()
            for i, l in m:
                if l or i >= len(I.ops): continue
                k = s.key(f, I.ops[i], ex, facts)
                pre = [x for x in a if x[0] in (VT, OT) and isinstance(x[2], int) and (x[1] == k or x[1] == ('ld', ('fld', k, 'Jsi_Value.d')))]
                if (VT, k, s.ev['JSI_VT_OBJECT']) not in pre: continue
                back = lambda e: s.replret2(e, k, ('arg', i))
                pa = tuple(sorted(((x[0], back(x[1]), x[2]) for x in pre), key=repr))
                po = s.summary(cn, (('pre', pa),)).get('any', ())
                keep |= {x for x in pre if (x[0], back(x[1]), x[2]) in po}
            if soft: a = frozenset(x for x in a if x in keep or not any((x[0] not in ('eq', 'null', 'ok') and mentions(x[1], d)) or (x[0] == 'eq' and x[1] != d and mentions(x[1], d)) for d in soft))
        # locals whose address is passed
        fd = s.p.funcs.get(cn)
        if fd is None or fd.decl:
            for o in I.ops:
                if isinstance(o, int) and o in f.inst and f.inst[o].op == 'alloca':
                    d = ('ld', expr(f, o)); a = frozenset(x for x in a if not mentions(x[1], d))
        return a
    def replret2(s, e, r, d):
        if e == r: return d
        return tuple(s.replret2(x, r, d) for x in e) if isinstance(e, tuple) else e
    def atstore(s, f, I, a, ex, facts):
        v, addr = I.ops
        e = s.key(f, addr, ex, facts)
        bs = bitfield_store(f, I)
        if bs:
            if bs[1] in ('Jsi_Value.vt', 'Jsi_Obj.ot'):
                kind = VT if bs[1] == 'Jsi_Value.vt' else OT
                k = s.key(f, bs[0], ex, facts)
                return s.settag(f, a, kind, k, bs[2], ex, facts)
            return a
        if e[0] == 'fld':
            if e[2] in ('Jsi_Value.@8', 'Jsi_Value.vt'): return s.settag(f, a, VT, e[1], v, ex, facts)
            if e[2] in ('Jsi_Obj.@8', 'Jsi_Obj.ot'):
                # a store to the unit that keeps the tag bits
                return s.settag(f, a, OT, e[1], v, ex, facts) if const_int(v) is not None else a
        l = ('ld', e)
        n = {x for x in a if not mentions(x[1], l)}
        ve = s.key(f, v, ex, facts) if f.inst.get(v) is None or f.inst[v].ty == 'ptr' else None
        if ve is not None and ve[0] not in ('i', 'n', 'z', 'd'):
            for x in a:
                if mentions(x[1], ve) and not mentions(x[1], l) and depth(x[1]) < DEEP: n.add((x[0], s.replret2(x[1], ve, l), s.replret2(x[2], ve, l) if x[0] == 'or' else x[2]))
        if ve is not None and rooted(ve) and ve[0] in ('arg', 'ld') and not mentions(ve, l) and (e[0] == 'arg' or (e[0] == 'v' and ve[0] == 'arg') or e[0] == 'fld' and e[2] in ('Jsi_Value.d', 'Jsi_Obj.d')): n.add(('eq', l, ve))
        if e[0] == 'fld' and e[2] in s.fields: s.fieldstore(f, I, e[2], ve, a, v)
        return frozenset(n)
    def fieldstore(s, f, I, F, ve, a, v):
        """a store to a field whose values are all claimed to have one tag"""
        if const_int(v) == 0: return
        for kind in (VT, OT):
            T = s.fieldinv.get((kind, F))
            if T is None: continue
            k = ve if kind == VT else ('ld', ('fld', ve, 'Jsi_Value.d'))
            if ve is None or not s.holds(f, a, kind, k, T): s.fieldbad.setdefault((kind, F), []).append((I, ve))
    def settag(s, f, a, kind, k, v, ex, facts):
        n = {x for x in a if not (x[0] in ('or', 'same') and mentions(x[1], k)) and not (x[1] == k and (x[0] in (kind, '!' + kind) or (isinstance(x[0], tuple) and x[0][3] in (kind, '!' + kind))))}
        c = const_int(v)
        if c is None and isinstance(v, int): 
            v = ex.resolve(strip(f, v), facts)
            c = ex.val(v, facts)
            if not isinstance(c, int): c = None
        if c is not None: n.add((kind, k, c & 255))
        else:
            t = vtkey(tagexpr(f, v, ex, facts))
            if t:
                for x in a:
                    if x[0] in (kind,) and x[1] == t[1]: n.add((kind, k, x[2]))
            elif isinstance(strip(f, v), int) and strip(f, v) < f.nargs: n.add((kind, k, ('arg', strip(f, v))))
        return frozenset(n)

def rx(f, v, ex, facts, depth=8, seen=()):
    """expr() with phis resolved along the path"""
    while True:
        v = strip(f, v)
        if not isinstance(v, int): return v
        if v in seen: return ('v', v)
        r = ex.resolve(v, facts)
        if r == v: break
        seen = seen + (v,)          # a loop-carried value may be given in terms of its own previous round
        v = r
    if v not in f.inst: return ('arg', v)
    I = f.inst[v]
    if depth == 0 or v in seen: return ('v', v)
    if I.op == 'load': return ('ld', rx(f, I.ops[0], ex, facts, depth - 1, seen))
    if I.op == 'getelementptr':
        fl = f.p.gepfield(I)
        b = rx(f, I.ops[0], ex, facts, depth - 1, seen)
        if fl and fl[2] is not None: return ('fld', b, fl[0] + '.' + fl[1]) if not fl[2] else ('fld', b, fl[0] + '.' + fl[1] + '+%d' % fl[2])
        return ('gep', b, I.x[0]) + tuple(rx(f, o, ex, facts, depth - 1, seen) for o in I.ops[1:])
    if I.op == 'call': return ('call', I.callee_name, v)
    if I.op in ('lshr', 'ashr', 'and', 'shl', 'or', 'add', 'sub', 'mul', 'xor', 'sdiv', 'udiv', 'srem', 'urem'):
        bf = bitfield(f, v)
        if bf: return ('ld', ('fld', rx(f, bf[0], ex, facts, depth - 1, seen), bf[1]))
        return (I.op, rx(f, I.ops[0], ex, facts, depth - 1, seen), rx(f, I.ops[1], ex, facts, depth - 1, seen))
    return ('v', v)

def tagexpr(f, v, ex, facts):
    return rx(f, v, ex, facts)

def subst2(e, m):
    """replace ('arg', i) by m(i); everything else stays"""
    if isinstance(e, tuple):
        if len(e) == 2 and e[0] == 'arg' and isinstance(e[1], int): return m(e[1])
        r = []
        for x in e:
            y = subst2(x, m)
            if y is None and x is not None: return None
            r.append(y)
        return tuple(r)
    return e
