"""Path-sensitive dataflow over one function.

State = (client atoms, known constants/aliases of phis, outcomes of repeated conditions).
States with equal contents merge; contradictory branches are pruned (short-circuit phis,
flag variables, repeated tests).  Everything is decided on the CFG; nothing is solved or run."""
from ir import *

def bitfieldunit(f, v):
    I = f.inst[v]; g = f.inst.get(I.ops[0]) if isinstance(I.ops[0], int) else None
    if g is None or g.op != 'getelementptr' or g.x[1] is None: return False
    n = f.p.sname(g.x[0])
    return any(x[3] and x[1] // 8 >= g.x[1] and x[1] // 8 < g.x[1] + 8 for x in f.p.fields(n))

class TooBig(Exception):
    pass

NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt',
       'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle',
        'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}

def cmp_const(pred, a, b, bits=64):
    m = (1 << bits) - 1
    ua, ub = a & m, b & m
    return {'eq': ua == ub, 'ne': ua != ub, 'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b,
            'ult': ua < ub, 'ule': ua <= ub, 'ugt': ua > ub, 'uge': ua >= ub}[pred]

def callval(f, I):
    """calls whose result is fixed: an error log returns JSI_ERROR (confirmed by the C-LOG obligation)"""
    if I.callee_name == 'Jsi_LogMsg':
        ev = f.p.enumval
        if const_int(I.ops[2]) == ev.get('JSI_LOG_ERROR'): return ev.get('JSI_ERROR')
    return None

class Explorer:
    def __init__(s, f, edge_atoms=None, inst=None, track=(), limit=120000, correlate=True, init=frozenset(),
                 kill_on_redef=True, widen=600, const=None, refine=False):
        """edge_atoms(f, facts) is called with a list of (pred, lhs, rhs) comparisons that hold on the
        edge and returns atoms to add (or ('-', atom) to remove).
        inst(I, atoms, st) may return new atoms (or None), or a list of atom sets (a fork), at each instruction."""
        s.f = f; s.edge_atoms = edge_atoms; s.instfn = inst; s.limit = limit; s.init = init; s.refine = refine; s.widen = widen
        s._cnt = {}; s._join = {}
        s.track = set(track); s.correlate = correlate; s.const = const or {}
        s.at = {}     # instruction id -> set of atom sets, filled for instructions in `watch`
        s.nstates = 0
        s._prep()
    def _prep(s):
        f = s.f
        # phis that (transitively) decide control flow or the return value
        need = set(); work = []
        for b in f.blocks:
            t = b[-1]
            if t.op in ('br', 'switch', 'ret') and t.ops and isinstance(t.ops[0], int): work.append(t.ops[0])
        work += list(s.track)
        uses_of = {}
        seen = set()
        while work:
            v = work.pop()
            if v in seen or v not in f.inst: continue
            seen.add(v); I = f.inst[v]
            if I.op == 'phi' or (I.op == 'select' and I.ty != 'i1'): need.add(v)
            if I.op in ('phi', 'icmp', 'and', 'or', 'xor', 'select') or I.op in CASTS:
                for o in I.ops:
                    if isinstance(o, int): work.append(o)
        s.need = need
        # blocks where each needed phi may still matter
        dep = {p: set() for p in need}
        for b in range(len(f.blocks)):
            t = f.blocks[b][-1]
            if t.op in ('br', 'switch', 'ret') and t.ops and isinstance(t.ops[0], int):
                st = [t.ops[0]]; sn = set()
                while st:
                    v = st.pop()
                    if v in sn or v not in f.inst: continue
                    sn.add(v); I = f.inst[v]
                    if v in need: dep[v].add(b)
                    if I.op in ('icmp', 'and', 'or', 'xor', 'select') or I.op in CASTS:
                        st += [o for o in I.ops if isinstance(o, int)]
                    # a phi is copied on edges into its block, not here
        for p in need:
            for u in f.users.get(p, ()):
                st = [u]; sn = set()
                while st:
                    J = st.pop()
                    if J.id in sn: continue
                    sn.add(J.id)
                    if J.op == 'select': dep[p].add(J.bb)
                    if J.op == 'phi' and (J.id in need):
                        for o, b in zip(J.ops, J.x):
                            if isinstance(o, int) and (o == p or o in sn): dep[p].add(b)
                    elif J.op in ('icmp', 'and', 'or', 'xor', 'select') or J.op in CASTS:
                        st += f.users.get(J.id, ())
        for t in s.track:
            if t in dep: dep[t] = set(range(len(f.blocks)))
        for t in s.const:
            need.add(t); dep[t] = set(range(len(f.blocks)))
        # values tested against constants in several places keep their outcome
        tested = {}
        for bi, b in enumerate(f.blocks):
            t = b[-1]
            if t.op == 'switch': tested.setdefault(strip(f, t.ops[0]), set()).add(bi)
            elif t.op == 'br' and t.ops and isinstance(t.ops[0], int):
                st = [t.ops[0]]; sn = set()
                while st:
                    v = st.pop()
                    if v in sn: continue
                    if v not in f.inst:
                        if isinstance(v, int) and v not in sn: sn.add(v); tested.setdefault(v, set()).add(bi)
                        continue
                    sn.add(v); I = f.inst[v]
                    if I.op == 'icmp':
                        for o, q in ((I.ops[0], I.ops[1]), (I.ops[1], I.ops[0])):
                            if const_int(q) is not None and isinstance(o, int): tested.setdefault(strip(f, o), set()).add(bi)
                    if I.op in ('and', 'or', 'xor', 'select', 'icmp', 'phi') or I.op in CASTS: st += [o for o in I.ops if isinstance(o, int)]
        for v, bs in tested.items():
            if isinstance(v, int) and len(bs) > 1:
                need.add(v); dep.setdefault(v, set()).update(bs)
        # live-in blocks by backward reachability, stopping at the definition
        s.live = {}
        for p in need:
            d = f.inst[p].bb if p in f.inst else -1
            lv = set(); w = list(dep[p])
            while w:
                b = w.pop()
                if b in lv: continue
                lv.add(b)
                if b == d: continue
                w += f.preds[b]
            s.live[p] = lv
        # repeated conditions
        s.cond_key = {}
        cnt = {}
        if s.correlate:
            for b in f.blocks:
                t = b[-1]
                if t.op == 'br' and t.ops:
                    for kx in s._keys(t.ops[0]):
                        cnt.setdefault(kx[0], set()).add(b[0].bb)
            s.rep = {kx: bs for kx, bs in cnt.items() if len(bs) > 1}
            s.replive = {}
            for kx, bs in s.rep.items():
                lv = set(); w = list(bs)
                while w:
                    b = w.pop()
                    if b in lv: continue
                    lv.add(b); w += f.preds[b]
                s.replive[kx] = lv
            s.repdefs = {kx: s._leaf_defs(kx) for kx in s.rep}
            s.shared = s._shared_loads()
            for kx, sh in s.shared.items():
                if sh: s.repdefs[kx] = s.repdefs[kx] | sh
            # fields written in this function: a store to one forgets conditions that read it
            s.storekills = {}
            for I in f.insts():
                if I.op == 'store':
                    e = expr(f, I.ops[1], 4)
                    fld = None
                    if e[0] == 'fld': fld = e[2]
                    bs = bitfield_store(f, I)
                    if bs: fld = bs[1]
                    if fld:
                        ks = [kx for kx in s.rep if s._mentions(kx, fld) and s._reloads(kx, fld)]
                        if ks: s.storekills[I.id] = ks
                    elif isinstance(I.ops[1], int) and I.ops[1] in f.inst and f.inst[I.ops[1]].op == 'alloca':
                        ks = [kx for kx in s.rep if s._mentions(kx, I.ops[1])]
                        if ks: s.storekills[I.id] = ks
        else:
            s.rep = {}; s.replive = {}; s.storekills = {}; s.repdefs = {}
    def _condloads(s, v, out):
        I = s.f.inst.get(v) if isinstance(v, int) else None
        if I is None or v in out: return
        if I.op == 'load': out.add(v); s._condloads(I.ops[0], out)
        elif I.op in CASTS or I.op in ('icmp', 'and', 'or', 'xor', 'lshr', 'ashr', 'shl', 'getelementptr', 'add', 'sub', 'mul'):
            for o in I.ops: s._condloads(o, out)
    def _shared_loads(s):
        """loads every occurrence of a repeated condition shares: a later store cannot change what they read"""
        al = {}; un = {}
        for b in s.f.blocks:
            t = b[-1]
            if t.op == 'br' and t.ops:
                for kx, _ in s._keys(t.ops[0]):
                    if kx not in s.rep: continue
                    l = set(); s._condloads(t.ops[0], l)
                    al[kx] = al[kx] & l if kx in al else set(l)
                    un.setdefault(kx, set()).update(l)
        s.allloads = un
        return al
    def _reloads(s, kx, fld):
        for v in s.allloads.get(kx, ()):
            if v in s.shared.get(kx, ()): continue
            e = expr(s.f, s.f.inst[v].ops[0], 4)
            if not (isinstance(e, tuple) and e and e[0] == 'fld') or e[2] == fld: return True
            # bitfield units carry the name of their first member
            if bitfieldunit(s.f, v): return True
        return False
    def _mentions(s, kx, fld):
        if kx == fld: return True
        if isinstance(kx, tuple): return any(s._mentions(x, fld) for x in kx)
        return False
    def _leaf_defs(s, kx):
        r = set()
        def w(x):
            if isinstance(x, tuple):
                if len(x) == 3 and x[0] == 'call': r.add(x[2]); return
                if len(x) == 2 and x[0] == 'v': r.add(x[1]); return
                for y in x: w(y)
        w(kx)
        return {d for d in r if isinstance(d, int)}
    def _keys(s, cond):
        """normal form(s) of an i1: list of (key, polarity) with key = (pred-class, lhs, rhs)"""
        f = s.f
        if cond in s.cond_key: return s.cond_key[cond]
        out = []
        if isinstance(cond, int) and cond in f.inst and f.inst[cond].op == 'icmp':
            I = f.inst[cond]
            r = s.norm(I)
            if r:
                pred, a, b = r
                if pred == 'ne': out = [(('eq', a, b), False)]
                elif pred in ('eq', 'slt', 'ult', 'sgt', 'ugt'): out = [((pred, a, b), True)]
                else: out = [((NEG[pred], a, b), False)]
        elif isinstance(cond, int) and cond in f.inst and f.inst[cond].op == 'trunc':
            e = expr(f, cond, 8)
            if e[0] == 'ld': out = [(('eq', e, ('i', 0, 0)), False)]
        s.cond_key[cond] = out
        return out
    def norm(s, I):
        """icmp -> (pred, exprA, exprB) looking through `x != 0` wrappers around comparisons/casts"""
        f = s.f
        pred, a, b = I.x, I.ops[0], I.ops[1]
        ca, cb = const_int(a), const_int(b)
        if ca is not None and cb is None:
            a, b, ca, cb = b, a, cb, ca; pred = SWAP[pred]
        ea, eb = expr(f, a, 8), expr(f, b, 8)
        if eb[0] in ('n', 'z'): eb = ('i', 0, 0)
        elif eb[0] == 'i': eb = ('i', eb[1], 0)
        if ea[0] == 'icmp' and eb == ('i', 0, 0) and pred in ('eq', 'ne'):
            p2 = ea[1]
            if pred == 'eq': p2 = NEG[p2]
            x, y = ea[2], ea[3]
            if x and x[0] in ('i', 'n', 'z') and y[0] not in ('i', 'n', 'z'): x, y = y, x; p2 = SWAP[p2]
            if y[0] in ('n', 'z'): y = ('i', 0, 0)
            elif y[0] == 'i': y = ('i', y[1], 0)
            return (p2, x, y)
        return (pred, ea, eb)
    # ---- values under facts
    def val(s, v, facts):
        """constant int, or ('nz',) or None"""
        c = const_int(v)
        if c is not None: return c
        if isinstance(v, tuple):
            if v and v[0] in ('g', 'f'): return 'nz'
            return None
        x = facts.get(v)
        if x is not None:
            if x[0] == 'c': return x[1]
            if x[0] == '=':
                r = s.val(x[1], facts) if x[1] != v else None
                return 'nz' if r is None and len(x) > 2 else r
        I = s.f.inst.get(v)
        if I is None: return None
        if I.op in ('zext', 'freeze', 'bitcast', 'sext', 'trunc', 'ptrtoint', 'inttoptr'):
            r = s.val(I.ops[0], facts)
            if r is None:
                if I.op == 'trunc' and s.rep:
                    for kx, pol in s._keys(v):
                        o = facts.get(kx)
                        if o is not None: return int(o[1] == pol)
                return None
            if r == 'nz': return None if I.op == 'trunc' else 'nz'
            if I.op == 'zext':
                b = I.x if isinstance(I.x, str) else 'i64'
                if b[1:].isdigit() and r < 0: r &= (1 << int(b[1:])) - 1
            if I.op == 'trunc' and I.ty[1:].isdigit():
                n = int(I.ty[1:]); r &= (1 << n) - 1
                if n > 1 and r >> (n - 1): r -= 1 << n
            return r
        if I.op == 'icmp':
            a, b = s.val(I.ops[0], facts), s.val(I.ops[1], facts)
            if a is not None and b is not None:
                if a == 'nz' or b == 'nz':
                    if (a == 'nz' and b == 0) or (b == 'nz' and a == 0):
                        return {'eq': 0, 'ne': 1}.get(I.x)
                    return None
                return int(cmp_const(I.x, a, b))
            if s.rep:
                for kx, pol in s._keys(v):
                    o = facts.get(kx)
                    if o is not None: return int(o[1] == pol)
            return None
        if I.op == 'xor':
            a, b = s.val(I.ops[0], facts), s.val(I.ops[1], facts)
            if isinstance(a, int) and isinstance(b, int): return (a ^ b) & 1 if I.ty == 'i1' else a ^ b
            return None
        if I.op in ('and', 'or'):
            a, b = s.val(I.ops[0], facts), s.val(I.ops[1], facts)
            if I.op == 'and' and (a == 0 or b == 0): return 0
            if isinstance(a, int) and isinstance(b, int): return a & b if I.op == 'and' else a | b
            return None
        if I.op == 'call': return callval(s.f, I)
        if I.op == 'select':
            c = s.val(I.ops[0], facts)
            if c == 1 or c == -1: return s.val(I.ops[1], facts)
            if c == 0: return s.val(I.ops[2], facts)
        return None
    def resolve(s, v, facts):
        """follow phi aliases on this path"""
        n = 0
        while isinstance(v, int) and n < 50:
            x = facts.get(v)
            if x is not None and x[0] == '=': v = x[1]; n += 1; continue
            break
        return v
    def peel(s, v, facts):
        """resolve, looking through `x != 0` of a boolean x"""
        v = s.resolve(v, facts); n = 0
        while isinstance(v, int) and v in s.f.inst and n < 20:
            I = s.f.inst[v]; n += 1
            if I.op != 'icmp' or I.x != 'ne' or const_int(I.ops[1]) != 0 or not isinstance(I.ops[0], int): break
            r = s.resolve(strip(s.f, I.ops[0]), facts)
            if isinstance(r, int): r = strip(s.f, r)
            if not isinstance(r, int) or r not in s.f.inst or s.f.inst[r].ty != 'i1': break
            v = r
        return v
    def implied(s, cond, truth, facts, out, depth=0):
        """collect (pred, lhs value, rhs value) comparisons implied by cond==truth"""
        f = s.f
        if depth > 8: return
        if isinstance(cond, int):
            cond = s.resolve(cond, facts)
        if not isinstance(cond, int) or cond not in f.inst:
            if isinstance(cond, int): out.append(('ne' if truth else 'eq', cond, ('i', 0, 0)))
            return
        I = f.inst[cond]
        if I.op == 'icmp':
            pred = I.x if truth else NEG[I.x]
            a, b = I.ops
            ca, cb = const_int(a), const_int(b)
            if ca is not None and cb is None: a, b = b, a; pred = SWAP[pred]; ca, cb = cb, ca
            # look through (bool) != 0
            if cb is not None and pred in ('eq', 'ne') and isinstance(a, int):
                src = s.resolve(strip(f, a), facts)
                if isinstance(src, int): src = strip(f, src)
                J = f.inst.get(src) if isinstance(src, int) else None
                if J is not None and (J.op in ('icmp',) or (J.op in ('and', 'or', 'xor') and J.ty == 'i1') or (J.ty == 'i1')):
                    if cb == 0: s.implied(src, pred == 'ne', facts, out, depth + 1); 
                    elif cb == 1: s.implied(src, pred == 'eq', facts, out, depth + 1)
                    if J.ty == 'i1': return
            out.append((pred, a, b))
        elif I.op == 'xor' and const_int(I.ops[1]) in (1, -1):
            s.implied(I.ops[0], not truth, facts, out, depth + 1)
        elif I.op == 'and' and I.ty == 'i1' and truth:
            s.implied(I.ops[0], True, facts, out, depth + 1); s.implied(I.ops[1], True, facts, out, depth + 1)
        elif I.op == 'or' and I.ty == 'i1' and not truth:
            s.implied(I.ops[0], False, facts, out, depth + 1); s.implied(I.ops[1], False, facts, out, depth + 1)
        elif I.op == 'select' and I.ty == 'i1':
            # a && b  = select a, b, false ;  a || b = select a, true, b
            if truth and const_int(I.ops[2]) == 0:
                s.implied(I.ops[0], True, facts, out, depth + 1); s.implied(I.ops[1], True, facts, out, depth + 1)
            if not truth and const_int(I.ops[1]) in (1, -1):
                s.implied(I.ops[0], False, facts, out, depth + 1); s.implied(I.ops[2], False, facts, out, depth + 1)
        elif I.op in CASTS:
            s.implied(I.ops[0], truth, facts, out, depth + 1)
        else:
            out.append(('ne' if truth else 'eq', cond, ('i', 0, 0)))
    # ---- exploration
    def run(s, watch=None, on_ret=None, on_inst=None):
        """watch: instruction ids whose reaching atom sets are recorded in s.at.
        on_ret(I, atoms, facts), on_inst via constructor's inst."""
        f = s.f
        watch = set(watch or ())
        for w in watch: s.at.setdefault(w, set())
        start = (0, -1, s.init, tuple(sorted(((k, ('c', v)) for k, v in s.const.items()), key=repr)))
        seen = {start}; work = [(start, None)]
        s.parent = {start: None}
        s.rets = []
        while work:
            st, _ = work.pop()
            b, pb, atoms, ft = st
            s.nstates += 1
            if s.nstates > s.limit: raise TooBig(f.name)
            facts = dict(ft)
            blk = f.blocks[b]
            cur = [(atoms, facts)]
            for I in blk:
                if I.op == 'phi': 
                    continue
                if I.id in s.storekills:
                    for _, fc in cur:
                        for kx in s.storekills[I.id]: fc.pop(kx, None)
                if I.id in watch:
                    for a, fc in cur: s.at[I.id].add(a)
                if I.op == 'select' and I.id in s.need:
                    nxt = []
                    for a, fc in cur:
                        c = s.val(I.ops[0], fc)
                        for truth, o in ((True, I.ops[1]), (False, I.ops[2])):
                            if c is not None and c != 'nz' and bool(c) != truth: continue
                            nf = dict(fc); na = a
                            if c is None and s.edge_atoms:
                                imp = []; s.implied(I.ops[0], truth, fc, imp)
                                add = s.edge_atoms(imp, na, nf) if imp else None
                                if add is False: continue
                                if add: na = s._add(na, add)
                            if c is None and s.rep:
                                for kx, pol in s._keys(s.resolve(I.ops[0], fc) if isinstance(I.ops[0], int) else I.ops[0]):
                                    if kx in s.rep: nf[kx] = ('t', truth == pol)
                            cv = s.val(o, nf)
                            if cv is not None: nf[I.id] = ('c', cv)
                            elif isinstance(o, int): nf[I.id] = ('=', s.resolve(o, nf))
                            nxt.append((na, nf))
                    cur = nxt
                if s.instfn and I.op not in ('br', 'switch'):
                    nxt = []
                    for a, fc in cur:
                        r = s.instfn(I, a, fc, st)
                        if r is None: nxt.append((a, fc))
                        elif isinstance(r, list):
                            for x in r: nxt.append((x, dict(fc)))
                        else: nxt.append((r, fc))
                    cur = nxt
                if I.op == 'ret':
                    for a, fc in cur:
                        s.rets.append((I, a, fc, st))
                        if on_ret: on_ret(I, a, fc, st)
            t = blk[-1]
            if t.op not in ('br', 'switch'): continue
            for a, fc in cur:
                for tgt, imp, extra in s.edges(t, fc):
                    na = a
                    nf = fc
                    if extra:
                        nf = dict(fc); nf.update(extra)
                    if s.edge_atoms and imp:
                        add = s.edge_atoms(imp, na, nf)
                        if add is False: continue
                        if add: na = s._add(na, add)
                    ns = s.enter(b, tgt, na, nf)
                    if ns not in seen:
                        kj = (ns[0], ns[2])
                        n = s._cnt[kj] = s._cnt.get(kj, 0) + 1
                        if n > s.widen:
                            # too many variants of the same atoms here: keep only the facts they share
                            j = s._join.get(kj)
                            me = frozenset(ns[3])
                            if j is not None:
                                if j <= me: continue
                                me = j & me
                            s._join[kj] = me
                            ns = (ns[0], ns[1], ns[2], tuple(sorted(me, key=repr)))
                            if ns in seen: continue
                        seen.add(ns); s.parent[ns] = st
                        work.append((ns, None))
        return s
    def _add(s, na, add):
        na = set(na)
        for x in add:
            if isinstance(x, tuple) and x and x[0] == '-': na.discard(x[1])
            else: na.add(x)
        return frozenset(na)
    def edges(s, t, facts):
        f = s.f
        if t.op == 'br':
            if not t.ops: return [(t.x[0], [], None)]
            c = s.val(t.ops[0], facts)
            res = []
            if t.x[0] == t.x[1]: return [(t.x[0], [], None)]
            for truth, tgt in ((True, t.x[0]), (False, t.x[1])):
                if c is not None and c != 'nz' and bool(c) != truth: continue
                imp = []; s.implied(t.ops[0], truth, facts, imp)
                # contradictions with known constants
                bad = False
                extra = {}
                for pred, a, b in imp:
                    va, vb = s.val(a, facts), s.val(b, facts)
                    if va == 'nz' or vb == 'nz':
                        if (va == 0 or vb == 0) and pred == 'eq': bad = True
                    elif va is not None and vb is not None:
                        w = 64
                        if not cmp_const(pred, va, vb, w): bad = True
                    # learn equality of phis in need
                    if pred == 'eq' and vb is not None and vb != 'nz' and isinstance(a, int):
                        r = s.resolve(strip(f, a), facts)
                        if r in s.need: extra[r] = ('c', vb)
                        elif s.refine:
                            v = strip(f, a)
                            if v in s.need and v not in s.track and facts.get(v) == ('=', r): extra[v] = ('c', vb)
                    if pred == 'ne' and vb == 0 and isinstance(a, int):
                        r = s.resolve(strip(f, a), facts)
                        if r in s.need and s.val(r, facts) is None: extra[r] = ('c', 'nz')
                        elif s.refine and r not in s.need:
                            v = strip(f, a)
                            if v in s.need and facts.get(v) == ('=', r): extra[v] = ('=', r, 'nz')
                if bad: continue
                if s.rep:
                    for kx, pol in s._keys(s.resolve(t.ops[0], facts) if isinstance(t.ops[0], int) else t.ops[0]):
                        if kx in s.rep: extra[kx] = ('t', truth == pol)
                res.append((tgt, imp, extra))
            return res
        # switch
        c = s.val(t.ops[0], facts)
        res = {}
        dflt = t.x[0][0]
        if isinstance(c, int):
            for tg in t.x[1:]:
                if tg[1] == c: return [(tg[0], [('eq', t.ops[0], ('i', c, 0))], None)]
            return [(dflt, [('ne', t.ops[0], ('i', x[1], 0)) for x in t.x[1:]], None)]
        out = []
        sv = strip(f, t.ops[0])
        if sv not in s.need: sv = None
        for tg in t.x[1:]:
            out.append((tg[0], [('eq', t.ops[0], ('i', tg[1], 0))], {sv: ('c', tg[1])} if sv is not None else None))
        out.append((dflt, [('ne', t.ops[0], ('i', x[1], 0)) for x in t.x[1:]], None))
        return out
    def enter(s, src, tgt, atoms, facts):
        f = s.f
        nf = {}
        newphi = {}
        defs = None
        for I in f.blocks[tgt]:
            if I.op != 'phi': break
            if I.id in s.need and tgt in s.live[I.id]:
                try: v = I.ops[I.x.index(src)]
                except ValueError: continue
                c = s.val(v, facts)
                if isinstance(v, tuple) and v and v[0] == 'g': newphi[I.id] = ('=', v)
                elif c is not None and not (c == 'nz' and I.id in s.track): newphi[I.id] = ('c', c)
                elif isinstance(v, int):
                    r = s.peel(v, facts)
                    if r != I.id: newphi[I.id] = ('=', r, 'nz') if c == 'nz' else ('=', r)
                    elif c == 'nz': newphi[I.id] = ('c', c)
        ids = s._blockdefs(tgt)
        for kx, v in facts.items():
            if isinstance(kx, tuple):
                if tgt in s.replive.get(kx, ()) and not (s.repdefs[kx] & ids): nf[kx] = v
            else:
                if tgt in s.live.get(kx, ()) and kx not in ids:
                    if v[0] == '=' and s._cone(v[1]) & ids:
                        if len(v) == 2: continue
                        v = ('c', 'nz')
                    nf[kx] = v
        for kx, v in newphi.items():
            if v[0] == '=' and s._cone(v[1]) & ids:
                if len(v) == 2: continue
                v = ('c', 'nz')
            nf[kx] = v
        if atoms:
            dead = [a for a in atoms if isinstance(a, tuple) and len(a) > 1 and isinstance(a[1], int) and a[1] in ids and a[0] != '!']
            if dead: atoms = frozenset(x for x in atoms if x not in dead)
        haspi = bool(f.blocks[tgt]) and f.blocks[tgt][0].op == 'phi'
        return (tgt, -1, atoms, tuple(sorted(nf.items(), key=repr)))
    def _cone(s, v):
        """ids a value is computed from through the operations val()/implied() look into"""
        if not hasattr(s, '_cn'): s._cn = {}
        if not isinstance(v, int): return set()
        if v not in s._cn:
            out = set(); st = [v]
            while st:
                x = st.pop()
                if x in out or not isinstance(x, int): continue
                out.add(x); I = s.f.inst.get(x)
                if I is not None and (I.op in ('icmp', 'and', 'or', 'xor', 'select') or I.op in CASTS):
                    st += [o for o in I.ops if isinstance(o, int)]
            s._cn[v] = out
        return s._cn[v]
    def _blockdefs(s, b):
        if not hasattr(s, '_bd'): s._bd = {}
        if b not in s._bd: s._bd[b] = {I.id for I in s.f.blocks[b]}
        return s._bd[b]
    def trace(s, st):
        """line numbers of the path that first reached state st"""
        out = []
        while st is not None:
            b = st[0]
            l = [I.line for I in s.f.blocks[b] if I.line]
            if l: out.append(l[0])
            st = s.parent.get(st)
        out.reverse()
        r = []
        for x in out:
            if not r or r[-1] != x: r.append(x)
        return r
