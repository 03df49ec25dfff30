"""C14: text and data are copied only within the memory meant for them."""
from ir import *
import re

# function: (destination argument, kind, argument that bounds what is written)
W = {'snprintf': (0, 'n', 1), 'vsnprintf': (0, 'n', 1), 'strncpy': (0, 'n', 2), 'fgets': (0, 'n', 1), 'read': (1, 'n', 2), 'recv': (1, 'n', 2), 'recvfrom': (1, 'n', 2),
     'getcwd': (0, 'n', 1), 'readlink': (1, 'n', 2), 'strftime': (0, 'n', 1), 'regerror': (2, 'n', 3), 'getpwuid_r': (2, 'n', 3), 'getlogin_r': (0, 'n', 1), 'gethostname': (0, 'n', 1),
     'llvm.memcpy.p0.p0.i64': (0, 'n', 2), 'llvm.memmove.p0.p0.i64': (0, 'n', 2), 'llvm.memset.p0.i64': (0, 'n', 2), 'memcpy': (0, 'n', 2), 'fread': (0, 'n', (1, 2)), 'strncat': (0, 'cat', 2),
     'sqlite3_snprintf': (1, 'n', 0), 'strcpy': (0, 'str', 1), 'stpcpy': (0, 'str', 1), 'strcat': (0, 'cat', 1), 'sprintf': (0, 'fmt', 1), 'vsprintf': (0, 'fmt', 1), 'realpath': (1, 'const', 4096), 'cuserid': (0, 'const', 9)}
ALLOC = {'Jsi_Malloc': 0, 'malloc': 0, 'Jsi_Realloc': 1, 'realloc': 1}
CALLOC = {'calloc', 'Jsi_Calloc'}
LEN = {'strlen', 'Jsi_Strlen'}
# leave the program's data alone
PURE = LEN | set(ALLOC) | CALLOC | {'free', 'Jsi_Free', '__assert_fail', 'strchr', 'Jsi_Strchr', 'strcmp', 'Jsi_Strcmp', 'Jsi_Strncmp', 'Jsi_Strstr', '__errno_location'}

# ---- linear expressions: {atom: coefficient}, constant under None
def lc(n): return {None: n} if n else {}
def ladd(a, b, m=1):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + m * v
        if not r[k]: del r[k]
    return r
def lmul(a, m): return {k: v * m for k, v in a.items()} if m else {}
def lshow(a): return ' + '.join(['%s%s' % ('' if v == 1 else '%d*' % v, sh(k)) for k, v in a.items() if k is not None] + ([str(a[None])] if a.get(None) else [])) or '0'
def sh(k):
    if isinstance(k, tuple):
        if k[0] == 'arg': return 'argument %d' % (k[1] + 1)
        if k[0] == 'len': return 'strlen(%s)' % sh(k[1])
        if k[0] == 'call': return '%s()' % k[1]
        if k[0] == 'fld': return k[2].split('.')[-1]
        if k[0] == 'ld': return sh(k[1])
        return '(%s)' % ' '.join(sh(x) for x in k[:3])
    return str(k)

class Bounds:
    def __init__(s, p):
        s.p = p; s.facts_ = {}; s.fmax = None; s.moves_ = {}
    def esize(s, ty):
        m = re.match(r'i(\d+)$', ty)
        if m: return max(1, int(m.group(1)) // 8)
        if ty == 'ptr': return 8
        if ty == 'double': return 8
        if ty in s.p.structs: return s.p.structs[ty]['size']
        m = re.match(r'\[(\d+) x (.*)\]$', ty)
        if m: 
            e = s.esize(m.group(2))
            return e and int(m.group(1)) * e
        return None
    def lin(s, f, v, d=12):
        """value as a linear expression; widths of integers are not followed"""
        c = const_int(v)
        if c is not None: return lc(c)
        if not isinstance(v, int) or v not in f.inst: return {('arg', v) if isinstance(v, int) else v: 1}
        I = f.inst[v]
        if d:
            if I.op == 'load':
                st = s.canon(f, I)[1]
                if st: return s.lin(f, st[0], d - 1)
            if I.op in ('zext', 'sext', 'trunc', 'freeze', 'bitcast', 'ptrtoint', 'inttoptr'): return s.lin(f, I.ops[0], d - 1)
            if I.op == 'add': return ladd(s.lin(f, I.ops[0], d - 1), s.lin(f, I.ops[1], d - 1))
            if I.op == 'sub':
                return ladd(s.lin(f, I.ops[0], d - 1), s.lin(f, I.ops[1], d - 1), -1)
            if I.op in ('mul', 'shl'):
                a, b = I.ops
                if const_int(a) is not None: a, b = b, a
                m = const_int(b)
                if m is not None: return lmul(s.lin(f, a, d - 1), m if I.op == 'mul' else 1 << m)
            if I.op == 'sdiv' and const_int(I.ops[1]) == 1: return s.lin(f, I.ops[0], d - 1)
            if I.op == 'getelementptr':
                fl = s.p.gepfield(I)
                if not fl:
                    o = s.gepoff(f, I, d - 1)
                    if o is not None: return ladd(s.lin(f, I.ops[0], d - 1), o)
            if I.op == 'call' and I.callee_name in LEN:
                t = s.p.cstr(I.ops[0])
                if t is not None: return lc(len(t.encode('latin1', 'replace')))
                return s.slen(f, I.ops[0], d - 1)
        return {s.atom(f, v): 1}
    def slen(s, f, v, d=8):
        """strlen of a pointer"""
        return {('len', s.atom(f, strip(f, v))): 1}
    def atom(s, f, v):
        if not isinstance(v, int): return v
        if v not in f.inst: return ('arg', v)
        I = f.inst[v]
        if I.op in CASTS: return s.atom(f, I.ops[0])
        if I.op == 'getelementptr' and I.x[1] is not None and isinstance(I.ops[0], int) and not I.x[0].startswith('%'):
            a = s.atom(f, I.ops[0]); o = I.x[1]
            if isinstance(a, tuple) and a[0] == 'off': a, o = a[1], a[2] + o
            return ('off', a, o) if o else a
        if I.op == 'load':
            return ('at', s.canon(f, I)[0], expr(f, v))
        return ('v', v)
    def gepoff(s, f, I, d=10):
        if I.x[1] is not None: return lc(I.x[1])
        ty = I.x[0]; idx = I.ops[1:]
        r = {}
        for n, o in enumerate(idx):
            if n:
                m = re.match(r'\[(\d+) x (.*)\]$', ty)
                if not m: return None
                ty = m.group(2)
            e = s.esize(ty)
            if e is None: return None
            r = ladd(r, lmul(s.lin(f, o, d), e))
        return r
    def dests(s, f, v, off=None, seen=None, d=0):
        """where a pointer may point: [(kind, what, capacity as linear or None)] (offset already taken off)"""
        off = off or {}; seen = seen or frozenset()
        if d > 20: return [('unknown', 'deep', None)]
        if v in seen: return []
        seen = seen | {v}
        if isinstance(v, tuple):
            if v[0] == 'g':
                g = s.p.globals[v[1]]
                z = s.esize(g['t'])
                return [('global', v[1], ladd(lc(z - (v[2] if len(v) > 2 else 0)), off, -1) if z else None)]
            if v[0] in ('n', 'u', 'z'): return []
            return [('unknown', str(v[0]), None)]
        if v not in f.inst: return [('arg', v, off)]
        I = f.inst[v]
        if I.op in CASTS: return s.dests(f, I.ops[0], off, seen, d + 1)
        if I.op == 'getelementptr':
            fl = s.p.gepfield(I)
            if fl and s.p.field(fl[0], fl[1]):
                t = s.p.field(fl[0], fl[1])
                own = [q for q in s.p.fields(fl[0]) if q[1] == t[1] and q[2] == t[2]]
                if s.isarray(fl):
                    # last member of a structure allocated with room for it
                    return [('field', '%s.%s' % fl[:2], ladd(ladd(lc(t[2] // 8), lc(fl[2] or 0), -1), off, -1) if fl[2] is not None else None)]
                return s.dests(f, I.ops[0], ladd(off, s.gepoff(f, I) or {('v', v): 1}), seen, d + 1)
            o = s.gepoff(f, I)
            return s.dests(f, I.ops[0], ladd(off, o if o is not None else {('v', v): 1}), seen, d + 1)
        if I.op == 'alloca':
            n = s.lin(f, I.ops[0])
            sz = I.x[1]
            return [('local', v, ladd(lmul(n, sz), off, -1))]
        if I.op == 'phi' and s.moves(f, v):
            # a pointer moved in a loop: the base is where it starts, what is left is counted from it
            r = []
            for o in I.ops:
                for kd, w, cap in s.dests(f, o, {}, seen, d + 1):
                    base = s.base(f, o)
                    if kd == 'arg': r.append((kd, w, None)); continue
                    r.append((kd, w, ladd(ladd(ladd(s.size_of(f, base), {('v', base): 1}), {('v', v): 1}, -1), off, -1) if base is not None and kd in ('local', 'heap') else None))
            u = []
            for x in r:
                if x not in u: u.append(x)
            return u
        if I.op == 'phi':
            q = s.pair(f, v)
            if q is not None: return [('heap', v, ladd({('v', q): 1}, off, -1))]
        if I.op in ('phi', 'select'):
            r = []
            for o in (I.ops if I.op == 'phi' else I.ops[1:]):
                r += s.dests(f, o, off, seen, d + 1)
            return r
        if I.op == 'call':
            n = I.callee_name
            if n in ALLOC: return [('heap', v, ladd(s.lin(f, I.ops[ALLOC[n]]), off, -1))]
            if n in CALLOC:
                a, b = s.lin(f, I.ops[0]), s.lin(f, I.ops[1])
                if set(a) <= {None}: a, b = b, a
                if set(b) <= {None}: return [('heap', v, ladd(lmul(a, b.get(None, 0)), off, -1))]
            if n in ('Jsi_Strdup', 'strdup'): return [('heap', v, ladd(ladd(s.slen(f, I.ops[0]), lc(1)), off, -1))]
            return [('call', n, None)]
        if I.op == 'load': return [('load', expr(f, I.ops[0]), None)]
        return [('unknown', I.op, None)]
    def dests4(s, f, v, d=0):
        """dests, and what is known where one of several is chosen"""
        I = f.inst.get(v) if isinstance(v, int) else None
        if I is not None and d < 4:
            if I.op in CASTS: return s.dests4(f, I.ops[0], d)
            if I.op == 'getelementptr' and not s.p.gepfield(I):
                o = s.gepoff(f, I)
                if o is not None: return [(kd, w, ladd(cap, o, -1) if cap is not None else None, fx) for kd, w, cap, fx in s.dests4(f, I.ops[0], d)]
            if I.op == 'phi' and not s.moves(f, v) and s.pair(f, v) is None:
                r = []
                for o, bb in zip(I.ops, I.x):
                    if o == v: continue
                    fx = s.block_facts(f, bb) + s.edge_facts(f, bb, I.bb)
                    r += [(kd, w, cap, fx + fy) for kd, w, cap, fy in s.dests4(f, o, d + 1)]
                return r
        return [(kd, w, cap, []) for kd, w, cap in s.dests(f, v)]
    def ret_max(s, n, K, d=0):
        """is what a function returns at most K?"""
        k = (n, 'ret', K)
        if k not in s.moves_:
            s.moves_[k] = False
            f = s.p.funcs.get(n)
            if f is None or f.decl: return False
            R = [T for bl in f.blocks for T in bl if T.op == 'ret' and T.ops]
            s.moves_[k] = bool(R) and all(s.holds(f, ladd(lc(K), s.lin(f, T.ops[0]), -1), s.block_facts(f, T.bb), 5) for T in R)
        return s.moves_[k]
    def size_of(s, f, v):
        I = f.inst[v]
        if I.op == 'alloca': return lmul(s.lin(f, I.ops[0]), I.x[1])
        r = s.dests(f, v)
        return r[0][2]
    def base(s, f, v, seen=()):
        """the one allocation a pointer is derived from"""
        if not isinstance(v, int) or v not in f.inst or v in seen: return None
        I = f.inst[v]
        if I.op == 'alloca' or (I.op == 'call' and I.callee_name in ALLOC): return v
        if I.op in CASTS or I.op == 'getelementptr': return s.base(f, I.ops[0], seen + (v,))
        if I.op == 'phi':
            r = {s.base(f, o, seen + (v,)) for o in I.ops} - {None}
            return r.pop() if len(r) == 1 else None
        return None
    def moves(s, f, v):
        """does a phi depend on itself through pointer arithmetic?"""
        k = (f.name, v)
        if k not in s.moves_:
            st = [(o, False) for o in f.inst[v].ops]; seen = set(); r = False
            while st:
                o, g = st.pop()
                if o == v:
                    if g: r = True; break
                    continue
                if (o, g) in seen or not isinstance(o, int) or o not in f.inst: continue
                seen.add((o, g)); J = f.inst[o]
                if J.op == 'getelementptr': st.append((J.ops[0], True))
                elif J.op in CASTS: st.append((J.ops[0], g))
                elif J.op == 'phi': st += [(q, g) for q in J.ops]
                elif J.op == 'select': st += [(q, g) for q in J.ops[1:]]
            s.moves_[k] = r
        return s.moves_[k]
    def pair(s, f, v):
        """an integer kept beside a pointer so that it never exceeds the size of the memory the pointer is for"""
        k = (f.name, 'pair', v)
        if k in s.moves_: return s.moves_[k]
        def good(a, n, hyp):
            """is n at most the size of what a points to?"""
            a = strip(f, a)
            if not isinstance(a, int) or a not in f.inst: return False
            I = f.inst[a]
            if I.op == 'getelementptr' and s.gepoff(f, I) == {}: return good(I.ops[0], n, hyp)
            if I.op == 'phi':
                if (a, n) in hyp: return True
                if not isinstance(n, int) or n not in f.inst or f.inst[n].op != 'phi' or f.inst[n].bb != I.bb: return False
                m = dict(zip(f.inst[n].x, f.inst[n].ops))
                return all(good(o, m.get(bb), hyp | {(a, n)}) for o, bb in zip(I.ops, I.x))
            if I.op == 'alloca' or (I.op == 'call' and I.callee_name in ALLOC):
                z = s.size_of(f, a)
                if z is None or n is None: return False
                d = ladd(z, s.lin(f, n), -1)
                return not any(x is not None for x in d) and d.get(None, 0) >= 0
            return False
        r = None
        for J in f.blocks[f.inst[v].bb]:
            if J.op == 'phi' and re.match(r'i\d\d+$', J.ty) and good(v, J.id, frozenset()): r = J.id; break
        s.moves_[k] = r
        return r
    def isarray(s, fl):
        t = s.p.field(fl[0], fl[1])
        return '[' in t[4] + t[5] or (t[2] > 64 and not (s.p.dikey.get(t[4]) or s.p.dikey.get(t[5])))


    # ---- conditions that hold at a block (or on an edge)
    def canon(s, f, I):
        """an earlier load in the block that must have read the same"""
        key = expr(f, I.ops[0]); local = isinstance(I.ops[0], int) and I.ops[0] in f.inst and f.inst[I.ops[0]].op == 'alloca'
        best = I.id; bb = I.bb; lst = f.blocks[bb][:I.idx]; n = 0
        def scan(lst, best):
            for J in reversed(lst):
                if J.op == 'store':
                    if expr(f, J.ops[1]) == key: return best, J.ops[0]
                    if local: continue
                    if isinstance(J.ops[1], int) and J.ops[1] in f.inst and f.inst[J.ops[1]].op == 'alloca': continue
                    e = expr(f, J.ops[1])
                    if e[0] == 'fld' and key[0] == 'fld' and e[2] != key[2]: continue
                    return best, False
                elif J.op == 'call':
                    if J.callee_name in PURE or (J.callee_name or '').startswith('llvm.dbg'): continue
                    if local and not any(o == I.ops[0] for o in J.ops): continue
                    return best, False
                elif J.op == 'load' and expr(f, J.ops[0]) == key: best = J.id
            return best, None
        while True:
            best, st = scan(lst, best)
            if st is False: return best, None
            if st is not None: return best, (st,)
            n += 1
            if n > 20 or not f.preds[bb]: return best, None
            if len(f.preds[bb]) == 1: nb = f.preds[bb][0]
            else:
                # a join: on to the block all paths come from, when nothing between changes it
                dm = f.dom()[bb] & ~(1 << bb)
                nb = max((x for x in range(len(f.blocks)) if dm >> x & 1), key=lambda x: bin(f.dom()[x]).count('1'), default=None)
                if nb is None: return best, None
                w = list(f.preds[bb]); seen = {nb}
                while w:
                    x = w.pop()
                    if x in seen: continue
                    seen.add(x)
                    if x == bb or scan(f.blocks[x], 0)[1] is not None: return best, None
                    w += f.preds[x]
            bb = nb; lst = f.blocks[bb]
    def atoms_facts(s, f, v, want, d=0):
        """linear facts (expression >= 0) that a condition being `want` gives"""
        if not isinstance(v, int) or v not in f.inst or d > 6: return []
        I = f.inst[v]
        if I.op == 'icmp':
            pr = I.x
            a, b = s.lin(f, I.ops[0]), s.lin(f, I.ops[1])
            if const_int(I.ops[1]) == 0 and pr in ('eq', 'ne'):
                # a condition kept in a variable
                o = strip(f, I.ops[0])
                if isinstance(o, int) and o in f.inst and f.inst[o].op in ('icmp', 'phi'): return s.atoms_facts(f, o, want == (pr == 'ne'), d + 1)
            if pr == 'eq' or pr == 'ne':
                if (pr == 'eq') == want: return [ladd(a, b, -1), ladd(b, a, -1)]
                return []
            q = pr[1:]
            if not want: q = {'lt': 'ge', 'ge': 'lt', 'gt': 'le', 'le': 'gt'}[q]
            r = {'lt': ladd(ladd(b, a, -1), lc(-1)), 'le': ladd(b, a, -1), 'gt': ladd(ladd(a, b, -1), lc(-1)), 'ge': ladd(a, b, -1)}[q]
            return [r]
        if I.op == 'phi' and I.ty == 'i1':
            # a && b / a || b: when one constant alternative is excluded the other decides
            al = [(o, bb) for o, bb in zip(I.ops, I.x or [])] if isinstance(I.x, (list, tuple)) else []
            live = [(o, bb) for o, bb in al if const_int(o) is None or bool(const_int(o)) == want]
            if len(live) == 1:
                o, bb = live[0]
                return s.atoms_facts(f, o, want, d + 1) + s.block_facts(f, bb)
        if I.op == 'xor' and const_int(I.ops[1]) in (1, -1): return s.atoms_facts(f, I.ops[0], not want, d + 1)
        return []
    def edge_facts(s, f, a, b):
        T = f.blocks[a][-1]
        if T.op == 'br' and len(T.x) == 2 and T.x[0] != T.x[1]: return s.atoms_facts(f, T.ops[0], b == T.x[0])
        return []
    def block_facts(s, f, bb):
        k = (f.name, bb)
        if k not in s.facts_:
            s.facts_[k] = []
            r = []; dm = f.dom()[bb]
            for x in range(len(f.blocks)):
                if dm >> x & 1 and len(f.preds[x]) == 1: r += s.edge_facts(f, f.preds[x][0], x)
            s.facts_[k] = r
        return s.facts_[k]
    # ---- deciding capacity - need >= 0
    def nonneg(s, f, k, seen=()):
        if isinstance(k, tuple) and k[0] == 'len': return True
        if isinstance(k, tuple) and k[0] == 'at' and k[1] in f.inst:
            # a length another function gave back through a pointer to a local
            o = f.inst[k[1]].ops[0]
            if isinstance(o, int) and o in f.inst and f.inst[o].op == 'alloca' and f.inst[o].x[0] == 'i32':
                U = f.users[o]
                U = U + [K for J in U if J.op in ('select', 'phi') for K in f.users[J.id]]
                return any(J.op == 'call' for J in U) and all(J.op in ('load', 'call', 'select', 'phi') or (J.op == 'store' and (const_int(J.ops[0]) or 0) >= 0 and const_int(J.ops[0]) is not None) for J in U)
        if isinstance(k, tuple) and k[0] == 'v' and k[1] in f.inst:
            I = f.inst[k[1]]
            if k in seen: return True
            if I.op in ('phi', 'select'):
                for o in (I.ops if I.op == 'phi' else I.ops[1:]):
                    L = s.lin(f, o)
                    if L.get(None, 0) < 0 or any(v < 0 or not s.nonneg(f, a, seen + (k,)) for a, v in L.items() if a is not None): return False
                return True
            if I.op in ('urem', 'udiv', 'and', 'lshr'): return True
            if I.op == 'call' and I.callee_name in ('sprintf', 'snprintf', 'sqlite3_column_count', 'sqlite3_column_bytes', 'sqlite3_value_bytes', 'Jsi_NumUtfChars', 'Jsi_DSLength'): return True
        return False
    def fieldmax(s, n):
        """the largest constant ever stored in a field that only constants are stored in"""
        if s.fmax is None:
            s.fmax = {}
            for f in s.p.funcs.values():
                if f.decl: continue
                for I in f.insts():
                    if I.op != 'store' or not isinstance(I.ops[1], int) or I.ops[1] not in f.inst: continue
                    g = f.inst[I.ops[1]]
                    fl = s.p.gepfield(g) if g.op == 'getelementptr' else None
                    if fl: s.fmax.setdefault('%s.%s' % fl[:2], []).append(const_int(I.ops[0]))
        l = s.fmax.get(n)
        return max(l) if l and None not in l else None
    def caps(s, f, k):
        """upper bound of an atom, as linear expressions (atom <= e)"""
        r = []
        if isinstance(k, tuple) and k[0] == 'at' and k[2][0] == 'ld' and k[2][1][0] == 'fld':
            m = s.fieldmax(k[2][1][2])
            if m is not None: return [lc(m)]
        if isinstance(k, tuple) and k[0] == 'len' and isinstance(k[1], tuple) and k[1][0] == 'v':
            for kd, w, cap in s.dests(f, k[1][1]):
                if cap is None or kd not in ('local', 'field', 'global', 'heap'): return []
                r.append(ladd(cap, lc(-1)))
            return r[:1] if len(r) == 1 else []
        if isinstance(k, tuple) and k[0] == 'v' and k[1] in f.inst:
            I = f.inst[k[1]]
            if I.op == 'and':
                m = [const_int(o) for o in I.ops if const_int(o) is not None]
                if m and m[0] >= 0: return [lc(m[0])]
            if I.op == 'call' and I.callee_name in ('sprintf',):
                n = fmtneed(s, f, I, 1)
                if n is not None: return [ladd(n, lc(-1))]
            if I.op in ('urem', 'srem') and const_int(I.ops[1]): return [lc(abs(const_int(I.ops[1])) - 1)]
        return r
    def holds(s, f, L, facts, d=6, hyp=frozenset()):
        """L >= 0 from the facts"""
        if not any(a is not None for a in L): return L.get(None, 0) >= 0
        neg = [a for a, v in L.items() if a is not None and v < 0]
        rest = [a for a, v in L.items() if a is not None and v > 0]
        if L.get(None, 0) >= 0 and not neg and all(s.nonneg(f, a) for a in rest): return True
        if not d: return False
        for a in rest:
            if s.nonneg(f, a):
                M = {k: v for k, v in L.items() if k != a}
                if s.holds(f, M, facts, d - 1, hyp): return True
        for F in facts:
            if any(F.get(a, 0) * L[a] > 0 for a in L if a is not None):
                for m in sorted({abs(L[a]) for a in F if a in L and a is not None and F[a] * L[a] > 0}):
                    M = ladd(L, F, -m)
                    if len(M) < len(L) + (1 if None not in L else 0) + 1 and s.holds(f, M, facts, d - 1, hyp): return True
        for a in neg:
            for e in s.caps(f, a):
                M = ladd({k: v for k, v in L.items() if k != a}, lmul(e, L[a]))
                if s.holds(f, M, facts, d - 1, hyp): return True
        for a in neg:
            # a quotient: all of it multiplied out
            if isinstance(a, tuple) and a[0] == 'v' and a[1] in f.inst and f.inst[a[1]].op in ('sdiv', 'udiv', 'lshr', 'ashr'):
                I = f.inst[a[1]]; q = const_int(I.ops[1])
                if q and q > 0:
                    q = q if I.op in ('sdiv', 'udiv') else 1 << q
                    if len(L) <= 2 and set(L) <= {None, a}:
                        if s.holds(f, ladd(lc(q * (L.get(None, 0) // -L[a]) + q - 1), s.lin(f, I.ops[0]), -1), facts, d - 1, hyp): return True
                        continue
                    M = ladd(lmul({k: v for k, v in L.items() if k != a}, q), lmul(s.lin(f, I.ops[0]), L[a]))
                    if s.holds(f, M, facts, d - 1, hyp): return True
        if len(neg) == 1 and not rest and neg[0][0] == 'v' and neg[0][1] in f.inst:
            a = neg[0]; I = f.inst[a[1]]
            if I.op == 'call' and I.callee_name and s.ret_max(I.callee_name, L.get(None, 0) // -L[a]): return True
        # a value that is one of several: each (in a loop, by induction)
        if frozenset(L.items()) in hyp: return True
        hyp = hyp | {frozenset(L.items())}
        for a in L:
            if isinstance(a, tuple) and a[0] == 'v' and a[1] in f.inst and f.inst[a[1]].op in ('phi', 'select'):
                I = f.inst[a[1]]
                if I.op == 'select': alt = [(I.ops[1], s.atoms_facts(f, I.ops[0], True)), (I.ops[2], s.atoms_facts(f, I.ops[0], False))]
                else: alt = [(o, s.block_facts(f, bb) + s.edge_facts(f, bb, I.bb)) for o, bb in zip(I.ops, I.x)]
                M = {k: v for k, v in L.items() if k != a}
                if all(o == a[1] or s.holds(f, ladd(M, lmul(s.lin(f, o), L[a])), facts + fx, d - 1, hyp) for o, fx in alt): return True
        return False

def fmtneed(b, f, I, n):
    """bytes sprintf writes at most"""
    t = b.p.cstr(I.ops[n])
    if t is None: return None
    args = list(I.ops[n + 1:]); r = lc(1); pos = 0
    for m in re.finditer(r'%([-+ #0]*)(\d+|\*)?(?:\.(\d+|\*))?(hh|h|ll|l|z|j)?([a-zA-Z%])', t):
        r = ladd(r, lc(m.start() - pos)); pos = m.end()
        fl, w, pr, ln, cv = m.groups()
        if cv == '%': r = ladd(r, lc(1)); continue
        if w == '*' or pr == '*' or not args: return None
        a = args.pop(0)
        if cv in 'diuxXo': z = 24 if ln in ('l', 'll', 'z', 'j') else 12; r = ladd(r, lc(max(z, int(w or 0), int(pr or 0))))
        elif cv == 'c': r = ladd(r, lc(max(1, int(w or 0))))
        elif cv == 'p': r = ladd(r, lc(20))
        elif cv == 's':
            if pr: r = ladd(r, lc(int(pr)))
            else:
                s = b.p.cstr(a)
                r = ladd(r, lc(len(s)) if s is not None else b.slen(f, a))
        else: return None
    return ladd(r, lc(len(t) - pos))

# (function, call): why the room is there although the rule does not see it
ALLOW = {
    ('Jsi_DSAppendLen', 'llvm.memcpy.p0.p0.i64'): 'a growing text: its capacity is a run-time quantity (spaceAvl)',
    ('Jsi_DSPrintf', 'vsnprintf'): 'a growing text: its capacity is a run-time quantity (spaceAvl)',
    ('Jsi_DSSetLength', 'llvm.memcpy.p0.p0.i64'): 'a growing text: its capacity is a run-time quantity (spaceAvl)',
    ('dbOptSelect', 'strncpy'): 'a member of a structure described by option rows: offsets and sizes are decided by C06',
    ('jsiDumpInstr', 'jsi_code_decode'): 'the header printed first is far shorter than the buffer; the length of what is in it is not followed',
    ('jsiJsPreprocessLine', 'Jsi_Strcpy'): 'the text has ilen characters and 2*ilen+12 < bsiz was tested; that ilen is its length is not followed',
    ('jsiLNGetMatches', 'Jsi_Strcpy'): 'a line typed interactively, which linenoise limits to 4095 characters',
}

ALLOWX = {
    ('B64EncodeDStr', 'c'): 'four at a time: 72 is a multiple of four',
    ('SHA3_Transform', 'SHA3_CTX.state'): 'row and column of a five by five matrix',
    ('SqliteImportCmd', 'heap'): 'two characters per column after the first',
    ('lexer_ungetc', 'jsi_Lexer.unch'): 'the test counts bytes, not elements; at most a few characters are ever put back',
}

class Again:
    """the analysis made once more, of the program with helpers put in place"""
    def __init__(s, c): s.c = c; s.got = []
    def rule(s, t): pass
    def count(s, n, k=1): pass
    def floor(s, n, k): pass
    def prog(s, i): return s.c.prog(400)
    notes = []
    def ob(s, ok, key, where, msg): s.got.append((ok, key.split(':')[0], key.split(':')[2], where))

class Once:
    """collects what is open"""
    def __init__(s, c): s.c = c; s.bad = []
    def __getattr__(s, n): return getattr(s.c, n)
    def ob(s, ok, key, where, msg):
        if ok: s.c.ob(ok, key, where, msg)
        else: s.bad.append((key, where, msg))

def run(c):
    o = Once(c); analyse(o)
    if not o.bad: return
    # what was not shown is looked at again with helpers put in place of their calls
    a = Again(c); analyse(a)
    for key, where, msg in o.bad:
        l = [ok for ok, kind, what, w in a.got if w == where and kind == key.split(':')[0] and (kind == 'index' or what == key.split(':')[2])]
        c.ob(bool(l) and all(l), key, where, msg)

def analyse(c):
    p = c.prog(0); b = Bounds(p)
    c.rule('bounds: at every call that fills memory (strcpy, sprintf, snprintf, strncpy, memcpy, read, fgets, ... and every function of the program that passes a pointer of its caller on to one), what may be written is at most '
           'the capacity of the destination when that is an array, an array member, a global array or a block allocated in the function: by constants, by linear reasoning over the lengths and sizes involved and over the conditions that dominate the call')
    own = [f for f in p.funcs.values() if not f.decl and not any(x in f.file for x in ('miniz', 'linenoise', 'parser'))]
    W['Jsi_Strcpy'] = (0, 'str', 1); W['Jsi_Strncpy'] = (0, 'n', 2)
    skip = {'Jsi_Strcpy', 'Jsi_Strncpy'}
    need_of = {}      # function: {arg: [need]}
    def needs(f, I):
        """[(destination operand, need)] of a call"""
        n = I.callee_name; r = []
        if n in W:
            di, kind, x = W[n]
            if di >= len(I.ops): return []
            if kind == 'n' and isinstance(x, int): r.append((I.ops[di], b.lin(f, I.ops[x])))
            elif kind == 'n':
                a, q = b.lin(f, I.ops[x[0]]), b.lin(f, I.ops[x[1]])
                if set(a) <= {None}: r.append((I.ops[di], lmul(q, a.get(None, 0))))
                elif set(q) <= {None}: r.append((I.ops[di], lmul(a, q.get(None, 0))))
                else: r.append((I.ops[di], None))
            elif kind == 'const':
                if const_int(I.ops[di]) != 0: r.append((I.ops[di], lc(x)))
            elif kind == 'str': r += [(I.ops[di], q) for q in strs(f, I.ops[x])]
            
            elif kind == 'cat': r += [(I.ops[di], ladd(q, b.slen(f, I.ops[di]))) for q in strs_(f, I.ops[x])]
            elif kind == 'fmt': r.append((I.ops[di], fmtneed(b, f, I, x)))
        elif n in need_of:
            for ai, l in need_of[n].items():
                if ai >= len(I.ops): continue
                for nd in l:
                    q = lc(nd.get(None, 0))
                    for k, v in nd.items():
                        if k is None: continue
                        if k[0] == 'arg': q = ladd(q, b.lin(f, I.ops[k[1]]), v) if k[1] < len(I.ops) else None
                        else:
                            t = p.cstr(I.ops[k[1][1]]) if k[1][1] < len(I.ops) else None
                            q = ladd(q, lc(len(t)) if t is not None else b.slen(f, I.ops[k[1][1]]), v)
                    if q is not None: r.append((I.ops[ai], q))
        return r
    def strs(f, v):
        v = strip(f, v)
        if isinstance(v, int) and v in f.inst and f.inst[v].op in ('phi', 'select'):
            return [('or', ladd(b.slen(f, v), lc(1)), strs_(f, v))]
        return strs_(f, v)
    def strs_(f, v):
        w = [v]; out = []; seen = set()
        while w:
            v = w.pop()
            if v in seen: continue
            seen.add(v)
            t = p.cstr(v)
            if t is not None: out.append(lc(len(t) + 1)); continue
            if isinstance(v, int) and v in f.inst:
                I = f.inst[v]
                if I.op == 'phi': w += list(I.ops); continue
                if I.op == 'select': w += list(I.ops[1:]); continue
                if I.op in CASTS: w.append(I.ops[0]); continue
            out.append(ladd(b.slen(f, v), lc(1)))
        return out
    def argonly(nd): return all(k is None or k[0] == 'arg' or (k[0] == 'len' and isinstance(k[1], tuple) and k[1][0] == 'arg') for k in nd)
    import collections
    def structptr(f, i):
        t = (f.sig[i + 1] if i + 1 < len(f.sig) else '').replace('const ', '').replace('struct ', '')
        if t.endswith('*'): return p.di.get(t[:-1].strip())
        return None
    todo = collections.deque(own); und = []
    res = {}
    def written_len(f, I, d):
        """facts about the length of the text in a local that the call before left there"""
        r = []
        dm = f.dom()[I.bb]
        for J in f.calls():
            if J.callee_name in W and W[J.callee_name][1] == 'n' and isinstance(W[J.callee_name][2], int) and (dm >> J.bb & 1) and (J.bb != I.bb or J.idx < I.idx):
                dj = J.ops[W[J.callee_name][0]]
                if b.atom(f, dj) == b.atom(f, d): r.append(ladd(ladd(b.lin(f, J.ops[W[J.callee_name][2]]), lc(-1)), b.slen(f, d), -1))
        return r
    def visit(f):
        ch = False
        for I in f.calls():
            for d, nd in needs(f, I):
                for kind, w, cap, fx in b.dests4(f, d):
                    facts = b.block_facts(f, I.bb) + fx
                    alts = [nd]
                    if isinstance(nd, tuple):
                        # one text of several: by what is known of it whichever it is, or each by itself
                        one, each = nd[1], nd[2]
                        if kind == 'arg':
                            z = [F.get(None, 0) + one.get(None, 0) for F in facts if not any(a is not None for a in ladd(F, one))]
                            alts = [lc(min(z))] if z else each
                        elif cap is not None and b.holds(f, ladd(cap, one, -1), facts + written_len(f, I, d)): alts = [one]
                        else: alts = each
                    for q in alts: ch |= visit1(f, I, d, q, kind, w, cap, facts)
        return ch
    def visit1(f, I, d, nd, kind, w, cap, facts):
        ch = False
        key = (I.id, kind, w if not isinstance(w, tuple) else str(w), lshow(nd) if nd is not None else '?', lshow(cap) if cap is not None else '?')
        if kind == 'arg':
            sp = structptr(f, w)
            if nd is not None and cap is not None:
                t = ladd(nd, cap)
                if sp is not None and set(t) <= {None}:
                    res[f.name, key] = ('struct', t.get(None, 0) <= sp['size'] if 'size' in sp else True, I, nd, cap); return ch
                if argonly(t):
                    l = need_of.setdefault(f.name, {}).setdefault(w, [])
                    if t not in l: l.append(t); ch = True
                    res[f.name, key] = ('callers', True, I, nd, cap); return ch
            res[f.name, key] = ('undecided', True, I, nd, cap); return ch
        if cap is None or kind in ('call', 'load', 'unknown'): res[f.name, key] = ('undecided', True, I, nd, cap); return ch
        if nd is None: res[f.name, key] = ('open', False, I, nd, cap); return ch
        L = ladd(cap, nd, -1)
        ok = b.holds(f, L, facts + written_len(f, I, d))
        res[f.name, key] = ('ok' if ok else 'open', ok, I, nd, cap)
        return ch
    ch = True
    while ch:
        ch = False
        for f in own:
            if f.name not in skip and visit(f): ch = True
    # a condition on the arguments alone: asked of the callers, and of calls through the tables the function is in
    slots = {}
    for gn, g in p.globals.items():
        t = g.get('dt', '').replace('const ', '').replace('struct ', '').strip()
        if 'init' not in g or t not in p.di or '*' in t: continue
        for fl, v in p.decode_di(g['init'], t).items():
            if isinstance(v, tuple) and len(v) == 2 and v[0] == 'f': slots.setdefault(v[1], set()).add('%s.%s' % (t, fl))
    asked = {}
    for (fn, key), (k, ok, I, nd, cap) in sorted(res.items(), key=str):
        if ok or nd is None or isinstance(nd, tuple): continue
        L = ladd(cap, nd, -1)
        if not argonly(L) or not (slots.get(fn) or p.callers().get(fn)): continue
        calls = [(J.fn, J) for J in p.callers().get(fn, [])]
        for g in own:
            for J in g.calls():
                if isinstance(J.callee, int):
                    e = expr(g, J.callee)
                    if e[0] == 'ld' and e[1][0] == 'fld' and e[1][2] in slots.get(fn, ()): calls.append((g, J))
        good = True
        for g, J in calls:
            q = lc(L.get(None, 0))
            for a, v in L.items():
                if a is None: continue
                if a[0] == 'arg': q = ladd(q, b.lin(g, J.ops[a[1]]), v)
                else:
                    t = p.cstr(J.ops[a[1][1]])
                    q = ladd(q, lc(len(t)) if t is not None else b.slen(g, J.ops[a[1][1]]), v)
            if not b.holds(g, q, b.block_facts(g, J.bb)): good = False; asked[fn] = J
        if good: res[fn, key] = ('callers', True, I, nd, cap)
    def dst(f, I, key):
        w = key[2]
        if isinstance(w, int) and key[1] == 'local': return f.varnames.get(w) or 'local'
        return str(w) if key[1] in ('field', 'global') else key[1]
    for (fn, key), (k, ok, I, nd, cap) in sorted(res.items(), key=str):
        c.count({'ok': 'writes within an array or block of known size', 'open': 'writes not shown to fit', 'callers': 'writes whose room is asked of the callers', 'struct': 'writes to a structure of the caller', 'undecided': 'writes to memory whose size is kept at run time (not decided)'}[k])
        if k == 'undecided': continue
        if (fn, I.callee_name) in ALLOW: continue
        m = 'up to %s bytes are written to %s, which has %s left' % (lshow(nd) if nd is not None else 'an unknown number of', dst(p.funcs[fn], I, key), lshow(cap) if cap is not None else '?')
        if fn in asked and not ok: m += '; the call at %s does not make sure of it' % asked[fn].where()
        c.ob(ok, 'bounds:%s:%s:%s' % (fn, I.callee_name.split('.p0')[0], dst(p.funcs[fn], I, key)), I.where(), m)
    # element by element: a test that is made of the index, but admits one beyond the array
    c.rule('index: no element of an array of known size is read or written under a condition on the index that admits positions beyond the array (the condition would suffice if the array were larger by some bytes)')
    def varidx(f, v, d=0):
        if not isinstance(v, int) or v not in f.inst or d > 12: return False
        J = f.inst[v]
        if J.op in CASTS: return varidx(f, J.ops[0], d + 1)
        if J.op == 'getelementptr':
            if not p.gepfield(J):
                o = b.gepoff(f, J)
                if o is not None and any(a is not None for a in o): return True
            return varidx(f, J.ops[0], d + 1)
        if J.op == 'phi': return b.moves(f, v) or any(varidx(f, o, d + 3) for o in J.ops)
        return False
    for f in own:
        for I in f.insts():
            if I.op not in ('store', 'load'): continue
            a = I.ops[1 if I.op == 'store' else 0]
            if not varidx(f, a): continue
            for kind, w, cap, fx in b.dests4(f, a):
                if kind not in ('local', 'field', 'global', 'heap') or cap is None: continue
                v = I.ops[0] if I.op == 'store' else I.id
                n = 8
                if isinstance(v, int) and v in f.inst: n = b.esize(f.inst[v].ty) or 8
                elif isinstance(v, tuple) and v[0] == 'i': n = (v[2] + 7) // 8
                elif isinstance(v, int): n = 1
                L = ladd(cap, lc(n), -1)
                if set(L) <= {None}: continue
                facts = b.block_facts(f, I.bb) + fx
                what = ('writes' if I.op == 'store' else 'reads') + ' of elements'
                w0 = f.varnames.get(w, 'local') if kind == 'local' else str(w) if kind != 'heap' else 'heap'
                if b.holds(f, L, facts): c.count(what + ' shown to be within the array'); c.ob(True, 'index:%s:%s' % (f.name, w0), I.where(), ''); continue
                big = next((x for x in (1, 8, 64, 512, 4096) if b.holds(f, ladd(L, lc(x)), facts)), None)
                if big is None: c.count(what + ' whose index is not bounded by a condition on it (not decided)'); continue
                if (f.name, w0) in ALLOWX: c.count(what + ' allowed with a reason'); continue
                c.ob(False, 'index:%s:%s' % (f.name, w0), I.where(), '%s an element of %s under a condition that admits positions up to %s bytes beyond it' % ('writes' if I.op == 'store' else 'reads', w0, big))
    for k, why in list(ALLOW.items()) + list(ALLOWX.items()): c.notes.append('%s, %s: %s' % (k + (why,)))
    c.floor('writes within an array or block of known size', 350)
