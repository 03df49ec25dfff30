"""Program model over the JSON exported by tool/irx: functions, CFG, def-use, struct fields,
decoded global tables, call graph, and a path-sensitive dataflow engine."""
import json, sys
from collections import defaultdict, deque

class Inst:
    __slots__ = ('id', 'op', 'ty', 'ops', 'x', 'loc', 'bb', 'fn', 'callee', 'idx')
    def __init__(s, a, bb, fn, idx):
        s.id, s.op, s.ty, s.ops = a[0], a[1], a[2], [k(o) for o in a[3]]
        s.bb, s.fn, s.idx = bb, fn, idx
        s.callee = None
        if len(a) == 6:
            s.x, s.loc = a[4], a[5]
        else:
            s.x, s.loc = None, a[-1]
        if s.op in ('call', 'invoke'):
            s.callee = k(s.x)
        elif s.op == 'switch':
            s.x = [tuple(c) for c in s.x]
    @property
    def line(s):
        return s.loc[1] if s.loc else 0
    @property
    def callee_name(s):
        if isinstance(s.callee, tuple) and s.callee[0] == 'f':
            return s.callee[1]
        return None
    def where(s):
        if not s.loc:
            return '%s:?' % s.fn.file
        return '%s:%d' % (s.fn.p.files[s.loc[0]], s.loc[1])
    def __repr__(s):
        return '<%s %%%d %s %s %s>' % (s.fn.name, s.id, s.op, s.callee_name or '', s.where())

def k(o):
    if isinstance(o, list):
        return tuple(k(x) for x in o)
    return o

class Func:
    def __init__(s, p, d):
        s.p = p
        s.name = d['n']; s.decl = bool(d['decl']); s.local = bool(d['local']); s.va = d['va']
        s.rt = d['rt']; s.args = d['args']; s.noret = d['noret']
        s.file = p.files[d['file']] if 'file' in d else ''
        s.line = d.get('line', 0); s.sig = d.get('sig', []); s.src = d.get('name', s.name)
        s.blocks = []; s.inst = {}
        s.vars = d.get('vars', [])
        s.nargs = len(s.args)
        if not s.decl:
            for bi, b in enumerate(d['b']):
                bl = []
                for i, a in enumerate(b):
                    I = Inst(a, bi, s, i)
                    bl.append(I); s.inst[I.id] = I
                s.blocks.append(bl)
            s.succs = []
            for b in s.blocks:
                t = b[-1]
                if t.op == 'br': s.succs.append(list(t.x))
                elif t.op == 'switch': s.succs.append([c[0] for c in t.x])
                else: s.succs.append([])
            s.preds = [[] for _ in s.blocks]
            for i, ss in enumerate(s.succs):
                for j in ss:
                    if i not in s.preds[j]: s.preds[j].append(i)
        s._users = None; s._dom = None; s._vn = None
    def __repr__(s): return 'Func(%s)' % s.name
    def insts(s):
        for b in s.blocks:
            for i in b: yield i
    def calls(s, names=None):
        for b in s.blocks:
            for i in b:
                if i.op == 'call' and (names is None or i.callee_name in names): yield i
    @property
    def users(s):
        if s._users is None:
            u = defaultdict(list)
            for i in s.insts():
                for o in i.ops:
                    if isinstance(o, int): u[o].append(i)
                if isinstance(i.callee, int): u[i.callee].append(i)
            s._users = u
        return s._users
    @property
    def varnames(s):
        if s._vn is None:
            s._vn = {}
            for v in s.vars: s._vn.setdefault(v[0], v[1])
            for i, a in enumerate(s.args): s._vn.setdefault(i, a[0])
        return s._vn
    def argindex(s, name):
        for i, a in enumerate(s.args):
            if a[0] == name: return i
        return None
    def dom(s):
        """immediate-dominator sets as bitmasks: dom()[b] has bit d when d dominates b"""
        if s._dom is None:
            n = len(s.blocks); full = (1 << n) - 1
            d = [full] * n; d[0] = 1
            order = s.rpo(); ch = True
            while ch:
                ch = False
                for b in order:
                    if b == 0: continue
                    m = full
                    for q in s.preds[b]: m &= d[q]
                    m |= 1 << b
                    if m != d[b]: d[b] = m; ch = True
            s._dom = d
        return s._dom
    def rpo(s):
        seen = set(); out = []
        st = [(0, iter(s.succs[0]))]; seen.add(0)
        while st:
            b, it = st[-1]
            for c in it:
                if c not in seen:
                    seen.add(c); st.append((c, iter(s.succs[c]))); break
            else:
                out.append(b); st.pop()
        return out[::-1]
    def dominates(s, a, b):
        """instruction a dominates instruction b"""
        if a.bb == b.bb: return a.idx < b.idx
        return bool(s.dom()[b.bb] >> a.bb & 1)
    def reach(s, start_bb, stop=()):
        seen = set(); w = [start_bb]
        while w:
            b = w.pop()
            for c in s.succs[b]:
                if c not in seen and c not in stop:
                    seen.add(c); w.append(c)
        return seen

class Prog:
    def __init__(p, path):
        d = json.load(open(path))
        p.files = [f[len('./'):] if f.startswith('./') else f for f in d['files']]
        p.files = [f[f.index('/tree/') + 6:] if '/tree/' in f else f for f in p.files]
        p.structs = d['structs']; p.inlined = d['inlined']
        p.di = {}; p.enums = {}; p.enumval = {}; p.dikey = {}
        for t in d['di']:
            if t['k'] == 'enum':
                n = t['td'] or t['name']
                if n: p.enums[n] = t['f']
                if t['name']: p.enums.setdefault(t['name'], t['f'])
                for a, b in t['f']: p.enumval[a] = b
            else:
                for n in (t['td'], t['name']):
                    if n: p.di.setdefault(n, t)
                p.dikey[t['key']] = t
        # anonymous members are known by the name of their first own member
        for t in d['di']:
            if t['k'] == 'enum': continue
            for fl in t['f']:
                if fl[0] == '':
                    u = p.dikey.get(fl[4]) or p.dikey.get(fl[5])
                    if u and u['f']: fl[0] = u['f'][0][0]
        p.globals = {g['n']: g for g in d['globals']}
        for g in p.globals.values():
            if 'init' in g: g['init'] = k(g['init'])
            if 'file' in g: g['file'] = p.files[g['file']]
        p.funcs = {}
        for f in d['functions']:
            p.funcs[f['n']] = Func(p, f)
        p._tables = {}
        p._callers = None; p._addrtaken = None
    # ---- types
    def sname(p, ty):
        """LLVM struct type string -> source-level name (struct tag or typedef)"""
        n = ty[1:] if ty.startswith('%') else ty
        for pre in ('struct.', 'union.'):
            if n.startswith(pre): n = n[len(pre):]
        if n in p.di: return n
        a, _, b = n.rpartition('.')
        if b.isdigit() and a in p.di: return a
        return n
    def fields(p, name):
        t = p.di.get(name)
        return t['f'] if t else []
    def field_at(p, name, off, bit=None):
        """innermost field name at a byte offset of source struct `name`"""
        best = None
        for f in p.fields(name):
            fo, fs = f[1], f[2]
            if f[3]:
                if bit is not None and fo == off * 8 + bit: return f
                continue
            if fo <= off * 8 < fo + max(fs, 8):
                if best is None or fs <= best[2]: best = f
        return best
    def field(p, name, fname):
        for f in p.fields(name):
            if f[0] == fname: return f
        return None
    def gepfield(p, I):
        """(struct, field, offset inside field) of a constant struct GEP, else None"""
        if I.op != 'getelementptr': return None
        ty = I.x[0]; off = I.x[1]
        if not ty.startswith('%'): return None
        if off is None:
            # constant trailing part unknown: use first struct indices when constant
            idx = I.ops[1:]
            if len(idx) >= 2 and idx[0] == ('i', 0, 64) or (len(idx) >= 2 and isinstance(idx[0], tuple) and idx[0][1] == 0):
                if isinstance(idx[1], tuple) and idx[1][0] == 'i':
                    el = p.structs[ty]['el'][idx[1][1]]
                    n = p.sname(ty); f = p.field_at(n, el[0])
                    if f: return (n, f[0], None)
            return None
        size = p.structs.get(ty, {}).get('size', 0)
        if not size or off < 0: return None
        first = I.ops[1]
        if not (isinstance(first, tuple) and first[0] == 'i'): return None
        if first[1] != 0 and len(I.ops) == 2: return None
        o = off - first[1] * size
        if len(I.ops) == 2: return None
        n = p.sname(ty); f = p.field_at(n, o)
        if f is None:
            # bitfield storage unit
            return (n, '@%d' % o, 0)
        return (n, f[0], o - f[1] // 8)
    # ---- initializers
    def decode(p, init, ty):
        """initializer -> python: structs as {offset: value}, arrays as lists"""
        if ty.startswith('['):
            n, el = ty[1:-1].split(' x ', 1); n = int(n)
            if init[0] == 'z': return [p.decode(('z',), el) for _ in range(n)]
            if init[0] == 's': return init[1]
            if init[0] == 'a': return [p.decode(e, el) for e in init[1]]
            return init
        if ty in p.structs:
            els = p.structs[ty]['el']; n = p.sname(ty)
            out = {}
            vals = [('z',)] * len(els) if init[0] == 'z' else (init[1] if init[0] == 'a' else None)
            if vals is None: return init
            for (off, ety), v in zip(els, vals):
                f = p.field_at(n, off)
                key = f[0] if f else '@%d' % off
                out[key] = p.decode(v, ety)
            return out
        if init[0] == 'z': return ('i', 0, 0)
        if ty.startswith('{') and init[0] == 'a': return [e for e in init[1]]
        return init
    def table(p, gname):
        """decoded initializer of a global"""
        if gname not in p._tables:
            g = p.globals[gname]
            p._tables[gname] = p.decode(g['init'], g['t']) if 'init' in g else None
        return p._tables[gname]
    def structarray(p, gname):
        """rows (dict) of an array-of-struct global, tolerant of LLVM's anonymous packed forms"""
        g = p.globals[gname]
        if 'init' not in g: return []
        dt = g.get('dt', '')
        base = dt.split('[')[0].replace('const ', '').replace('struct ', '').strip()
        rows = []
        init = g['init']
        if init[0] == 'z': return []
        items = init[1] if init[0] == 'a' else []
        f = p.di.get(base)
        if f is None: return []
        for it in items:
            rows.append(p.decode_di(it, base))
        return rows
    def decode_di(p, it, base):
        """element initializer by DI struct name (positional fields = LLVM elements of %struct.base)"""
        ty = None
        for c in ('%struct.' + base, '%union.' + base):
            if c in p.structs: ty = c
        if ty is None: return {}
        els = p.structs[ty]['el']
        if it[0] == 'z': vals = [('z',)] * len(els)
        elif it[0] == 'a' and len(it[1]) == len(els): vals = it[1]
        elif it[0] == 'a':
            # anonymous layout (unions initialised through another member): match by position, skipping tail padding
            vals = list(it[1]) + [('u',)] * len(els); vals = vals[:len(els)]
        else: return {}
        out = {}
        for (off, ety), v in zip(els, vals):
            fl = p.field_at(base, off)
            out[fl[0] if fl else '@%d' % off] = p.decode(v, ety) if not (v[0] == 'a' and ety not in p.structs and not ety.startswith('[')) else v
        return out
    def cstr(p, v):
        """C string a constant pointer designates (None when not a constant string)"""
        if isinstance(v, tuple) and v and v[0] == 'g':
            g = p.globals.get(v[1])
            if g and g.get('const') and 'init' in g:
                i = g['init']
                if i[0] == 's': return i[1][v[2]:].split('\0')[0]
                if i[0] == 'z': return ''
        return None
    # ---- call graph
    def addr_taken(p):
        """functions whose address appears outside a direct callee slot: name -> list of places"""
        if p._addrtaken is None:
            r = defaultdict(list)
            def walk(v, place):
                if isinstance(v, tuple):
                    if len(v) == 2 and v[0] == 'f': r[v[1]].append(place); return
                    for x in v:
                        if isinstance(x, tuple): walk(x, place)
            for g in p.globals.values():
                if 'init' in g: walk(g['init'], ('g', g['n']))
            for f in p.funcs.values():
                for i in f.insts() if not f.decl else ():
                    for o in i.ops: walk(o, ('i', f.name, i.id))
            p._addrtaken = r
        return p._addrtaken
    def callers(p):
        if p._callers is None:
            c = defaultdict(list)
            for f in p.funcs.values():
                if f.decl: continue
                for i in f.calls():
                    if i.callee_name: c[i.callee_name].append(i)
            p._callers = c
        return p._callers

def const_int(v):
    if isinstance(v, tuple) and v:
        if v[0] == 'i': return v[1]
        if v[0] == 'n' or v[0] == 'z': return 0
    return None

CASTS = ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'addrspacecast')

def strip(f, v):
    while isinstance(v, int) and v in f.inst and f.inst[v].op in CASTS:
        v = f.inst[v].ops[0]
    return v

def expr(f, v, depth=8, seen=()):
    """symbolic access path of a value: nested tuples, comparable"""
    if not isinstance(v, int):
        return v
    if v not in f.inst:
        return ('arg', v)
    I = f.inst[v]
    if depth == 0 or v in seen: return ('v', v)
    if I.op in CASTS: return expr(f, I.ops[0], depth, seen)
    if I.op == 'load': return ('ld', expr(f, I.ops[0], depth - 1, seen))
    if I.op == 'getelementptr':
        fl = f.p.gepfield(I)
        b = expr(f, I.ops[0], depth - 1, seen)
        if fl and fl[2] is not None: return ('fld', b, fl[0] + '.' + fl[1]) if not fl[2] else ('fld', b, fl[0] + '.' + fl[1] + '+%d' % fl[2])
        return ('gep', b, I.x[0]) + tuple(expr(f, o, depth - 1, seen) for o in I.ops[1:])
    if I.op == 'call':
        return ('call', I.callee_name, v)
    if I.op in ('lshr', 'ashr', 'and', 'shl', 'or', 'add', 'sub', 'mul', 'xor', 'sdiv', 'udiv', 'srem', 'urem'):
        bf = bitfield(f, v)
        if bf: return ('ld', ('fld', expr(f, bf[0], depth - 1, seen), bf[1]))
        return (I.op, expr(f, I.ops[0], depth - 1, seen), expr(f, I.ops[1], depth - 1, seen))
    if I.op == 'icmp':
        return ('icmp', I.x, expr(f, I.ops[0], depth - 1, seen), expr(f, I.ops[1], depth - 1, seen))
    return ('v', v)

def bitfield(f, v):
    """value extracted from a bitfield -> (base pointer value, 'Struct.field') else None"""
    v = strip(f, v)
    if not isinstance(v, int) or v not in f.inst: return None
    I = f.inst[v]
    sh = 0; 
    cur = I
    width = None
    if cur.op == 'and':
        m = const_int(cur.ops[1])
        if m is None or m <= 0: return None
        width = m.bit_length()
        if (1 << width) - 1 != m: return None
        cur = f.inst.get(strip1(f, cur.ops[0]))
        if cur is None: return None
        if cur.op == 'lshr':
            s2 = const_int(cur.ops[1])
            if s2 is None: return None
            sh = s2; cur = f.inst.get(cur.ops[0] if isinstance(cur.ops[0], int) else None)
    elif cur.op == 'lshr':
        s2 = const_int(cur.ops[1])
        if s2 is None: return None
        sh = s2; cur = f.inst.get(cur.ops[0] if isinstance(cur.ops[0], int) else None)
    elif cur.op == 'ashr':
        # shl then ashr
        a = const_int(cur.ops[1]); ib = f.inst.get(cur.ops[0] if isinstance(cur.ops[0], int) else None)
        if a is None or ib is None: return None
        bits = int(I.ty[1:]) if I.ty[1:].isdigit() else None
        if bits is None: return None
        if ib.op == 'shl':
            b = const_int(ib.ops[1])
            if b is None: return None
            width = bits - a; sh = a - b
            cur = f.inst.get(ib.ops[0] if isinstance(ib.ops[0], int) else None)
        else:
            width = bits - a; sh = a; cur = ib
    else:
        return None
    if cur is None or cur.op != 'load': return None
    ptr = cur.ops[0]
    g = f.inst.get(ptr) if isinstance(ptr, int) else None
    if g is None:
        return None
    if g.op != 'getelementptr':
        return None
    fl = f.p.gepfield(g)
    if not fl: return None
    ty = g.x[0]; off = g.x[1]
    fd = f.p.field_at(f.p.sname(ty), off, sh)
    if fd is None or not fd[3]: return None
    return (g.ops[0], fl[0] + '.' + fd[0])

def strip1(f, v):
    return v if isinstance(v, int) else None

def bitfield_store(f, I):
    """store that writes one bitfield -> (base ptr, 'Struct.field', value operand or const) else None"""
    if I.op != 'store': return None
    v, ptr = I.ops[0], I.ops[1]
    g = f.inst.get(ptr) if isinstance(ptr, int) else None
    if g is None or g.op != 'getelementptr': return None
    n = f.p.sname(g.x[0])
    if g.x[1] is None: return None
    V = f.inst.get(v) if isinstance(v, int) else None
    if V is None: return None
    def clearmask(o):
        J = f.inst.get(o) if isinstance(o, int) else None
        if J is not None and J.op == 'and':
            m = const_int(J.ops[1]); L = f.inst.get(J.ops[0]) if isinstance(J.ops[0], int) else None
            if m is not None and L is not None and L.op == 'load' and L.ops[0] == ptr:
                return m, int(J.ty[1:])
        return None
    val = None; cm = None
    if V.op == 'or':
        for a, b in ((V.ops[0], V.ops[1]), (V.ops[1], V.ops[0])):
            cm = clearmask(a)
            if cm: val = b; break
    elif V.op == 'and':
        cm = clearmask(v); val = ('i', 0, 32)
    if not cm: return None
    m, bits = cm
    inv = (~m) & ((1 << bits) - 1)
    if inv == 0: return None
    sh = (inv & -inv).bit_length() - 1
    fd = f.p.field_at(n, g.x[1], sh)
    if fd is None: return None
    # peel shift/mask off the value
    c = const_int(val)
    if c is not None:
        val = ('i', (c >> sh) if c >= 0 else ((c & ((1 << bits) - 1)) >> sh), 32)
    else:
        J = f.inst.get(val) if isinstance(val, int) else None
        if J is not None and J.op == 'shl': val = J.ops[0]; J = f.inst.get(val) if isinstance(val, int) else None
        if J is not None and J.op == 'and' and const_int(J.ops[1]) is not None: val = J.ops[0]
        val = strip(f, val)
    return (g.ops[0], n + '.' + fd[0], val)
