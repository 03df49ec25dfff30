"""C06: option tables describe their records, and setting or reading an option touches exactly that field."""
from ir import *
import paths
from guard import *

# kind -> C types (as debug info spells them) of a field it may describe
KINDS = {
    'BOOL': ('_Bool',), 'INT8': ('signed char', 'char'), 'INT16': ('short',), 'INT32': ('int',), 'INT64': ('long', 'long long'),
    'UINT8': ('unsigned char',), 'UINT16': ('unsigned short',), 'UINT32': ('unsigned int',), 'UINT64': ('unsigned long', 'unsigned long long'),
    'FLOAT': ('float',), 'DOUBLE': ('double',), 'LDOUBLE': ('long double',), 'NUMBER': ('double', 'long double'),
    'TIME_W': ('long', 'long long'), 'TIME_D': ('double',), 'TIME_T': ('long',),
    'SIZE_T': ('unsigned long',), 'SSIZE_T': ('long',), 'INTPTR_T': ('long',), 'UINTPTR_T': ('unsigned long',),
    'INT': ('int',), 'UINT': ('unsigned int',), 'LONG': ('long',), 'ULONG': ('unsigned long',), 'SHORT': ('short',), 'USHORT': ('unsigned short',),
    'STRKEY': ('const char*', 'char*'), 'DSTRING': ('Jsi_DString',),
    'STRING': ('Jsi_Value*',), 'VALUE': ('Jsi_Value*',), 'VAR': ('Jsi_Value*',), 'OBJ': ('Jsi_Value*',), 'ARRAY': ('Jsi_Value*',),
    'REGEXP': ('Jsi_Value*',), 'FUNC': ('Jsi_Value*',), 'USEROBJ': ('Jsi_Value*',),
}
IRTY = {'_Bool': ('i8',), 'signed char': ('i8',), 'char': ('i8',), 'unsigned char': ('i8',), 'short': ('i16',), 'unsigned short': ('i16',),
        'int': ('i32',), 'unsigned int': ('i32',), 'long': ('i64',), 'unsigned long': ('i64',), 'long long': ('i64',), 'unsigned long long': ('i64',),
        'float': ('float',), 'double': ('double',), 'long double': ('x86_fp80',), 'const char*': ('ptr',), 'char*': ('ptr',), 'Jsi_Value*': ('ptr',)}
CTYPE = {'Jsi_Number': 'double', 'Jsi_Wide': 'long', 'int': 'int', 'bool': '_Bool', '_Bool': '_Bool', 'double': 'double', 'Jsi_Value*': 'Jsi_Value*', 'uint': 'unsigned int', 'time_t': 'long', 'Jsi_DString': 'Jsi_DString'}

def run(c):
    p = c.prog(1500, ['jsi_SetOption_', 'jsi_GetOption', 'Jsi_OptionsFree', 'Jsi_OptionsSet', 'Jsi_OptionsGet'])
    c.rule('every row of every option table names a field of the table\'s record struct, with that field\'s offset and size and a kind whose C type is the field\'s type; custom rows have a known handler, the data it needs '
           '(null-terminated name list, sub-table of the field\'s struct, verify function) and a size it supports; names are unique; the table is terminated by its own record\'s end row')
    c.rule('setter, getter and free routine access the record only at record + row offset (in bytes), under each kind with exactly the C type of that kind (also through out-parameters), '
           'and the setter writes nothing to the field on paths that return an error; element options are reached only with the index checked against the array size')
    c.rule('records that live in local variables are initialised before options are processed into them, and have the type of the table used')
    tables(c, p); access(c, p); customs(c, p); elements(c, p); locals_(c, p)

def tables(c, p):
    ids = {v: k[len('JSI_OPTION_'):] for k, v in p.enumval.items() if k.startswith('JSI_OPTION_')}
    tabs = [gn for gn, g in p.globals.items() if 'Jsi_OptionSpec' in g.get('dt', '') and 'init' in g]
    recs = {}
    for gn in tabs:
        rows = p.structarray(gn)
        if rows and ids.get(const_int(rows[-1]['id'])) == 'END': recs[gn] = p.cstr(rows[-1]['name'])
    c.recs = recs
    for gn in sorted(tabs):
        g = p.globals[gn]; rows = p.structarray(gn); w0 = '%s %s' % (g.get('file', ''), gn)
        kinds = [ids.get(const_int(r['id'])) for r in rows]
        c.count('option tables')
        c.ob(bool(rows) and kinds[-1] == 'END' and 'END' not in kinds[:-1] and None not in kinds and 0 not in [const_int(r['id']) for r in rows], 'end:%s' % gn, w0, 'option table is not properly terminated or has an empty row')
        st = recs.get(gn)
        if not st: continue
        t = p.di.get(st)
        if not c.ob(t is not None, 'record:%s' % gn, w0, 'record type %s of the table is unknown' % st): continue
        seen = set()
        for r, kd in zip(rows[:-1], kinds[:-1]):
            nm = p.cstr(r['name']); w = '%s.%s' % (w0, nm); key = '%s.%s' % (gn, nm)
            c.count('option rows')
            c.ob(nm is not None and nm not in seen, 'unique:%s' % key, w, 'two options with the same name'); seen.add(nm)
            off, size = const_int(r['offset']), const_int(r['size'])
            fd = p.field(st, nm)
            if fd is None and kd != 'CUSTOM':
                # nested fields: a.b
                c.ob(False, 'field:%s' % key, w, 'no such field in %s' % st); continue
            if fd is None: continue
            c.ob(not fd[3] and fd[1] == off * 8 and fd[2] == size * 8, 'place:%s' % key, w, 'offset/size of the row (%s,%s) are not those of field %s.%s (%s,%s)' % (off, size, st, nm, fd[1] // 8, fd[2] // 8))
            dt = fd[5]; td = fd[4]
            if kd in KINDS:
                c.ob(dt in KINDS[kd] or td in KINDS[kd], 'type:%s' % key, w, 'option kind %s writes %s but the field is %s' % (kd, KINDS[kd][0], td))
            elif kd == 'STRBUF':
                c.ob(dt.startswith('char['), 'type:%s' % key, w, 'option kind STRBUF on a field that is %s' % td)
            elif kd == 'CUSTOM':
                custom(c, p, gn, nm, r, fd, w, key, recs)
            else: c.ob(False, 'kind:%s' % key, w, 'unknown option kind %s' % kd)
    # the table of kinds is indexed by kind
    rows = p.structarray('jsi_OptTypeInfo'); c.need(rows, 'table of option kinds')
    for i, r in enumerate(rows):
        if not i: continue
        c.count('option kinds')
        kd = ids.get(i)
        nm = p.cstr(r.get('idName', ('z',)))
        c.ob(const_int(r['id']) == i and (nm == kd or kd == 'END'), 'kindrow:%s' % (kd or i), 'jsi_OptTypeInfo[%d]' % i, 'row of the table of option kinds is %s, its index is kind %s' % (nm, kd))
        if kd in KINDS and kd not in ('DSTRING', 'STRBUF'):
            t = IRTY[KINDS[kd][0]][0]
            want = 16 if t == 'x86_fp80' else TYSIZE[t]
            c.ob(const_int(r['size']) == want, 'kindsize:%s' % kd, 'jsi_OptTypeInfo[%d]' % i, 'size of kind %s is given as %s' % (kd, const_int(r['size'])))
    c.floor('option kinds', 39)
    c.floor('option tables', 24); c.floor('option rows', 280)

def strlist(p, v):
    """strings of a null-terminated list, or None"""
    if not (isinstance(v, tuple) and v[0] == 'g' and v[1] in p.globals): return None
    g = p.globals[v[1]]
    if 'init' not in g or g['init'][0] != 'a': return None
    it = g['init'][1]
    if not it or const_int(it[-1]) != 0: return None
    out = [p.cstr(x) for x in it[:-1]]
    return None if None in out else out

def custom(c, p, gn, nm, r, fd, w, key, recs):
    cu, data, size = r['custom'], r['data'], const_int(r['size'])
    c.count('custom rows')
    if cu[0] == 'g':
        g = p.globals.get(cu[1], {})
        c.ob('Jsi_OptionCustom' in g.get('dt', ''), 'custom:%s' % key, w, 'custom handler is not a Jsi_OptionCustom')
        return
    n = const_int(cu)
    c.ob(n is not None and 1 <= n <= 8, 'custom:%s' % key, w, 'custom option without a handler')
    if n in (1, 2):
        if const_int(r['flags']) & p.enumval.get('JSI_OPT_ENUM_SPEC', 0): return
        l = strlist(p, data)
        c.ob(l is not None, 'names:%s' % key, w, 'name list of the enum/bitset is missing or not null-terminated')
        c.ob(size in (1, 2, 4, 8), 'size:%s' % key, w, 'enum/bitset of unsupported size %s' % size)
        if l and n == 2: c.ob(len(l) <= size * 8, 'bits:%s' % key, w, 'bitset has more names than bits')
        if l: c.ob(len(set(l)) == len(l), 'dup:%s' % key, w, 'enum/bitset has two equal names')
        # an enum typed field: every name has its value
        if l and n == 1 and fd[4] in p.enums:
            vals = {b for a, b in p.enums[fd[4]]}
            c.ob(all(i in vals for i in range(len(l))), 'enum:%s' % key, w, 'name list is longer than enum %s' % fd[4])
    elif n == 3:
        okk = isinstance(data, tuple) and data[0] == 'g' and data[1] in recs
        c.ob(okk and (recs[data[1]] in (fd[4], fd[5]) or samesize(p, recs[data[1]], size)), 'sub:%s' % key, w, 'sub-option table does not describe the field\'s struct')
    elif n == 5:
        c.ob(data[0] == 'f' and fd[5] == 'Jsi_Value*', 'verify:%s' % key, w, 'verify option without function or not on a Jsi_Value* field')
    elif n == 8:
        c.ob(p.cstr(data) is not None and fd[5] == 'Jsi_Value*', 'parentfunc:%s' % key, w, 'parent function option without signature or not on a Jsi_Value* field')

def samesize(p, st, size):
    t = p.di.get(st)
    return t is not None and t.get('size', 0) in (size * 8, size)

def recaddr(f, v, rec, spec='Jsi_OptionSpec.offset'):
    """'ok' when v is record + offset bytes, 'bad' when it is derived from the record differently, None otherwise"""
    r = strip(f, v); I = f.inst.get(r) if isinstance(r, int) else None
    if r == rec: return 'rec'
    if I is None or I.op != 'getelementptr': return None
    b = recaddr(f, I.ops[0], rec, spec)
    if b is None: return None
    if b == 'rec':
        if I.x[0] == 'i8' and len(I.ops) == 2:
            o = strip(f, I.ops[1]); J = f.inst.get(o) if isinstance(o, int) else None
            if loadfield(f, o) == spec: return 'ok'
            if J is not None and J.op == 'add' and any(loadfield(f, x) == spec for x in J.ops): return 'elem'
        return 'bad'
    if b == 'ok' and I.x[0] == 'i8': return 'elem'
    return b

def kinds_of(a): return [x[1] for x in a if x[0] == 'id']

def access(c, p):
    ids = {v: k[len('JSI_OPTION_'):] for k, v in p.enumval.items() if k.startswith('JSI_OPTION_')}
    incr = p.enumval.get('JSI_OPTS_INCR')
    for fn, ri, setter in (('jsi_SetOption_', 3, True), ('jsi_GetOption', 2, False), ('Jsi_OptionsFree', 2, False)):
        f = c.fn(p, fn)
        seen = {}; wrote = []
        ptrs = {}
        for I in f.insts():
            if I.op in ('load', 'store'):
                a = I.ops[0] if I.op == 'load' else I.ops[1]
                k = recaddr(f, a, ri)
                if k: ptrs[I.id] = k
            elif I.op == 'call':
                for i, o in enumerate(I.ops):
                    if isinstance(o, int) and recaddr(f, o, ri) and not isinstance(I.callee, int): ptrs.setdefault(I.id, recaddr(f, o, ri))
        c.need(len(ptrs) > 20, 'record accesses of ' + fn)
        def atoms(imp, cur, facts):
            out = []
            for pred, a, b in imp:
                cb = const_int(b)
                if loadfield(f, a) == 'Jsi_OptionSpec.id' and pred == 'eq' and cb is not None:
                    old = [x for x in cur if x[0] == 'id']
                    if old and old[0][1] != cb: return False
                    out.append(('id', cb))
                if loadfield(f, a) == 'Jsi_OptionSpec.id' and pred == 'ne' and cb is not None and ('id', cb) in cur: return False
                for y, q in ((b, pred), (a, paths.SWAP[pred])):
                    if sizeof_bound(f, y, q): out.append(('fits', 1))
                if incr and pred == 'ne' and cb == 0:
                    J = f.inst.get(strip(f, a))
                    if J is not None and J.op == 'and' and any(const_int(o) == incr for o in J.ops): out.append(('incr', 1))
            return out
        def hook(I, a, facts, st):
            if I.id in ptrs:
                seen.setdefault(I.id, set()).add(tuple(kinds_of(a)) + (('fits', 1) in a,))
                if setter and writes(f, I, ri): return a | {('wrote', I.where())}
            if fn == 'Jsi_OptionsFree' and I.op == 'phi': return None
            return None
        ex = paths.Explorer(f, edge_atoms=atoms, inst=hook); ex.run()
        for iid, ks in sorted(seen.items()):
            I = f.inst[iid]; w = '%s in %s' % (I.where(), fn)
            if ptrs[iid] == 'elem' or (I.op == 'call' and (I.callee_name or '').startswith('llvm.memcpy')):
                c.ob(all(k[-1] and ids.get(k[0]) == 'STRBUF' for k in ks), 'bound:%s' % fn, w, 'a string is stored into a record field without checking that it fits with its terminator')
            else: c.ob(ptrs[iid] == 'ok', 'address:%s' % fn, w, 'an option record is accessed at an address other than record + offset')
            c.count('typed record accesses')
            for k in ks:
                if len(k) < 2: continue
                kd = ids.get(k[0])
                if kd in ('CUSTOM', 'END', None): continue
                if kd == 'STRBUF':
                    okk = (I.op == 'call') or (I.op == 'store' and stty(f, I) in ('i8',)) or I.op == 'load'
                    c.ob(okk, 'width:%s:%s' % (fn, kd), w, 'STRBUF field accessed as %s' % stty(f, I)); continue
                cts = KINDS[kd]
                if I.op in ('load', 'store'):
                    ty = I.ty if I.op == 'load' else stty(f, I)
                    if kd == 'DSTRING': continue
                    want = {x for t in cts for x in IRTY.get(t, ())}
                    c.ob(ty in want or (ty == 'fp' and want & {'float', 'double', 'x86_fp80'}), 'width:%s:%s' % (fn, kd), w, 'option kind %s (C type %s) is accessed as %s' % (kd, cts[0], ty))
                else:
                    g = p.funcs.get(I.callee_name)
                    if g is None or not g.sig: continue
                    for i, o in enumerate(I.ops):
                        if isinstance(o, int) and recaddr(f, o, ri) and i + 1 < len(g.sig):
                            pt = g.sig[i + 1]
                            if not pt.endswith('*') or pt in ('void*', 'const void*', 'char*'): continue
                            base = pt[:-1].replace('const ', '')
                            ct = CTYPE.get(base, base)
                            c.ob(ct in cts, 'out:%s:%s' % (fn, kd), w, 'option kind %s (C type %s) is written through a %s' % (kd, cts[0], pt))
        if setter:
            bad = {}
            for I, a, facts, st in ex.rets:
                v = ex.val(I.ops[0], facts)
                if v == 0 or ('incr', 1) in a: continue
                ws = [x for x in a if x[0] == 'wrote']
                if ws and v is not None and v != 0: 
                    # error after the field was written
                    for k in kinds_of(a): bad.setdefault(k, (ws[0][1], st))
            for k in sorted(bad):
                kd = ids.get(k)
                tr = ex.trace(bad[k][1])
                c.ob(False, 'reject:%s' % kd, '%s in %s' % (bad[k][0], fn), 'a value that is rejected is stored all the same', 'lines %s' % tr[-12:])
            for kd in KINDS:
                if p.enumval.get('JSI_OPTION_' + kd) not in bad: c.ob(True, 'reject:%s' % kd, fn, '')

def sizeof_bound(f, y, q):
    """x `q` y bounds x below the field size"""
    r = strip(f, y)
    if loadfield(f, r) == 'Jsi_OptionSpec.size': return q in ('slt', 'ult')
    J = f.inst.get(r) if isinstance(r, int) else None
    if J is not None and J.op in ('add', 'sub') and loadfield(f, J.ops[0]) == 'Jsi_OptionSpec.size':
        k = const_int(J.ops[1])
        if k is not None and (k if J.op == 'add' else -k) <= -1: return q in ('sle', 'ule', 'slt', 'ult')
    return False

def stty(f, I):
    v = I.ops[0]
    if isinstance(v, int):
        if v in f.inst: return f.inst[v].ty
        return f.args[v][1] if v < f.nargs else '?'
    if v[0] == 'i': return 'i%d' % v[2]
    if v[0] in ('n', 'g', 'f'): return 'ptr'
    if v[0] == 'd': return 'fp'
    return '?'

def writes(f, I, ri):
    if I.op == 'store': return True
    if I.op == 'call':
        n = I.callee_name or ''
        if n.startswith('Jsi_DecrRef') or n == 'Jsi_KeyAdd': return False
        return True
    return False

def customs(c, p):
    """handlers of the built-in custom kinds: every address is record + offset in bytes"""
    g = p.globals.get('custOpts')
    for gn, g in sorted(p.globals.items()):
        if g.get('dt', '').startswith('Jsi_OptionCustom') and 'init' in g and '*' not in g['dt'] and '[' not in g['dt']:
            d = p.decode_di(g['init'], 'Jsi_OptionCustom')
            for fld, ri in (('parseProc', 4), ('formatProc', 4)):
                fr = d.get(fld)
                if not fr or fr[0] != 'f': continue
                f = p.funcs.get(fr[1])
                if f is None or f.decl: continue
                n = 0
                for I in f.insts():
                    if I.op != 'getelementptr': continue
                    if strip(f, I.ops[0]) != ri: continue
                    n += 1
                    k = recaddr(f, I.id, ri)
                    usesoff = any(loadfield(f, o) == 'Jsi_OptionSpec.offset' or (isinstance(o, int)) for o in I.ops[1:])
                    c.ob(k == 'ok' or not usesoff, 'custom-address:%s' % fr[1], '%s in %s' % (I.where(), fr[1]), 'a custom option handler does not address record + offset in bytes')
                    c.count('custom handler addresses')
    c.floor('custom handler addresses', 6)

def elements(c, p):
    for fn in ('Jsi_OptionsSet', 'Jsi_OptionsGet'):
        f = c.fn(p, fn); ri = 2
        ss = [I for I in f.insts() if I.op == 'getelementptr' and recaddr(f, I.id, ri) == 'elem']
        c.need(ss, 'element addresses of ' + fn)
        def atoms(imp, cur, facts):
            out = []
            for pred, a, b in imp:
                for x, y, q in ((a, b, pred), (b, a, paths.SWAP[pred])):
                    if q in ('slt', 'ult') and loadfield(f, y) == 'Jsi_OptionSpec.arrSize': out.append(('bounded', key(f, x)))
                    if q in ('sge', 'sgt', 'uge', 'ugt') and const_int(y) is not None and const_int(y) >= 0 - (q in ('sgt',)): out.append(('nonneg', key(f, x)))
            return out
        ex = paths.Explorer(f, edge_atoms=atoms); ex.run(watch=[I.id for I in ss])
        for I in ss:
            mul = f.inst.get(strip(f, I.ops[1])) if isinstance(I.ops[1], int) else None
            ks = set()
            if mul is not None and mul.op == 'mul': ks = {key(f, o) for o in mul.ops}
            okk = all(any(('bounded', x) in a and ('nonneg', x) in a for x in ks) for a in ex.at[I.id])
            c.ob(bool(ks) and okk, 'element:%s' % fn, '%s in %s' % (I.where(), fn), 'an array element option is accessed without checking the index against the array size')

def key(f, v):
    r = strip(f, v); I = f.inst.get(r) if isinstance(r, int) else None
    if I is not None and I.op == 'load' and isinstance(I.ops[0], int) and I.ops[0] in f.inst and f.inst[I.ops[0]].op == 'alloca': return ('a', I.ops[0])
    return ('v', r)

def base_alloca(f, v):
    r = strip(f, v); I = f.inst.get(r) if isinstance(r, int) else None
    if I is None: return None, None
    if I.op == 'alloca': return I, None
    return None, None

def locals_(c, p):
    for f in sorted(p.funcs.values(), key=lambda f: f.name):
        if f.decl: continue
        sites = []
        for I in f.calls(('Jsi_OptionsProcess', 'Jsi_OptionsProcessJSON')):
            tab = [o for o in I.ops[:3] if isinstance(o, tuple) and o[0] == 'g' and o[1] in c.recs]
            al = base_alloca(f, I.ops[2])[0]
            if not tab or al is None: continue
            c.count('records in local variables')
            st = c.recs[tab[0][1]]; d = p.di.get(st)
            vt = [v[3] for v in f.vars if v[0] == al.id]
            if not vt: continue
            vt = vt[0].replace('struct ', '')
            c.ob(vt == st or p.di.get(vt) is d, 'local-type:%s' % f.name, '%s in %s' % (I.where(), f.name), 'options of table %s (record %s) are processed into a variable of type %s' % (tab[0][1], st, vt))
            offs = {}
            for J in f.insts():
                for g, lo, hi in inits(f, J, al, d): offs.setdefault((lo, hi), []).append(g)
            for r in p.structarray(tab[0][1])[:-1]:
                o, n = const_int(r['offset']), const_int(r['size'])
                gens = [g for (lo, hi), gs in offs.items() if lo <= o and (o + n <= hi or n > 8 and lo < hi) for g in gs]
                if not c.ob(covered(f, gens, I), 'local-init:%s' % f.name, '%s in %s' % (I.where(), f.name), 'options are processed into a local record whose field %s is not initialised' % p.cstr(r['name'])): break
    c.floor('records in local variables', 8)

TYSIZE = {'i1': 1, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'ptr': 8, 'double': 8, 'float': 4, 'fp': 8, 'x86_fp80': 16}

def inits(f, J, al, d):
    """(instruction, from, to): bytes of the local record that J writes"""
    total = d.get('size', 0)
    if J.op == 'call':
        if J.callee_name and (J.callee_name.startswith(('llvm.memset', 'llvm.memcpy')) or J.callee_name in ('memset', 'memcpy')):
            at = offset(f, J.ops[0], al)
            if at is not None: yield J, at, at + (const_int(J.ops[2]) or total)
        return
    if J.op == 'store':
        at = offset(f, J.ops[1], al)
        if at is not None:
            t = stty(f, J)
            n = TYSIZE.get(t) or (f.p.structs[t]['size'] if t in f.p.structs else None) or 8
            yield J, at, at + n

def offset(f, v, al):
    at = 0
    while True:
        r = strip(f, v)
        if r == al.id: return at
        I = f.inst.get(r) if isinstance(r, int) else None
        if I is None or I.op != 'getelementptr' or I.x[1] is None: return None
        at += I.x[1]; v = I.ops[0]

def covered(f, gens, I):
    """every path from the entry to I passes one of gens"""
    gb = {}
    for g in gens: gb.setdefault(g.bb, []).append(g.idx)
    if any(x < I.idx for x in gb.get(I.bb, ())): return True
    seen = set(); w = [0]
    while w:
        b = w.pop()
        if b in seen: continue
        seen.add(b)
        if b == I.bb: return False
        if b in gb: continue
        w += f.succs[b]
    return True
