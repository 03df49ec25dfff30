"""C12: what a value holds is read only as the type its tag says."""
from ir import *
import tags

# where a value does not come from a script but from the program itself: its tag is settled where it is put there
PLACES = [
    (('fld', 'Jsi_Interp.Stack'), 'operand stack of the VM: what the compiler left on it, not decided here'),
    (('call', 'Jsi_HashValueGet'), 'tables of the interpreter: functions, getters, setters and named objects are entered by native code'),
    (('call', 'jsi_UserObjFromName'), 'the table of named objects'),
    (('call', 'jsi_MakeFuncValueSpec'), 'a function made here from a command table'),
    (('call', 'jsi_MakeFuncValue'), 'a function made here from native code'),
    (('call', 'jsi_ProtoObjValueNew1'), 'a prototype made here'),
]
# (function, root): reason
ALLOW = {
    ('InfoObjCmd', 'ret'): 'parsed from a JSON text written here',
    ('SysModuleCmd_', 'Jsi_ValueArrayIndex()'): 'the second argument: null or checked to be an array at entry; the correlation of two tests far apart is not followed',
}

def place(k):
    """the first of PLACES an access path goes through"""
    if isinstance(k, tuple):
        for (a, b), why in PLACES:
            if a == 'call' and len(k) > 1 and k[0] == 'call' and k[1] == b: return b
            if a == 'fld' and len(k) == 3 and k[0] == 'fld' and k[2] == b: return b
        for x in k:
            r = place(x)
            if r: return r
    return None

def show(k, f):
    if not isinstance(k, tuple): return str(k)
    if k[0] == 'arg': return f.args[k[1]][0] if k[1] < len(f.args) else 'arg%d' % k[1]
    if k[0] == 'ld':
        return show(k[1], f) if isinstance(k[1], tuple) and k[1][0] in ('fld', 'gep') else '*' + show(k[1], f)
    if k[0] == 'fld': return '%s->%s' % (show(k[1], f), k[2].split('.', 1)[1])
    if k[0] == 'gep': return '%s[..]' % show(k[1], f)
    if k[0] == 'call': return '%s()' % k[1]
    if k[0] == 'g': return str(k[1])
    return 'a local'

def contexts(f, calls, addr):
    """the sets of constant arguments a function is called with, when every call passes constants"""
    if f.name in addr or not calls: return None
    idx = [i for i in range(f.nargs) if i + 1 < len(f.sig) and not f.sig[i + 1].endswith('*')]
    idx = [i for i in idx if all(i < len(J.ops) and const_int(J.ops[i]) is not None for J in calls)]
    if not idx: return None
    r = {tuple((i, const_int(J.ops[i])) for i in idx) for J in calls}
    return sorted(r) if len(r) <= 4 else None

def run(c):
    p = c.prog(0)
    c.rule('tags: at every read of a union member of a value (Jsi_Value.d) or object (Jsi_Obj.d), on every path to it, the tag is the one the member belongs to: '
           'it was tested, set, established by a function called before (post-conditions by result), or is required of every caller; native commands called by scripts may assume only that the argument list is an object')
    O, F, N = p.enumval['JSI_VT_OBJECT'], p.enumval['JSI_OT_FUNCTION'], p.enumval['JSI_VT_NUMBER']
    cmd = {}
    CMD = ['Jsi_Interp', 'Jsi_Value', 'Jsi_Value', 'Jsi_Value', 'Jsi_Func']
    def bare(t): return t.replace('const ', '').replace('struct ', '').replace('*', '').strip()
    for f in p.funcs.values():
        if not f.decl and [bare(t) for t in f.sig[1:]] == CMD and f.sig[4].count('*') == 2: cmd[f.name] = f
    c.count('functions with the signature of a native command', len(cmd))
    contracts = lambda f: ((('vt', ('arg', 1), O),) if f.name in cmd else ())
    T = tags.Tags(p, contracts, opts=lambda f: {'correlate': False, 'widen': 20, 'limit': 60000})
    OT = {'USEROBJ': p.enumval['JSI_OT_USEROBJ'], 'FUNC': F, 'REGEXP': p.enumval['JSI_OT_REGEXP'], 'OBJ': None, 'ARRAY': None}
    ids = {v: k[len('JSI_OPTION_'):] for k, v in p.enumval.items() if k.startswith('JSI_OPTION_')}
    typed = {}
    for gn, g in p.globals.items():
        if 'Jsi_OptionSpec' not in g.get('dt', '') or 'init' not in g: continue
        rows = p.structarray(gn)
        if not rows or ids.get(const_int(rows[-1]['id'])) != 'END': continue
        st = p.cstr(rows[-1]['name'])
        for r in rows[:-1]:
            kd = ids.get(const_int(r['id']))
            if kd in OT and p.field(st, p.cstr(r['name'])): typed['%s.%s' % (st, p.cstr(r['name']))] = OT[kd]
    c.count('fields that options fill in', len(typed))
    # fields of the interpreter that always hold the same kind of value; every store to them is checked
    for st in p.di:
        for fl in p.fields(st):
            if 'Jsi_Value' not in fl[4] + fl[5]: continue
            n = st + '.' + fl[0]
            if fl[0].endswith('_prototype') or fl[0] in ('incsc', 'ingsc', 'csc', '__proto__', 'Top_object'): T.fieldinv[('vt', n)] = O
            elif fl[0].endswith('Callback') or n in ('AliasCmd.cmdVal', 'AliasCmd.func'): T.fieldinv[('vt', n)] = O; T.fieldinv[('ot', n)] = F
            elif n == 'Jsi_Interp.NaNValue': T.fieldinv[('vt', n)] = N
            elif n in ('Jsi_Interp.args',): T.fieldinv[('vt', n)] = O
            elif n in typed: T.fieldinv[('vt', n)] = O; T.fieldinv.update({('ot', n): typed[n]} if typed[n] is not None else {})
            else: continue
            T.fields.add(n)
    # fields that options fill in: the kind of their option says what they hold (the option setter is checked below)
    c.need(T.fieldinv, 'no fields with a fixed kind of value')
    for f in list(p.funcs.values()):
        if not f.decl and not T.skip(f): T.summary(f.name)
    addr = p.addr_taken(); callers = p.callers()
    big = set(T.toobig); skipped = [f.name for f in p.funcs.values() if not f.decl and T.skip(f)]
    nsite = 0
    for f in p.funcs.values():
        if f.decl or T.skip(f): continue
        bad = {}
        for name in T.failed:
            fn = name[0] if isinstance(name, tuple) else name
            if fn == f.name and not isinstance(name, tuple):
                for x in T.failed[name]: bad.setdefault(x[0], []).append(x)
        if bad:
            cx = contexts(f, callers.get(f.name, ()), addr)
            if cx:
                # called with a few sets of constants only: decided for each of them
                for x in cx: T.summary(f.name, x)
                if not any((f.name, x) in T.big for x in cx):
                    bad = {}
                    for cxx in cx:
                        for x in T.failed.get((f.name, cxx), ()): bad.setdefault(x[0], []).append(x)
                    big.discard(f.name)
        sites = {I.id: T.need_of(f, I) for I in f.insts()}
        sites = {i: n for i, n in sites.items() if n}
        if f.name in big: continue
        for I in f.insts():
            is_site = I.id in sites
            if is_site: nsite += 1
            if I.id not in bad:
                if is_site: c.ob(True, '%s %s' % (f.name, sites[I.id][3]), I.where(), '')
                continue
            for iid, kind, k, TT, txt, tr in bad[I.id]:
                want = '%s %s' % ('value' if kind == 'vt' else 'object', txt)
                key = 'tag:%s:%s:%s' % (f.name, txt.replace(' ', '_'), show(k, f).replace(' ', '_'))
                if k is not None and tags.rooted(k) and tags.plain(k) and callers.get(f.name) and f.name not in addr:
                    c.count('reads that callers answer for'); c.ob(True, key, I.where(), ''); continue
                pl = place(k)
                if pl: c.count('reads of what the program itself put there (%s)' % pl); continue
                if any(f.name == a and ('%s' % b) in show(k, f) for a, b in ALLOW): c.count('reads allowed with a reason'); continue
                c.ob(False, key, I.where(), '%s is read as %s %s, which is not established on a path to it' % (show(k, f), 'an' if txt[0] in 'aeiou' else 'a', txt), 'path through lines %s' % (tr[-8:] if tr else '?'))
    c.count('reads of union members', nsite)
    c.count('functions followed', len(set(T.analysed)))
    for k, l in sorted(T.fieldbad.items()):
        pass
    for n in sorted(big): c.notes.append('%s has too many paths to be followed: its reads are not decided' % n)
    for n in sorted(skipped): c.notes.append('%s is not followed (parser, or the VM loop, whose operands are on the stack)' % n)
    for (a, b), why in PLACES: c.notes.append('%s: %s' % (b, why))
    for (a, b), why in ALLOW.items(): c.notes.append('%s: %s' % (a, why))
    c.need(len(big) <= 12, 'too many functions could not be followed: %s' % sorted(big))
    c.floor('reads of union members', 500)
    c.floor('functions with the signature of a native command', 200)
