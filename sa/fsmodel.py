"""Shared rule for C01/C02: which operations touch native paths, and what must hold before them."""
from ir import *
import paths
from core import Broken

# API-level filesystem operations: (argument index of the path, kind).  They dispatch through a
# Jsi_Filesystem table; R = reads content/listing/metadata, W = changes an existing entry, C = creates one.
API = {
    'Jsi_Remove':  [(1, 'W')], 'Jsi_Rename': [(1, 'W'), (2, 'W'), (2, 'C')],
    'Jsi_Chmod':   [(1, 'W')], 'Jsi_Link': [(1, 'W'), (2, 'W'), (2, 'C')],
    'Jsi_Readlink': [(1, 'R')],
}
# table slots -> same, for the dispatchers themselves (only those that check for themselves are listed)
SLOTS = {'accessProc': [(1, 'A')], 'scandirProc': [(1, 'R')]}
# raw OS primitives outside the filesystem driver procs
RAW = {
    'mkdir': [(0, 'W'), (0, 'C')], 'mknod': [(0, 'W'), (0, 'C')], 'mkstemp': [(0, 'W'), (0, 'C')],
    'unlink': [(0, 'W')], 'rmdir': [(0, 'W')], 'remove': [(0, 'W')], 'rename': [(0, 'W'), (1, 'W'), (1, 'C')],
    'chmod': [(0, 'W')], 'chown': [(0, 'W')], 'truncate': [(0, 'W')], 'link': [(0, 'W'), (1, 'W'), (1, 'C')],
    'symlink': [(0, 'W'), (1, 'W'), (1, 'C')], 'utime': [(0, 'W')], 'utimes': [(0, 'W')], 'opendir': [(0, 'R')],
    'scandir': [(0, 'R')], 'readlink': [(0, 'R')], 'fopen': [(0, 'O')], 'open': [(0, 'O')], 'open64': [(0, 'O')],
    'fopen64': [(0, 'O')], 'creat': [(0, 'W'), (0, 'C')], 'freopen': [(0, 'O')],
    'mkfifo': [(0, 'W'), (0, 'C')], 'statvfs': [],
    'sqlite3_open': [(0, 'SW'), (0, 'SC')], 'sqlite3_open_v2': [(0, 'S'), (0, 'SC')], 'sqlite3_open16': [(0, 'SW'), (0, 'SC')],
}
# functions that perform raw operations for reasons outside script-supplied paths (each confirmed by reading)
EXEMPT = {
    'jsi_PkgLoadOne': 'probes for <name>.jsi/.so in the package directories; loading the file is checked in Jsi_Open/Jsi_LoadLibrary',
    'linenoiseHistoryLoad': 'interactive history file; its callers are gated by C04',
    'linenoiseHistorySave': 'interactive history file; its callers are gated by C04',
    'jsi_InterpNew': 'start-up of the interpreter: program path, options and lockDown directory',
    'jsi_InterpConfFiles': 'start-up configuration file /etc/jsish.conf',
    'Jsi_LoadLibrary': 'statvfs probe before dlopen; dlopen itself is gated by C04',
}
STRFN = {  # path-preserving conversions: callee -> argument that carries the path
    'Jsi_ValueString': 1, 'Jsi_ValueToString': 1, 'Jsi_FileRealpath': 1, 'Jsi_Realpath': 1, 'Jsi_FileRealpathStr': 1,
    'Jsi_ValueNormalPath': 1, 'Jsi_NormalPath': 1, 'GetStringVal': 1, 'Jsi_ValueNewStringConst': 1, 'Jsi_ValueNewString': 1,
    'Jsi_ValueNewStringDup': 1, 'Jsi_ValueNewStringKey': 1, 'Jsi_Strdup': 0, 'Jsi_KeyAdd': 1, 'Jsi_ValueStringLen': 1,
}
READ, WRITE, CREATE = None, None, None

def origin(f, v, res=None, depth=0, seen=None):
    """the script values / constants a path is made from (phis resolved along the path when res is given)"""
    if seen is None: seen = set()
    if res is not None: v = res(v)
    if not isinstance(v, int):
        return frozenset([v])
    if v in seen or depth > 40: return frozenset()
    seen.add(v)
    I = f.inst.get(v)
    if I is None: return frozenset([('arg', v)])
    rec = lambda o: origin(f, o, res, depth + 1, seen)
    if I.op in CASTS: return rec(I.ops[0])
    if I.op == 'phi':
        r = set()
        for o in I.ops:
            if const_int(o) == 0: continue
            r |= rec(o)
        return frozenset(r)
    if I.op == 'call' and I.callee_name in ('Jsi_ValueNew1', 'Jsi_ValueNew'): return frozenset()   # filled by an out-parameter call
    base = I.ops[0] if I.op == 'getelementptr' else v
    B = f.inst.get(base) if isinstance(base, int) else None
    if B is not None and B.op == 'alloca' and B.x and '[' in str(B.x):
        r = set()
        for u in f.users.get(base, ()):
            us = [u] if u.op == 'call' else (f.users.get(u.id, ()) if u.op == 'getelementptr' else ())
            for w in us:
                if w.op == 'call' and w.callee_name == 'snprintf' and (f.p.cstr(w.ops[2]) or '').startswith(('%s/', '%s%s')): r |= rec(w.ops[3])
        if r: return frozenset(r)
    if I.op == 'select':
        return rec(I.ops[1]) | rec(I.ops[2])
    if I.op == 'call' and I.callee_name in STRFN:
        return rec(I.ops[STRFN[I.callee_name]])
    if I.op == 'load':
        a = I.ops[0]
        J = f.inst.get(a) if isinstance(a, int) else None
        if J is not None and J.op == 'alloca':
            r = set()
            for u in f.users.get(a, ()):
                if u.op == 'store' and u.ops[1] == a: r |= rec(u.ops[0])
                elif u.op == 'call' and u.callee_name in OUTSTR and u.ops[OUTSTR[u.callee_name][0]] == a:
                    r |= rec(u.ops[OUTSTR[u.callee_name][1]])
            if r: return frozenset(r)
    if I.op == 'call' and I.callee_name == 'Jsi_ValueArrayIndex':
        return frozenset([('argv', expr(f, I.ops[1]), expr(f, I.ops[2]))])
    return frozenset([expr(f, v)])

OUTSTR = {'Jsi_ValueMakeStringDup': (1, 2), 'Jsi_ValueMakeString': (1, 2), 'Jsi_ValueMakeStringKey': (1, 2)}

def phicone(f, v, out, seen=None):
    """phis/selects a path value may pass through"""
    if seen is None: seen = set()
    if not isinstance(v, int) or v in seen or v not in f.inst: return
    seen.add(v)
    I = f.inst[v]
    if I.op in ('phi', 'select'): out.add(v)
    if I.op in ('phi', 'select') or I.op in CASTS:
        for o in I.ops: phicone(f, o, out, seen)
    elif I.op == 'call' and I.callee_name in STRFN: phicone(f, I.ops[STRFN[I.callee_name]], out, seen)

class Model:
    def __init__(s, ctx, p, lockdown=False):
        s.c, s.p = ctx, p; s.lockdown = lockdown
        ev = p.enumval
        s.flag = {}
        for n, kx in (('JSI_INTACCESS_READ', 'R'), ('JSI_INTACCESS_WRITE', 'W'), ('JSI_INTACCESS_CREATE', 'C'), ('JSI_INTACCESS_NETWORK', 'N'), ('JSI_INTACCESS_MAININTERP', 'M')):
            if n not in ev: raise Broken('enumerator %s not found' % n)
            s.flag[ev[n]] = kx
        s.lock = ev.get('jsi_safe_Lockdown')
        if s.lock is None: raise Broken('jsi_safe_Lockdown not found')
        s.readv = ev['JSI_INTACCESS_READ']; s.writev = ev['JSI_INTACCESS_WRITE']
        fc = p.globals.get('fileCmds')
        if not fc: raise Broken('fileCmds table not found')
        s.filemod = fc.get('file')
        g = p.globals.get('jsiFilesystem')
        if not g: raise Broken('jsiFilesystem table not found')
        s.drv = set()
        for gn, gg in p.globals.items():
            if gg.get('dt', '').replace('struct ', '') in ('Jsi_Filesystem', 'const Jsi_Filesystem') and gg.get('init', ('z',))[0] == 'a':
                for v in p.decode_di(gg['init'], 'Jsi_Filesystem').values():
                    if isinstance(v, tuple) and v[0] == 'f': s.drv.add(v[1])
    def isfld(s, e, name):
        return isinstance(e, tuple) and len(e) == 2 and e[0] == 'ld' and isinstance(e[1], tuple) and e[1][0] == 'fld' and e[1][2] == name
    def explore(s, f, sites, kinds):
        """states at each site.  Returns {site id: set of atom sets}"""
        p = s.p
        track = set()
        for I in f.calls(('Jsi_InterpAccess',)):
            v = strip(f, I.ops[2])
            st = [v]; sn = set()
            while st:
                x = st.pop()
                if x in sn or not isinstance(x, int) or x not in f.inst: continue
                sn.add(x); J = f.inst[x]
                if J.op in ('phi', 'select'): track.add(x)
                if J.op in CASTS or J.op in ('select', 'phi', 'icmp', 'xor', 'and', 'or'): st += [o for o in J.ops]
            phicone(f, I.ops[1], track)
        for I, ai, kx, what in sites: phicone(f, I.ops[ai], track)
        ex = None
        names = {'notsafe', 'acc'}
        for x in kinds:
            names |= {'O': {'no', 'exists', 'notlock', 'self'}, 'S': {'ro'}, 'C': {'notlock'}, 'L': {'notlock'}, 'OC': {'no', 'exists', 'notlock', 'self'}, 'SC': {'notlock', 'exists', 'ro'}}.get(x, set())
        siteids = {}
        for x in sites: siteids.setdefault(x[0].id, []).append(x)
        orgs = [origin(f, I.ops[ai]) for I, ai, kx, what in sites]
        def atoms(imp, cur, facts):
            out = []
            for pred, a, b in imp:
                if not isinstance(a, int): continue
                cb = const_int(b)
                r = ex.resolve(strip(f, a), facts); r = strip(f, r) if isinstance(r, int) else r
                I = f.inst.get(r) if isinstance(r, int) else None
                if I is None: continue
                zero = (pred == 'eq' and cb == 0)
                nz = (pred == 'ne' and cb == 0)
                if I.op == 'load' or I.op in ('and', 'lshr', 'ashr'):
                    e = expr(f, r)
                    if s.isfld(e, 'Jsi_Interp.isSafe') and zero: out.append(('notsafe',))
                    if s.isfld(e, 'Jsi_Interp.safeMode') and ((pred == 'ne' and cb == s.lock) or (pred == 'eq' and cb is not None and cb != s.lock)): out.append(('notlock',))
                    if s.isfld(e, 'Jsi_Db.readonly') and nz: out.append(('ro',))
                elif I.op == 'call':
                    n = I.callee_name
                    if n == 'Jsi_InterpSafe' and zero: out.append(('notsafe',))
                    elif n == 'Jsi_InterpAccess' and zero:
                        fl = ex.val(I.ops[2], facts)
                        kx = s.flag.get(fl) if isinstance(fl, int) else '?'
                        out.append(('acc', origin(f, I.ops[1], lambda v: ex.resolve(v, facts)), kx))
                    elif n == 'Jsi_Open' and nz and any(ch in (s.p.cstr(I.ops[2]) or '') for ch in 'wa'):
                        # an open for writing that succeeded was itself mediated (W and C)
                        o = origin(f, I.ops[1], lambda v: ex.resolve(v, facts))
                        out.append(('acc', o, 'W')); out.append(('acc', o, 'C'))
                    elif n in ('Jsi_Strchr', 'strchr'):
                        ch = const_int(I.ops[1])
                        if zero and ch is not None: out.append(('no', chr(ch)))
                    elif n in ('Jsi_Stat', 'Jsi_Lstat') and zero:
                        out.append(('exists', origin(f, I.ops[1])))
                    elif n in ('Jsi_Strcmp', 'strcmp') and zero:
                        for x, y in ((0, 1), (1, 0)):
                            e = str(expr(f, I.ops[y])) + str(origin(f, I.ops[y]))
                            if 'execName' in str(s.gexpr(f, I.ops[y])) or 'opts' in e and 'argv' in e: out.append(('self',))
            return [x for x in out if x[0] in names and (x[0] not in ('acc', 'exists') or any(o & x[1] for o in orgs))]
        rec = {(x[0].id, x[1], x[2]): set() for x in sites}
        def hook(I, a, facts, st):
            for _, ai, kx, what in siteids.get(I.id, ()):
                rec[(I.id, ai, kx)].add((a, origin(f, I.ops[ai], lambda v: ex.resolve(v, facts))))
            return None
        ex = paths.Explorer(f, edge_atoms=atoms, inst=hook, track=track)
        ex.run()
        ex.rec = rec
        return ex
    def gexpr(s, f, v):
        e = expr(f, v)
        # global struct field: jsiIntData.execName
        def w(x):
            if isinstance(x, tuple):
                if len(x) == 3 and x[0] == 'g' and x[1] == 'jsiIntData':
                    fl = s.p.field_at('Jsi_IntData', x[2]) or s.p.field_at('jsi_IntData', x[2])
                    return ('g', 'jsiIntData', fl[0] if fl else x[2])
                return tuple(w(y) for y in x)
            return x
        return w(e)
    def satisfied(s, atoms, org, kind):
        if ('notsafe',) in atoms: return True
        if len(org) == 1 and s.p.cstr(next(iter(org))) == ':memory:': return True
        acc = [a for a in atoms if a[0] == 'acc']
        def has(kx): return any(a[2] == kx and org and org <= a[1] for a in acc)
        if kind == 'R': return has('R') or has('W')
        if kind in ('W', 'SW'): return has('W')
        if kind in ('C', 'L'): return has('C') or ('notlock',) in atoms or any(a[2] == 'C' for a in acc)
        if kind == 'A':     # access(2)-style probe: either kind of check
            return has('R') or has('W') or has('?')
        if kind == 'S':     # database file: read access suffices for a read-only handle
            return has('W') or (has('R') and ('ro',) in atoms)
        if kind == 'SC':
            return has('C') or ('notlock',) in atoms or any(a[0] == 'exists' and org <= a[1] for a in atoms) or ('ro',) in atoms
        if kind == 'OC':    # under lockdown only an existing file may be opened for writing
            if ('self',) in atoms and all(('no', ch) in atoms for ch in 'wa+'): return True
            ro = all(('no', ch) in atoms for ch in 'wa+')
            return ro or has('C') or ('notlock',) in atoms or any(a[0] == 'exists' and org & a[1] for a in atoms)
        if kind == 'O':     # fopen with a mode the caller chose
            ro = all(('no', ch) in atoms for ch in 'wa+')
            if ('self',) in atoms and ro: return True
            if not (has('W') or (has('R') and ro)): return False
            ex = any(a[0] == 'exists' and org <= a[1] for a in atoms)
            return has('C') or ex or ('notlock',) in atoms
        return False
    def sites(s, f, req):
        out = []
        for I in f.calls():
            n = I.callee_name
            if n in ('Jsi_Stat', 'Jsi_Lstat') and f.file == s.filemod: out.append((I, 1, 'A', n))
            if n in API: out += [(I, i, kx, n) for i, kx in API[n]]
            elif n == 'sqlite3_open_v2' and const_int(I.ops[2]) is not None and const_int(I.ops[2]) & 7 == 1: out.append((I, 0, 'R', n))
            elif n in RAW and s.p.funcs[n].decl: out += [(I, i, kx, n) for i, kx in RAW[n]]
            elif n in req: out += [(I, i, kx, n) for i, kx in sorted(req[n])]
            elif isinstance(I.callee, int):
                e = expr(f, I.callee)
                if e[0] == 'ld' and e[1][0] == 'fld' and e[1][2].startswith('Jsi_Filesystem.'):
                    sl = e[1][2].split('.')[1]
                    if sl in SLOTS: out += [(I, i, kx, 'fs->' + sl) for i, kx in SLOTS[sl]]
        if s.lockdown:
            conv = {'W': 'L', 'C': 'L', 'L': 'L', 'O': 'OC', 'OC': 'OC', 'SC': 'SC', 'S': None, 'SW': None, 'R': None, 'A': None}
            out = [(I, i, conv[kx], n) for I, i, kx, n in out if conv[kx]]
        return out

def reachable(p, roots):
    """functions reachable from roots by direct calls or by address taken in reached code"""
    seen = set(); w = list(roots)
    while w:
        n = w.pop()
        if n in seen or n not in p.funcs or p.funcs[n].decl: continue
        seen.add(n)
        f = p.funcs[n]
        for I in f.insts():
            if I.callee_name: w.append(I.callee_name)
            for o in I.ops:
                if isinstance(o, tuple) and len(o) == 2 and o[0] == 'f': w.append(o[1])
    return seen

def handlers(p):
    """command handlers of every command table: function -> [(table, command)]"""
    res = {}
    for gn, g in p.globals.items():
        if 'Jsi_CmdSpec' not in g.get('dt', ''): continue
        for r in p.structarray(gn):
            if r.get('proc', ('n',))[0] == 'f':
                res.setdefault(r['proc'][1], []).append((gn, p.cstr(r['name']), r))
    return res
