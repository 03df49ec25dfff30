"""C05: a safe interpreter stays safe, and so do its sub-interpreters."""
from ir import *
import paths
from guard import *

INITONLY = ('isSafe', 'safeMode', 'safeReadDirs', 'safeWriteDirs', 'safeExecPattern', 'lockDown')
LOCKED = ('noLoad', 'noNetwork', 'noInput', 'noSubInterps', 'noStderr', 'maxDepth', 'maxArrayList', 'maxIncDepth', 'maxInterpDepth', 'maxUserObjs', 'maxOpCnt', 'historyFile', 'confFile')
BANS = ('noLoad', 'noNetwork', 'noInput', 'noSubInterps', 'noStderr')
LIMITS = ('maxDepth', 'maxArrayList', 'maxIncDepth', 'maxInterpDepth', 'maxUserObjs', 'maxOpCnt')
CLEARED = ('safeReadDirs', 'safeWriteDirs', 'safeExecPattern', 'lockDown', 'confFile')
SCRIPT = ('Jsi_EvalString', 'jsi_evalcode_sub', 'jsi_evalcode', 'Jsi_FunctionInvoke', 'Jsi_CommandInvoke', 'jsi_evalStrFile', 'Jsi_EvalFile', 'Jsi_EventProcess')

def run(c):
    p = c.prog(1200, ['jsi_InterpConfFiles', 'jsi_InterpConfFile', 'jsi_SetOption', 'jsi_SetOption_'])
    c.rule('every store to Interp.isSafe stores a nonzero constant, restores the value saved before, or clears it for start-up code only (startSafe set, or the trusted configuration file) and is then followed on every path '
           'to every exit by a restoring store with no script evaluation between; startSafe and the directory/exec grants are only stored non-null where the interp has no safe parent')
    c.rule('on every path by which the interp constructor returns an interp whose parent is safe: isSafe set, safeMode copied, safeReadDirs/safeWriteDirs/safeExecPattern/lockDown/confFile null, no thread, '
           'the limits %s copied from the parent and the bans %s inherited' % (', '.join(LIMITS), ', '.join(BANS)))
    c.rule('option table: security options are init-only, limits and bans are init-only or locked in safe mode; the option setter is reached in an update only with read-only, init-only and (when safe) lock-safe flags clear; '
           'the getter hands out copies of init-only arrays')
    stores(c, p); inherit(c, p); table(c, p); enforce(c, p); getter(c, p); users(c, p)

def stores(c, p):
    ev = p.enumval
    reachscript = None
    n = 0
    for f in sorted(p.funcs.values(), key=lambda f: f.name):
        if f.decl: continue
        ss = [(I, store_field(f, I)) for I in f.insts() if I.op == 'store']
        ss = [(I, sf) for I, sf in ss if sf and sf[0] in ('Jsi_Interp.isSafe', 'Jsi_Interp.startSafe', 'Jsi_Interp.safeReadDirs', 'Jsi_Interp.safeWriteDirs', 'Jsi_Interp.safeExecPattern')]
        if not ss: continue
        lifts = []; grants = []
        for I, (fl, v) in ss:
            n += 1
            cv = const_int(v)
            if fl == 'Jsi_Interp.isSafe':
                if cv is not None and cv != 0: c.ob(True, 'store:%s' % f.name, I.where(), ''); continue
                if cv is None:
                    src = loadfield(f, v)
                    c.ob(src == 'Jsi_Interp.isSafe', 'store:%s:isSafe' % f.name, '%s in %s' % (I.where(), f.name), 'isSafe is overwritten with a value that is not its own saved value')
                    continue
                lifts.append(I)
            elif cv == 0: continue
            else: grants.append((I, fl, v))
        if lifts: lift(c, p, f, lifts)
        if grants: grant(c, p, f, grants)
    c.count('stores to safety state', n)
    c.floor('stores to safety state', 10)

def lift(c, p, f, lifts):
    ids = {I.id for I in lifts}
    bad = []; badguard = set(); scripted = []
    def atoms(imp, cur, facts):
        out = []
        for pred, a, b in imp:
            if not isinstance(a, int): continue
            cb = const_int(b); fl = loadfield(f, a)
            if fl == 'Jsi_Interp.startSafe' and pred == 'ne' and cb == 0: out.append(('start',))
            r = strip(f, a)
            if r < f.nargs and f.name == 'jsi_InterpConfFile' and pred == 'ne' and cb == 0: out.append(('start',))
            e = expr(f, r)
            if e == ('ld', ('fld', ('arg', 0), 'Jsi_Interp.isSafe')) and pred == 'eq' and cb == 0: out.append(('was0',))
        return out
    saved = {}
    for J in f.insts():
        if J.op == 'load' and loadfield(f, J.id) == 'Jsi_Interp.isSafe': saved[J.id] = True
    def hook(I, a, facts, st):
        if I.id in ids:
            if ('start',) not in a: badguard.add(I.id)
            return a | {('lifted', I.id)} if ('was0',) not in a else a
        sf = store_field(f, I) if I.op == 'store' else None
        if sf and sf[0] == 'Jsi_Interp.isSafe': return frozenset(x for x in a if x[0] != 'lifted')
        if I.op == 'call' and I.callee_name in SCRIPT and any(x[0] == 'lifted' for x in a): scripted.append(I)
        if I.op == 'ret':
            if any(x[0] == 'lifted' for x in a): bad.append((I, a, st, facts))
        return None
    # the saved value decides whether a conditional restore is needed
    ex = paths.Explorer(f, edge_atoms=None, inst=hook)
    def atoms2(imp, cur, facts):
        out = list(atoms(imp, cur, facts))
        for pred, a, b in imp:
            r = ex.resolve(strip(f, a), facts) if isinstance(a, int) else None
            r = strip(f, r) if isinstance(r, int) else r
            if r in saved and pred == 'eq' and const_int(b) == 0:
                out += [('-', ('lifted', i)) for i in ids]; out.append(('was0',))
        return out
    ex.edge_atoms = atoms2
    ex.run()
    for I in lifts:
        c.ob(I.id not in badguard, 'lift-guard:%s' % f.name, '%s in %s' % (I.where(), f.name), 'safe mode is lifted outside interpreter start-up')
    c.ob(not bad, 'lift-restore:%s' % f.name, '%s in %s' % (lifts[0].where(), f.name), 'safe mode is lifted and not restored on a path to %s' % (bad[0][0].where() if bad else ''), 'lines %s' % (ex.trace(bad[0][2])[:40] if bad else ''))
    c.ob(not scripted, 'lift-script:%s' % f.name, '%s in %s' % (lifts[0].where(), f.name), 'script code may run while safe mode is lifted')

def grant(c, p, f, grants):
    par = f.argindex('parent') if f.name == 'jsi_InterpNew' else None
    res = {}
    def atoms(imp, cur, facts):
        out = []
        for pred, a, b in imp:
            if not isinstance(a, int): continue
            cb = const_int(b); fl = loadfield(f, a); r = strip(f, a)
            if par is not None and r == par and pred == 'eq' and cb == 0: out.append(('ok',))
            e = expr(f, r)
            if isfld(e, 'Jsi_Interp.isSafe') and par is not None and e[1][1] == ('arg', par) and pred == 'eq' and cb == 0: out.append(('ok',))
            if fl == 'Jsi_Interp.parent' and pred == 'eq' and cb == 0: out.append(('ok',))
            if fl == 'Jsi_Interp.startSafe' and pred == 'ne' and cb == 0: out.append(('ok',))
            if fl == 'Jsi_Interp.lockDown' and pred == 'ne' and cb == 0: out.append(('lockdown',))
        return out
    ex = paths.Explorer(f, edge_atoms=atoms)
    ex.run(watch=[I.id for I, _, _ in grants])
    for I, fl, v in grants:
        nm = fl.split('.')[1]
        okk = all(('ok',) in a or (('lockdown',) in a and nm != 'startSafe' and par is not None) for a in ex.at[I.id])
        c.ob(okk, 'grant:%s:%s' % (f.name, nm), '%s in %s' % (I.where(), f.name), '%s may be granted to an interp that has a safe parent' % nm)

def inherit(c, p):
    f = c.fn(p, 'jsi_InterpNew')
    par = f.argindex('parent'); c.need(par is not None, 'parent parameter')
    def atoms(imp, cur, facts):
        out = []
        for pred, a, b in imp:
            if not isinstance(a, int): continue
            cb = const_int(b); r = strip(f, a)
            if r == par and cb == 0: out.append(('noparent',) if pred == 'eq' else ('parent',))
            e = expr(f, r)
            if not (isinstance(e, tuple) and len(e) == 2 and e[0] == 'ld' and e[1][0] == 'fld'): continue
            n = e[1][2].split('.')[1] if '.' in e[1][2] else ''
            if not e[1][2].startswith('Jsi_Interp.'): continue
            onpar = e[1][1] == ('arg', par)
            # branches that contradict what was stored on this path are infeasible
            if not onpar and cb == 0 and pred == 'ne' and ('null', n) in cur: return False
            if not onpar and cb == 0 and pred == 'eq' and n == 'isSafe' and ('inh', n) in cur: return False
            if not onpar and cb == 0 and pred == 'ne' and n in BANS: out.append(('inh', n))
            if onpar and n == 'isSafe' and cb == 0: out.append(('plain',) if pred == 'eq' else ('psafe',))
            if onpar and n in BANS and cb == 0 and pred == 'eq': out.append(('inh', n))
            if not onpar and n in CLEARED and cb == 0 and pred == 'eq': out.append(('null', n))
            if not onpar and n == 'subthread' and cb == 0 and pred == 'eq': out.append(('null', n))
        return out
    def frompar(v, fl, facts):
        """the parent's setting, or it or-ed with something"""
        x = ex.val(v, facts)
        if x == 'nz' or x: return True
        if isinstance(v, int): v = ex.resolve(strip(f, v), facts)
        e = expr(f, v)
        if isfld(e, fl) and e[1][1] == ('arg', par): return True
        I = f.inst.get(strip(f, v)) if isinstance(v, int) else None
        if I is not None and I.op == 'or': return any(frompar(o, fl, facts) for o in I.ops)
        if I is not None and I.op == 'icmp' and I.x == 'ne' and const_int(I.ops[1]) == 0: return frompar(I.ops[0], fl, facts)
        return False
    def hook(I, a, facts, st):
        if ('plain',) in a or ('noparent',) in a:
            return a if len(a) <= 2 else frozenset(x for x in a if x in (('plain',), ('noparent',), ('parent',)))
        if I.op == 'store':
            sf = store_field(f, I)
            if not sf: return None
            fl, v = sf
            if not fl.startswith('Jsi_Interp.'): return None
            n = fl.split('.')[1]; cv = const_int(v)
            if n == 'isSafe':
                if cv or frompar(v, fl, facts): return a | {('inh', n)}
                return a - {('inh', n)}
            if n in BANS:
                if cv or frompar(v, fl, facts): return a | {('inh', n)}
                return a - {('inh', n)}
            if n in LIMITS + ('safeMode',):
                e = expr(f, v)
                if isfld(e, fl) and e[1][1] == ('arg', par): return a | {('inh', n)}
                ev = f.p.enumval.get('jsi_safe_Lockdown')
                if n == 'safeMode' and cv == ev: return a
                if n == 'maxDepth' and cv is not None: return a      # clamped to the hard limit
                return a - {('inh', n)}
            if n in CLEARED + ('subthread',):
                if cv == 0: return a | {('null', n)}
                return a - {('null', n)}
        if I.op == 'call':
            if I.callee_name in ('Jsi_OptionsProcess', 'Jsi_OptionsSet'):
                if any(isinstance(o, tuple) and o[:2] == ('g', 'InterpOptions') for o in I.ops):
                    return frozenset(x for x in a if x[0] not in ('inh', 'null'))
            if I.callee_name == 'jsi_InterpConfFiles':
                if ('psafe',) in a and ('null', 'confFile') not in a: return a | {('badconf',)}
        return None
    ex = paths.Explorer(f, edge_atoms=atoms, inst=hook, limit=400000)
    ex.run()
    n = 0; miss = {}
    for I, a, facts, st in ex.rets:
        v = ex.val(I.ops[0], facts)
        if v == 0 or ('plain',) in a or ('noparent',) in a or ('psafe',) not in a: continue
        n += 1
        for x in ('isSafe', 'safeMode') + BANS + LIMITS:
            if ('inh', x) not in a: miss.setdefault('inherit:' + x, (I, st))
        for x in CLEARED + ('subthread',):
            if ('null', x) not in a: miss.setdefault('cleared:' + x, (I, st))
        if ('badconf',) in a: miss.setdefault('confFile-read', (I, st))
    c.count('constructor returns with a safe parent', n)
    c.need(n > 0, 'no return of jsi_InterpNew with a safe parent was recognised')
    for x in ['inherit:' + x for x in ('isSafe', 'safeMode') + BANS + LIMITS] + ['cleared:' + x for x in CLEARED + ('subthread',)] + ['confFile-read']:
        c.ob(x not in miss, x, '%s in %s' % (f.file + ':%d' % f.line, f.name), 'a sub-interp of a safe interp may be created without: %s' % x, 'lines %s' % (ex.trace(miss[x][1])[:60] if x in miss else ''))

def table(c, p):
    g = p.globals.get('InterpOptions'); c.need(g is not None, 'InterpOptions')
    ev = p.enumval
    INIT, LOCK, RO = ev['JSI_OPT_INIT_ONLY'], ev['JSI_OPT_LOCKSAFE'], ev['JSI_OPT_READ_ONLY']
    rows = p.structarray('InterpOptions')
    byoff = {}
    for r in rows:
        o = const_int(r.get('offset')); 
        if p.cstr(r.get('name')): byoff.setdefault(o, []).append(r)
    for n in INITONLY + LOCKED:
        fd = p.field('Jsi_Interp', n); c.need(fd is not None, 'field ' + n)
        for r in byoff.get(fd[1] // 8, []):
            fl = const_int(r.get('flags')) or 0
            okk = fl & (INIT | RO) or (n in LOCKED and fl & LOCK)
            c.ob(bool(okk), 'option-flag:%s' % n, g.get('file', '') + ' InterpOptions.' + n, 'a script in a safe interp can change option %s after creation' % n)
            c.count('security options')
    c.floor('security options', 16)

def enforce(c, p):
    ev = p.enumval
    INIT, LOCK, RO, UPD = ev['JSI_OPT_INIT_ONLY'], ev['JSI_OPT_LOCKSAFE'], ev['JSI_OPT_READ_ONLY'], ev['JSI_OPTS_IS_UPDATE']
    f = c.fn(p, 'Jsi_OptionsProcess')
    fi = f.nargs - 1
    def bits(a, pred, cb):
        """(what, mask) tested: ('arg'|'spec', mask)"""
        I = f.inst.get(strip(f, a)) if isinstance(a, int) else None
        if I is None or I.op != 'and': return None
        for x, y in ((I.ops[0], I.ops[1]), (I.ops[1], I.ops[0])):
            m = const_int(y)
            if m is None: continue
            x = strip(f, x)
            if isinstance(x, int) and x in f.inst and f.inst[x].op in ('or', 'phi', 'select'):     # flags |= something
                return ('arg', m)
            if x == fi: return ('arg', m)
            if loadfield(f, x) == 'Jsi_OptionSpec.flags': return ('spec', m)
        return None
    def atoms(imp, cur, facts):
        out = []
        for pred, a, b in imp:
            if not isinstance(a, int): continue
            cb = const_int(b)
            bt = bits(a, pred, cb)
            if bt and pred == 'eq' and cb == 0:
                for m, nm in ((INIT, 'init'), (LOCK, 'lock'), (RO, 'ro'), (UPD, 'upd')):
                    if bt[1] & m: out.append((nm, bt[0]))
            fl = loadfield(f, a)
            if fl == 'Jsi_Interp.isSafe' and pred == 'eq' and cb == 0: out.append(('unsafe',))
        return out
    ss = [I for I in f.calls() if I.callee_name in ('jsi_SetOption', 'jsi_SetOption_')]
    c.need(ss, 'option setter call')
    # facts about one spec end when the next one is fetched
    specs = set()
    for I in f.insts():
        if I.op == 'phi' and I.ty == 'ptr': specs.add(I.id)
    def hook(I, a, facts, st):
        if I.op == 'call' and I.callee_name in ('Jsi_OptionsFind', 'Jsi_TreeSearchNext', 'jsi_SetOption', 'jsi_SetOption_') or \
           (I.op == 'getelementptr' and len(I.ops) == 2 and 'OptionSpec' in I.x[0] and const_int(I.ops[1]) == 1):
            n = frozenset(x for x in a if x[-1] != 'spec')
            return n if n != a else None
        return None
    rec = {}
    def hook2(I, a, facts, st):
        if I in ss: rec.setdefault(I.id, set()).add(a)
        return hook(I, a, facts, st)
    ex = paths.Explorer(f, edge_atoms=atoms, inst=hook2); ex.run()
    for I in ss:
        st = rec.get(I.id, set())
        upd = [a for a in st if ('upd', 'arg') not in a]
        w = '%s in %s' % (I.where(), f.name)
        c.ob(bool(st) and all(('init', 'spec') in a for a in upd), 'update:init-only', w, 'an update may set an init-only option')
        c.ob(bool(st) and all(('ro', 'spec') in a for a in upd), 'update:read-only', w, 'an update may set a read-only option')
        c.ob(bool(st) and all(('lock', 'spec') in a or ('unsafe',) in a for a in upd), 'update:lock-safe', w, 'an update in a safe interp may set a lock-safe option')
        c.count('setter calls')
    f = c.fn(p, 'Jsi_OptionsConf'); n = 0
    for I in f.calls(('Jsi_OptionsProcess',)):
        n += 1
        v = strip(f, I.ops[-1]); J = f.inst.get(v) if isinstance(v, int) else None
        okk = False; seen = set(); st = [v]
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x)
            cv = const_int(x)
            if cv is not None and cv & UPD: okk = True
            if isinstance(x, int) and x in f.inst and f.inst[x].op in ('or',) + CASTS: st += [strip(f, o) for o in f.inst[x].ops]
        c.ob(okk, 'conf-is-update', I.where(), 'conf() processes options without the update flag')
    c.need(n >= 1, 'Jsi_OptionsConf processing')
    # every other script-time route to the Interp options must be an update too
    for f in p.funcs.values():
        if f.decl: continue
        for I in f.calls():
            if I.callee_name in ('Jsi_OptionsProcess', 'Jsi_OptionsSet', 'jsi_SetOption', 'Jsi_OptionsProcessJSON') and any(isinstance(o, tuple) and o[:2] == ('g', 'InterpOptions') for o in I.ops):
                c.count('direct settings of Interp options')
                c.ob(f.name in ('jsi_InterpNew', 'jsi_InterpConfFile', 'jsi_InterpConfFiles'), 'interp-options:%s' % f.name, '%s in %s' % (I.where(), f.name), 'Interp options are set outside creation and not as an update')
    for n, callers in (('jsi_InterpConfFile', ('jsi_InterpConfFiles',)), ('jsi_InterpConfFiles', ('jsi_InterpNew',))):
        for J in p.callers().get(n, []):
            c.ob(J.fn.name in callers, 'conf-file:%s:%s' % (n, J.fn.name), J.where(), 'the configuration file is applied outside interpreter creation')

def getter(c, p):
    """init-only containers are not handed out by reference"""
    ev = p.enumval
    INIT = ev['JSI_OPT_INIT_ONLY']; ARR = ev['JSI_OPTION_ARRAY']
    f = c.fn(p, 'jsi_GetOption')
    si = f.argindex('specPtr'); si = 1 if si is None else si
    def atoms(imp, cur, facts):
        out = []
        for pred, a, b in imp:
            if not isinstance(a, int): continue
            cb = const_int(b); fl = loadfield(f, a)
            if fl == 'Jsi_OptionSpec.id' and cb is not None:
                if pred == 'eq': out.append(('id', cb))
                if pred == 'ne' and cb == ARR: out.append(('notarr',))
            I = f.inst.get(strip(f, a))
            if I is not None and I.op == 'and' and pred == 'eq' and cb == 0:
                for x, y in ((I.ops[0], I.ops[1]), (I.ops[1], I.ops[0])):
                    m = const_int(y)
                    if m is not None and m & INIT and loadfield(f, x) == 'Jsi_OptionSpec.flags': out.append(('free',))
        return out
    def stored(v):
        """value read from the record itself"""
        r = strip(f, v); I = f.inst.get(r) if isinstance(r, int) else None
        if I is None or I.op != 'load': return False
        b = strip(f, I.ops[0])
        J = f.inst.get(b) if isinstance(b, int) else None
        return J is not None and J.op == 'getelementptr' and strip(f, J.ops[0]) == (f.argindex('record') if f.argindex('record') is not None else 2)
    ss = [I for I in f.calls(('Jsi_ValueCopy', 'Jsi_ValueReplace', 'Jsi_ValueDup2', 'Jsi_ValueDup')) if any(stored(o) for o in I.ops)]
    c.need(ss, 'stored values returned by the option getter')
    ex = paths.Explorer(f, edge_atoms=atoms); ex.run(watch=[I.id for I in ss])
    for I in ss:
        bad = [a for a in ex.at[I.id] if ('id', ARR) in a and ('notarr',) not in a and ('free',) not in a]
        c.ob(not bad, 'getter-alias', '%s in %s' % (I.where(), f.name), 'the getter hands out the stored array of an init-only option, whose elements a script can then change')
        c.count('getter copies')

def users(c, p):
    pass
