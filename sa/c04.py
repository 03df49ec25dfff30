"""C04: capability gates outside the file system."""
from ir import *
import paths
from guard import *
from fsmodel import handlers, reachable

NEED = {
    'dlopen': 'isSafe and noLoad must be clear', 'exec': 'isSafe clear, or the command was granted to a safe interp and screened for shell metacharacters',
    'env': 'isSafe must be clear', 'signal': 'isSafe must be clear', 'socket': 'noNetwork must be clear', 'stdin': 'noInput must be clear',
    'edit': 'isSafe and noInput must be clear',
}
EXECS = ('system', 'popen', 'fork', 'vfork', 'execvp', 'execv', 'execve', 'execlp', 'execl', 'posix_spawn', 'posix_spawnp')
META = set('<>|;&$`\n')

def allocas_of(f, v):
    """address-taken local a value is loaded from"""
    I = f.inst.get(strip(f, v)) if isinstance(v, int) else None
    if I is not None and I.op == 'load' and isinstance(I.ops[0], int) and I.ops[0] in f.inst and f.inst[I.ops[0]].op == 'alloca': return I.ops[0]
    return None

def run(c):
    p = c.prog(2000, ['Jsi_LoadLibrary', 'jsi_SysExecCmd', 'jsi_RlGetLine'])
    c.rule('in code reachable from script commands each of these is reached only with its guard established on every path (locally, in every caller, or at the registration of the command table): '
           'dlopen: not isSafe and not noLoad; system/popen/fork/exec: not isSafe, or the command string matched safeExecPattern / the restricted or fossil grant AND contains none of "<>|;&$`" or newline; '
           'getenv of a script-chosen name, setenv, environ: not isSafe; kill, alarm, sigaction: not isSafe (commands registered only in unsafe interps, and the interp does not become safe afterwards); '
           'socket(): network access granted; standard input of console.input: not noInput; line editor: not isSafe, not noInput; '
           'creating an interp with a parent: parent->noSubInterps clear and depth within maxInterpDepth')
    ev = p.enumval
    NET = ev.get('JSI_INTACCESS_NETWORK'); c.need(NET is not None, 'JSI_INTACCESS_NETWORK')
    hs = handlers(p); reach = reachable(p, list(hs)); c.need(len(reach) > 800, 'reachable code')
    restricted = {}
    def cmdroot(f, v, ex, facts, depth=0):
        """the string argument of the command the value is the text of"""
        while True:
            if isinstance(v, int): v = ex.resolve(strip(f, v), facts)
            if isinstance(v, int): v = strip(f, v)
            I = f.inst.get(v) if isinstance(v, int) else None
            if I is not None and I.op in ('phi', 'select') and depth < 6:
                r = {cmdroot(f, o, ex, facts, depth + 1) for o in (I.ops if I.op == 'phi' else I.ops[1:]) if const_int(o) != 0}
                return r.pop() if len(r) == 1 else ('mix', v)
            return v
    def atoms(f, ex, pred, a, b, facts):
        out = []
        cb = const_int(b)
        if not isinstance(a, int): return out
        r = ex.resolve(strip(f, a), facts); r = strip(f, r) if isinstance(r, int) else r
        if not isinstance(r, int): return out
        I = f.inst.get(r)
        zero = pred == 'eq' and cb == 0; nz = pred == 'ne' and cb == 0
        if I is None:
            if nz and f.args[r][0] == 'restricted' or (nz and r in restricted.get(f.name, ())): out.append(('granted',))
            return out
        fl = loadfield(f, r)
        if zero and fl in ('Jsi_Interp.isSafe', 'Jsi_Interp.noLoad', 'Jsi_Interp.noInput', 'Jsi_Interp.noNetwork'): out.append((fl.split('.')[1],))
        if I.op == 'call':
            n = I.callee_name
            if n == 'Jsi_InterpSafe' and zero: out.append(('isSafe',))
            if n == 'Jsi_InterpAccess' and zero and const_int(I.ops[2]) == NET: out.append(('noNetwork',))
            if n == 'strcspn':
                o = strip(f, b); J = f.inst.get(o) if isinstance(o, int) else None
                if pred == 'eq' and J is not None and J.op == 'call' and J.callee_name in ('strlen', 'Jsi_Strlen') and META <= set(p.cstr(I.ops[1]) or ''):
                    out.append(('screened', cmdroot(f, I.ops[0], ex, facts)))
            if n == 'strlen':
                o = strip(f, b); J = f.inst.get(o) if isinstance(o, int) else None
                if pred == 'eq' and J is not None and J.op == 'call' and J.callee_name == 'strcspn' and META <= set(p.cstr(J.ops[1]) or ''):
                    out.append(('screened', cmdroot(f, J.ops[0], ex, facts)))
            if n == 'strpbrk' and zero and META <= set(p.cstr(I.ops[1]) or ''): out.append(('screened', cmdroot(f, I.ops[0], ex, facts)))
            if n in ('Jsi_Strncmp', 'strncmp') and zero:
                for x in (0, 1):
                    t = p.cstr(I.ops[x])
                    if t and t.startswith('fossil ') and const_int(I.ops[2]) == len(t): out.append(('fossil', cmdroot(f, I.ops[1 - x], ex, facts)))
            if n in ('Jsi_Strcmp', 'strcmp') and zero:
                for x in (0, 1):
                    if p.cstr(I.ops[x]) == '.' and loadfield(f, I.ops[1 - x]) == 'Jsi_Interp.lockDown': out.append(('dot',))
        al = allocas_of(f, r)
        if al is not None and nz:
            for u in f.users.get(al, ()):
                if u.op == 'call' and u.callee_name == 'Jsi_RegExpMatch' and u.ops[3] == al:
                    # the pattern must be the safeExecPattern one
                    pat = strip(f, u.ops[1])
                    ok = any(w.op == 'call' and w.callee_name == 'jsi_RegExpValueNew' and strip(f, w.ops[2]) == pat and loadfield(f, w.ops[1]) == 'Jsi_Interp.safeExecPattern' for w in f.calls())
                    if ok: out.append(('match', cmdroot(f, u.ops[2], ex, facts)))
        return out
    def text(f, v, ex, facts):
        """root of the executed string: the command itself, or a DString built from it"""
        v = cmdroot(f, v, ex, facts)
        I = f.inst.get(v) if isinstance(v, int) else None
        if I is not None and I.op == 'call' and I.callee_name in ('Jsi_DSValue', 'Jsi_DSAppend', 'Jsi_DSAppendLen'):
            for u in f.calls(('Jsi_DSAppend', 'Jsi_DSAppendLen')):
                if expr(f, u.ops[0]) == expr(f, I.ops[0]): 
                    r = cmdroot(f, u.ops[1], ex, facts)
                    if isinstance(r, int): return r
        if I is not None and I.op == 'load':       # argv made by Jsi_SplitStr
            e = I.ops[0]
            for u in f.calls(('Jsi_SplitStr',)):
                if e in u.ops: return cmdroot(f, u.ops[0], ex, facts)
        return v
    def sat(k, a, I, ex, facts):
        f = I.fn
        if k == 'dlopen': return ('isSafe',) in a and ('noLoad',) in a
        if k in ('env', 'signal'): return ('isSafe',) in a
        if k == 'socket': return ('noNetwork',) in a
        if k == 'stdin': return ('noInput',) in a
        if k == 'edit': return ('noInput',) in a and ('isSafe',) in a
        if k == 'exec':
            if ('isSafe',) in a: return True
            if not I.ops: 
                roots = {x[1] for x in a if x[0] == 'screened'}
            else:
                roots = {text(f, o, ex, facts) for o in I.ops[:1]}
            if any(x[0] in ('screened',) and x[1] in roots for x in a):
                if ('granted',) in a: return True
                if any(x[0] == 'match' and x[1] in roots for x in a): return True
                if any(x[0] == 'fossil' and x[1] in roots for x in a) and ('dot',) in a: return True
            return False
        if k == 'grant': return any(x[0] == 'fossil' for x in a)
        return False
    def kills(f, I, a):
        sf = store_field(f, I)
        if sf and sf[0] == 'Jsi_Interp.isSafe' and const_int(sf[1]) != 0 and ('isSafe',) in a: return a - {('isSafe',)}
        return a
    def track(f):
        t = set()
        for I in f.calls(EXECS + ('strcspn', 'strlen', 'Jsi_RegExpMatch', 'Jsi_SplitStr', 'jsi_popen')):
            for o in I.ops:
                v = strip(f, o) if isinstance(o, int) else o
                if isinstance(v, int) and v in f.inst and f.inst[v].op in ('phi', 'select') and f.inst[v].ty == 'ptr': t.add(v)
        return t
    g = Guard(c, p, atoms, sat, kills, track)
    g.describe = lambda k: NEED.get(k, k)
    sites = []
    for n in sorted(reach):
        f = p.funcs[n]
        if f.file.startswith('miniz/') or f.file.endswith('linenoise.c'): continue
        for I in f.calls():
            m = I.callee_name
            if m in ('dlopen', 'dlmopen'): sites.append((I, 'dlopen', '%s:%s' % (n, m)))
            elif m in EXECS and p.funcs[m].decl and not (m.startswith('exec')): sites.append((I, 'exec', '%s:%s' % (n, m)))
            elif m in ('getenv', 'secure_getenv') and p.cstr(I.ops[0]) is None: sites.append((I, 'env', '%s:%s' % (n, m)))
            elif m in ('setenv', 'putenv', 'unsetenv', 'clearenv'): sites.append((I, 'env', '%s:%s' % (n, m)))
            elif m in ('kill', 'alarm', 'sigaction', 'setitimer', 'killpg'): sites.append((I, 'signal', '%s:%s' % (n, m)))
            elif m == 'socket': sites.append((I, 'socket', '%s:%s' % (n, m)))
            elif m == 'jsi_RlGetLine' and n in hs: sites.append((I, 'edit', '%s:%s' % (n, m)))
            elif m in ('fgets', 'getchar', 'getline', 'fread', 'gets', 'fgetc') and n in hs:
                if any(isinstance(x, tuple) and x[0] == 'ld' and x[1][:2] == ('g', 'stdin') for x in [expr(f, o) for o in I.ops]) or m == 'getchar':
                    sites.append((I, 'stdin', '%s:%s' % (n, m)))
        for I in f.insts():
            if I.op == 'load' and isinstance(I.ops[0], tuple) and I.ops[0][:2] in (('g', 'environ'), ('g', '__environ')): sites.append((I, 'env', '%s:environ' % n))
    c.count('guarded operations', len(sites))
    g.decide(sites)
    kinds = {k for _, k, _ in sites}
    for k, least in (('dlopen', 1), ('exec', 3), ('env', 4), ('signal', 3), ('socket', 1), ('stdin', 1), ('edit', 1)):
        c.need(sum(1 for x in sites if x[1] == k) >= 1, 'no %s operation found' % k)
    # callers that switch the executor into its restricted mode themselves grant the command: they must bound it
    grants = []
    for f in p.funcs.values():
        if f.decl: continue
        for I in f.calls(('jsi_SysExecCmd',)):
            if const_int(I.ops[-1]) != 0: grants.append(I)
    for I in grants:
        c.ob(restrict_prefix(p, I), 'grant:%s' % I.fn.name, '%s in %s' % (I.where(), I.fn.name), 'a command run with the restricted grant is not limited to the listed fossil sub-commands')
    # commands that only exist in unsafe interps: the interp may not turn safe after they were registered
    for f in p.funcs.values():
        if f.decl: continue
        regs = [I for I in f.calls() if I.callee_name in ('jsi_InitSignal', 'jsi_InitLoad')]
        if not regs: continue
        for R in regs:
            blocks = f.reach(R.bb) | {R.bb}
            for J in f.insts():
                sf = store_field(f, J)
                if sf and sf[0] == 'Jsi_Interp.isSafe' and const_int(sf[1]) != 0 and J.bb in blocks and not (J.bb == R.bb and J.idx < R.idx):
                    if J.bb == R.bb and R.bb not in f.reach(R.bb) and J.idx < R.idx: continue
                    c.ob(False, 'late-safe:%s:%s' % (f.name, R.callee_name), '%s in %s' % (J.where(), f.name), 'the interp becomes safe after commands reserved for unsafe interps were registered (%s)' % R.where())
            c.ob(True, 'registered-last:%s' % R.callee_name, R.where(), '')
    subinterp(c, p)

def restrict_prefix(p, I):
    """the caller compares the command with a table of allowed prefixes and returns when none matches"""
    f = I.fn
    # every entry of the table of prefixes is a fossil sub-command
    def atoms(imp, cur, facts):
        out = []
        for pred, a, b in imp:
            cb = const_int(b)
            if not isinstance(a, int): continue
            r = strip(f, a); J = f.inst.get(r)
            if J is None: continue
            if J.op == 'call' and J.callee_name in ('Jsi_Strncmp', 'strncmp') and pred == 'eq' and cb == 0: out.append(('pre',))
            if pred == 'eq' and cb == 0 and loadfield(f, r) == 'Jsi_Interp.isSafe': out.append(('pre',))
        return out
    ex = paths.Explorer(f, edge_atoms=atoms)
    ex.run(watch=[I.id])
    return bool(ex.at[I.id]) and all(('pre',) in a for a in ex.at[I.id])

def subinterp(c, p):
    f = c.fn(p, 'jsi_InterpNew')
    par = f.argindex('parent'); 
    if par is None: par = 0
    def atoms(imp, cur, facts):
        out = []
        for pred, a, b in imp:
            cb = const_int(b)
            if not isinstance(a, int): continue
            r = strip(f, a)
            if r == par and cb == 0: out.append(('noparent',) if pred == 'eq' else ('parent',))
            e = expr(f, r)
            if isfld(e, 'Jsi_Interp.noSubInterps') and e[1][1] == ('arg', par) and pred == 'eq' and cb == 0: out.append(('allowed',))
            if isfld(e, 'Jsi_Interp.interpDepth') and isinstance(b, int) and loadfield(f, b) == 'Jsi_Interp.maxInterpDepth' and pred in ('sle', 'ule', 'slt', 'ult'): out.append(('depth',))
            if isfld(e, 'Jsi_Interp.maxInterpDepth') and isinstance(b, int) and loadfield(f, b) == 'Jsi_Interp.interpDepth' and pred in ('sge', 'uge', 'sgt', 'ugt'): out.append(('depth',))
        return out
    inits = [I for I in f.calls() if I.callee_name == 'jsi_InitInterp']
    c.need(len(inits) >= 1, 'registration of Interp commands in jsi_InterpNew')
    ex = paths.Explorer(f, edge_atoms=atoms, correlate=True)
    ex.run(watch=[I.id for I in inits])
    for I in inits:
        st = ex.at[I.id]
        bad = [a for a in st if ('noparent',) not in a and not (('allowed',) in a and ('depth',) in a)]
        c.ob(bool(st) and not [a for a in bad if ('allowed',) not in a], 'subinterp:noSubInterps', I.where(), 'a sub-interp may be created although the parent has noSubInterps set')
        c.ob(bool(st) and not [a for a in bad if ('depth',) not in a], 'subinterp:depth', I.where(), 'a sub-interp may be created beyond maxInterpDepth')
