"""C13: formats are the program's own, and fit their arguments."""
from ir import *
import re

# format position of the C library's functions
LIB = {'printf': 0, 'vprintf': 0, 'fprintf': 1, 'vfprintf': 1, 'sprintf': 1, 'vsprintf': 1, 'snprintf': 2, 'vsnprintf': 2, 'dprintf': 1, 'syslog': 1, 'vsyslog': 1,
       '__isoc99_sscanf': 1, 'sscanf': 1, '__isoc99_fscanf': 1, 'asprintf': 1, 'vasprintf': 1, 'sqlite3_snprintf': 2, 'sqlite3_mprintf': 0, 'sqlite3_vmprintf': 0, 'scanf': 0, '__isoc99_scanf': 0}
VLIST = {'vprintf', 'vfprintf', 'vsprintf', 'vsnprintf', 'vsyslog', 'vasprintf', 'sqlite3_vmprintf'}
SCAN = {'__isoc99_sscanf', 'sscanf', '__isoc99_fscanf', 'scanf', '__isoc99_scanf'}
TERMINATED = {'Jsi_DSAppend': 1, 'Jsi_OptionsChanged': 3}
COMPOSE = {'snprintf': (0, 2), 'sprintf': (0, 1), 'Jsi_DSPrintf': (0, 1)}
COPY = {'strcpy': 1, 'Jsi_Strcpy': 1, 'strcat': 1, 'strncpy': 1, 'Jsi_Strncpy': 1, 'Jsi_DSAppend': 1}
# texts that only ever come from constant tables of the program
TABLES = {'Jsi_OptionSpec.name': 'names of options: every table of options is a constant of the program', 'Jsi_OptionCustom.name': 'names of the kinds of custom option',
          'Jsi_CmdSpec.name': 'names of commands, from constant tables'}
CONV = re.compile(r'%([-+ #0\']*)(\d+|\*)?(?:\.(\d+|\*)?)?(hh|h|ll|l|q|L|j|z|t)?([a-zA-Z%])|%')
SETC = re.compile(r'\[\^?\]?[^\]]*\]')

def sources(f, v, seen=None):
    """leaves a pointer value may be: constants, args, instructions"""
    seen = set() if seen is None else seen
    out = []; w = [v]
    while w:
        v = w.pop()
        if v in seen: continue
        seen.add(v)
        if isinstance(v, int) and v in f.inst:
            I = f.inst[v]
            if I.op == 'phi': w += [o for o in I.ops]; continue
            if I.op == 'select': w += I.ops[1:]; continue
            if I.op in CASTS: w.append(I.ops[0]); continue
        out.append(v)
    return out

def base(f, v):
    while isinstance(v, int) and v in f.inst and (f.inst[v].op in CASTS or f.inst[v].op == 'getelementptr'): v = f.inst[v].ops[0]
    return v

class Clean:
    """texts that hold no conversion of their own"""
    def __init__(s, p, fmt): s.p = p; s.fmt = fmt; s.memo = {}; s.via = set()
    def tested(s, f, v, bb):
        """is the text known to hold no % here (a dominating test of strchr(text, '%'))?"""
        dm = f.dom()[bb]
        for x in range(len(f.blocks)):
            if not dm >> x & 1 or len(f.preds[x]) != 1: continue
            a = f.preds[x][0]; T = f.blocks[a][-1]
            if T.op == 'br' and len(T.x) == 2 and s.absent(f, T.ops[0], T.x[0] == x, v): return True
        return False
    def absent(s, f, cnd, want, v, d=0):
        if not isinstance(cnd, int) or cnd not in f.inst or d > 5: return False
        I = f.inst[cnd]
        if I.op == 'icmp' and I.x in ('eq', 'ne'):
            o = strip(f, I.ops[0])
            if isinstance(o, int) and o in f.inst and f.inst[o].op == 'call' and f.inst[o].callee_name in ('strchr', 'Jsi_Strchr') and const_int(f.inst[o].ops[1]) == 37:
                t = f.inst[o].ops[0]
                if t == v or expr(f, t) == expr(f, v): return (I.x == 'eq') == want
            if const_int(I.ops[1]) == 0 and isinstance(o, int) and o in f.inst and f.inst[o].op in ('icmp', 'phi', 'select', 'and'): return s.absent(f, o, want == (I.x == 'ne'), v, d + 1)
        if I.op in ('zext', 'trunc', 'freeze'): return s.absent(f, I.ops[0], want, v, d + 1)
        if I.op == 'and' and want: return any(s.absent(f, o, True, v, d + 1) for o in I.ops)
        if I.op == 'phi':
            live = [(o, bb) for o, bb in zip(I.ops, I.x) if const_int(o) is None or bool(const_int(o)) == want]
            if len(live) == 1: return s.absent(f, live[0][0], want, v, d + 1)
        if I.op == 'select':
            # a ? b : false
            if want and const_int(I.ops[2]) == 0: return s.absent(f, I.ops[0], True, v, d + 1) or s.absent(f, I.ops[1], True, v, d + 1)
        return False
    def clean(s, f, v, bb, seen=frozenset(), d=0):
        """None when clean, else the construct that is not"""
        if s.p.cstr(v) is not None or (isinstance(v, tuple) and v[0] in ('n', 'u', 'z')): return None
        if v in seen or d > 30: return None
        seen = seen | {v}
        if isinstance(v, int) and v not in f.inst:
            return None if v in s.fmt.get(f.name, ()) else 'argument %s' % (f.args[v][0] if v < len(f.args) else v)
        if not isinstance(v, int): return str(v)
        if s.tested(f, v, bb): return None
        I = f.inst[v]
        if I.op in CASTS: return s.clean(f, I.ops[0], bb, seen, d + 1)
        if I.op == 'phi':
            for o, b in zip(I.ops, I.x):
                T = f.blocks[b][-1]
                if T.op == 'br' and len(T.x) == 2 and T.x[0] != T.x[1] and s.absent(f, T.ops[0], T.x[0] == I.bb, o): continue
                r = s.clean(f, o, b, seen, d + 1)
                if r: return r
            return None
        if I.op == 'select':
            for o in I.ops[1:]:
                r = s.clean(f, o, bb, seen, d + 1)
                if r: return r
            return None
        if I.op == 'getelementptr' and not s.p.gepfield(I):
            b = base(f, v)
            if b != v: return s.clean(f, b, bb, seen, d + 1)
        if I.op == 'alloca': return s.buffer(f, v, seen, d + 1)
        if I.op == 'load':
            e = expr(f, I.ops[0])
            if e[0] == 'fld' and e[2] in TABLES: s.via.add(e[2]); return None
            b = base(f, I.ops[0])
            if isinstance(b, tuple) and b[0] == 'g' and s.p.globals[b[1]].get('const') is not None and s.consttable(b[1]): return None
        if I.op == 'call':
            n = I.callee_name
            if n in ('Jsi_DSPrintf', 'Jsi_DSValue'): return s.buffer(f, base(f, I.ops[0]), seen, d + 1)
            if n in ('strrchr', 'Jsi_Strrchr', 'strchr', 'Jsi_Strchr', 'strstr', 'Jsi_Strstr'): return s.clean(f, I.ops[0], bb, seen, d + 1)
        return '%s at %s' % (I.callee_name or I.op, I.where())
    def consttable(s, g):
        """a table whose entries all are constant texts"""
        i = s.p.globals[g].get('init')
        if not i: return False
        w = [i]; ok = True
        while w:
            x = w.pop()
            if x[0] == 'a': w += list(x[1])
            elif x[0] in ('n', 'z'): pass
            elif s.p.cstr(x) is None: return False
        # and nothing is stored there
        for f in s.p.funcs.values():
            if f.decl: continue
            for I in f.insts():
                if I.op == 'store':
                    b = base(f, I.ops[1])
                    if isinstance(b, tuple) and b[0] == 'g' and b[1] == g: return False
        return True
    def buffer(s, f, b, seen, d):
        """is all that is put in a local buffer clean?"""
        if b in seen and len(seen) > 1 and (f.name, b) in s.memo: return None
        if not isinstance(b, int) or b not in f.inst or f.inst[b].op != 'alloca': return 'a text of unknown origin'
        s.memo[f.name, b] = 1
        n = 0
        for I in f.calls():
            for k, o in enumerate(I.ops):
                if base(f, o) != b: continue
                if I.callee_name in COMPOSE and COMPOSE[I.callee_name][0] == k:
                    n += 1
                    t = s.p.cstr(I.ops[COMPOSE[I.callee_name][1]])
                    if t is None: return 'format at %s' % I.where()
                    r = s.parts(f, I, t, COMPOSE[I.callee_name][1], seen, d)
                    if r: return r
                elif I.callee_name in COPY and k == 0:
                    n += 1
                    for x in I.ops[1:] if I.callee_name == 'Jsi_DSAppend' else [I.ops[1]]:
                        r = s.clean(f, x, I.bb, seen, d + 1)
                        if r: return r
                elif I.callee_name in LIB and k == 0 and I.callee_name in ('vsnprintf', 'vsprintf'): return 'text made at %s' % I.where()
                elif I.callee_name in ('Jsi_DSInit', 'Jsi_DSFree', 'Jsi_DSValue', 'Jsi_DSLength', 'Jsi_DSSetLength') or (I.callee_name or '').startswith('llvm.'): pass
                elif I.callee_name in LIB and I.callee_name not in SCAN and k >= LIB[I.callee_name]: pass
                elif I.callee_name in COMPOSE and k > COMPOSE[I.callee_name][1]: pass
                elif not I.callee_name: pass      # a hook that prints it
                elif s.reads(I.callee_name, k): pass
                else: return 'text handed to %s at %s' % (I.callee_name or 'a pointer', I.where())
        st = [I for I in f.insts() if I.op == 'store' and s.into(f, I.ops[1], b)]
        var = [I for I in st if const_int(I.ops[0]) is None]
        if var:
            # single characters copied: every % must be doubled
            for I in var:
                if not s.doubled(f, I, st): return 'characters copied at %s without doubling %%' % I.where()
        elif any(const_int(I.ops[0]) == 37 for I in st): return 'a %% put there at %s' % st[0].where()
        return None
    def reads(s, n, k):
        return n in ('strlen', 'Jsi_Strlen', 'Jsi_Strcmp', 'strcmp', 'fputs', 'puts', 'fwrite', 'Jsi_Strchr', 'strchr', 'Jsi_Strdup', 'strdup', 'Jsi_Strrchr')
    def into(s, f, a, b):
        """may the address be in the buffer?"""
        w = [a]; seen = set()
        while w:
            a = w.pop()
            if a == b: return True
            if a in seen or not isinstance(a, int) or a not in f.inst: continue
            seen.add(a); J = f.inst[a]
            if J.op in CASTS or J.op == 'getelementptr': w.append(J.ops[0])
            elif J.op == 'phi': w += list(J.ops)
            elif J.op == 'select': w += list(J.ops[1:])
        return False
    def doubled(s, f, I, st):
        """a store of a character before which the same character, compared with %, led to a % being stored"""
        src = expr(f, I.ops[0])
        for T in (bl[-1] for bl in f.blocks):
            if T.op != 'br' or len(T.x) != 2 or not isinstance(T.ops[0], int) or T.ops[0] not in f.inst: continue
            C = f.inst[T.ops[0]]
            if C.op != 'icmp' or C.x not in ('eq', 'ne') or const_int(C.ops[1]) != 37: continue
            if expr(f, strip(f, C.ops[0])) != src and expr(f, C.ops[0]) != src: continue
            yes = T.x[0] if C.x == 'eq' else T.x[1]
            if not f.dom()[I.bb] >> T.bb & 1: continue
            if any(J.bb == yes and const_int(J.ops[0]) == 37 for J in st): return True
        return False
    def parts(s, f, I, t, k, seen, d):
        args = list(I.ops[k + 1:])
        for m in CONV.finditer(t):
            cv = m.group(5)
            if cv is None: return 'bad format at %s' % I.where()
            if cv == '%': return 'a %% made at %s' % I.where()
            for q in (m.group(2), m.group(3)):
                if q == '*' and args: args.pop(0)
            if not args: return None
            a = args.pop(0)
            if cv == 's':
                r = s.clean(f, a, I.bb, seen, d + 1)
                if r: return '%s, put in by %s at %s' % (r, I.callee_name, I.where())
            elif cv == 'c' : return 'a character put in at %s' % I.where()
        return None

def kinds(t, scan=False):
    """[(conversion, what its argument must be)]"""
    r = []; pos = 0
    if scan:
        t = re.sub(r'%\*?(\d*)\[\^?\]?[^\]]*\]', lambda m: '%' + ('*' if m.group(0)[1] == '*' else '') + 's', t)
    for m in CONV.finditer(t):
        cv, ln = m.group(5), m.group(4)
        if cv is None: r.append(('%', None)); continue
        if cv == '%': continue
        if scan:
            if m.group(2) == '*': continue
            r.append((m.group(0), 'ptr')); continue
        for q in (m.group(2), m.group(3)):
            if q == '*': r.append(('*', 'i32'))
        if cv in 'diuxXoc': r.append((m.group(0), 'i64' if ln in ('l', 'll', 'z', 'j', 't', 'q') else 'i32'))
        elif cv in 'eEfFgGaA': r.append((m.group(0), 'double'))
        elif cv in 'spnqQwz': r.append((m.group(0), 'ptr'))
        else: r.append((m.group(0), None))
    return r

def optype(f, v):
    if isinstance(v, tuple):
        if v[0] == 'i': return 'i%d' % v[2]
        if v[0] in ('g', 'f', 'n', 'ce', 'z'): return 'ptr'
        if v[0] == 'd' or v[0] == 'fp': return 'double'
        return None
    if v in f.inst: return f.inst[v].ty
    return f.argty(v) if hasattr(f, 'argty') else None

class Again:
    """the analysis made once more, of the program with helpers put in place"""
    def __init__(s, c): s.c = c; s.got = []; s.notes = []
    def rule(s, t): pass
    def count(s, n, k=1): pass
    def floor(s, n, k): pass
    def prog(s, i): return s.c.prog(400)
    def ob(s, ok, key, where, msg): s.got.append((ok, key.split(':')[0], where))

class Once:
    """collects what is open"""
    def __init__(s, c): s.c = c; s.bad = []
    def __getattr__(s, n): return getattr(s.c, n)
    def ob(s, ok, key, where, msg):
        if ok: s.c.ob(ok, key, where, msg)
        else: s.bad.append((key, where, msg))

def run(c):
    o = Once(c); analyse(o)
    if not o.bad: return
    # what was not shown is looked at again with helpers put in place of their calls
    a = Again(c); analyse(a)
    for key, where, msg in o.bad:
        l = [ok for ok, kind, w in a.got if w == where and kind == key.split(':')[0]]
        c.ob(bool(l) and all(l), key, where, msg)

def analyse(c):
    p = c.prog(0)
    fmt = {n: {i} for n, i in LIB.items()}
    ch = True
    while ch:
        ch = False
        for f in p.funcs.values():
            if f.decl: continue
            for I in f.calls():
                for i in list(fmt.get(I.callee_name, ())):
                    if i >= len(I.ops): continue
                    for s in sources(f, I.ops[i]):
                        if isinstance(s, int) and s not in f.inst and s not in fmt.get(f.name, set()):
                            fmt.setdefault(f.name, set()).add(s); ch = True
    c.rule('origin: every text used as a format (printf and scanf families, and every function that hands a parameter of its own on as one) is a constant, the parameter, or a text composed of constants, parameters used as formats, names from constant tables and texts in which %% was ruled out or doubled'.replace('%%', '%'))
    c.rule('fit: the conversions of a constant format agree in number and kind with the arguments of the call')
    c.rule('built: where Jsi_FormatString builds a format, the last letter of it belongs to the kind of number handed over with it')
    c.rule('end: argument lists ended by a null pointer (%s) are' % ', '.join(sorted(TERMINATED)))
    for n in fmt:
        if n not in LIB and not p.funcs[n].decl: c.count('functions that hand a format on')
    cl = Clean(p, fmt)
    exposed = p.addr_taken()
    for f in sorted((f for f in p.funcs.values() if not f.decl), key=lambda f: f.name):
        for I in f.calls():
            n = I.callee_name
            for i in sorted(fmt.get(n, ())):
                if i >= len(I.ops): continue
                for s in sources(f, I.ops[i]):
                    t = p.cstr(s)
                    if t is not None:
                        c.count('constant formats')
                        if n in VLIST or 'va_list' in n or (n in fmt and n not in LIB and not vararg(p, n)): continue
                        want = kinds(t, n in SCAN); args = I.ops[i + 1:]
                        bad = None
                        if len(want) > len(args): bad = 'has %d conversions for %d arguments' % (len(want), len(args))
                        else:
                            for (cv, k), a in zip(want, args):
                                ty = optype(f, a)
                                if k is None: bad = 'has an unknown conversion %s' % cv; break
                                if ty and ty != k and not (ty in ('i1', 'i8', 'i16') and k == 'i32'): bad = 'has the conversion %s (%s) for an argument of type %s' % (cv, k, ty); break
                        c.count('arguments matched with conversions', len(want))
                        c.ob(not bad, 'fit:%s:%s' % (f.name, re.sub(r'\s+', '_', t)[:40]), I.where(), 'the format "%s" %s' % (t[:60].replace('\n', '\\n'), bad))
                        continue
                    if isinstance(s, int) and s not in f.inst:
                        c.count('formats handed on'); continue
                    b = base(f, s)
                    if isinstance(b, int) and b in f.inst and f.inst[b].op == 'alloca' and any(J.op == 'store' and cl.into(f, J.ops[1], b) and const_int(J.ops[0]) is None for J in f.insts()) and f.name == 'Jsi_FormatString':
                        built(c, p, f, I, i, b, cl); continue
                    r = cl.clean(f, s, I.bb)
                    c.count('formats composed')
                    c.ob(r is None, 'origin:%s:%s' % (f.name, n), I.where(), 'the format given to %s may hold text that is not the program\'s: %s' % (n, r))
            if n in TERMINATED:
                c.count('null-ended argument lists')
                last = I.ops[-1]
                c.ob(len(I.ops) > TERMINATED[n] and (last == ('n',) or (isinstance(last, tuple) and last[0] in ('n', 'z'))), 'end:%s:%s' % (f.name, n), I.where(), 'the argument list of %s does not end with a null pointer' % n)
    for v in sorted(cl.via): c.notes.append('%s: %s' % (v, TABLES[v]))
    c.notes.append('%n is not looked for among formats of scripts: scripts reach only Jsi_FormatString, whose letters are those of the rule "built"')
    c.floor('constant formats', 1000); c.floor('formats composed', 3); c.floor('null-ended argument lists', 100); c.floor('formats built', 1)

def vararg(p, n):
    f = p.funcs[n]
    return any((I.callee_name or '').startswith('llvm.va_start') for I in f.calls()) if not f.decl else True

DBL = set('eEfFgGaA'); INT = set('diuxXo')
def built(c, p, f, I, i, b, cl):
    """the format Jsi_FormatString builds for one argument: from the switch on its letter to the call"""
    args = I.ops[i + 1:]
    ty = optype(f, args[0]) if args else None
    sw = [T for T in (bl[-1] for bl in f.blocks) if T.op == 'switch' and len(T.x) > 5]
    letters = {}
    # from every letter, with the small constants chosen on the way
    for T in sw:
        for x in T.x[1:]:
            if len(x) < 2 or not 65 <= x[1] < 128: continue
            seen = set(); w = [(x[0], T.bb, (), 0)]
            while w:
                bb, pr, env, ls = w.pop()
                e = dict(env)
                for J in f.blocks[bb]:
                    if J.op != 'phi': break
                    o = J.ops[J.x.index(pr)] if pr in J.x else None
                    if o is not None:
                        k = const_int(o)
                        if k is None: k = dict(env).get(o)
                        if k is None: e.pop(J.id, None)
                        else: e[J.id] = k
                st = (bb, pr, tuple(sorted(e.items())), ls)
                if st in seen or len(seen) > 3000: continue
                seen.add(st)
                for J in f.blocks[bb][:I.idx if bb == I.bb else None]:
                    if J.op == 'store' and const_int(J.ops[0]) == 108 and cl.into(f, J.ops[1], b): ls = min(ls + 1, 2)
                if bb == I.bb: letters.setdefault(chr(x[1]), set()).add(ls); continue
                if bb == T.bb: continue
                X = f.blocks[bb][-1]
                if X.op == 'br' and len(X.x) == 2:
                    k = val(f, X.ops[0], e)
                    nx = list(X.x) if k is None else [X.x[0] if k else X.x[1]]
                else: nx = f.succs[bb]
                for q in nx: w.append((q, bb, st[2], ls))
    c.count('formats built')
    good = DBL if ty == 'double' else INT if ty == 'i64' else {'c'} if ty == 'i32' else {'s'} if ty == 'ptr' else set()
    bad = sorted(set(letters) - good)
    c.ob(letters and not bad, 'built:%s:%s' % (f.name, ty), I.where(), 'the format built here may end with %s, for an argument of type %s' % (', '.join(bad) or 'no letter at all', ty))
    long_ = [l for l in letters if (0 in letters[l]) == (ty == 'i64')] if ty in ('i64', 'i32', 'double') else []
    c.ob(not long_, 'built:%s:length:%s' % (f.name, ty), I.where(), 'the length of the argument (%s) does not go with the format built for %s' % (ty, ', '.join(sorted(long_))))
    c.count('letters of built formats', len(letters))

def val(f, v, e, d=0):
    if const_int(v) is not None: return const_int(v)
    if v in e: return e[v]
    if not isinstance(v, int) or v not in f.inst or d > 5: return None
    I = f.inst[v]
    if I.op in ('zext', 'sext', 'trunc', 'freeze'): return val(f, I.ops[0], e, d + 1)
    if I.op == 'icmp' and I.x in ('eq', 'ne'):
        a, b = val(f, I.ops[0], e, d + 1), val(f, I.ops[1], e, d + 1)
        if a is not None and b is not None: return int((a == b) == (I.x == 'eq'))
    if I.op == 'xor':
        a, b = val(f, I.ops[0], e, d + 1), val(f, I.ops[1], e, d + 1)
        if a is not None and b is not None: return (a ^ b) & 1
    return None
