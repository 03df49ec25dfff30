PROPS = [
dict(id='C01', title='Safe interpreters reach native files only inside their granted directories',
 statement='In a safe interpreter no script command opens, creates, reads, lists, probes, modifies, renames, links or removes a native file or directory unless that very path has been granted: read operations need the path to be inside the interpreter\'s read directories, changing operations need it to be inside its write directories. When a command takes several paths each of them is checked with the kind of access used on it, whichever options or arguments are given, and a denied command has no effect on the file system. Database files opened, attached, backed up to or restored from count as files.',
 over=['inputs', 'configurations', 'programs'], q='all script commands of all packages, all argument and option combinations, all safe configurations',
 why='The safe-mode tests exercise a few commands with one or two paths; the guarantee is about every command, every path argument and every branch before the operation.',
 files=['src/jsiFileCmds.c', 'src/jsiFilesys.c', 'src/jsiSqlite.c', 'src/jsiZvfs.c', 'src/jsiCmds.c', 'src/jsiEval.c'],
 mech=[('access check in file commands', 'src/jsiFileCmds.c SAFEACCESS'), ('mediated open', 'src/jsiFilesys.c Jsi_Open'), ('database open, backup, restore, authorizer', 'src/jsiSqlite.c')],
 technique='path-sensitive dataflow of access grants to path operations over LLVM IR',
 design='Rule (sa/c01.py, sa/fsmodel.py): find every call of a path operation (table of API and libc/sqlite primitives with the argument that is the path and the access it needs) in code reachable from a command table entry. Trace the path operand to its origin (command argument, caller argument, option field, constant), through string conversions, phis and snprintf-derived children. On every path from the function entry there must be a fact "not safe" or a granted access check for the same origin with the matching kind; an open whose mode string the script controls needs the write grant unless w, a and + were excluded. When the origin is a parameter the obligation moves to every caller. The SQL authorizer must be installed in safe interpreters and refuse ATTACH of ungranted files. Drivers of virtual file systems and start-up code are outside the rule (listed in EXEMPT with the reason).',
 note='Every path operation in the call graph of the command tables is decided on every CFG path; trusted: the table of primitives, the access decision itself (C03), symbolic links (a path is granted by its textual real path) and races between check and use are not covered.'),
dict(id='C02', title='A locked-down interpreter cannot create, delete, rename or re-mode files',
 statement='In an interpreter in lockdown mode no script command can create a file, directory, link or device, remove, rename, truncate or change the mode of one, or open for writing a file that does not exist yet. This holds for every command and package, also inside the writable directories, and also for database and archive files.',
 over=['inputs', 'programs', 'configurations'], q='all script commands and arguments in lockdown mode',
 why='Tests run a few commands under lockdown; the claim covers every command and every path to a creating or removing operation.',
 files=['src/jsiFileCmds.c', 'src/jsiFilesys.c', 'src/jsiSqlite.c', 'src/jsiZvfs.c', 'src/jsiInterp.c'],
 mech=[('lockdown refusals in file commands', 'src/jsiFileCmds.c'), ('create access', 'src/jsiInterp.c Jsi_InterpAccess'), ('open of missing file', 'src/jsiFilesys.c Jsi_Open')],
 technique='path-sensitive dataflow of lockdown guards to creating/removing operations over LLVM IR',
 design='Same engine as C01 with the lockdown view: each creating, removing, renaming, linking or mode-changing operation reachable from a command must be reached only with the fact "not safe", "safe mode is not lockdown", or a granted CREATE access (which the mediator denies in lockdown, C03); an open whose mode may write needs one of these or the fact that the file exists.',
 note='Complete over the call graph of the command tables; trusted: the table of primitives; that existence checks and the operation see the same file (no races).'),
dict(id='C03', title='The access decision grants only what the configured lists and modes allow',
 statement='The access decision that every file, network and sub-interpreter gate consults answers yes only as configured: a READ (WRITE) in a safe interpreter only if the resolved real path equals an entry of that interpreter\'s read (write) directory list or lies below one of its entries, where the separator counts: "/a/bc" is not inside "/a/b". A CREATE is refused to a safe interpreter in lockdown mode, NETWORK is refused when networking was disabled for the interpreter, MAININTERP is refused to interpreters that have a parent, and an unknown kind of access is always refused.',
 over=['inputs', 'configurations'], q='all paths, all list contents, all modes, all kinds',
 why='Tests use a couple of directories; sibling directories with a common prefix, the write list consulted for reads or a missing mode need particular configurations.',
 files=['src/jsiInterp.c', 'src/jsiFilesys.c'], mech=[('access decision', 'src/jsiInterp.c Jsi_InterpAccess')],
 technique='path-sensitive dataflow over LLVM IR: facts required on every success return of the decision function',
 design='Rule (sa/c03.py): enumerate the paths of the decision function (after inlining its helpers). Every path that may return success must, per kind, carry the condition: not safe, or whole-entry prefix/equality comparison of the resolved real path (result of the realpath call on the argument) with an element of the list of that kind (phi/select resolved per path) together with the separator test; not lockdown; noNetwork clear; no parent; nothing for other kinds.',
 note='Complete for the decision function; trusted: realpath result is canonical, list comparison primitives behave as documented.'),
dict(id='C04', title='Safe mode and the no* options gate libraries, processes, network and input',
 statement='A safe interpreter cannot load a shared library, start an external command other than one matching its exec grant, read arbitrary environment variables or set them, send or catch signals, or use line editing, and a granted command string is refused if it contains any of the shell metacharacters < > | ; & $ ` or a newline. An interpreter with noLoad cannot load shared libraries, with noNetwork cannot create sockets, with noInput cannot read console input or edit lines, and with noSubInterps cannot create interpreters. Sub-interpreters deeper than maxInterpDepth are refused. This holds on every path of every command that leads to such an operation.',
 over=['inputs', 'programs', 'configurations'], q='all commands, arguments and option combinations of safe or restricted interpreters',
 why='Tests try a few denied calls; the claim is about every route from any command to the underlying system call and about the whole set of metacharacters.',
 files=['src/jsiCmds.c', 'src/jsiLoad.c', 'src/jsiSocket.c', 'src/jsiSignal.c', 'src/jsiInterp.c', 'src/jsiReadline.c'],
 mech=[('exec screening', 'src/jsiCmds.c SysExec_'), ('library loading', 'src/jsiLoad.c'), ('network access', 'src/jsiSocket.c'), ('signal commands', 'src/jsiSignal.c'), ('sub-interpreter creation', 'src/jsiInterp.c jsi_InterpNew')],
 technique='path-sensitive dataflow of capability guards with demand propagation to callers and command registration, over LLVM IR',
 design='Rule (sa/c04.py, sa/guard.py): sites are calls of dlopen; system, popen, fork, exec*; getenv of a computed name, setenv, environ; kill, alarm, sigaction, signal; socket; reads of standard input by console.input; the line editor; interp creation with a parent. Each must be reached only with its guard established (a test of the interp option, InterpAccess(NETWORK), InterpSafe, or for exec a grant test plus a strcspn/strpbrk screening whose constant set contains all metacharacters, of the same string). If a function does not establish it, the obligation moves to all its callers, and for command procs to the places that register the command table, which must be guarded in turn.',
 note='Decided on every CFG path of the code reachable from command tables; trusted: the list of primitives; loaded packages written in C are outside. Data sockets opened before noNetwork was set stay usable.'),
dict(id='C05', title='A safe interpreter cannot loosen itself nor create a less restricted one',
 statement='Once created, an interpreter keeps its restrictions: isSafe, safeMode, the safe directory lists, the exec pattern and lockDown cannot be changed by a script, neither with conf() nor through values it reads from it; in a safe interpreter the bans (noLoad, noNetwork, noInput, noSubInterps, noStderr) and limits cannot be changed either. Start-up code that temporarily lifts safe mode restores it on every path, including errors, before any script runs. An interpreter created by a safe one is safe, in the same safe mode, single-threaded, without own directory, exec or lockdown grants, and takes over its parent\'s limits and bans, whatever options it is given.',
 over=['inputs', 'programs', 'configurations'], q='all option values given to conf() and new Interp(), all error paths of start-up code',
 why='Tests set one or two options; the claim covers each option, each route that writes an option and each error path.',
 files=['src/jsiInterp.c', 'src/jsiOptions.c', 'src/jsiEval.c'], mech=[('sub-interpreter inheritance', 'src/jsiInterp.c jsi_InterpNew'), ('option flags', 'src/jsiInterp.c InterpOptions'), ('option update', 'src/jsiOptions.c Jsi_OptionsProcess'), ('safe lift', 'src/jsiEval.c jsi_evalStrFile, src/jsiInterp.c jsi_InterpConfFile')],
 technique='path-sensitive dataflow (typestate of the safety fields) and table lint over LLVM IR',
 design='Rules (sa/c05.py): (1) every store to the safety fields in the program is classified; a store that lifts isSafe needs the start-up guard and a restoring store on every path to every return with no script evaluation between. (2) every returning path of the constructor with a safe parent must carry, at the return, the facts isSafe set, mode and limits copied, bans inherited, grants null, no thread; contradictory branches are pruned with the facts stored on the path. (3) option rows of the security fields must be init-only/lock-safe. (4) in the option setter driver the per-option set call is reached in an update only with init-only, read-only and (safe) lock-safe flags clear. (5) the getter must not hand out the stored array of an init-only option. (6) Interp options are only processed at creation or as updates.',
 note='Complete for the enumerated stores, option rows and constructor paths. Trusted: the system configuration file, C callers of the API outside the tree.'),
dict(id='C06', title='An option is stored in exactly the field its row names, with its type',
 statement='Every row of every option table describes an existing field of the record the table is for: the row\'s offset and size are those of that field, its kind stores the C type of that field, names are unique within a table and each table is terminated. Setting an option writes that field and nothing else, as the C type of its kind; reading it reads the same bytes; freeing it clears them. A value that is rejected leaves the field unchanged, a string that does not fit a fixed buffer including its terminator is refused, an index outside an array option is refused, name lists of enumerations and bit sets are terminated and not longer than their type, and a command that collects its options in a local record starts from initialised fields.',
 over=['inputs', 'configurations'], q='all option tables and rows, all option kinds, all values given for them, all commands that take options',
 why='A wrong kind or offset silently overwrites a neighbouring field, only for that one option and only with some values; tests set a small part of the almost 300 options.',
 files=['src/jsiOptions.c', 'src/jsi.h', 'src/jsiInterp.c', 'src/jsiSqlite.c', 'src/jsiSocket.c', 'src/jsiCmds.c', 'src/jsiFilesys.c', 'src/jsiDebugger.c'],
 mech=[('option setter', 'src/jsiOptions.c jsi_SetOption_'), ('option getter', 'src/jsiOptions.c jsi_GetOption'), ('element access', 'src/jsiOptions.c Jsi_OptionsSet, Jsi_OptionsGet'), ('option tables', 'Jsi_OptionSpec arrays in all files')],
 technique='table lint against debug-info struct layouts and path-sensitive typing dataflow over LLVM IR',
 design='Rules (sa/c06.py): (1) all initialised Jsi_OptionSpec arrays are decoded; each row is compared with the debug-info layout of the record type named by the END row: field exists, byte offset, size, C type allowed for the kind, handler data of custom rows. (2) in setter, getter and free routine every load, store or out-parameter whose address derives from the record must be record + row offset, and per path (kind is a path fact from the switch) must have the IR type of the kind; stores of strings need the fact that the length is below the field size. (3) an error return of the setter must not follow a write of the field. (4) element addresses need both bounds as path facts. (5) every field described by the table of a local record is written on all paths before the options are processed into it.',
 note='Complete for the tables compiled in and the accessor routines. Trusted: conversions themselves (Jsi_GetWideFromValue etc.); option handlers that custom rows bring along are checked for addressing only.'),
dict(id='C07', title='Locks are balanced and the queue between interpreters is used under its lock',
 statement='Every command or API call that locks the mutex of an interpreter, of its request queue or of a shared table has released it again when it returns, on success and on every error path, and never releases one it does not hold; a call that gives up its own interpreter while it works in another one has it again when it returns, unless taking it back failed. Requests sent to another interpreter are queued and taken out only under the queue mutex of that interpreter, each is taken out before script code runs on its behalf so that nested processing cannot run it twice, and no script code runs while a queue mutex is held. Timed lock attempts wait until a point in the future.',
 over=['schedules', 'inputs', 'programs'], q='all interleavings of interpreters and threads, all error paths of the calls between interpreters and of the shared tables',
 why='A lock kept on an error path shows only when another thread wants it afterwards, a request run twice only when calls nest; tests run these calls once and mostly with success.',
 files=['src/jsiInterp.c', 'src/jsiHash.c', 'src/jsiTree.c', 'src/jsiUtils.c', 'src/jsiCmds.c'],
 mech=[('calls between interpreters', 'src/jsiInterp.c InterpCallCmd, InterpEvalCmd_, jsi_AliasInvoke'), ('request queue', 'src/jsiInterp.c SubInterpEvalCallback'), ('locked tables', 'src/jsiHash.c, src/jsiTree.c lock callbacks'), ('lock primitive', 'src/jsiUtils.c MutexLock')],
 technique='path-sensitive lock-balance typestate, lockset and ordering analysis over LLVM IR',
 design='Rules (sa/c07.py): (1) for each function that locks or unlocks (directly or through the lock callbacks of a table, found by the field they are called through) the counter of each mutex (identified by its access path) is tracked over all paths; at every return it must be 0, a failed lock (result tested) does not count, and only then may it stay short. (2) every access to the queue fields is in a state where the queue mutex of the same interpreter expression is held, except in the constructor and destructor; a call that may evaluate script (call-graph closure over the evaluator) must not be reached with a queue mutex held, nor with an argument computed from a queue head that has not been unlinked. (3) the time argument of a timed lock comes from a clock read on the way.',
 note='Complete over functions using the lock API. Trusted: pthread itself; data races on other fields of an interpreter between threads are not covered (the engine shares much state without locks by design).'),
dict(id='C08', title='Nesting counters and scoped state are restored on every way out of a call',
 statement='A call leaves the bookkeeping of the interpreter as it found it, whatever way it ends. Every function that counts up how deep calls, evaluations, includes, package requires, log messages, JSON values or database authorizer suspensions are nested counts down again by the same amount before it returns, with success or with an error, so the limits on these depths never shift by use. State that applies only during a call or an evaluation (the current stack frame, function, instruction pointer, parser, evaluation flags, file directory, whether the running script is the main one, suppressed argument checks) has its previous value again when the call returns, also when it fails. Leaving a with block by break, continue, throw or an error takes it off the count of active with blocks just as leaving it at its end does, so that errors in a later try block are still caught with their message.',
 over=['inputs', 'programs', 'histories'], q='all scripts and all error paths of the functions that nest evaluations',
 why='A depth counter kept high on one error path moves a limit by one per failure and shows only after many of them; state left over from a failed call is seen only by a later, unrelated one. Tests fail a call once and end.',
 files=['src/jsiEval.c', 'src/jsiFunc.c', 'src/jsiProto.c', 'src/jsiCmds.c', 'src/jsiInterp.c', 'src/jsiUtils.c', 'src/jsiSqlite.c', 'src/jsiObj.c'],
 mech=[('evaluation frames', 'src/jsiEval.c jsi_evalcode, jsiPushTry, jsiPopTry'), ('calls', 'src/jsiFunc.c Jsi_FunctionInvoke; src/jsiProto.c jsi_FuncCallSub'), ('source and require', 'src/jsiCmds.c SysSourceCmd, SysRequireCmd'), ('evaluation of strings and files', 'src/jsiEval.c jsi_evalStrFile; src/jsiInterp.c InterpEvalCmd_')],
 technique='path-sensitive balance analysis of counters and save/restore typestate over LLVM IR',
 design='Rules (sa/c08.py): (1) for each function that stores counter+1 or counter-1 into one of the listed nesting counters, the net change is followed over all paths (static helpers inlined) and must be 0 at each return; functions whose job is to push or pop an entry are listed. (2) for each function that stores into one of the listed scoped fields, the value the field had before its first change must be the one stored last, on every path to a return; saved copies are followed through locals, local records, casts and bitfield extraction. (3) the functions that take entries off the list of try and with blocks (found by what they store) count withDepth down exactly when the type of the entry is with, and nothing else counts it down. Six defects found and repaired.',
 note='Complete over functions that change the listed fields. The listed fields are the scope: a new counter or scoped field is not covered until it is listed. Fields the evaluator loop owns are restored by its caller, where they are checked.'),
dict(id='C09', title='Frozen objects cannot be changed',
 statement='No member can be added to or deleted from an object frozen with Object.freeze, and when it was frozen without permission to modify, no existing member can be changed: not by assignment, by increment and decrement, through a with block, as the variable of a for-in loop, by the delete operator, nor by any command that stores members through the insert functions. Each such attempt is refused with an error and leaves the object as it was. What is copied out of a frozen object is not frozen itself, and assigning to a protected member does not take its protection away. Members added while an object was not frozen are protected like the others when it is frozen again.',
 over=['inputs', 'programs', 'histories'], q='all scripts and commands that store members, all kinds of members, all orders of freezing and changing',
 why='Each way to change a member checks on its own whether that is allowed; a test tries a few ways on a few objects.',
 files=['src/jsiValue.c', 'src/jsiObj.c', 'src/jsiEval.c', 'src/jsiProto.c', 'src/jsiCmds.c'],
 mech=[('member insertion', 'src/jsiValue.c jsi_ObjValInsert'), ('evaluator', 'src/jsiEval.c jsiValueAssign and the operators for increment, for-in and delete'), ('value copies', 'src/jsiValue.c jsi_ValueCopyMove'), ('freezing', 'src/jsiProto.c ObjectFreezeCmd, src/jsiObj.c Jsi_ObjFreeze')],
 technique='path-sensitive guard analysis over LLVM IR',
 design='Rules (sa/c09.py): (1) each call that stores or deletes an entry of the tree of an object is reached, in its function or in every caller, only with the fact that the object is not frozen, or (stores) frozen with changes allowed and the member found. (2) each place in the evaluator that writes through the reference of a value (directly or by a converting, copying or resetting call) is reached only with the fact that the frozen mark is clear, established since the opcode was dispatched. (3) after a whole-value copy onto a value that is not local, the frozen mark is stored back from what the destination had before, on every path. (4) a function that may forbid modification marks the members afterwards on every path. Three defects found and repaired.',
 note='Complete over stores to object entries and over reference writes in the evaluator. Arrays cannot be frozen by a script. Trusted: that commands do not convert the members they are handed in place; the host taking back a command it defined (Jsi_CommandDelete).'),
dict(id='C10', title='Values are copied between containers: no two of them hold the same one',
 statement='Apart from objects, which are references, values are copied: what a command or a call stores in or hands out of an array, object, scope or internal record is a copy, so that changing it at one place never changes another. The array and object commands (concat, slice, fill, splice, map, filter, reduce, flat, assign, merge, create, values), call and apply and bind, default values of parameters, replacement and comparison callbacks, module and package commands and the information commands that return stored values all hand out or store copies; a callback that changes its parameters does not change the elements it was given; filling an array gives each element its own value; and a command that needs a value as number or string does not change the type of the value where it is kept.',
 over=['inputs', 'programs', 'histories'], q='all scripts, commands and callbacks that store, return or convert values',
 why='Two holders of one value behave the same until one of them changes it in place (increment, assignment to a parameter, conversion), which a test of the command does not do.',
 files=['src/jsiArray.c', 'src/jsiProto.c', 'src/jsiObj.c', 'src/jsiValue.c', 'src/jsiCmds.c', 'src/jsiString.c', 'src/jsiVfs.c', 'src/jsiZvfs.c', 'src/jsiSqlite.c', 'src/jsiFunc.c'],
 mech=[('array commands', 'src/jsiArray.c'), ('call set-up', 'src/jsiProto.c jsi_FuncCallSub, jsi_SharedArgs'), ('object commands', 'src/jsiProto.c; src/jsiObj.c'), ('callbacks', 'src/jsiArray.c, src/jsiString.c, src/jsiVfs.c callers of Jsi_FunctionInvoke')],
 technique='interprocedural value-origin dataflow over LLVM IR',
 design='Rules (sa/c10.py): the origin of every value that a call or a store puts into an array, object or scope is traced through merges, locals and parameters. (1) It must not be a value that some container or record goes on holding (element, member, variable, record field), unless it is an element of the own argument list of a command (a copy made for it), a move within one array, or out of a slot that is cleared; a value merged from several is decided per path. (2) lists turned into arrays or argument lists are made with the copying flag, or all their items are fresh; no function is run with an array of the script as its argument list. (3) the in-place conversion functions are not applied to a value that stays in a container, directly or through a helper that converts the elements of a list it is given. (4) a value stored by each round of a loop is made in that round. More than thirty sharing sites were found and repaired; one is recorded (join).',
 note='Complete over calls of the storing, list-building and converting functions. By design the arguments object shares with the parameters. Sharing that Array.sort, unshift and splice make within one array is a move. Getter and setter results and C values of loaded packages are outside.'),
dict(id='C11', title='Runaway scripts and deeply nested data end in an error, not in a crash',
 statement='With the limits of the interpreter in force (each has a default except maxOpCnt and maxUserObjs), no script brings the process down by nesting and none outruns its limits. Every instruction that is executed is counted and tested against maxOpCnt first, and an interpreter that has exited or was interrupted executes no further instruction, whatever try, catch and finally surround it. Recursion of functions, methods, callbacks, accessors, eval, call and apply ends in a catchable error at maxDepth; nested source, import and require end at maxIncDepth, nested interpreters at maxInterpDepth, objects made by new at maxUserObjs and the storage of an array at maxArrayList. Commands that work on nested data (parsing and printing JSON, converting to a string, flattening arrays, walking prototype chains, freeing objects, matching glob patterns, walking directories) take data nested to any depth without using the C stack in proportion to it: they iterate, defer, or end in an error.',
 over=['programs', 'inputs'], q='all scripts, data nested to any depth, and call chains through commands and callbacks',
 why='The limit must hold on every cycle of calls through the commands and on each way to the next instruction; a test runs into one limit on one path, and never nests data deeply enough to exhaust the stack.',
 files=['src/jsiEval.c', 'src/jsiFunc.c', 'src/jsiProto.c', 'src/jsiCmds.c', 'src/jsiInterp.c', 'src/jsiObj.c', 'src/jsiJSON.c', 'src/jsiUtils.c', 'src/jsiArray.c', 'src/jsiFileCmds.c', 'src/jsiValue.c'],
 mech=[('evaluator loop', 'src/jsiEval.c jsiEvalCodeSub'), ('call depth', 'src/jsiFunc.c jsi_FunctionInvoke, src/jsiProto.c Jsi_FunctionCall/Jsi_FunctionApply/jsi_FuncCallSub'), ('nesting of files', 'src/jsiCmds.c SysSourceCmdEx, Jsi_PkgRequireEx'), ('nested data', 'src/jsiJSON.c jsonGen1Value, src/jsiUtils.c jsiValueGetString, src/jsiObj.c Jsi_ObjFree, src/jsiArray.c jsi_ArrayFlatSub')],
 technique='cycle analysis of the call graph (callbacks and command tables resolved) with depth-counter typestate over LLVM IR',
 design='Rules (sa/c11.py): (1) on every path of the evaluator to the dispatch of an instruction, since the one before: opCnt was counted up, then compared with maxOpCnt (or the limit is off), exited and interrupted were tested clear, and the evaluation depth was compared with maxDepth on entry; OP_NEWFCALL compared userObjCnt with maxUserObjs. (2) The call graph over all functions, with commands resolved from the command tables and from registration, callbacks from the call they are passed to and from the record field they are stored in, has no unbounded cycle: for every depth counter (a field counted up and down by one: level, callDepth, objwalker.depth, objFreeDepth, includeDepth, pkgReqDepth) the edges that are only taken with the counter tested against its limit, and the edges on which it is counted, are computed path-sensitively; a cycle is bounded when for one counter it contains both. All choices of avoiding either the test or the count of each counter are enumerated (2^n), and each must leave no cycle. A parameter passed one higher (lower) and tested against a limit (zero) bounds its own call, and where it counts down, each outside caller must bound what it starts with. A flag tested clear and set before the call bounds it too. Recursion over structures of bounded height (balanced trees, static option tables, paths) is listed in BOUNDED with the reason. (3) source, import and require compare their nesting with maxIncDepth before they count it up, and evaluate only while it is counted; an interpreter is made only with its depth tested; the storage of an array is allocated only with the new size tested against maxArrayList.',
 note='Not bounded: the time a single native command takes, memory other than arrays, and an interpreter that raises or switches off its own limits (which only an unsafe one can; C05). Bodies of system libraries (regex, sqlite) are outside.'),
dict(id='C12', title='Data of one type is never read as data of another type',
 statement='A value is a boolean, a number, a string, an object, null or undefined, and an object in turn a boolean, number, string, plain object, array, function, regular expression, iterator or native object; what it holds is only ever read as what it is. Whatever types the arguments, the receiver, the elements and members reached from them, and the results of callbacks have - each may be anything, of any type, at any time, also after a callback ran - every command and conversion tests what it got before it uses the contents, and answers with a result or an error. In particular a command called with another kind of receiver (through call, apply or assignment to another prototype), a callback returning something unexpected, an array with holes and options of a wrong type never make the interpreter take a number for a pointer, a string for an object or a plain object for a function, a regular expression or a native object.',
 over=['inputs', 'programs', 'histories'], q='all scripts: types of receivers, arguments, elements, members and callback results',
 why='Each of the several hundred reads of the contents needs its test on every path; a test suite passes sensible types, and a wrong read often goes unnoticed because the union members overlap.',
 files=['src/jsiValue.c', 'src/jsiObj.c', 'src/jsiProto.c', 'src/jsiArray.c', 'src/jsiString.c', 'src/jsiNumber.c', 'src/jsiBool.c', 'src/jsiRegexp.c', 'src/jsiFunc.c', 'src/jsiCmds.c', 'src/jsiInterp.c', 'src/jsiUserObj.c', 'src/jsiOptions.c', 'src/jsiFormat.c', 'src/jsiJSON.c', 'src/jsiSqlite.c', 'src/jsiFileCmds.c', 'src/jsiEval.c'],
 mech=[('tags and contents', 'src/jsiInt.h Jsi_Value.vt/d, Jsi_Obj.ot/d'), ('type tests', 'src/jsiValue.c Jsi_ValueIsObjType, Jsi_ValueIsArray, Jsi_ValueIsString, ...'), ('commands', 'src/jsi*.c: every function of the command tables'), ('conversions', 'src/jsiValue.c Jsi_ValueToString, jsi_ValueToPrimitive, Jsi_ValueToObject')],
 technique='interprocedural tagged-union typestate analysis over LLVM IR',
 design='Rule (sa/c12.py, sa/tags.py): at every read of a member of the unions Jsi_Value.d and Jsi_Obj.d the tag is known, on every path from the entry of the function, to be the one the member belongs to. A tag is known by a test of it, by having been set, by the post-condition of a function called before (inferred per result: true, false, null, OK or error - so type predicates and constructors, however they are written, need no list), or by requiring it of the caller, in which case each call is an obligation, up the call graph; a native command reached from scripts may require only that its argument list is a list. A call that can run a script or change the value forgets what was known of memory. Paths are those of the function with correlated conditions followed; contexts with constant arguments are kept apart. Values that the program itself puts on the VM stack, into its tables of functions and into prototypes are taken as put there (listed as notes).',
 note='Complete over the reads of both unions in the sources that are built, apart from the places the notes list: the operand stack of the VM (the compiler decides what is on it), values from interpreter-internal tables, and one correlation of tests far apart in SysModuleCmd_. The type of native (user) objects behind their data pointer is not decided here.'),
dict(id='C13', title='Text from outside is never a format, and formats fit their arguments',
 statement='No text a script, a file, a database or the environment supplies is ever interpreted as a printf or scanf format by the interpreter: messages about file names, source text, option values and strings that contain percent signs are printed as they are. Every format fits the arguments passed with it in number and type, on every path that composes or forwards one; the format the format() command builds for one argument always matches the number it is used with; and argument lists that must end with a null pointer do.',
 over=['inputs', 'programs'], q='all texts that reach messages, logs, conversions and format()',
 why='A percent sign in the one file name or token that reaches a composed format is needed to see a mistake, and a mismatched argument shows only on the one error path that uses it.',
 files=['src/jsiUtils.c', 'src/jsiDString.c', 'src/jsiFormat.c', 'src/jsiJSON.c', 'src/jsiCmds.c', 'src/jsiSqlite.c', 'src/jsiInterp.c', 'src/jsiOptions.c'],
 mech=[('messages', 'src/jsiUtils.c Jsi_LogMsg'), ('formatted text', 'src/jsiDString.c Jsi_DSPrintf, src/jsiUtils.c Jsi_Printf, src/jsiJSON.c Jsi_JSONParseFmt'), ('format command', 'src/jsiFormat.c Jsi_FormatString')],
 technique='interprocedural provenance (taint) analysis and format/argument matching over LLVM IR',
 design='Rules (sa/c13.py): functions that hand a parameter on as a format are found first, to a fixed point. (1) Origin: each format operand of each call is traced through merges; it must be a constant, such a parameter, or a text composed in the function by constant formats whose every %s part is itself of that kind, a text for which a dominating test excluded the percent sign, a text copied character by character with the percent sign doubled, or a name from a constant table. (2) Fit: the conversions of each constant format are matched with the LLVM types of the arguments of the call. (3) Built: for the format built by Jsi_FormatString, from every letter of its switch the paths to the call are followed with the small constants chosen on the way; the letters arriving must belong to the type of the argument, and the length modifier must be present exactly for the wide integer. (4) End: the last argument of the null-ended variadic functions is a null pointer. What a rule does not show is decided again with helpers put in place of their calls.',
 note='Complete over the calls of the printf and scanf families and their wrappers in the sources that are built. Trusted: names of options and commands come from constant tables (a C extension could register others).'),
dict(id='C14', title='Text and data are copied only within the memory meant for them',
 statement='Whatever the length of the texts, paths, formats, numbers and records involved, the interpreter writes them only within the arrays and blocks it reserved for them: a text that does not fit is cut, split, refused with an error or given a larger block. This holds for fixed buffers in commands and conversions (time formats, number formats, paths, modes, names of signals and environment variables, messages), for blocks allocated to a computed size, for buffers filled from files, sockets and the operating system, and for elements stored in or read from arrays of fixed size under a test of the index.',
 over=['inputs'], q='all lengths of texts, sizes of data and values of indices',
 why='Only one length or index in thousands is the one that does not fit, and an overflow by a few bytes goes unnoticed by tests.',
 files=['src/jsiCmds.c', 'src/jsiFormat.c', 'src/jsiUtils.c', 'src/jsiFilesys.c', 'src/jsiFileCmds.c', 'src/jsiInterp.c', 'src/jsiEval.c', 'src/jsiSqlite.c', 'src/jsiSocket.c', 'src/jsiZvfs.c', 'src/jsiVfs.c', 'src/jsiSignal.c', 'src/jsiValue.c', 'src/jsiOptions.c', 'src/jsiNumber.c', 'src/jsiCrypto.c'],
 mech=[('copies and formatted writes', 'calls of strcpy, strncpy, sprintf, snprintf, memcpy, memset, read, recv, fgets, fread, readlink and of functions that pass a pointer on to them'), ('file modes', 'src/jsiFilesys.c Jsi_Open, src/jsiZvfs.c Jfz_FSOpenProc'), ('format buffers', 'src/jsiFormat.c Jsi_FormatString, src/jsiCmds.c Jsi_DatetimeFormat'), ('tables', 'src/jsiSignal.c, src/jsiZvfs.c translateDosTimeDate')],
 technique='symbolic-capacity dataflow with linear facts from dominating conditions over LLVM IR',
 design='Rules (sa/c14.py): (1) Bounds: at each call that fills memory, the destination is traced to what it points to - local array, array member, global array, block allocated in the function, or an argument - and what may be written (constant, length argument, length of the text copied, the longest result of a constant format) must be at most what is left there: a linear expression over lengths and sizes shown non-negative from the conditions that dominate the call, alternatives of merged values, loop induction, lengths left by an earlier bounded write, largest values ever stored in a field, and an integer kept beside a growing buffer. A need that depends on the arguments only is asked of every caller, also of those calling through the table of file systems. (2) Index: an element of an array of known size must not be read or written under conditions on the index which admit positions beyond the array (they would suffice if the array were larger). What a rule does not show is decided again with helpers put in place of their calls.',
 note='About 520 writes decided; about 60 go to memory whose size is kept at run time (growing strings, hash tables, records described by option rows) and are listed as undecided in the counts, as are element accesses without any condition on the index. Negative indices and the widths of integers are not followed. Bundled miniz and linenoise and the generated parser are outside. Exceptions are listed with reasons in the notes.'),
dict(id='C15', title='Values and memory are given back once, and not used afterwards',
 statement='Values and objects are counted references, other records belong to one owner. On every path of every native function, error exits included: a reference is given back only if the function took it, made the value, or takes it out of the place that held it - never one that belongs to a container or record it was only looked up in; a value given back for good, a block that was freed, and the text of a dynamic string that was freed, are not read, written, handed on or given back again; a value a function stores in a record or a table that outlives the function gets a reference for it (callbacks registered for events, signals, sockets and SQL, queued messages, options); a field whose value was given back or freed is overwritten before the function returns, unless its record goes too; and while a script function runs, its argument list is held and its result goes to a value somebody holds. Leaks, that is references never given back, are not the subject, nor is what a callback does to the data its caller is working on.',
 over=['inputs', 'programs', 'histories'], q='all paths of all native functions, error paths included',
 why='One missing or surplus reference is on one path of several thousand, and shows only when the last other reference goes away before the use: with a function literal, on an error, or after a particular order of calls.',
 files=['src/jsiValue.c', 'src/jsiObj.c', 'src/jsiFunc.c', 'src/jsiProto.c', 'src/jsiArray.c', 'src/jsiString.c', 'src/jsiCmds.c', 'src/jsiInterp.c', 'src/jsiUtils.c', 'src/jsiOptions.c', 'src/jsiFilesys.c', 'src/jsiFileCmds.c', 'src/jsiSqlite.c', 'src/jsiSocket.c', 'src/jsiVfs.c', 'src/jsiZvfs.c', 'src/jsiSignal.c', 'src/jsiLoad.c', 'src/jsiHash.c', 'src/jsiTree.c', 'src/jsiEval.c', 'src/jsiUserObj.c'],
 mech=[('reference counts', 'src/jsiValue.c Jsi_IncrRefCount, Jsi_DecrRefCount, src/jsiObj.c Jsi_ObjIncrRefCount, Jsi_ObjDecrRefCount'), ('owners of callbacks', 'src/jsiCmds.c CDataEvents, src/jsiSignal.c SignalCallbackCmd, src/jsiSqlite.c SqlFunc, SqlCollate, src/jsiInterp.c AliasCmd'), ('queues', 'src/jsiSocket.c SocketSendCmd, sock_handler'), ('dynamic strings', 'src/jsiDString.c')],
 technique='path-sensitive ownership typestate with inferred function summaries over LLVM IR',
 design='Rules (sa/c15.py), on the state of every value along every path of a function (joins, flags, tests repeated later and variables that hold one value after another are followed): twice, dead, borrowed, keep, slot and rel as the check prints them. What a function does with a parameter - frees it, gives a reference back, takes one, keeps it in a record, releases a field of the record it points to - is inferred for every function to a fixed point and applied at its calls, so a helper is judged by what it does to its caller; which functions return new values (and with how many references), values that stay in a container, and text that belongs to a dynamic string, is inferred too. Functions too long to follow as a whole are followed once for each group of values that can be one another. What is reported is decided again with helpers inlined before it counts. Fields that hold without counting, and fields whose content is given back while the record is taken apart, are listed in the notes with the reason.',
 note='Not decided: balances over several calls (a reference taken in one command for another to give back), references that are only leaked, values in elements of arrays and lists addressed by a computed index, and the handful of groups of values the counts call too entangled (operand stack of the VM, parts of SqliteQueryCmd and String.replace).'),
]
NA = [
dict(id='N01', title='Numbers survive printing and reading back', statement='Converting a number to a string and back yields the same number, for every finite value.',
 over=['inputs'], q='all doubles', why='tests sample a few numbers', files=['src/jsiValue.c', 'src/jsiUtils.c'], mech=[('number formatting', 'src/jsiUtils.c Jsi_NumberToString')],
 reason='A statement about floating-point values computed at run time; no syntactic or dataflow argument in reach bounds the rounding of the formatting and parsing code.'),
]
