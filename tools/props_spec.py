U = 'smlnj-lib/Util/'
prop('L01', 'Ordered maps behave as finite maps from keys to values',
 'For every key order and every history of updates, each ordered-map implementation of the utility library (red-black, weight-balanced, sorted-list, splay, and the specialised int and word versions) answers lookups, removals, iteration, merging and comparison exactly as the finite map that the history denotes, in ascending key order. Earlier versions of a map are never changed by later operations, absent keys are reported as documented, and item counts agree with the contents.',
 ['inputs', 'histories'], 'all histories of map operations and all keys',
 'The repository has no tests of these structures; any test fixes a few keys and insertion orders, while rebalancing cases need particular shapes.',
 [U+'redblack-map-fn.sml', U+'binary-map-fn.sml', U+'list-map-fn.sml', U+'splay-map-fn.sml', U+'int-redblack-map.sml', U+'int-binary-map.sml', U+'int-list-map.sml', U+'word-redblack-map.sml', U+'splaytree.sml', U+'ord-map-sig.sml'],
 [('rebalancing on insert and remove', U+'redblack-map-fn.sml: ins, remove\', fixupZip, delMin'), ('linear merge of two maps', U+'redblack-map-fn.sml: next, addItem, linkAll')],
 units=['lib/maps.sml'])
prop('L02', 'Ordered sets behave as mathematical sets',
 'For every item order and every history of updates, each ordered-set implementation of the utility library (red-black, weight-balanced, sorted-list, splay, and the specialised int and word versions) has exactly the members the history denotes, without duplicates and in ascending order. Union, intersection, difference, subset, equality, comparison, partition, filtering and mapping compute the set-theoretic results, and earlier versions of a set are never changed.',
 ['inputs', 'histories'], 'all histories of set operations and all items',
 'The repository has no tests of these structures; tests fix a few items, rebalancing and merge cases need particular shapes.',
 [U+'redblack-set-fn.sml', U+'binary-set-fn.sml', U+'list-set-fn.sml', U+'splay-set-fn.sml', U+'int-redblack-set.sml', U+'int-binary-set.sml', U+'int-list-set.sml', U+'word-redblack-set.sml', U+'ord-set-sig.sml'],
 [('rebalancing on add and delete', U+'redblack-set-fn.sml'), ('hedge union', U+'binary-set-fn.sml')],
 units=['lib/sets.sml'])
# ---------------------------------------------------------------- the C runtime
G = 'base/runtime/gc/'; CL = 'base/runtime/c-libs/'; K = 'base/runtime/kernel/'; MD = 'base/runtime/mach-dep/'
CTECH = 'symbolic execution of the LLVM code compiled from /repo\'s C sources + SMT (z3) per path and assertion'
CTRUST = ('Bounded: decided by an SMT solver for every value of the symbolic inputs within the bounds stated in the harness and repeated in the evidence. '
          'Trusted: clang 18 without optimisation of undefined behaviour, the executor llsym and its models of the C library and of the system calls, z3; '
          'counterexamples are reported only after they are replayed on the natively compiled code.')
def cprop(id, title, statement, over, text, why, files, mech, cunits): prop(id, title, statement, over, text, why, files, mech, cunits=cunits, technique=CTECH, note=CTRUST)
cprop('R01', 'Garbage collection preserves every reachable object',
 'Whatever objects a program has built and whatever it has stored where, a garbage collection at any level leaves the graph reachable from the registers and the runtime\'s own roots exactly as it was: the same kinds, lengths, words, raw contents, sharing and cycles. This holds for every history of allocations, stores into old or new cells, dropped references and collections, for every number of generations, and when live data outgrows the generations. After a collection the allocation space is empty and backed by memory, and no reachable object lies in space that is free for new objects.',
 ['inputs', 'histories', 'configurations'], 'all object graphs, histories of stores and collections, and heap configurations',
 'The regression suite compiles small programs; which cells are old, which cards are dirty and which arena is nearly full depends on histories that no test fixes.',
 [G+'minor-gc.c', G+'major-gc.c', G+'flip.c', G+'call-gc.c', G+'gc-util.c', G+'init-gc.c', G+'card-map.h', G+'heap.h'],
 [('forwarding of nursery objects', G+'minor-gc.c: MinorGC_ForwardObj'), ('store list and card marking', G+'minor-gc.c: MinorGC_ScanStoreList; '+G+'major-gc.c: MajorGC_ScanRoots, dirty card sweep'), ('sizing of the arenas', G+'flip.c: Flip'), ('roots', G+'call-gc.c: InvokeGC, InvokeGCWithRoots')],
 ['c/gc.c'])
cprop('R02', 'Weak pointers are cleared exactly when their object is dead',
 'A weak pointer never keeps its object alive, yields that very object as long as the object is reachable otherwise, and is cleared (for good) by a collection that reclaims the object. This holds whatever the ages of the weak pointer and of its object, for chains of weak pointers, and for weak pointers to unboxed values.',
 ['histories', 'inputs'], 'all ages of weak pointers and objects and all collection histories',
 'Weak pointers are hardly exercised by the tests, and the cases differ with the generations of the two objects and the level of the collection.',
 [G+'gc-util.c', G+'minor-gc.c', G+'major-gc.c'],
 [('clearing of weak pointers', G+'gc-util.c: ScanWeakPtrs'), ('forwarding of weak objects', G+'minor-gc.c, '+G+'major-gc.c: ForwardSpecial')],
 ['c/weak.c'])
cprop('R03', 'Code objects stay intact while referenced and never overlap',
 'A code object keeps its contents and its address as long as any reference to it or into it is reachable, from a register, a record or a mutable cell of any generation. Two live code objects never share memory, whatever the order of allocations, deaths and collections and whatever their sizes, and space of dead code objects is used again.',
 ['histories', 'inputs'], 'all histories of code allocation, death and collection',
 'The space of code objects is recycled only after several major collections; the tests hardly free any code.',
 [G+'big-objects.c', G+'major-gc.c', G+'ml-objects.c'],
 [('splitting and coalescing of free space', G+'big-objects.c: BO_Alloc, BO_Free'), ('marking and ageing of big objects', G+'major-gc.c: MajorGC_ForwardBigObj')],
 ['c/code.c'])
cprop('R04', 'Objects made by the runtime are well formed, disjoint, and hold what was asked for',
 'Every string, byte array, real array, polymorphic array, vector, raw object, list or constant that the runtime makes for ML code has the right descriptor, length, contents and zero padding, does not overlap any other object, and leaves all other live objects unchanged. This holds for every size, from empty ones to ones larger than the allocation space, wherever the allocation pointer stands when C code may be entered, and however little room is left in the older generation, even when the allocation itself has to collect garbage.',
 ['inputs', 'histories'], 'all sizes, contents, positions of the allocation pointer and fill levels of the first generation',
 'Large allocations fall in the window between enough and too little space only for particular sizes and histories.',
 [G+'ml-objects.c', 'base/runtime/include/ml-objects.h'],
 [('large objects in the first generation', G+'ml-objects.c: ML_AllocRaw, ML_AllocArrayData, ML_AllocVector'), ('space check for lists of strings', G+'ml-objects.c: ML_CStringList')],
 ['c/alloc.c'])
CFWHY = 'The tests make a handful of successful calls; error paths, unusual arguments, truncated counts and a nearly full allocation space when C code is entered are not reached.'
PIO = CL+'posix-io/'; PFS = CL+'posix-filesys/'; PPE = CL+'posix-procenv/'; PPR = CL+'posix-process/'
cprop('R05', 'POSIX input and output calls do to descriptors what the program asked, and report what happened',
 'Every operation of Posix.IO (pipe, dup, dup2, close, fsync, read and write of vectors and arrays, slices of any size, descriptor and status flags, record locks, seeking) makes exactly the system call asked for, with exactly the arguments given, touching only the bytes of the slice. Its result is exactly what the system reported, as a well-formed ML value, and a failure is always raised as SysErr with the system\'s error number, never returned as a value. This holds for every argument, every outcome of the system call and every state of the allocation space.',
 ['inputs', 'fault schedules'], 'all arguments, results and errors of the system calls', CFWHY,
 [PIO+f for f in ('read.c', 'readbuf.c', 'writebuf.c', 'lseek.c', 'fcntl_l.c', 'fcntl_gfl.c', 'fcntl_sfl.c', 'fcntl_gfd.c', 'fcntl_sfd.c', 'fcntl_d.c', 'pipe.c', 'dup.c', 'dup2.c', 'close.c', 'fsync.c')] + [CL+'ml-c.h', CL+'unix-raise-syserr.c'],
 [('vectors read', PIO+'read.c'), ('slices', PIO+'readbuf.c, writebuf.c'), ('errors', 'base/runtime/c-libs/unix-raise-syserr.c: RaiseSysError')], ['c/io.c'])
cprop('R06', 'POSIX file-system calls act on the paths given and report file status faithfully',
 'Every operation of Posix.FileSys makes exactly the system call asked for, on exactly the path, descriptor, mode, owner, times or size given, and returns exactly what the system reported: status records field by field, working directories and link texts of any length, configuration limits, flags. Reading a directory yields every entry but . and .. once and in order and then its end, and never mistakes an error for the end. A failed call is always raised as SysErr with the system\'s error number.',
 ['inputs', 'fault schedules'], 'all arguments, results and errors of the system calls', CFWHY,
 [PFS+f for f in ('access.c', 'chdir.c', 'chmod.c', 'chown.c', 'readdir.c', 'opendir.c', 'closedir.c', 'rewinddir.c', 'fchmod.c', 'fchown.c', 'ftruncate.c', 'getcwd.c', 'link.c', 'mkdir.c', 'mkfifo.c', 'openf.c', 'pathconf.c', 'readlink.c', 'rename.c', 'rmdir.c', 'stat.c', 'symlink.c', 'umask.c', 'unlink.c', 'utime.c')],
 [('status records', PFS+'stat.c: mkStatRep'), ('directory reading', PFS+'readdir.c'), ('long paths', PFS+'getcwd.c, readlink.c')], ['c/fs.c'])
cprop('R07', 'Processes, their environment and their children are reported and controlled faithfully',
 'Posix.ProcEnv and Posix.Process report exactly what the system says about process, user and group identities (however many groups), names, environment variables, system values, times and children, and set, signal, wait for, execute, put to sleep or end exactly what the program asked for. The program run by exec, exece and execp gets exactly the path, argument list and environment list given, whatever their lengths and whenever a collection strikes. A failed call is always raised as SysErr with the system\'s error number, and a wait that reports no child or an unusual child status is never mistaken for another one.',
 ['inputs', 'fault schedules'], 'all arguments, results and errors of the system calls', CFWHY,
 [PPE+f for f in ('getgroups.c', 'uname.c', 'sysconf.c', 'times.c', 'time.c', 'getenv.c', 'environ.c', 'setuid.c', 'setgid.c', 'setpgid.c', 'getuid.c', 'ttyname.c', 'ctermid.c', 'getlogin.c')] + [PPR+f for f in ('exec.c', 'exece.c', 'execp.c', 'waitpid.c', 'fork.c', 'kill.c', 'alarm.c', 'sleep.c', 'exit.c')],
 [('argument vectors', PPR+'exec.c, exece.c, execp.c'), ('child status', PPR+'waitpid.c'), ('lists of groups', PPE+'getgroups.c: mkList')], ['c/proc.c'])
PDB = CL+'posix-sysdb/'; PER = CL+'posix-error/'
cprop('R08', 'User and group databases, error names and system constants agree with the system',
 'Looking up a user or a group by number or by name returns exactly the system\'s entry, with all members of the group in order however many there are, or raises SysErr if there is none. Every error number has the name and message the Basis library documents, the list of errors is complete, and every named constant of the Posix modules has the system\'s value while an unknown name is refused.',
 ['inputs'], 'all entries, numbers and names', CFWHY,
 [PDB+f for f in ('getpwuid.c', 'getpwnam.c', 'getgrgid.c', 'getgrnam.c')] + [PER+f for f in ('errmsg.c', 'geterror.c', 'listerrors.c', 'tbl-errno.c', 'posix-name-val.c')] + [CL+'posix-filesys/osval.c', CL+'posix-io/osval.c', CL+'posix-process/osval.c', CL+'posix-signal/osval.c', CL+'posix-tty/osval.c'],
 [('lookup of constants', PER+'posix-name-val.c: _ml_posix_nv_lookup (binary search of sorted tables)'), ('group members', PDB+'getgrgid.c, getgrnam.c')], ['c/sysdb.c'])
PTY = CL+'posix-tty/'
cprop('R09', 'Terminal attributes and controls are transferred unchanged',
 'Posix.TTY reads and sets exactly the terminal attributes given: input, output, control and local flags, all control characters, and both speeds, on exactly the descriptor and with exactly the action asked for. The other controls (drain, flush, flow, break, foreground process group, window size) do and report what the system does, and every failed call is raised as SysErr with the system\'s error number without any attribute having been set.',
 ['inputs', 'fault schedules'], 'all attribute values, descriptors and errors', CFWHY,
 [PTY+f for f in ('tcgetattr.c', 'tcsetattr.c', 'tcgetpgrp.c', 'tcsetpgrp.c', 'tcdrain.c', 'tcflow.c', 'tcflush.c', 'tcsendbreak.c', 'getwinsz.c')],
 [('attribute records', PTY+'tcgetattr.c, tcsetattr.c')], ['c/tty.c'])
POS = CL+'posix-os/'
cprop('R10', 'Polling reports exactly the ready descriptors, and temporary names are fresh',
 'OS.IO.poll waits for exactly the descriptors, events and time given, and reports, in the order of the request, exactly the items that are ready, each with those of its requested events that are ready, also when a descriptor is ready for several events, is listed several times, or when hundreds are ready. Descriptors the system cannot poll are refused without harm. OS.FileSys.tmpName returns the name of the file it made, in the directory asked for if that is possible, and leaves no descriptor open.',
 ['inputs', 'fault schedules'], 'all lists of descriptors, events, outcomes and timeouts', CFWHY,
 [POS+'poll.c', POS+'tmpname.c'], [('result list', POS+'poll.c: ML_Poll')], ['c/os.c'])
SOC = CL+'smlnj-sockets/'
cprop('R11', 'Sockets and the network databases carry data, addresses and options faithfully',
 'Every socket operation acts on exactly the socket, address, slice, flags (peek, out of band, don\'t route) and option value given; data received are exactly the bytes the system delivered, as a well-formed vector that can serve as a string, or stored in the slice and nowhere else; addresses of peers are returned whole. Conversions between socket addresses and hosts, ports and Unix paths are exact and refuse what does not fit, for every address length including none. The host, network, protocol and service databases return the system\'s entries field by field, however many aliases they have, ports being in host order. A failed call is always raised as SysErr with the system\'s error number.',
 ['inputs', 'fault schedules'], 'all arguments, results and errors of the system calls', CFWHY,
 [SOC+f for f in ('accept.c', 'bind.c', 'connect.c', 'close.c', 'listen.c', 'shutdown.c', 'socket.c', 'socketpair.c', 'recv.c', 'recvbuf.c', 'recvfrom.c', 'recvbuffrom.c', 'sendbuf.c', 'sendbufto.c', 'setNBIO.c', 'util-sockopt.c', 'ctlLINGER.c', 'ctlNODELAY.c', 'ctlSNDBUF.c', 'ctlRCVBUF.c', 'getTYPE.c', 'getERROR.c', 'getNREAD.c', 'getATMARK.c', 'getsockname.c', 'getpeername.c', 'getaddrfamily.c', 'to-inetaddr.c', 'from-inetaddr.c', 'to-unixaddr.c', 'from-unixaddr.c', 'inetany.c', 'util-mkhostent.c', 'util-mknetent.c', 'util-mkservent.c', 'getprotbyname.c', 'getprotbynum.c', 'getservbyport.c', 'getservbyname.c', 'getnetbyaddr.c', 'gethostname.c')],
 [('vectors received', SOC+'recv.c, recvfrom.c'), ('addresses', SOC+'to-unixaddr.c, from-unixaddr.c, to-inetaddr.c, from-inetaddr.c'), ('database entries', SOC+'util-mkhostent.c, util-mknetent.c, util-mkservent.c')], ['c/sock.c', 'c/netdb.c'])
SIG = CL+'smlnj-signals/'
cprop('R12', 'Signals reach the ML handler exactly once and leave the interrupted program intact',
 'Every signal that arrives while enabled is reported to the ML handler: the counts handed to the handler add up to exactly the number of arrivals, whatever instant of the runtime\'s own code, of ML code or of a handler a signal arrives at. Handlers never nest; a pending signal is handled in turn and is not overtaken again and again by one that keeps arriving; when a handler returns, the interrupted computation continues with all its registers and objects, also if collections happened meanwhile. Collections at or above the threshold (and no others) raise the GC signal once each, unless it is disabled or its own handler is running. Setting and reading the state or the mask of signals acts on exactly the signals named. An arithmetic trap becomes the exception Overflow at the place of the trap.',
 ['schedules', 'inputs', 'histories'], 'all arrival points of the signals, all registers, all pending sets and masks', 'Signals arrive between any two instructions; tests do not send any at the few points where the counters, flags and the entry code race.',
 [MD+'unix-signal.c', MD+'signal-util.c', MD+'unix-fault.c', K+'run-ml.c', SIG+'getsigmask.c', SIG+'setsigmask.c', SIG+'getsigstate.c', SIG+'setsigstate.c', SIG+'listsignals.c', SIG+'pause.c'],
 [('counting and choice', MD+'signal-util.c: ChooseSignal, GCSignal; unix-signal.c: CSigHandler'), ('delivery', K+'run-ml.c: RunML'), ('resumption', MD+'signal-util.c: MakeResumeCont, LoadResumeState')], ['c/sig.c'])
TIM = CL+'smlnj-time/'; DAT = CL+'smlnj-date/'
cprop('R13', 'Times, dates and timers are those of the system, in all ranges',
 'The time of day is the system\'s to the microsecond for every time the clock can show; the CPU and GC times reported are the system\'s, GC time being part of the CPU time and charged exactly once for every collection. Conversions between times and dates (UTC and local, mktime, the offset from UTC, formatting) give and take every field of the system\'s broken-down time, before and after 1970, and report what cannot be represented as an exception. The interval timer is set to exactly the interval asked for, and its resolution is reported.',
 ['inputs', 'fault schedules'], 'all times, dates, formats, results of the system calls and errors', CFWHY,
 [TIM+'gettime.c', TIM+'timeofday.c', DAT+'gmtime.c', DAT+'localtime.c', DAT+'mktime.c', DAT+'strftime.c', DAT+'localoffset.c', DAT+'unix-date.c', K+'timers.c', K+'unix-timers.c', CL+'smlnj-runtime/itick.c', CL+'smlnj-runtime/setitimer.c', 'base/runtime/include/ml-objects.h'],
 [('time of day', TIM+'timeofday.c; include/ml-objects.h: ML_AllocNanoseconds'), ('dates', DAT+'unix-date.c, strftime.c, mktime.c'), ('GC time', K+'timers.c: StartGCTimer, StopGCTimer')], ['c/time.c'])
cprop('R14', 'An exported heap is the heap that an import restores, and exporting never harms or lies',
 'A heap image written by exportML or exportFn and loaded again, in a process where everything lies at other addresses, holds exactly the same object graph: every object with its kind, contents, sharing and generation-spanning references, every code object, every reference to a C symbol by its name, and the saved computation or function with its arguments; the restored heap then collects, allocates and mutates like any other. Exporting leaves the running heap as it was, also when a write fails at any point; success is reported exactly if the whole image reached the file. An image that is cut short or is not an image of this kind of system is refused. The image is written under the given name with the machine\'s suffix, whatever its length, or the name is refused.',
 ['inputs', 'fault schedules', 'histories'], 'all object contents and graph shapes within the bounds, the failing operation, the damage to an image', 'Tests export and load one or two heaps on a healthy disk.',
 [G+'export-heap.c', G+'import-heap.c', G+'heap-out-util.c', G+'heap-in-util.c', G+'writer.c', G+'c-globals-tbl.c', G+'addr-hash.c', G+'big-objects.c', CL+'smlnj-runtime/export-heap.c', CL+'smlnj-runtime/export-fun.c', K+'qualify-name.c', K+'globals.c'],
 [('writing', G+'export-heap.c: ExportImage, ScanHeap, WriteHeap, RepairHeap'), ('reading', G+'import-heap.c: ImportHeapImage, ReadHeap, RepairHeap, RepairWord'), ('C symbols', G+'c-globals-tbl.c')], ['c/heapio.c'])
cprop('R15', 'A value written as bytes and read back is an equal value of new objects',
 'Writing any value without code to a vector of bytes (Unsafe.blastWrite) and reading it back gives a value equal in structure, contents, sharing, cycles and C references, made of new objects; the value itself and everything else in the heap are as they were, whatever generations the objects are in, also when a collection happens in between, and all collections afterwards behave as usual. A value with code in it is refused with an exception and leaves the heap as it was; bytes that are cut short or are no such image are refused.',
 ['inputs', 'histories'], 'all object contents and graph shapes within the bounds, the position of the collections', 'No test writes or reads values as bytes; the code is a second copying collector that has to undo itself.',
 [G+'blast-out.c', G+'blast-in.c', G+'blast-gc.c', G+'mem-writer.c', G+'heap-in-util.c', G+'heap-out-util.c', G+'c-globals-tbl.c', CL+'smlnj-runtime/blast-in.c', CL+'smlnj-runtime/blast-out.c'],
 [('writing', G+'blast-out.c: BlastOut, BlastHeap'), ('undoing', G+'blast-gc.c: BlastGC_RepairHeap, BlastGC_FinishGC'), ('reading', G+'blast-in.c: BlastIn, ReadImage')], ['c/blast.c'])
cprop('R16', 'The literals of a compiled unit are exactly those the compiler wrote',
 'Building the literals of a compilation unit from their byte encoding gives exactly the values encoded: integers of every encoding, 64-bit integers, reals, strings, records, vectors, raw data, nested and shared as saved and loaded, for every operand. They are well-formed objects that survive all later collections. This holds whatever the size of an object, including strings and vectors larger than the allocation space, whatever the depth of the stack and the number of saved values, wherever a collection strikes in between, and whether the encoding lies in the heap (and may itself move) or outside; nothing else in the heap is disturbed. An encoding of another version or word size, or with an unsupported instruction, is refused.',
 ['inputs', 'histories'], 'all instruction operands, the position of the collections', 'Tests load units whose literals are small and few; sizes near the limits and collections in the middle are never seen.',
 [G+'build-literals.c', CL+'smlnj-runtime/mkliterals.c', G+'ml-objects.c', G+'call-gc.c'],
 [('interpreter', G+'build-literals.c: BuildLiterals, InstrInfo'), ('space and collections', G+'build-literals.c: GC_CHECK, AllocLarge')], ['c/lit.c'])
cprop('R17', 'Booting loads every listed unit once, in order, linked as its file says',
 'Booting from a boot list loads exactly the units listed, each once and in order, from plain files or from any offset within a library archive. Each unit\'s code runs exactly as stored, from its entry point, on exactly the imports that its persistent IDs and selection trees denote among the units loaded before it and the runtime, together with its literals; its result is registered under its own persistent ID, and all results stay intact through the collections in between. A list or file that is missing or cut short anywhere, or that imports something unknown, ends the boot with an error and is never run as if it were whole.',
 ['inputs', 'histories', 'fault schedules'], 'all contents of the boot list and the files within the bounds, the place at which a file ends, collections in between', 'The tests only ever boot the one healthy set of files.',
 [K+'boot.c', 'base/runtime/include/bin-file.h', K+'ml-state.c', K+'run-ml.c', K+'globals.c'],
 [('loading', K+'boot.c: BootML, BuildFileList, LoadBinFile'), ('linking', K+'boot.c: ImportSelection, LookupPerID, EnterPerID'), ('calls into ML', K+'run-ml.c: ApplyMLFn; '+K+'ml-state.c: SaveCState, RestoreCState')], ['c/boot.c'])
RTS = CL+'smlnj-runtime/'
cprop('R18', 'The runtime\'s own services do what they are documented to do, and only that',
 'Garbage-collector control sets exactly the parameters asked for, reports those in force, and collects exactly the generations asked for; lowering a limit frees memory without leaving freed memory in use. The allocation and collection counters report exactly what has been allocated and collected since they were last reset, and reading them changes nothing. The command name and arguments are those of the process, with shifting applied; joining records keeps every field in order and refuses what is no record; code objects hold exactly the bytes given and are entered at the offset given; system information is reported for exactly the known keys; each tick of the profile timer adds one to the entry of the function being run and to nothing else; the rounding mode is the one set and mathematical functions return the library\'s value for every argument. An exception that nobody handles is reported with its name and message, whatever their length, and ends the process. Debug messages are printed as they are. A program that runs out of space is resumed with space and with everything it holds. Allocation and binding requests from ML code return objects of the kind and size asked for, wherever a collection strikes.',
 ['inputs', 'histories'], 'all arguments, sizes, sequences of requests within the bounds, the position of the collections', CFWHY,
 [RTS+f for f in ('gc-ctl.c', 'gc-counter.c', 'argv.c', 'raw-argv.c', 'shift-argv.c', 'cmd-name.c', 'record1.c', 'record-concat.c', 'alloc-code.c', 'mkexec.c', 'sysinfo.c', 'debug.c')] + [G+'gc-util.c', G+'init-gc.c', G+'record-ops.c', G+'ml-objects.c', K+'error.c', K+'run-ml.c', CL+'smlnj-prof/setpref.c', CL+'smlnj-prof/setptimer.c', K+'unix-prof.c', CL+'smlnj-math/ctlrndmode.c'],
 [('control and counters', RTS+'gc-ctl.c, gc-counter.c; '+G+'init-gc.c'), ('records and code', G+'record-ops.c: RecordConcat; '+RTS+'mkexec.c'), ('uncaught exceptions', K+'error.c: UncaughtExn'), ('requests', K+'run-ml.c: RunML')], ['c/svc.c'])
cprop('R19', 'Every runtime option on the command line is taken, obeyed or refused, and every other argument is passed on',
 'For every command line: arguments beginning with @SML are taken by the runtime exactly as documented (image, boot list, allocation size, generations, cache level, quiet, debug output), in any order and combination, and everything else reaches the program unchanged and in order, as does everything if the image is part of the executable. Sizes are read exactly, with their suffixes, and one that is malformed, too small or too large for the machine is refused or adjusted as documented, never wrapped around. An unknown option, or one whose argument is missing, is refused with a message. No length of option or argument makes the runtime read or write outside its buffers.',
 ['inputs'], 'all command lines within the bounds', 'Tests start the system with the same two or three options every time.',
 [K+'main.c', K+'ml-options.c', K+'standalone.c', G+'init-gc.c', 'base/runtime/include/ml-options.h'],
 [('taking options', K+'main.c: ProcessOpts; '+K+'ml-options.c: isRuntimeOption, GetSzOption'), ('heap options', G+'init-gc.c: ParseHeapParams')], ['c/opts.c'])
prop('N01', 'Compiled code means what its source means',
 'For every well-typed program, the machine code that the compiler generates (MLRISC back ends included) has the behaviour that the Definition of Standard ML gives the source.', ['inputs'], 'all programs', 'A test compiles a handful of programs.',
 ['base/compiler', 'base/cm', 'ckit', 'MLRISC'], [('code generation', 'base/compiler/CodeGen, base/compiler/FLINT')],
 na='The compiler is some 150,000 lines of SML whose input is a program: its passes over recursive syntax trees have no bound worth stating that an SMT encoding of the compiled compiler could reach here (a single FLINT pass over a three-node term already leaves thousands of heap objects to be symbolic), and an equivalence oracle per program needs a semantics of both languages. L01 and L02 run the compiler\'s output, so that gross errors show up there.')
prop('N02', 'CM rebuilds exactly what a change makes necessary',
 'After any sequence of edits, CM.make gives the system that compiling everything from scratch would give, and recompiles no unit whose imports have not changed.', ['histories'], 'all sequences of edits', 'A test makes a handful of edits.',
 ['base/cm'], [('cutoff recompilation', 'base/cm/compile/compile.sml, base/cm/smlfile/smlinfo.sml')],
 na='The property is about the dependency analyser, the compiler\'s static environments and the file system together; the code that decides it cannot be cut loose from the compiler (see N01), and a model of it would not be the real code.')
prop('N03', 'CML programs synchronise as the CML semantics says under every schedule',
 'Every synchronisation on a choice of events commits exactly one of them, and no pre-emption loses, duplicates or reorders a message or leaves a thread blocked that could proceed.', ['interleavings'], 'all programs and all pre-emption points', 'A test sees one schedule.',
 ['cml'], [('events', 'cml/src/core-cml/event.sml'), ('scheduler', 'cml/src/core-cml/scheduler.sml')],
 na='CML is built on first-class continuations and timer signals. The FLINT executor used for L01 and L02 does not model callcc/throw of captured control with signal delivery, so interleavings cannot be made symbolic over the real code; what CML relies on in the runtime (signal delivery at safe points, the interval timer, poll) is decided by R12, R13 and R07.')
