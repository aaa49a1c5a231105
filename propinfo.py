"""What each check runs: engines (simulator builds), time, and the texts of manifest and evidence."""
LIB = ['src/gxfile.cpp (whole library)', 'src/gdlib/* (streams, string tables, data tables)', 'src/rtl/* (file and system layer)', 'generated/gdxcclib.cpp, gdxcwrap.h (C interface)', 'generated/gdxcc.c (loader)', 'zlib (system, static)']
STUB = ['operating system calls (open/read/write/lseek/close/fstat/stat/access/unlink/rename/...): in-memory disk with fault injection', 'malloc/free/new/delete: counted, fillable, can fail', 'system() and getenv(): recorded and scripted', 'dlopen/dlsym: the library is linked into the simulator']
ASM = ['a process crash keeps every byte handed to the operating system before the crash, writes reach the disk in order (prefix of the write sequence); a torn write may keep any prefix of its bytes, in crash worlds cut at 512-byte sector borders',
       'the in-memory disk behaves like a POSIX file system apart from the injected faults',
       'one seed is one exactly repeatable execution: checked by repeating seeds in fresh processes']
RULE = 'each seed builds a random scenario (files, sessions, modes, records, queries) run against the real library on the simulated disk and compared call by call with the reference model; a run counts as non-trivial when its event history (hash over calls, results and storage operations) differs from every other run of the check'
NOTE = 'seeded search, not exhaustive: a clean run is evidence over the scenarios and fault placements of its seeds; trusts the reference model (sim/model.hpp) and the simulated disk; '

MEAS8 = 'distinct (session phase, call, outcome) combinations; distinct interleavings are counted by distinct_nontrivial (hash over the complete schedule and all results)'
ASM8 = ['simulated threads interleave at function entries, accesses to global memory, lock operations, allocations and storage calls, sequentially consistently']
STUB9 = [x for x in STUB if 'dlopen' not in x] + ['dlopen/dlsym/dlclose: simulated loader with injected failures; thread scheduler: seeded, one thread runs at a time']

TOOLREAL = ['src/tools/%s/*.cpp (the complete tool with its own main)', 'src/tools/library/* (command line, strings)'] + LIB
STUBT = ['operating system calls, stdio and directory listing (open/read/write/lseek/close/stat/unlink/rename/fopen/opendir/...): in-memory disk with fault injection, seeded directory order', 'standard output: a stream on the simulated disk (dump) or in memory', 'dlopen/dlsym: the library is linked into the simulator', 'process start and end: a forked child per tool run']
RULET = 'each seed builds a random set of input files with an independent encoder and a random command line, runs the real tool on the simulated disk undisturbed and under a storage fault placed at a call of the undisturbed run, and compares exit code, console text and output file (decoded independently) with the result computed by a model of the tool; a run counts as non-trivial when its event history (storage operations and console text) differs from every other run of the check'
MEAST = 'distinct (tool, option, fault kind, exit code) combinations'

def tool(name, technique, note): return lib(technique, note, engines=[('tools', 1)], real=[x.replace('%s', name) for x in TOOLREAL], stub=STUBT, rule=RULET, measure=MEAST)

def lib(technique, note, quick=32, thorough=900, engines=(('asan', 12), ('fast', 20)), **k):
    d = dict(quick=quick, thorough=thorough, engines=list(engines), rule=RULE, real=LIB, stub=STUB, assume=ASM, technique='deterministic simulation: ' + technique, note=NOTE + note)
    d.update(k)
    return d

P = {
    'C01': lib('random write sessions on a simulated disk with short/interrupted transfers, compared with a reference model', 'covers all write modes, dimensions 0-20, special values, up to some 10^4 records per symbol'),
    'C02': lib('chains of append sessions on a simulated disk, compared with a reference model', 'chains of up to a handful of append sessions'),
    'C03': lib('one storage fault (error, full disk, partial write, failing close/seek/open) at a chosen call of a writing session', 'single fault points (one-off or persistent) per run, chosen from the storage calls of the fault-free run'),
    'C04': lib('crash, drop or memory exhaustion at a chosen instant of a creating session, then reopen', 'crash = prefix of the issued writes; no reordering of writes by a volatile cache'),
    'C05': lib('crash at a chosen instant of an appending session, then reopen and compare with old/new content', 'crash = prefix of the issued writes, torn at sector borders; no reordering of writes by a volatile cache'),
    'C06': lib('read faults, truncation and damaged compressed blocks under a reading workload, compared with a reference model', 'damage inside uncompressed data carries no redundancy in the format and is not covered'),
    'C07': lib('sessions ended by faults, refused files or normally in one object, followed by sessions compared with a fresh model; leak and handle accounting', 'memory accounting is exact per library allocation'),
    'C08': lib('several objects with seeded interleaving of their calls, on one thread and on simulated threads preempted inside the library at seeded points (function entries, accesses to global data, locks, allocations, storage calls), compared with isolated models', 'preemption between instructions that touch no shared (global) memory is not distinguished; no relaxed-memory effects', engines=[('asan', 7), ('fast', 7), ('sched', 18)], measure=MEAS8, assume=ASM + ASM8),
    'C09': lib('simulated threads create, use and free objects and load and unload the library through the real loader, preempted at seeded points; loading and symbol lookup fail at seeded moments', 'the dynamic loader is simulated (load, lookup, unload, their failures); the library code itself stays mapped, so that a call into an unloaded library is detected instead of crashing', engines=[('sched', 1)], measure=MEAS8, assume=ASM + ASM8, stub=STUB9),
    'C10': lib('the same writes under different transfer patterns, memory garbage, names and histories; bytes compared', 'bytes compared within one build'),
    'C11': lib('calls inserted at seeded wrong moments into sessions; refusal and unchanged continuation checked against the model', 'contract taken from the model: every call and phase combination is sampled'),
    'C12': lib('record streams with duplicates, disorder, domain violations and overlong keys; conservation checked against the model', 'error list limited to what the interface shows'),
    'C13': lib('seeded sequences of reads in all modes, abandoned reads and registrations, compared with the model', 'up to a handful of reads per session'),
    'C14': lib('files from an independent encoder (versions 5-7, both byte orders, block sizes) read by the library, and library files read by an independent decoder', 'trusts the independent codec (sim/codec.hpp), written from the format'),
    'C15': tool('gdxmerge', 'the real merge tool on a simulated disk with seeded directory order; storage faults (errors, partial transfers, full disk, failing open/close/seek) at seeded calls; output decoded independently and compared with the union computed by a model', 'single fault point, full disk or split transfers per run; up to a handful of input files'),
    'C16': tool('gdxdiff', 'the real comparison tool on a simulated disk; storage faults at seeded calls, including the rename of the result; exit code and result file compared with the difference computed by a model', 'single fault point, full disk or split transfers per run; option MatrixFile not covered'),
    'C17': tool('gdxdump', 'the real dump tool on a simulated disk; storage faults at seeded calls of input and output; its text matched item by item against the content computed by an independent decoder', 'free in white space and quoting style; single fault point, full disk or split transfers per run'),
    'C18': lib('write, append and read sessions under random environment settings and file names; the (simulated) converter succeeds, fails, is missing or is killed, storage faults hit the session', 'the converter itself is not run: the command line is parsed like a POSIX shell would and the disk is compared before and after'),
}
NA = {
    'C19': 'a pure function of its argument: no schedule, time, I/O or fault for a simulation to decide',
}
