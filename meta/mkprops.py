#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so the wording is easy to diff)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=state or [], observe_at=observe, hook_needed=hook)))
GX = "src/gxfile.cpp"; ST = "src/gdlib/gmsstrm.cpp"; PU = "src/rtl/p3utils.cpp"

prop("C01", "A closed file reads back exactly what was written to it",
 "After a GDX file has been written and closed successfully, opening it again in any object shows exactly the symbols, dimensions, types, explanatory texts, comments, aliases, domains, element texts, acronyms, unique elements, and records (keys and values, special values included) that the accepted write calls supplied, in key order and nothing else. "
 "This holds for every mix of write modes, compressed and uncompressed, and however the operating system splits or interrupts the underlying reads and writes.",
 ["histories", "configurations", "schedules"],
 "every write history (raw, mapped, string mode; all symbol kinds, dimensions 0..20, special and user-defined special values, acronyms, domains) x compression x every legal pattern of short/interrupted transfers",
 "the unit tests write a few dozen fixed files and read them back on an ideal disk: they never vary record shape, element-number width, buffer-boundary position or transfer splitting together",
 [GX, ST, PU, "src/gdlib/datastorage.hpp", "src/gdlib/strhash.hpp"],
 [("record encoder / decoder", GX + " DoWrite, DoRead"), ("table writer at close / table reader at open", GX + " gdxClose, gdxOpenReadXX"), ("buffered, block-compressed stream", ST + " TBufferedFileStream"), ("transfer primitives", PU + " p3FileRead, p3FileWrite")],
 ["every gdx read/query call on the reopened file"])

prop("C02", "Appending keeps all earlier content and adds exactly the new content",
 "After any sequence of successful append sessions, the file shows everything the earlier sessions stored, unchanged, followed by exactly the symbols, elements, texts, acronyms and comments that the later sessions added. "
 "The order and numbering of earlier symbols and elements never change.",
 ["histories", "configurations", "schedules"],
 "every chain of create + n append sessions, with arbitrary per-session contents (including empty ones), compressed or not, under arbitrary legal transfer splitting",
 "tests append once or twice with one tiny symbol; the chain length, table sizes and the overlap of new data with the old tables are never varied",
 [GX, ST], [("append open", GX + " gdxOpenAppend"), ("write position bookkeeping", GX + " NextWritePosition in InitDoWrite/gdxDataWriteDone/gdxClose")],
 ["every read/query call after each session"])

prop("C03", "A failed write is never reported as a success",
 "If the storage refuses, truncates or loses any part of what a writing session produced (full disk, I/O error on any write, seek, open or close), then the session reports it: an open or write call fails, an error query returns non-zero, or the close returns a non-zero code. "
 "Conversely, whenever no call of the session reported an error and the close returned zero, the file on disk is complete and reads back as everything that was accepted, even if the session was closed while a symbol or an element registration was still in progress.",
 ["fault_sequences", "histories"],
 "every position of one or more storage faults (ENOSPC, EIO, quota, failing seek/close/open, short transfer followed by error) in every write or append history",
 "tests never see a failing or short write: they run on a real disk that always succeeds",
 [GX, ST, PU], [("sticky I/O result", ST + " TXFileStream::SetLastIOResult/GetLastIOResult"), ("close result", GX + " gdxClose"), ("flush", ST + " TBufferedFileStream::FlushBuffer")],
 ["results of open/write/close and last-error queries, bytes left on disk"])

prop("C04", "An interrupted creation never leaves a file that opens",
 "If writing a new file stops before it is closed successfully - the process dies at any instant, the object is dropped without close, or memory runs out - then a later open of that path is refused with an error. "
 "Only if every byte of the finished file had already reached the disk may it open, and then with the complete content.",
 ["crash_points", "fault_sequences", "histories"],
 "every write history x every crash instant (between any two storage calls, or part-way through one at sector granularity) x every failing memory allocation",
 "tests never kill a writer; they only ever look at files that were closed",
 [GX, ST], [("index block written last", GX + " gdxClose (reserved zero index, marker written at the end)"), ("abandon on destruction", GX + " ~TGXFileObj")],
 ["a fresh open of the surviving bytes"])

prop("C05", "A crash while appending leaves the old file, the new file or a refusal",
 "If a process dies at any instant of a session that appends symbols to an existing file, then a later open of that file either is refused with an error, or shows exactly the content before the session, or shows exactly the content the finished session would have left. "
 "It never opens successfully with a mixture, with missing symbols, or with records that were never written.",
 ["crash_points", "histories"],
 "every create+append history that appends at least one symbol x every crash instant (between storage calls or part-way through one at sector granularity)",
 "no test interrupts an append",
 [GX, ST], [("section markers and index", GX + " gdxOpenReadXX marker checks; gdxClose write order")],
 ["a fresh open and full read of the surviving bytes"])

prop("C06", "Unreadable or cut-off files produce an error, never wrong data",
 "When reading from the storage fails at any point, the file has been cut off at any length, or bytes inside a compressed block are damaged, every call either delivers exactly the data that was written or reports failure with a non-zero error code. "
 "It never crashes, never loops without progress, and never ends a record stream early without an error being visible.",
 ["fault_sequences", "inputs", "histories"],
 "every file x every read-side fault position (EIO, EOF at any offset, seek failure) x every truncation length x every byte damage inside compressed blocks x every read mode",
 "tests open a handful of hand-made bad files; they inject no I/O error and read no truncated records",
 [GX, ST], [("marker checks", GX + " gdxOpenReadXX, PrepareSymbolRead"), ("stream reads", ST + " TBufferedFileStream::Read/FillBuffer")],
 ["results, error codes and delivered records of open and read calls"])

prop("C07", "A failed or finished session leaves nothing behind in the object",
 "After any session ended - successfully, or with a failed open, a storage error or a refused file - the same object can be closed and used for a new session, which behaves exactly as it would in a fresh object. "
 "No symbol, element, filter, text, mapping, record error or storage error of an earlier session is visible in the later one, and memory and file handles of the earlier session are released.",
 ["fault_sequences", "histories"],
 "every sequence of sessions (write, append, read, failed opens of any kind, faulted sessions) on one object",
 "tests use one object per file, or reuse it only after clean sessions",
 [GX], [("teardown", GX + " gdxClose"), ("failed-open path", GX + " gdxOpenReadXX FileErrorNr")],
 ["all calls of the later session; leak and handle accounting"])

prop("C08", "Objects used at the same time do not affect each other",
 "Any number of GDX objects working on different files, used from different threads or with their calls interleaved on one thread, each return the same results and leave the same file contents as if it had been the only object in the process.",
 ["schedules", "histories"],
 "every interleaving, at any instruction, of the calls made on two or more objects",
 "tests are single-threaded and use one object at a time",
 [GX, ST, "src/gdlib/utils.cpp"], [("per-object state", "src/gdx.hpp TGXFileObj members"), ("scratch buffers", GX + ", " + ST + " local buffers")],
 ["results of every call and final file bytes per object, compared with a solo run"])

prop("C09", "The loader keeps the library loaded exactly while objects exist",
 "With threads creating and freeing objects through the C loader in any order, the library is loaded once, every created object works until it is freed, the library is never released while an object created through it is alive, and an unload request is refused exactly while objects remain. "
 "A failing load or a missing entry point is reported to the caller and can be retried.",
 ["schedules", "fault_sequences"],
 "every interleaving of create/free/unload/query calls from several threads, with dynamic-loader failures injected",
 "tests link the library directly or load it once from one thread",
 ["generated/gdxcc.c"], [("object counter and mutexes", "generated/gdxcc.c objectCount, isLoaded, libMutex, objMutex"), ("load / unload", "generated/gdxcc.c XLibraryLoad, gdxLibraryUnload")],
 ["loader results, dlopen/dlclose calls seen by the simulated dynamic loader"])

prop("C10", "The bytes of a file depend only on what was written",
 "Repeating the same sequence of write calls always produces byte-identical files, whatever the file name, the transfer pattern of the operating system, the previous use of the object or process, other objects, or the garbage left in memory. ",
 ["histories", "schedules", "configurations"],
 "every write/append history, repeated under different memory contents, transfer patterns, file names and prior activity",
 "tests never compare two runs byte for byte",
 [GX, ST], [("encoder", GX + " DoWrite, gdxClose"), ("buffer flush", ST + " TBufferedFileStream")],
 ["bytes on the simulated disk"])

prop("C11", "A call made at the wrong time is refused and changes nothing",
 "A call that does not belong to the object's current phase (not open, opened for the other direction, another symbol in progress, registration in progress, wrong read or write mode) returns failure and records an error, and afterwards the session continues exactly as if the call had not been made. "
 "In particular an accidental call can neither crash, nor lose a symbol being written, nor turn the file being written into an unfinished one.",
 ["programs", "histories"],
 "every interleaving of out-of-phase calls into every valid write, append or read session, and every call on a closed object",
 "tests issue only a few out-of-order calls and never continue the session afterwards",
 [GX], [("phase check", GX + " MajorCheckMode, CheckMode"), ("start-of-symbol preparation", GX + " PrepareSymbolWrite, PrepareSymbolRead")],
 ["result of the refused call, results of all later calls, final file"])

prop("C12", "Every submitted record is either stored or reported, never both",
 "For every symbol, each record submitted is either stored exactly once or rejected; rejected are exactly the duplicates after the first occurrence, out-of-order records in raw mode, records outside a registered one-dimensional domain set, and records with unusable keys. "
 "Rejections are visible as call results, error counts and error records (the first ones, with the offending positions marked), the stored record count equals the number accepted, and the stored records come back in strictly increasing key order.",
 ["histories", "inputs"],
 "every submission order of records with arbitrary duplicates, domain violations, unsorted keys and bad keys, in all three write modes",
 "tests check one duplicate or one domain violation at a time, with at most a few records",
 [GX, "src/gdlib/datastorage.hpp", "src/gdlib/gmsdata.hpp"], [("acceptance", GX + " DoWrite"), ("error list", GX + " AddToErrorList, AddToErrorListDomErrs"), ("sorting", "src/gdlib/datastorage.hpp TLinkedData")],
 ["write results, error count and records, records read back"])

prop("C13", "All ways of reading a symbol agree, in any order of use",
 "Raw, string, mapped, filtered, expanding, sliced, callback and domain-element reads of the same symbol deliver the same underlying records, differing only by the documented key mapping and selection: mapped reads are sorted by the user's numbering, records outside a filter or without a mapping are reported as errors, expansion numbers new elements after the highest existing one. "
 "This holds whatever reads, abandoned reads, registrations or queries came before in the session.",
 ["histories", "inputs", "schedules"],
 "every sequence of complete and abandoned reads in all modes, element registrations, filters and lookups on one open file, under arbitrary transfer splitting",
 "each test exercises one read mode on a fresh object with sorted element numbers",
 [GX], [("read preparation and mapping", GX + " PrepareSymbolRead, gdxDataReadMap, ResultWillBeSorted"), ("user numbering", GX + " TUELTable, TIntegerMapping"), ("slices, filters", GX + " gdxDataReadSlice*, gdxFilter*")],
 ["all read and query calls"])

prop("C14", "Files from other releases and byte orders read back identically",
 "A file that follows the published format - written by this or an older release (format versions 5, 6 and 7), compressed or not, on a machine of either byte order - opens and delivers exactly its content. "
 "Files written by the current tree follow that same format, so other releases can read them.",
 ["inputs", "configurations", "schedules"],
 "every file content x format version x byte order x compression x legal transfer splitting, produced or decoded by an independently written peer",
 "tests only read files produced by the same code on the same machine",
 [GX, ST, "src/gdlib/gmsstrm.hpp"], [("byte-order handling", ST + " TMiBufferedStream"), ("version branches", GX + " gdxOpenReadXX, DeltaForRead"), ("encoder", GX + " DoWrite, gdxClose")],
 ["read calls on peer-written files; bytes decoded by the peer"])

prop("C15", "Merging produces the union of its inputs or fails visibly",
 "The merge tool's output contains every selected symbol of every readable input file, with the input's file name as an additional leading key and unchanged records, plus the listing of the merged files; it contains nothing else. "
 "If the output could not be written completely (or an input could not be read completely), the tool ends with a non-zero exit code or an error report, and never with a wrong output file and a zero exit code.",
 ["inputs", "fault_sequences", "configurations"],
 "every set of input files and selection options x every storage fault position",
 "tool tests run a few fixed files on a healthy disk",
 ["src/tools/gdxmerge/gdxmerge.cpp", "src/tools/gdxmerge/gdxmerge.hpp", GX], [("merge passes", "src/tools/gdxmerge/gdxmerge.cpp TProcessGDX"), ("exit code", "src/tools/gdxmerge/gdxmerge.cpp main")],
 ["exit code, console output, output file"])

prop("C16", "The comparison tool reports a difference exactly when there is one",
 "The comparison tool ends with the 'no differences' exit code exactly when the two inputs agree on the selected symbols within the given tolerances; otherwise its exit code is non-zero and its result file lists exactly the inserted, deleted and changed records. "
 "If an input cannot be read completely or the result file cannot be written completely, it never ends with the 'no differences' code.",
 ["inputs", "fault_sequences", "configurations"],
 "every pair of files, tolerance and option set x every storage fault position",
 "tool tests compare a few fixed pairs on a healthy disk",
 ["src/tools/gdxdiff/gdxdiff.cpp", GX], [("symbol comparison", "src/tools/gdxdiff/gdxdiff.cpp CompareSy"), ("exit code", "src/tools/gdxdiff/gdxdiff.cpp main")],
 ["exit code, result file"])

prop("C17", "The dump tool prints all of a file or ends with an error",
 "The dump tool's text output contains every symbol of the file with every record, its keys and its values, each exactly once and precise enough to recover the value. "
 "If the input cannot be read completely or the output cannot be written completely, it ends with a non-zero exit code or prints an error.",
 ["inputs", "fault_sequences", "configurations"],
 "every file content x output option x every storage fault position",
 "tool tests compare a few fixed dumps",
 ["src/tools/gdxdump/gdxdump.cpp", GX], [("record printing", "src/tools/gdxdump/gdxdump.cpp"), ("exit code", "src/tools/gdxdump/gdxdump.cpp main")],
 ["exit code, text output"])

prop("C18", "Automatic conversion runs exactly when asked for and reports failure",
 "When a written file is closed with automatic conversion enabled, the external converter is started exactly once, on exactly that file, if and only if the environment asks for another format or compression than the file has; a converter that is missing, is killed or fails makes the close return a non-zero code. "
 "A write failure of the session itself is still reported when conversion is enabled, and the converter is never started on a file that was not written completely.",
 ["configurations", "fault_sequences", "histories"],
 "every combination of environment settings, compression, converter outcome (success, failure codes, missing, killed) and storage faults",
 "tests never set the environment variables together with a failing converter",
 [GX], [("conversion at close", GX + " ConvertGDXFile, gdxClose"), ("process start", GX + " SystemP")],
 ["commands handed to the (simulated) operating system, result of close"])

prop("C19", "Value formatting and parsing are exact inverses",
 "Printing a finite value with full precision and reading the text back yields the same value.",
 ["inputs"], "every finite double", "tests sample a few values",
 ["src/rtl/dtoaLoc.c", "src/rtl/sysutils_p3.cpp"], [("conversion", "src/rtl/dtoaLoc.c")], ["printed text"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
