#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, level, note, observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, level=level, note=note, observe=list(observe)))


CLI = ['src/ftwin.c', 'src/ft_traverse.c', 'src/ft_process.c', 'src/ft_report.c', 'src/ft_file.c']
RUN = 'Sampled executions of the real program; what was not generated is not covered. Trusts the independent model of the documented rules, the sanitizers and the kernel.'
DBN = 'Sampled histories of the real library under monitors; trusts the reference model and the sanitizers.'

# ------------------------------------------------------------------ the program
prop('C01', 'Files reported as duplicates are byte-identical',
     'Every group in a duplicate report holds at least two distinct paths of eligible files that have the same size and the same bytes. No collision of digests, reading strategy, or difference confined to one byte or to the length may put different files in one group.',
     ['inputs', 'configurations'], 'all trees of files and all command lines of the duplicate mode',
     'The tests compare a handful of small fixtures; none has colliding digests, differences at buffer boundaries or more than a few files of one size.',
     ['src/ft_report.c', 'src/ft_report_json.c', 'src/ft_file.c', 'src/ft_process.c'], [('byte comparison of files with equal digests before they are reported', 'src/ft_report.c, src/ft_file.c filecmp')],
     'differential runtime oracle (byte comparison) on ASan/UBSan runs, including a build with colliding digests', 'exploration', RUN)
prop('C02', 'The report is exactly the partition into identical files',
     'The groups of a report are exactly the classes of two or more byte-identical files among the eligible files of the scan: no class is missing, split or merged, and no path is listed twice, however many arguments lead to it. This holds for any number of files, sizes and classes, and also when different files share a digest.',
     ['inputs', 'configurations'], 'all trees of files and all command lines of the duplicate mode',
     'The tests look for a few expected lines in the output of small fixtures; they do not compare the whole report with the set of files.',
     CLI + ['src/napr_hash.c', 'src/napr_heap.c'], [('files counted per size, digested, then compared pairwise in digest order', 'src/ft_process.c, src/ft_report.c'), ('size table and heap keep every file', 'src/napr_hash.c, src/napr_heap.c')],
     'model-based runtime oracle (exact partition) on ASan/UBSan runs, including a build with colliding digests', 'exploration', RUN)
prop('C03', 'The groups do not depend on threads, timing or tuning options',
     'For a given tree and selection, the reported groups are the same whatever the number of threads, their scheduling, the size above which files are read instead of mapped, the memory, verbosity, separator and size-display options, and the order of the path arguments.',
     ['schedules', 'configurations'], 'all schedules of the workers and all values of the tuning options',
     'The parallel tests run one fixture with a few thread counts and no control of timing.',
     ['src/ft_process.c', 'src/napr_threadpool.c', 'src/ft_file.c', 'src/ft_config.c'], [('worker pool that digests files in parallel under one lock', 'src/ft_process.c, src/napr_threadpool.c'), ('threshold between mapping and reading', 'src/ft_file.c')],
     'metamorphic runtime oracle under injected delays and spurious wakeups', 'exploration', RUN + ' Schedules are perturbed by seeded delays, not enumerated.')
prop('C04', 'Exactly the selected files are considered',
     'A scan considers exactly the regular files reachable from the path arguments that pass the options given: hidden files only with the option for it, names of the ignore list and paths matching the ignore expression never, only paths matching the whitelist expression when there is one, only sizes within the minimal and maximal length, subdirectories unless recursion is off, and links only when they are followed. Paths given as arguments are subject to the same documented rules whatever their form, and special files, broken links and link loops are left out without ending the scan.',
     ['inputs', 'configurations'], 'all trees and all combinations of selection options',
     'Each option has one or two tests on a fixed fixture; combinations, odd names, loops and special files are not reached.',
     ['src/ft_traverse.c', 'src/ft_config.c'], [('recursive traversal with filters', 'src/ft_traverse.c'), ('option parsing', 'src/ft_config.c')],
     'model-based runtime oracle (independent walk) on ASan/UBSan runs', 'exploration', RUN)
prop('C05', 'Ignore patterns select files as Git does',
     'Files and directories excluded by the .gitignore files of the scanned directories, read with the rules of Git (anchoring, negation, directory patterns, *, **, ?, classes, escapes, comments, trailing spaces, nested files overriding outer ones), and those of the built-in ignore list (version control, build and editor leftovers) are not considered; all others are. The content of an excluded directory is excluded.',
     ['inputs'], 'all .gitignore contents (lines of up to 4095 bytes) and all trees',
     'The unit tests match about a hundred single patterns; nesting, negation through directories, escapes and classes in combination are not reached.',
     ['src/ft_ignore.c', 'src/ft_traverse.c', 'src/ft_config.c'], [('translation of patterns to expressions', 'src/ft_ignore.c'), ('context per directory, innermost first', 'src/ft_ignore.c, src/ft_traverse.c')],
     'model-based runtime oracle (independent matcher, validated against git check-ignore)', 'exploration', RUN + ' Outside the claim: `foo**bar`, `! foo` and patterns that begin with a space.')
prop('C06', 'Text reports are well formed, ordered and complete',
     'A text report lists one group after the other, separated by an empty line, its paths joined by the chosen separator and printed exactly as reached from the arguments; larger files come first, files under the priority path come first in their group, and with size display each group is preceded by its human-readable size. Progress messages never appear on standard output, and a dry run, colours apart on a terminal, prints the same groups.',
     ['inputs', 'configurations'], 'all trees and all combinations of report options, on pipes and terminals',
     'The tests search the output for substrings.',
     ['src/ft_report.c', 'src/human_size.c', 'src/ft_process.c'], [('report loop over sizes in heap order', 'src/ft_report.c'), ('colours only on a terminal', 'src/ft_report.c')],
     'strict parser and ordering oracle over recorded reports (pipes and pseudo-terminals)', 'exploration', RUN)
prop('C07', 'JSON reports are valid, exact and machine readable',
     'With the JSON option, standard output is one valid JSON array whose elements give, for every group, the exact size in bytes, the 128-bit xxHash of the content in hexadecimal and one entry per file with its absolute path, its modification time in UTC and whether it lies under the priority path. This holds for any bytes in file names (bytes that are not UTF-8 are replaced) and nothing else is printed there.',
     ['inputs', 'configurations'], 'all trees, names, times and options with JSON output',
     'The tests parse one report of ASCII names and check that keys are present.',
     ['src/ft_report_json.c', 'src/ftwin.c'], [('JSON document built from the comparison groups', 'src/ft_report_json.c'), ('arguments made absolute', 'src/ftwin.c')],
     'strict parser with recomputed digests, sizes, times and paths', 'exploration', RUN)
prop('C08', 'Files that cannot be read or change during the scan do no harm',
     'Files and directories below the arguments that cannot be examined, opened or read, or that vanish, shrink, grow or are replaced during the scan, never make the run crash, fail or hang, and never bring files of different content together. The files they do not concern are reported as if they were absent, for privileged and unprivileged users alike. Only an argument that itself cannot be examined or listed makes the run fail.',
     ['fault_sequences', 'inputs'], 'all failures and concurrent changes of single files at any call, and all owners and modes',
     'No test makes a system call fail or changes a file during a scan; tests run as the owner of the fixtures.',
     ['src/ft_traverse.c', 'src/ft_process.c', 'src/ft_file.c', 'src/ft_report.c', 'src/ft_report_json.c'], [('status of every stat, open, read and map call is handled', 'src/ft_file.c, src/ft_traverse.c'), ('files are skipped with a message', 'src/ft_process.c')],
     'fault injection at the libc boundary with an exact report oracle, ASan/UBSan', 'fault_enumeration', RUN + ' Faults that hit in the middle of a comparison are judged by soundness and by the report of unrelated files.')
prop('C09', 'A scan never changes the file system',
     'Whatever the tree and the options (dry run or not), a scan opens files for reading only and creates, removes, renames, truncates or changes nothing: content, type, owner, mode, links and modification times of every entry are as before, and nothing is left in the temporary directory.',
     ['inputs', 'configurations'], 'all trees and command lines without archive extraction',
     'No test compares the tree before and after a scan.',
     CLI, [('files opened read-only', 'src/ft_file.c'), ('no operation on twins is implemented', 'src/ft_report.c')],
     'snapshot comparison and recorded libc calls', 'exploration', RUN)
prop('C10', 'No input makes the program crash, hang or corrupt memory',
     'For every command line, every content of ignore files, every file name and every depth of directories, the program ends by itself with a documented exit status and without undefined behaviour: no access outside an object, no use of freed or uninitialised memory that changes its result, no arithmetic overflow, no endless loop.',
     ['inputs'], 'all command lines, ignore files, names and trees',
     'Tests are run without sanitizers on well-formed input.',
     ['src/ft_config.c', 'src/ft_ignore.c', 'src/ft_traverse.c', 'src/ft_report.c', 'src/human_size.c', 'src/napr_hash.c', 'src/napr_heap.c'], [('bounds of pattern translation and path building', 'src/ft_ignore.c, src/ft_traverse.c')],
     'AddressSanitizer and UBSan with guarded pool allocations under hostile input', 'exploration', RUN)
prop('C11', 'The worker pool processes every task exactly once',
     'Every task given to the worker pool, also by several threads or by running tasks, is processed exactly once by at most the chosen number of workers at a time; waiting, also by several threads, returns only after all tasks given before have ended and always returns, and the pool can be used again afterwards. After shutdown no task is running or will run. A pool that cannot get all its threads is refused and leaves none of them behind.',
     ['schedules', 'histories'], 'all interleavings of workers and of the threads that add and wait, including spurious wakeups and any choice of the thread a signal wakes',
     'Two tests run one batch with whatever timing occurs.',
     ['src/napr_threadpool.c'], [('one mutex and condition protect queue, counters and flags', 'src/napr_threadpool.c')],
     'exactly-once monitor with injected delays and spurious wakeups, ThreadSanitizer', 'exploration', 'Schedules are perturbed, not enumerated.')
prop('C12', 'Parallel scans are free of data races',
     'Scans with any number of threads contain no data race: every memory location shared between the workers and the main thread, memory pools included, is accessed under synchronisation, and the report is that of the tree.',
     ['schedules'], 'all schedules of all worker counts',
     'Tests are run without a race detector.',
     ['src/ft_process.c', 'src/napr_threadpool.c', 'src/ft_file.c'], [('worker-local pools and a lock around the statistics', 'src/ft_process.c')],
     'ThreadSanitizer with pool allocations modelled as writes, and the partition oracle', 'exploration', 'The race detector sees the races of the executions made, independently of their timing to a large degree.')
prop('C13', 'Image mode reports exactly the similar pictures',
     'In image mode, exactly the pairs of readable PNG, JPEG and GIF files (by extension, in any case) whose distance is below the chosen threshold are reported, each pair once, under the larger file; files that are no readable picture are left out and do not disturb the others.',
     ['inputs', 'configurations'], 'all sets of pictures and all thresholds',
     'The tests compare two fixtures with the library functions.',
     ['src/ft_image.c', 'src/ft_config.c'], [('vectors computed by workers, compared pairwise', 'src/ft_image.c'), ('threshold levels', 'src/ft_config.c')],
     'differential runtime oracle (distances recomputed with libpuzzle)', 'exploration', RUN + ' Trusts libpuzzle and libgd.')
prop('C14', 'Human-readable sizes are parsed and shown exactly',
     'A size written as a number with an optional unit (B, K, M, G, T in either case, powers of 1024) is read as exactly that number of bytes; anything negative, malformed or too large is refused. A size shown uses the unit that fits it (B, KiB, MiB, ...), with bytes exact and other units within half a tenth.',
     ['inputs'], 'all sizes and all size texts',
     'A dozen values are tested.',
     ['src/human_size.c'], [('parsing with range check', 'src/human_size.c')],
     'arithmetic oracle on sampled values, UBSan', 'exploration', 'Sampled values around every power of two and unit.')
prop('C15', 'Entries of archives are extracted exactly or not at all',
     'Asked for a file entry of a tar or zip archive, the extraction yields a fresh temporary file with exactly the bytes of that entry. For a missing entry or a missing, cut or unreadable archive it yields nothing, and in every case it leaves no other temporary file, no open descriptor and the file creation mask unchanged.',
     ['inputs', 'fault_sequences'], 'all archives of regular files and all damages of them',
     'The tests extract one entry of a few fixtures.',
     ['src/ft_archive.c'], [('search for the entry, copy to a temporary file, remove it on error', 'src/ft_archive.c')],
     'differential runtime oracle (archives written by another implementation), resource monitors, ASan', 'exploration', 'Trusts libarchive; entries are regular files with ASCII names. Altered bytes of formats without checksums are only checked for resources and memory safety.')
prop('C16', 'The hash table is an exact map',
     'After any sequence of insertions of new keys, look-ups and removals, a look-up yields exactly the item stored under that key or nothing, iteration yields every stored item exactly once, and growing loses or duplicates nothing, whatever the initial size, filling factor and hash values.',
     ['histories'], 'all histories (fewer than a bucketful of keys with the same full hash value)',
     'The test inserts a fixed list of words once.',
     ['src/napr_hash.c'], [('buckets that are rebuilt twice as many when one is full', 'src/napr_hash.c')],
     'model-based monitor on ASan/UBSan runs', 'exploration', DBN)
prop('C17', 'The heap always yields the greatest element and loses none',
     'After any sequence of insertions, also from several threads through the reentrant interface, and extractions, an extraction yields an element of greatest priority among those present, every element comes out exactly once, and the size and the indexed view describe exactly the elements present.',
     ['histories', 'schedules'], 'all histories of insertions and extractions',
     'The test inserts and drains one list of numbers.',
     ['src/napr_heap.c'], [('binary heap in an array that doubles', 'src/napr_heap.c')],
     'model-based monitor on ASan/UBSan and ThreadSanitizer runs', 'exploration', DBN)
prop('C18', 'Wrong command lines are refused and never half obeyed',
     'A command line with an unknown option, an option without its argument, an invalid thread count, size, image threshold or expression, no path, or a path that does not exist ends with a failure status and a message, without any report. Requests for help or version print it and succeed without scanning.',
     ['inputs', 'configurations'], 'all command lines',
     'The tests try a few of the errors one at a time, first on the line.',
     ['src/ft_config.c', 'src/ftwin.c'], [('option parser', 'src/ft_config.c')],
     'exit status and output oracle on generated command lines', 'exploration', RUN)
prop('C19', 'File digests and comparisons depend on the bytes only',
     'The digest of a file is the 128-bit xxHash of its bytes and the comparison of two files of the given size tells them identical exactly when all their bytes are, whatever their size and the threshold between mapping and reading. A file that is missing or not of the given length is never digested as, or found identical to, another.',
     ['inputs', 'configurations'], 'all contents, sizes and thresholds',
     'The tests use a few small files and two thresholds.',
     ['src/ft_file.c'], [('mapping below the threshold, chunks above it', 'src/ft_file.c')],
     'differential runtime oracle on sizes around buffer and page boundaries, ASan/UBSan', 'exploration', 'Sampled files; trusts the bundled xxHash, which the JSON check compares with another implementation.')
prop('C20', 'A report that is not written completely is never a success',
     'A run in duplicate or image mode succeeds only if every byte of its report was accepted by standard output. When standard output is full, limited, closed, not read any more or otherwise refuses bytes at any point of a text, JSON or image report, the run ends with a failure status; when it accepts them all, the report is complete even if standard input or standard error cannot be used.',
     ['fault_sequences', 'configurations'], 'all points at which standard output may refuse bytes, in all report modes',
     'The tests always read the whole output.',
     ['src/ftwin.c', 'src/ft_report.c', 'src/ft_report_json.c', 'src/ft_image.c'], [('standard output flushed and checked after the report', 'src/ftwin.c'), ('status of the JSON writer', 'src/ft_report_json.c')],
     'fault injection on the output descriptors with an exact report oracle, ASan/UBSan', 'fault_enumeration', RUN + ' Requests for help and version are outside the claim.')

# ------------------------------------------------------------------ the embedded database
DB = ['src/napr_db.c', 'src/napr_db_tree.c', 'src/napr_db_cursor.c']
prop('D01', 'The database is an exact map of byte strings',
     'Within a transaction, after its commit and after reopening the file, looking up a key yields exactly the value last stored under it or that it is absent, for all keys and values that fit a page, whatever mix of insertions, updates, deletions (plain or conditional on the value) and page splits led there. Operations that succeed never affect other keys.',
     ['histories', 'inputs'], 'all histories of transactions over all key and value shapes and sizes',
     'The tests insert a few thousand similar keys in one order and delete a few.',
     DB, [('copy-on-write B+ tree with page splits', 'src/napr_db_tree.c, src/napr_db.c')],
     'model-based monitor (sorted map) on ASan/UBSan runs plus an independent reader of the file', 'exploration', DBN)
prop('D02', 'Cursors visit every key once in order, both ways',
     'In every transaction a cursor started at either end visits every stored pair exactly once in bytewise key order and then reports the end; seeking a key finds it exactly or the next greater one, and stepping forwards and backwards from any position moves to the neighbouring pair, also across empty and boundary pages.',
     ['histories', 'inputs'], 'all database contents and all sequences of cursor calls',
     'The tests iterate forward over sequential keys.',
     ['src/napr_db_cursor.c', 'src/napr_db_tree.c'], [('stack of pages from root to leaf', 'src/napr_db_cursor.c')],
     'model-based monitor (sorted map) on ASan/UBSan runs', 'exploration', DBN)
prop('D03', 'A read transaction sees one frozen version for its whole life',
     'A read transaction sees exactly the content committed when it began, unchanged until it ends, whatever is inserted, updated, deleted, committed or aborted meanwhile and however long it lives. Pages it can reach are never reused while it is open.',
     ['histories'], 'all histories of writers with any readers pinned at any versions',
     'The tests hold one or two readers over a couple of commits.',
     DB, [('copy-on-write pages, reader table and deferred page reuse', 'src/napr_db.c')],
     'model-based monitor re-reading pinned snapshots', 'exploration', DBN)
prop('D04', 'A crash leaves the last committed state or the one before it',
     'After a crash at any moment, whatever subset of the writes not yet flushed reached the disk, whole or torn, the file opens and shows exactly the state of the last commit that had returned, or of the one in progress, and can be used further. No committed transaction is lost or applied in part, and creating the file may be interrupted at any moment too.',
     ['crash_points', 'histories'], 'all crash points of all histories, with any subset of unflushed writes',
     'No test crashes; they reopen after a clean close.',
     ['src/napr_db.c'], [('pages flushed before one of two alternating meta pages is written and flushed', 'src/napr_db.c commit')],
     'crash-image enumeration over recorded writes and flushes with a state oracle', 'fault_enumeration', 'Every crash point of each recorded history; subsets and torn forms of unflushed writes are sampled. Assumes that flushed data survive.')
prop('D05', 'Failed writes leave the previous state intact and are reported',
     'When a write, flush, extension or mapping fails or is short during a commit or opening, the call reports failure, the previously committed state stays visible and durable, and later transactions either work on exactly that state or are refused until the database is reopened; nothing is half applied.',
     ['fault_sequences', 'histories'], 'all single failures of input and output at any call of any history',
     'No test makes a system call fail.',
     ['src/napr_db.c'], [('status of every write and flush is checked before the new version is published', 'src/napr_db.c')],
     'fault injection at the libc boundary with a state oracle', 'fault_enumeration', 'One failing call at a time, sampled over the calls of random histories.')
prop('D06', 'Aborted transactions and refused calls leave no trace',
     'After an abort, or after a call that was refused (item too large, read-only transaction, repeated insertion, database full), the visible content, the versions seen by readers and the space accounting are exactly as before, and the database stays usable.',
     ['histories'], 'all histories with aborts and refused calls anywhere',
     'The tests abort one transaction with a few insertions.',
     DB, [('dirty pages kept apart until commit', 'src/napr_db.c')],
     'model-based monitor and page audit', 'exploration', DBN)
prop('D07', 'Every page is used once or free, and space is reused',
     'After every commit each page of the file up to the last one is either part of the current trees exactly once or listed as free exactly once; trees are well formed (ordered, balanced, within their bounds). Pages freed by commits that no reader needs any more are used again, so a steady workload does not let the file grow without bound.',
     ['histories'], 'all histories of transactions and readers',
     'The tests check single page layouts and that one page is reused once.',
     DB, [('free list kept in a second tree, keyed by transaction', 'src/napr_db.c')],
     'independent page audit of the file after every commit', 'exploration', DBN)
prop('D08', 'Concurrent transactions are serialised and race-free',
     'With any number of threads, at most one write transaction is open at a time, none loses the effect of another, every read transaction sees exactly one committed version no older than the last commit that returned before it began, and ending transactions frees their slots. No data race occurs.',
     ['schedules', 'histories'], 'all interleavings of writers and readers of one process',
     'The concurrent tests run a few threads once without a race detector.',
     ['src/napr_db.c'], [('writer lock; readers register under a lock', 'src/napr_db.c')],
     'ThreadSanitizer with injected delays and a snapshot linearizability oracle', 'exploration', 'Schedules are perturbed, not enumerated.')

# ------------------------------------------------------------------ the hash cache
prop('K01', 'The hash cache returns exactly what was stored',
     'A look-up in the cache yields exactly the modification time, change time, size and digest last committed (or stored earlier in the same transaction) for that path, or that there is none, in every session, also after closing and reopening. Aborted changes leave no trace, and entries held by a reader stay valid during its transaction.',
     ['histories', 'inputs'], 'all histories of sessions and transactions over all paths',
     'The tests store and read a few paths in one session.',
     ['src/napr_cache.c', 'src/napr_db.c'], [('entries stored in the embedded database keyed by path', 'src/napr_cache.c')],
     'model-based monitor on ASan/UBSan runs', 'exploration', DBN)
prop('K02', 'Sweeping removes exactly the entries not visited',
     'After marking paths as visited, from any number of threads, a sweep removes exactly the entries whose path was not marked since the session began or the last sweep, and leaves the others unaltered, whatever the number of entries. Marks do not survive the session.',
     ['histories', 'schedules'], 'all histories of marks and sweeps',
     'The tests sweep a few entries once.',
     ['src/napr_cache.c'], [('table of visited paths under a lock; deletion by cursor', 'src/napr_cache.c')],
     'model-based monitor on ASan/UBSan and ThreadSanitizer runs', 'exploration', DBN)
prop('K03', 'One process at a time owns a cache',
     'While a process has a cache open, opening it again, from this or any other process, is refused at once; after the owner closes it, exits or is killed, the next process can open it and sees everything that was committed.',
     ['schedules', 'crash_points'], 'all orders of opening, closing and killing of processes',
     'One test opens the cache twice.',
     ['src/napr_cache.c'], [('exclusive lock on a lock file', 'src/napr_cache.c')],
     'multi-process monitor with killed owners', 'exploration', DBN)

if __name__ == '__main__':
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'hook_needed': None}
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 bin/setup.py', 'hooks': {'guard': 'none (no hooks in /repo: the checks interpose libc and APR calls at link time)', 'enable': 'not needed', 'source_commits': []},
         'checks': [{'property': p['id'], 'quick_cmd': 'python3 bin/check.py %s quick' % p['id'], 'thorough_cmd': 'python3 bin/check.py %s thorough' % p['id'], 'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'], 'level': p['level'], 'level_note': p['note']} for p in P],
         'not_applicable': [], 'notes': 'See DESIGN.md. The only changes to /repo are "fix:" commits, listed in known-findings.txt.'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
