"""Checks of the embedded database and of the hash cache (C++ harnesses in harness/)."""
import os
from common import *

DB_ASSUME = ['single process holds the database (the cache lock provides that)', 'the filesystem stores what write() accepted and the page cache is coherent with the mapping']
CONC_WRAPS = ['apr_thread_mutex_lock', 'apr_thread_mutex_unlock', 'apr_proc_mutex_lock', 'apr_proc_mutex_unlock', 'apr_file_sync', 'apr_file_write_full']


CACHE_WRAPS = ['apr_file_open', 'apr_file_close', 'apr_file_lock', 'apr_file_unlock', 'apr_file_remove']


def absorb(chk, stats, evals, nontrivial):
    for k, v in stats.items():
        if k.startswith('max_'):
            chk.maxi(k, v)
        else:
            chk.count(k, v)
    chk.evaluations += sum(stats.get(k, 0) for k in evals)
    chk.nontrivial_extra += sum(stats.get(k, 0) for k in nontrivial)
    chk.sample({'totals of the monitored run': stats})


def dbhist(prop, tier, focus, n, rule, need, nontrivial, evals=('histories',), ancient=(0, 0), conc=(0, 0)):
    chk = Check(prop, tier, 'exploration', rule, DB_ASSUME)
    exe = chk.b.harness('asan', 'dbhist.cpp', 'dbhist', guard=True)
    q, t = n
    total = q if tier == 'quick' else t
    st = run_harness(chk, exe, ['--focus', focus], total, max(1, min(25, -(-total // 16))), timeout=150)
    absorb(chk, st, evals, nontrivial)
    q, t = ancient
    if q:
        exe = chk.b.harness('plain', 'dbhist.cpp', 'dbhist_plain')
        st = run_harness(chk, exe, ['--focus', 'ancient'], q if tier == 'quick' else t, 1, timeout=200)
        absorb(chk, st, evals, nontrivial)
    q, t = conc
    if q:          # readers and writers on several threads, readers held up between the steps of beginning
        exe = chk.b.harness('plain', 'dbconc.cpp', 'dbconc_plain', wraps=CONC_WRAPS)
        st = run_harness(chk, exe, ['--slow', '70'], q if tier == 'quick' else t, 10, timeout=200)
        absorb(chk, {'threads_' + k if not k.startswith('max_') else k: v for k, v in st.items()}, ['threads_snapshots_checked', 'threads_rereads'], ['threads_commits'])
    return chk.finish(need)


def D01(tier):
    return dbhist('D01', tier, 'map', (600, 8000), 'random histories of transactions (put, update, conditional delete, get, commit, abort, reopen) over key sets from 1 to thousands of keys with adversarial key shapes, against a sorted-map model; a case is one committed transaction whose result is compared in full, distinct and non-trivial by the map content it leads to', ['commits', 'updates', 'deletes', 'gets', 'reopens'], ['distinct_states'], ['commits'])


def D02(tier):
    return dbhist('D02', tier, 'cursor', (450, 6000), 'random histories; in and between transactions every cursor operation (first, last, next, prev, exact and range seek, current) is compared with the sorted model, forwards and backwards; a case is one scan, distinct by the committed map content scanned', ['scans', 'seeks', 'cursor_entries', 'empty_leaves_seen', 'steps_without_an_output'], ['distinct_states'], ['scans'])


def D03(tier):
    return dbhist('D03', tier, 'snap', (450, 6000), 'random histories with up to many pinned readers begun at arbitrary commits; each is re-read in full after later commits and must still show its own version; a case is one full re-read of a pinned reader, distinct by the committed map contents that were pinned or written meanwhile', ['pinned_readers', 'pinned_reader_checks', 'commits', 'reader_crowds', 'long_readers', 'threads_snapshots_checked'], ['distinct_states'], ['pinned_reader_checks'], ancient=(8, 80), conc=(120, 2000))


def D06(tier):
    return dbhist('D06', tier, 'abort', (450, 6000), 'random histories where about half of the transactions are aborted or hit refused operations (duplicates, oversized items, full map); afterwards the content and the page accounting must be those before; a case is one transaction or refused call, non-trivial the aborted transactions and refused calls', ['aborts', 'refused_calls', 'commits', 'read_only_sessions', 'foreign_files'], ['aborts', 'refused_calls'], ['commits', 'aborts', 'refused_calls'])


def D07(tier):
    return dbhist('D07', tier, 'pages', (450, 6000), 'after commits an independent parser of the file format walks the tree and the free list: every page is reachable exactly once or free, and a steady workload stops growing the file; a case is one audit of the whole file, distinct by the committed map content', ['page_audits', 'pages_audited', 'commits_without_growth', 'steady_workloads', 'steady_large_transactions', 'long_readers'], ['distinct_states'], ['page_audits'], ancient=(8, 80))


def D04(tier):
    chk = Check('D04', tier, 'fault_enumeration', 'every write, flush and truncation the database issues is intercepted; at every point of every recorded commit the file images a crash can leave (unsynced writes dropped, kept or torn, in any subset sampled) are rebuilt, reopened and compared with the state before or after the commit; distinct by (history, crash point)', DB_ASSUME + ['a crash keeps everything flushed before it, and any subset of what was not'])
    exe = chk.b.harness('plain', 'dbcrash.cpp', 'dbcrash', extra=['-rdynamic'])
    total = 320 if tier == 'quick' else 4800
    st = run_harness(chk, exe, ['--mode', 'crash'], total, 10 if tier == 'quick' else 25, timeout=200)
    absorb(chk, st, ['images'], ['crash_points'])
    return chk.finish(['crash_points', 'images', 'recovered_old', 'recovered_new', 'torn_writes?', 'lost_sectors?'])


def D05(tier):
    chk = Check('D05', tier, 'fault_enumeration', 'random histories in which chosen write, flush, truncate or map calls fail (EIO, ENOSPC, EDQUOT, EFBIG, EINTR, short write); a failed commit must leave the previous state visible and durable and the database usable or refusing; a case is one state of the file compared with the model (after a commit, a failure or a reopening), non-trivial those right after an injected fault', DB_ASSUME)
    exe = chk.b.harness('plain', 'dbcrash.cpp', 'dbcrash', extra=['-rdynamic'])
    total = 1600 if tier == 'quick' else 20000
    st = run_harness(chk, exe, ['--mode', 'fault'], total, 40, timeout=200)
    absorb(chk, st, ['images', 'commits'], ['faults_injected'])
    return chk.finish(['faults_injected?', 'failed_commits?', 'commits', 'failed_opens?', 'failed_creations?'])


def D08(tier):
    chk = Check('D08', tier, 'exploration', 'several writer and reader threads on one database under ThreadSanitizer with seeded delays around locks, flushes and writes; writers must serialise, readers see exactly one committed version each, all reader slots return; a case is one full read of a snapshot checked against the log of committed versions, distinct by the version committed', DB_ASSUME)
    exe = chk.b.harness('tsan', 'dbconc.cpp', 'dbconc', wraps=CONC_WRAPS)
    total = 160 if tier == 'quick' else 2400
    st = run_harness(chk, exe, [], total, 10, timeout=200)
    absorb(chk, st, ['snapshots_checked', 'rereads'], ['commits'])
    return chk.finish(['commits', 'snapshots_checked', 'max_concurrent_readers'])


def K01(tier):
    chk = Check('K01', tier, 'exploration', 'random sessions of the hash cache (open, read and write transactions, lookups, upserts, aborts, close, reopen) against a map model, under ASan and UBSan; a case is one look-up, non-trivial those that hit', DB_ASSUME)
    exe = chk.b.harness('asan', 'cache.cpp', 'cache', CACHE_WRAPS, guard=True)
    total = 1200 if tier == 'quick' else 16000
    st = run_harness(chk, exe, ['--mode', 'map'], total, 30, timeout=100)
    absorb(chk, st, ['lookups'], ['hits'])
    return chk.finish(['hits', 'misses', 'upserts', 'aborts', 'reopens', 'failed_commits?'])


def K02(tier):
    chk = Check('K02', tier, 'exploration', 'random sessions with marks from several threads and sweeps, ASan/UBSan and ThreadSanitizer builds; after a sweep exactly the visited entries remain, unaltered; a case is one entry judged by a sweep or looked up, non-trivial those swept or kept', DB_ASSUME)
    total = 480 if tier == 'quick' else 8000
    exe = chk.b.harness('asan', 'cache.cpp', 'cache', CACHE_WRAPS, guard=True)
    st = run_harness(chk, exe, ['--mode', 'sweep'], total, 15, timeout=100)
    absorb(chk, st, ['entries_swept', 'entries_kept', 'lookups'], ['entries_swept', 'entries_kept'])
    exe = chk.b.harness('tsan', 'cache.cpp', 'cache_tsan', CACHE_WRAPS)
    st = run_harness(chk, exe, ['--mode', 'sweep'], total // 4, 8, timeout=150)
    absorb(chk, st, ['entries_swept', 'entries_kept', 'lookups'], ['entries_swept', 'entries_kept'])
    return chk.finish(['sweeps', 'entries_swept', 'entries_kept', 'marks', 'bulk_sessions'])


def K03(tier):
    chk = Check('K03', tier, 'exploration', 'real processes contend for one cache file: while one holds it every other open must be refused, and after the holder closes, exits or is killed the next one gets in and sees all that was committed; a case is one look-up after a handover, a handover or a refused open, non-trivial the handovers and refusals', DB_ASSUME)
    exe = chk.b.harness('asan', 'cache.cpp', 'cache', CACHE_WRAPS, guard=True)
    total = 480 if tier == 'quick' else 6000
    st = run_harness(chk, exe, ['--mode', 'excl'], total, 15, timeout=75)
    absorb(chk, st, ['lookups', 'handovers', 'refused_opens'], ['handovers', 'refused_opens'])
    return chk.finish(['handovers', 'refused_opens', 'killed_holders', 'contended_turns', 'contended_refusals?', 'lost_half_transactions', 'failed_opens?'])
