"""Checks of ftwin's building blocks through their public headers (harness/lib.cpp)."""
from common import *
from dbchecks import absorb

LIB_WRAPS = ['apr_thread_mutex_lock', 'apr_thread_mutex_unlock', 'apr_thread_cond_wait', 'apr_thread_cond_signal', 'apr_thread_cond_broadcast', 'apr_thread_create']


def lib(prop, tier, mode, n, rule, need, variants=('asan',), chunk=20, evals=('histories',), assume=(), nontrivial=('distinct_cases',)):
    chk = Check(prop, tier, 'exploration', rule, list(assume))
    for v, share in variants if isinstance(variants[0], tuple) else [(v, 1) for v in variants]:
        exe = chk.b.harness(v, 'lib.cpp', 'libmon-' + v, wraps=LIB_WRAPS, guard=v == 'asan')
        total = max(1, int(n[tier != 'quick'] * share))
        st = run_harness(chk, exe, ['--mode', mode], total, max(1, min(chunk, -(-total // 16))), timeout=200, env={'ASAN_OPTIONS': env_for()['ASAN_OPTIONS'] + ':hard_rss_limit_mb=3500'})
        absorb(chk, st, evals, nontrivial)
    return chk.finish(need)


def C11(tier):
    return lib('C11', tier, 'pool', (2400, 40000), 'random histories of a worker pool (1 to 16 workers, rounds of 0 to 200 tasks, tasks adding tasks, several adding threads, several threads that add and wait, repeated waits, shutdown with and without waiting, threads that cannot be created) with seeded delays and spurious wakeups around its synchronisation and signals that unblock any of the blocked threads, in plain and ThreadSanitizer builds; every task is counted; distinct by pool and rounds',
               ['tasks', 'waits', 'nested_rounds', 'rounds_with_several_adders', 'empty_rounds', 'shutdowns_without_wait', 'spurious_wakeups?', 'parallel_histories', 'pools_without_all_threads?', 'waits_of_several_users', 'signals_with_a_choice?'], (('plain', .6), ('tsan', .4)), chunk=40)


def C14(tier):
    return lib('C14', tier, 'size', (800, 20000), 'integers and decimal fractions around every power of two and unit, written with every suffix, against exact integer arithmetic; formatted sizes are read back and compared with the number and its unit; malformed, negative and unrepresentable texts must be refused; distinct by the number or text', ['formatted', 'parsed', 'too_large', 'refused'], evals=('formatted', 'parsed', 'refused'))


def C16(tier):
    return lib('C16', tier, 'hash', (1600, 30000), 'random histories of look-ups, insertions and removals on tables of all initial sizes and filling factors with good and bad hash functions (also of very few values), against a map; iterations must yield every entry once; distinct by table and draw', ['lookups', 'inserts', 'removals', 'iterations', 'huge_tables', 'tables_of_colliding_keys'])


def C17(tier):
    return lib('C17', tier, 'heap', (800, 15000), 'random histories of insertions (also from several threads, under ThreadSanitizer) and extractions with few, many and ordered priorities, against a multiset; distinct by heap and draw', ['inserts', 'extracts', 'views', 'concurrent_inserts', 'empty_extracts', 'huge_heaps'], (('asan', .8), ('tsan', .2)))


def C19(tier):
    return lib('C19', tier, 'digest', (800, 15000), 'files of sizes around every buffer, page and block boundary, digested and compared with every reading strategy; identical pairs, pairs differing in one bit anywhere, by one byte of length, and missing files; reads and mappings that fail or are short: what succeeds all the same must be right; distinct by content', ['faults_of_reads_and_mappings?', 'digests', 'comparisons', 'identical_pairs', 'different_pairs', 'missing_files', 'no_files_any_more'])
