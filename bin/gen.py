#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and spec.py (run by hand after editing)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(V, 'bin'))
from spec import PROPS
W, R, T, I, Q, S, X, SB, U, M = ('banyan/src/forest/write.rs', 'banyan/src/forest/read.rs', 'banyan/src/tree.rs', 'banyan/src/index.rs', 'banyan/src/query.rs', 'banyan/src/forest/stream.rs', 'banyan/src/forest/index_iter.rs', 'banyan/src/stream_builder.rs', 'banyan/src/util.rs', 'banyan/src/forest/mod.rs')
Z, BC, MC, MS, TZ = ('banyan/src/store/zstd_dag_cbor_seq.rs', 'banyan/src/store/branch_cache.rs', 'banyan/src/store/mem_cache.rs', 'banyan/src/store/mem_store.rs', 'banyan/src/store/thread_local_zstd.rs')
TG, TI = ('banyan-utils/src/tags.rs', 'banyan-utils/src/tag_index.rs')
P = {}
def p(i, title, st, over, text, why, files, *mech): P[i] = dict(id=i, title=title, statement=st, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
p('C01', 'Every element appended to a stream is stored and read back, in order',
  'After any sequence of appends (extend, extend_unpacked, push) and packs, in any batch sizes and with any valid configuration, the tree contains exactly the appended key/value pairs at offsets 0, 1, 2, ... in append order. Count, emptiness, collect, iter_from and unfiltered iteration all agree with that sequence, also for a reader that starts with nothing but the stored blocks.',
  ['histories', 'inputs', 'configurations'], 'all sequences of append and pack operations, all batch sizes, keys, values and limits', 'the tests build trees by random batches with one configuration (equal branch limits) and seldom mix packed and unpacked appends',
  [W, T, R, Z], ('extend_above / extend0 / extend_leaf / extend_branch', W), ('extend, extend_unpacked, pack, push', T), ('collect0 and TreeIter', R))
p('C02', 'Packing keeps the content and yields a packed tree',
  'Packing any tree leaves its content unchanged and gives a tree in which only the rightmost path contains unsealed nodes and every node respects the configured limits. Packing a packed tree writes nothing and changes nothing, packing twice equals packing once, and the leading sealed leaves of the tree are reused without being rewritten.',
  ['histories', 'inputs', 'configurations'], 'all histories before the pack and all limits', 'the tests sample random batches with one fixed configuration in which all branch limits are equal',
  [T, W, R], ('pack, tree_from_roots', T), ('simplify_roots, find_valid_branch', W), ('roots0, is_packed0', R))
p('C03', 'The structure of a packed tree depends on its content, not on the batching',
  'Appending the same elements in one batch or split into any number of batches with extend gives trees of identical structure. If part of the elements was added unpacked and packed later, leaf boundaries and all sealed nodes are still the same as for the single batch.',
  ['histories', 'inputs', 'configurations'], 'all ways to split a sequence of elements into extend, push, extend_unpacked and pack calls', 'no test compares the structure of trees built in different ways',
  [W, T, M], ('extend_above fills nodes left to right', W), ('branch_sealed', M), ('pack', T))
p('C04', 'Trees always satisfy the structural invariants',
  'After any history each leaf has one value per key and at most the configured number of values, is sealed exactly when it is full, and each branch has at most the configured number of children for its level, a level one above its highest child, and is sealed exactly when it is full of sealed children one level below. Element counts, the key summaries, the value sizes and the index sizes stored in a branch equal those recomputed from below, the invariant check of the library reports nothing, and is_packed answers according to its definition.',
  ['histories', 'inputs', 'configurations'], 'all histories of appends and packs and all limits', 'assert_invariants in the tests checks a subset (no limits, no counts, no sizes) and only with one configuration',
  [W, M, R, I], ('new_branch, extend_branch, extend_leaf', W), ('branch_sealed', M), ('check_invariants0, is_packed0', R))
p('C05', 'Queries return exactly the matching elements',
  'Filtered iteration and filtered streaming return exactly the elements that match the query, each once, with its offset, key and value, in offset order. This holds for offset ranges with every kind of bound, key queries answered through summaries, match-all, match-nothing, and their intersections and unions.',
  ['inputs', 'histories', 'configurations'], 'all trees and all queries, bounds and combinations', 'the tests sample random offset ranges and key filters; unions and most kinds of bounds are never used',
  [Q, R, U], ('OffsetRangeQuery, AndQuery, OrQuery', Q), ('TreeIter::next_fallible, ChunkVisitor::leaf', R), ('RangeBoundsExt::intersects', U))
p('C06', 'Reverse iteration is the exact reverse of forward iteration',
  'For every tree and query, reverse filtered iteration yields the same elements as forward filtered iteration in exactly reversed order. The reverse chunked variant yields the same elements, with the data inside of each chunk in ascending order.',
  ['inputs', 'histories', 'configurations'], 'all trees and queries', 'reverse iteration over elements is not tested at all, the chunked variant only on random samples',
  [R, T], ('TreeIter in Backward mode, iter_filtered_reverse0', R), ('iter_filtered_reverse', T))
p('C07', 'Chunks cover the whole tree without gaps, even where data is purged',
  'Chunked iteration, forward or reverse, as iterator or as stream, yields chunks whose ranges are non-empty, adjacent and together cover the whole tree, whatever the query and whatever has been purged. Each chunk contains exactly the matching available elements of its range in ascending order, and its extra data is computed from the node that covers its range.',
  ['inputs', 'histories', 'configurations'], 'all trees, queries and purged parts', 'the no-holes tests use trees without purged parts and random filters',
  [R, T], ('TreeIter::next_fallible, skip', R), ('iter_filtered_chunked(_reverse), stream_filtered_chunked(_reverse)', T))
p('C08', 'Random access by offset agrees with the content',
  'get returns the element at an offset, None for offsets beyond the end and for purged elements, for every 64-bit offset. collect_from returns one entry for each element from the given offset on, None exactly for the purged ones.',
  ['inputs', 'histories', 'configurations'], 'all trees, offsets and purged parts', 'the tests read in-range offsets of trees without purged parts',
  [R, T], ('get0, collect0', R), ('get, collect_from', T))
p('C11', 'Snapshots are immutable',
  'A snapshot of a stream keeps its content whatever is done to the stream afterwards: appends, packing or purging. Existing blocks are never modified, so that a snapshot loaded again from its link has the same content too.',
  ['histories', 'inputs', 'configurations'], 'all histories after the snapshot', 'the tests hold at most one snapshot and do not modify the stream while it is used',
  [SB, T, W], ('StreamBuilder::snapshot', SB), ('Arc based persistent indexes, append only block writes', W))
p('C14', 'A stream can be loaded from its root link and continued',
  'Loading the link of any non-empty stream gives a tree and a builder with the same content, level, counts, summaries and size statistics. Appending to the loaded builder yields the same structure and content as appending to the original one, and the loaded tree is reported as packed exactly if the original is. A stream that is loaded with other branching limits than it was built with can be read, extended and packed without losing or changing an element.',
  ['histories', 'inputs', 'configurations'], 'all histories before the reload and all appends after it', 'reloading is only exercised in two example based tests',
  [T, R, W], ('load_tree, load_stream_builder', T), ('create_index_from_link', R))
p('C19', 'Streaming over a growing sequence of trees delivers each element once',
  'Streaming a sequence of ever larger trees of the same stream forward delivers exactly the matching elements of the requested inclusive offset range, each once, in order, and ends when the end of the range is reached; nothing is skipped or repeated after a transient read error in one of the trees. The reverse variant delivers the elements of the first readable tree in the range in strictly descending order without repetition, and both work with leading empty trees.',
  ['histories', 'inputs', 'fault_sequences', 'configurations'], 'all sequences of snapshots, ranges, queries and single read faults', 'the tests use one batch per tree without faults, and for the reverse direction a single tree',
  [S, U, R], ('stream_trees_chunked, stream_trees_chunked_reverse', S), ('take_until_condition', U))
p('C25', 'Index iteration visits exactly the relevant nodes in both directions',
  'Index iteration visits each node that the query does not exclude exactly once, parents before children, left to right; reverse index iteration visits the same nodes with the leaves in exactly reversed order. This also holds when parts of the tree are purged.',
  ['histories', 'inputs', 'configurations'], 'all trees, purged parts and queries', 'the only test uses the match-all query on unpurged trees',
  [X, T], ('IndexIter', X), ('iter_index, iter_index_reverse', T))
NA = {}
def na(i, title, st, over, text, why, files, reason, *mech): p(i, title, st, over, text, why, files, *mech); NA[i] = reason
exec(open(os.path.join(V, 'bin', 'more_props.py')).read()) if os.path.exists(os.path.join(V, 'bin', 'more_props.py')) else None
NOTE = 'Bounded: holds for every value, history, query and fault schedule within the bounds given in spec.py and in the evidence; the solver decides every branch and assertion on the LLVM bitcode of the real code. Trusted: the executor in /verif/engine, z3, rustc; zstd is replaced by a model of its contract (counterexamples and sampled paths are replayed natively with the real library).'
def main():
    props = [P[k] for k in sorted(P) if k in PROPS or k in NA]
    open(os.path.join(V, 'properties.jsonl'), 'w').write(''.join(json.dumps(x) + '\n' for x in props))
    checks = [dict(property=k, quick_cmd='python3 bin/check.py %s' % k, thorough_cmd='python3 bin/check.py %s --tier thorough' % k, evidence_file='evidence/%s.json' % k, technique='symbolic execution of the compiled code (LLVM bitcode), z3 decides all branches and assertions within bounds', level='model_checking', level_note=(PROPS[k].get('note', '') + ' ' + NOTE).strip()) for k in sorted(PROPS)]
    json.dump(dict(version=1, setup_cmd='bash bin/setup.sh', checks=checks, not_applicable=[dict(property=k, reason=NA[k]) for k in sorted(NA)], notes='See DESIGN.md. No hooks in /repo are needed; the harness crate uses the public API.'), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    for x in props:
        assert len(x['title']) <= 80, x['id']
        assert x['statement'].count('. ') <= 2, x['id']
        assert x['id'] in PROPS or x['id'] in NA
    assert set(PROPS) <= set(P), set(PROPS) - set(P)
if __name__ == '__main__': main()
