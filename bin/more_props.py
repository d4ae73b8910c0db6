p('C30', 'Threaded streaming delivers each element once under every schedule',
  'Streaming a growing sequence of trees on a thread pool delivers exactly the matching elements of the requested range, each once and in order, whatever the scheduling of producer and consumer, and ends when the sequence of trees ends. After a transient read error in one of the trees nothing is skipped or repeated, a consumer may stop at any time, and no schedule leads to a deadlock or endless loop.',
  ['schedules', 'histories', 'inputs', 'fault_sequences'], 'all interleavings of producer threads and consumer with a bounded number of preemptions, all sequences of snapshots, ranges, queries and single read faults', 'no test uses the threaded variant', [S, U],
  ('stream_trees_chunked_threaded', S), ('ToStreamExt::into_stream', U))
p('C31', 'Forests, caches and memory stores are safe under concurrent use',
  'Threads that share a forest with its branch cache, a memory cache or a memory store read exactly what was stored under the requested link: a reader sees exactly its snapshot while another thread appends, and two writers each get the tree they wrote. A memory store never exceeds its capacity and refuses a block only if it does not fit, and no schedule leads to a deadlock.',
  ['schedules', 'histories', 'inputs', 'configurations'], 'all interleavings of two threads with a bounded number of preemptions, all cache capacities', 'the tests use each store from a single thread', [BC, MC, MS, R],
  ('Mutex around all shared state', MC), ('put0: check and insert under one lock', MS), ('load_branch_cached_from_link', R))
na('C92', 'The ipfs block store returns what was stored',
   'Blocks written through the ipfs backed store are returned unchanged by later reads.',
   ['histories', 'fault_sequences'], 'all histories of puts and gets', 'there are no tests of this store', ['banyan-utils/src/ipfs.rs'],
   'a thin wrapper around an HTTP client on an async runtime; what matters lies in the client and the ipfs daemon, which cannot be encoded',
   ('IpfsStore', 'banyan-utils/src/ipfs.rs'))
DU, SQ = 'banyan-utils/src/dump.rs', 'banyan-utils/src/sqlite.rs'
p('C32', 'Dumps and drawings show exactly what is stored',
  'The dump of an encrypted block shows each of its items once and in order, as dag-json or in cbor notation, a plain block is shown as its single item, and a missing block or a wrong key never yields items. The drawing of a tree has every node and edge once, with the right shape, label and fill.',
  ['inputs', 'histories', 'configurations'], 'all contents of blocks, all trees', 'there are no tests of the dumps', [DU, Z, T],
  ('dump_json, dump_cbor, graph', DU), ('ZstdDagCborSeq::items, items_ipld, decrypt', Z))
p('C33', 'The sqlite backed store returns exactly the stored blocks',
  'A block written through the sqlite backed store is found unchanged under its digest through any handle of the store, anything else is reported as missing, and a tree built on the store can be loaded again from its root link. A failure of the database is reported by the operation that hit it, and no other operation is affected.',
  ['histories', 'fault_sequences', 'inputs'], 'all histories of puts, gets and database failures', 'there are no tests of this store', [SQ, TG],
  ('SqliteStore::get, put', SQ), ('Sha256Digest: link and content identifier', TG))
L, TX = 'banyan/src/lib.rs', 'banyan/src/forest/prelude.rs'
ER = 'banyan/src/store/mod.rs'
p('C09', 'No position of an encryption key stream is used for two different plaintexts',
  'Over the whole life of a stream, every byte position of the key stream that belongs to a stream key and nonce encrypts at most one plaintext. This also holds after failed writes, rolled back transactions, packing, and after loading the stream again from the link of its latest tree and continuing there.',
  ['histories', 'fault_sequences', 'configurations'], 'all histories of appends, packs, write faults, rollbacks and reloads', 'no test looks at stream offsets across failures, rollbacks or reloads',
  [SB, T, W, Z], ('offset reservation in the stream builder state', SB), ('persist_leaf, persist_branch', W), ('ZstdDagCborSeq::encrypt/decrypt, embedded offset', Z), ('load_stream_builder: range of the root', T))
p('C10', 'Failed operations leave the stream builder as it was before',
  'If an append, pack, retain or repair fails because of a store error, the builder still represents exactly the tree it had before the operation, and the operation can be repeated successfully once the fault is gone. A dropped uncommitted stream transaction restores the tree it started from, and a failed or rolled back operation never affects content committed before.',
  ['histories', 'fault_sequences', 'configurations'], 'all histories and all positions of a read or write fault', 'the tests never inject store faults and have one rollback example',
  [T, SB, W], ('extend, extend_unpacked, pack, retain, repair', T), ('StreamBuilderTransaction drop', SB))
p('C12', 'Retain purges only sealed nodes without any retained element',
  'Retaining by a query never loses an element that matches the query, never changes offsets, count, keys or values of the remaining elements, and never purges unsealed nodes. What it removes are whole sealed leaves or branches without a matching element; repeating it changes nothing, and the builder can be extended afterwards.',
  ['inputs', 'histories', 'configurations'], 'all trees and retention queries, repeated and followed by appends', 'the tests check offset queries on a few sampled trees only',
  [W, T], ('retain0', W), ('retain', T))
p('C13', 'Repair keeps everything that is readable and makes the tree readable',
  'Repairing a tree of which any blocks are missing or corrupt keeps each element that can still be read with its offset, key and value, and marks the rest as purged. Afterwards the whole tree can be traversed without errors, its count is unchanged, and repairing an intact tree changes nothing.',
  ['fault_sequences', 'histories', 'configurations'], 'all subsets of lost or damaged blocks', 'the only test removes blocks at random from one tree',
  [W, T], ('repair0', W), ('repair', T))
p('C15', 'Block encoding round trips and damaged blocks are errors, never crashes',
  'Every sequence of values that is written into a block is read back identically, with the stream offset it was written at, whatever key, nonce, offset and compression level are used. Decoding a block that is damaged, truncated, empty or encrypted with other parameters gives an error or a value, but never a crash.',
  ['inputs'], 'all values, offsets and damaged bytes', 'the tests encode a few examples and never decode damaged blocks',
  [Z, I, TZ], ('ZstdDagCborSeq::from_iter, fill, items, encrypt, decrypt', Z), ('serialize_compressed, deserialize_compressed', I))
p('C16', 'All links inside of a block are visible without the decryption key',
  'The unencrypted part of a block lists exactly the content links contained in its encrypted values, so that a store can follow them without the key. This holds for blocks that were filled in several steps as well.',
  ['inputs', 'histories'], 'all values containing links, in any number of fill steps', 'one example test with a single step',
  [Z], ('scrape_links, new, fill, into_cbor_and_links', Z))
p('C17', 'Elements of a value block are addressed by their index',
  'Reading the element with a given index, or a selected subset of the elements, of a value block yields exactly those elements in order, for every index including those beyond the end. Filling a block takes a prefix of the offered elements and leaves the rest untouched, no element is lost or duplicated.',
  ['inputs'], 'all value sequences, indexes and selections', 'the tests read all elements of a block at once',
  [Z, R], ('items, select, get', Z), ('fill', Z))
p('C18', 'Leaves respect the configured sizes',
  'A leaf never exceeds the maximum uncompressed size and the maximum count; a leaf that is not sealed could not be full by any of the limits. An element that alone exceeds the uncompressed limit is refused with an error, no element is dropped silently, and appending always makes progress.',
  ['inputs', 'configurations', 'histories'], 'all element sizes and limits', 'the tests use one configuration whose byte limits are never reached except by a single example',
  [Z, W, M], ('ZstdDagCborSeq::fill', Z), ('extend_leaf', W), ('Config', M))
p('C20', 'Caches and memory stores return exactly what was stored',
  'A memory store, and reading through memory or branch caches of any capacity, returns the same blocks as a plain store; a block is found again until it is explicitly refused with an error because of the capacity limit, and storing an existing block again succeeds. A failed write never leaves an entry in a cache, and a tree is read identically with and without caches.',
  ['histories', 'inputs', 'configurations', 'fault_sequences'], 'all sequences of reads and writes and all capacities', 'the caches are used in the tests with one large capacity, the limit of the memory store is never reached',
  [MC, MS, BC, ER], ('MemWriter, MemReader', MC), ('MemStore::put, get', MS), ('BranchCache', BC))
p('C21', 'Tag expressions, their normal form and tag index matching agree',
  'For every boolean tag expression and every set of tags, evaluating the expression, its disjunctive normal form, its simplified form and its printed form give the same answer, and matching against a tag index yields exactly the satisfying elements in ascending order. The normal form is minimal, so that equivalent expressions have the same normal form, and expressions without operands mean true (and) or false (or).',
  ['inputs'], 'all expressions and tag sets', 'the tests evaluate eight fixed expressions',
  [TI], ('Expression::dnf, simplify, Display', TI), ('insert_unless_redundant', TI), ('TagIndex::matching', TI))
p('C22', 'Tag queries select exactly the events contained in one of their clauses',
  'A tag query returns an event exactly if one of its clauses contains it: the time range of the clause spans the time of the event and the tags of the clause include all tags of the event. The answer depends neither on the other clauses or on tags that the data does not contain, nor on how the events are arranged in leaves and branches; subtrees with a selected event are never skipped.',
  ['inputs', 'histories'], 'all queries, events with tags and arrangements in nodes', 'there is no test of tag queries',
  [TG, TI], ('DnfQuery, TranslatedDnfQuery', TG), ('map_to_index_set', TI))
p('C23', 'Tagged key sequences, summaries and links keep their content',
  'A sequence of keys with tags gives back its keys by index, selection and order, and survives encoding and decoding, also as JSON. Its summary holds exactly the smallest and largest times and the union of the tags, also when summarizing summaries; encoded tag tables decode to exactly the encoded tags or are refused, and links are exactly the sha2-256 dag-cbor content identifiers, in binary and in textual form.',
  ['inputs'], 'all keys, tag tables and content identifiers', 'one property test of the JSON form of the tag index',
  [TG, TI], ('KeySeq: CompactSeq, Summarizable, FromIterator', TG), ('TagIndex::from_elements, Encode, Decode', TI), ('Sha256Digest', TG))
p('C24', 'Stored indexes decode to what was encoded',
  'Encoding a leaf or branch index and decoding it yields the same index: keys or summaries, links including absent ones, sealed flags, levels, counts and sizes, for every value and any number of children. Sequences of summaries and keys give back their items by index, selection and order.',
  ['inputs'], 'all indexes', 'the tests encode one index of each kind',
  [I], ('LeafIndex, BranchIndex: derived codecs', I), ('serialize_compressed, deserialize_compressed', I), ('UnitSeq, VecSeq', I))
p('C26', 'Read errors are reported and never turn into wrong data',
  'If a read of the store fails during iteration by any query, streaming, random access or collecting, the consumer gets an error and no wrong, missing or reordered element is passed off as complete data. Every element delivered before the error is correct, the iteration ends, and reading again after the fault gives the complete result.',
  ['fault_sequences', 'histories', 'inputs'], 'all positions of a failing read in all kinds of traversal', 'the tests never inject read errors',
  [R, X, T, S], ('TreeIter::next, IndexIter::next', R), ('get0, collect0', R))
p('C27', 'Every configuration that passes validation works',
  'A stream builder or transaction with any configuration accepted by the validation can store and read back elements without crash or endless loop. Configurations with which trees cannot grow are refused.',
  ['configurations'], 'all limits from zero upwards', 'the tests use two valid configurations',
  [M, W], ('Config::validate', M), ('extend_leaf, new_branch', W))
p('C28', 'Values and indexes are encrypted with their own keys',
  'A reader with only the index key can traverse the index structure and query keys, but reads no values; values are readable only with the value key. No block, leaf or branch, written by append, pack or retain is stored with the wrong key or in clear.',
  ['histories', 'inputs', 'configurations'], 'all histories and both kinds of blocks', 'one test reads a tree with a wrong key',
  [W, SB, T], ('persist_leaf: value key, persist_branch: index key', W), ('Secrets', M))
p('C29', 'Roots, left roots and the graph of a tree agree with its structure',
  'The roots of a stream are the sealed nodes, in order and of non-increasing level, that make up its sealed prefix, and the left roots of a tree are ever larger trees, from the first leaf to the tree itself, that each hold exactly a prefix of its content with purged parts kept as gaps. The graph of a tree has each node once, numbered from parents to children and from left to right, with one edge from each node to each of its children.',
  ['histories', 'configurations'], 'all trees, also with purged parts', 'roots and left roots are only used indirectly, the graph not at all', [T, R],
  ('roots, left_roots, dump_graph0', T), ('roots0', R))
