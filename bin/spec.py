"""What each property's check explores: harnesses, bounds per tier and labels that must be reached."""
ENGINE_DEFAULTS = ['--max-steps', '60000000', '--query-timeout', '20000']
HIST = 'every history of `ops` operations (each chosen by the solver among the first `opkinds` (4) of: extend, extend_unpacked, pack, push), each adding 0..nmax elements with arbitrary 64-bit keys and values'
CONF = 'max_leaf_count 1..leafmax (2), max_key_branches 1..kbmax (2), max_summary_branches 2..sbmax (2); leaf byte limits large enough not to matter'
QRY = 'queries: offset ranges with every combination of bound kinds (bkinds=1: included start, excluded end) and arbitrary 64-bit bounds, key ranges with arbitrary 64-bit bounds, match-all, match-nothing (kinds qmin..qkinds of these), and and/or combinations up to depth qdepth'
PURGE = 'optionally purged by retain with an arbitrary offset range, and (losses=1) by repair after the loss of any one block of the tree'
def H(name, reach, quick, thorough, **kw): return dict(name=name, reach=reach, quick=quick, thorough=thorough, **kw)
# big trees: more than 64 or 256 children per branch, more than 32 or 256 elements per leaf, 6 levels; the interesting
# offsets (around the capacity of the inline buffers, around a boundary high up in the tree) are symbolic in a window
def BIG(name, reach, win=True, which='wide leaf deep hwide hleaf', **kw):
    big = dict(
        wide=(dict(ops=1, opkinds=1, nmax=67, min_n=67, leafmax=1, kbmax=70, min_kb=70, max_sb=2), dict(min_a=63, max_b=66, min_plo=62, max_plo=65, min_phi=63)),
        leaf=(dict(ops=1, opkinds=1, nmax=35, min_n=34, leafmax=34, min_leaf=34, kbmax=1, max_sb=2), dict(min_a=31, max_b=36, min_plo=30, max_plo=34, min_phi=33)),
        hwide=(dict(ops=1, opkinds=1, nmax=258, min_n=258, leafmax=1, kbmax=260, min_kb=260, max_sb=2), dict(min_a=254, max_a=256, max_b=258, min_b=255, max_plo=1, min_phi=255, max_phi=257)),
        hleaf=(dict(ops=1, opkinds=1, nmax=258, min_n=258, leafmax=257, min_leaf=257, kbmax=1, max_sb=2), dict(min_a=254, max_a=257, max_b=258, min_b=255, max_plo=1, min_phi=255, max_phi=257)),
        deep=(dict(ops=1, opkinds=1, nmax=34, min_n=34, leafmax=1, kbmax=1, max_sb=2), dict(min_a=15, max_a=18, max_b=34, min_b=31, max_plo=1, min_phi=15, max_phi=17)))
    r = []
    for k in which.split():
        q = dict(big[k][0], **kw); t = dict(q, opkinds=2)
        if win: q.update(big[k][1])
        if k[0] == 'h':
            if 'max_offset' in kw: q.update(min_offset=254, max_offset=300)
            if win: t = dict(q, opkinds=2)
        # nothing is purged where one leaf holds all but the last element
        r.append(H(name, [x for x in reach if x != 'purged' or k != 'hleaf'], q, t, tag='-' + k, time=dict(quick=15, thorough=400)))
    return r
def COMB(name, reach, **kw):
    """intersections and unions of two offset ranges on big trees"""
    r = BIG(name, reach, which='wide leaf deep', qdepth=1, qouter=1, qkinds=0, bkinds=1, **kw)
    r[0]['quick'].update(min_a=62, max_a=65, min_b=63, max_b=67)
    for h in r: h['tag'] += '-comb'; h['thorough'] = dict(h['quick'], opkinds=2)
    # the same with ranges of keys, where the keys are ascending
    q = dict(r[0]['quick'], fixkeys=1, qkinds=1, min_klo=61, max_klo=66, min_khi=62, max_khi=69)
    r.append(H(name, [x for x in reach if x != 'purged'], q, dict(q, opkinds=2), tag='-wide-keys', time=dict(quick=15, thorough=400)))
    return r
def TWO(name, reach, **kw):
    """two operations on trees of 6 or more levels, and of middle size with all limits different"""
    k = dict(kw); ops = k.pop('ops', 2)
    return [H(name, reach, dict(ops=ops, nmax=18, min_n=16, leafmax=1, kbmax=1, max_sb=2, **k), dict(ops=ops + 1, nmax=18, min_n=16, leafmax=1, kbmax=1, max_sb=2, **k), tag='-two', time=dict(quick=20, thorough=600)),
            H(name, reach, dict(ops=ops, nmax=14, min_n=12, leafmax=2, min_leaf=2, kbmax=2, min_kb=2, sbmax=3, min_sb=3, zstd_ratio=1, **k), dict(ops=ops, nmax=14, min_n=9, leafmax=2, kbmax=2, sbmax=3, zstd_ratio=1, **k), tag='-mid', time=dict(quick=20, thorough=600))]
PROPS = {
 'C01': dict(bounds=[HIST, CONF], harnesses=[H('h_content', ['big', 'done'], dict(ops=3, nmax=4), dict(ops=4, nmax=5, leafmax=3, kbmax=3, sbmax=3))] + BIG('h_content', ['big', 'done'], False) + TWO('h_content', ['big', 'done'])),
 'C02': dict(bounds=[HIST, CONF, PURGE + ', moreops (2) more appends before the pack of a purged tree'], harnesses=[H('h_pack', ['was packed', 'was unpacked'], dict(ops=3, nmax=4), dict(ops=4, nmax=5, leafmax=3, kbmax=2, sbmax=3)),
     H('h_pack_purged', ['packed', 'purged', 'refused'], dict(ops=1, nmax=3, opkinds=2, moremax=2, losses=1), dict(ops=2, nmax=3, opkinds=2, moremax=3, losses=1), time=dict(quick=20)),
     H('h_pack_purged', ['packed', 'purged', 'refused'], dict(ops=2, nmax=2, opkinds=2, moremax=1, moreops=1, losses=1, max_purge=0), dict(ops=3, nmax=2, opkinds=2, moremax=2, losses=2), tag='-unpacked', time=dict(quick=20))] + BIG('h_pack', ['was packed'], False) + TWO('h_pack', ['was packed', 'was unpacked']) + BIG('h_pack_purged', ['packed', 'purged'], which='wide leaf deep hwide', moremax=1, bkinds=1)),
 'C03': dict(bounds=[HIST, CONF], harnesses=[H('h_batching', ['via extend', 'via pack'], dict(ops=3, nmax=4), dict(ops=4, nmax=5, leafmax=3, kbmax=2, sbmax=3))] + BIG('h_batching', ['via extend'], False) + TWO('h_batching', ['via extend', 'via pack'])),
 'C04': dict(bounds=[HIST, CONF], harnesses=[H('h_invariants', ['packed', 'unpacked'], dict(ops=3, nmax=4), dict(ops=4, nmax=5, leafmax=3, kbmax=3, sbmax=3))] + BIG('h_invariants', ['packed'], False) + TWO('h_invariants', ['packed', 'unpacked'])),
 'C05': dict(bounds=[HIST, CONF, QRY, PURGE], harnesses=[
     H('h_filter', ['partial match'], dict(ops=1, nmax=3, qdepth=1, opkinds=2), dict(ops=2, nmax=4, qdepth=1)),
     H('h_filter', ['partial match', 'purged'], dict(ops=1, nmax=4, qdepth=0, qkinds=3, opkinds=2, bkinds=1, purge=1, losses=1), dict(ops=2, nmax=4, qdepth=0, qkinds=3, opkinds=2, purge=1, losses=1), tag='-purged')] + BIG('h_filter', ['partial match'], max_q=0, bkinds=1, qdepth=0) + COMB('h_filter', ['partial match'])),
 'C06': dict(bounds=[HIST, CONF, QRY, PURGE], harnesses=[H('h_reverse', ['partial match', 'done'], dict(ops=2, nmax=3), dict(ops=3, nmax=4, qdepth=1)),
     H('h_reverse', ['partial match', 'done', 'purged'], dict(ops=1, nmax=4, opkinds=2, bkinds=1, purge=1, losses=1), dict(ops=2, nmax=4, opkinds=2, purge=1, losses=1), tag='-purged')] + BIG('h_reverse', ['partial match', 'done'], max_q=0, bkinds=1, qdepth=0)),
 'C07': dict(bounds=[HIST, CONF, QRY, PURGE], harnesses=[H('h_chunks', ['purged', 'several chunks'], dict(ops=2, nmax=3, opkinds=2, kbmax=1, bkinds=1), dict(ops=3, nmax=4, qkinds=3)),
     H('h_chunks', ['purged', 'several chunks', 'repaired'], dict(ops=1, nmax=4, opkinds=2, bkinds=1, losses=1), dict(ops=2, nmax=4, opkinds=2, losses=1), tag='-repaired')] + BIG('h_chunks', ['purged'], max_q=0, bkinds=1, qdepth=0)),
 'C08': dict(bounds=[HIST, CONF, 'arbitrary 64-bit offsets', PURGE], harnesses=[H('h_random_access', ['beyond', 'hit', 'purged'], dict(ops=2, nmax=4), dict(ops=3, nmax=5, leafmax=3)),
     H('h_random_access', ['beyond', 'hit', 'purged', 'repaired'], dict(ops=1, nmax=4, opkinds=2, losses=1), dict(ops=2, nmax=4, opkinds=2, losses=1), tag='-repaired')] + BIG('h_random_access', ['beyond', 'hit', 'purged'], max_offset=80)),
 'C11': dict(bounds=[HIST, CONF], harnesses=[H('h_snapshot', ['done'], dict(ops=2, nmax=3), dict(ops=4, nmax=3))] + TWO('h_snapshot', ['done'], opkinds=3, max_retain=0)),
 'C14': dict(bounds=[HIST, CONF, PURGE], harnesses=[H('h_reload', ['done', 'empty'], dict(ops=2, nmax=4), dict(ops=3, nmax=5)),
     H('h_reload', ['done', 'purged', 'repaired'], dict(ops=1, nmax=4, opkinds=2, bkinds=1, purge=1, losses=1), dict(ops=2, nmax=4, opkinds=2, bkinds=1, purge=1, losses=1), tag='-purged'),
     H('h_reconfig', ['done'], dict(ops=1, nmax=4, opkinds=2, kbmax=3, sbmax=3), dict(ops=2, nmax=4, opkinds=4, kbmax2=3, morekinds=4, moreops=2), time=dict(quick=20)),
     H('h_reconfig', ['done', 'done purged'], dict(ops=1, nmax=3, opkinds=1, purge=1, losses=1, bkinds=1, max_purge=0, moremax=1), dict(ops=2, nmax=3, opkinds=2, purge=1, losses=1, bkinds=1), tag='-purged', time=dict(quick=15))] + BIG('h_reload', ['done'], False, which='wide leaf deep hleaf') + TWO('h_reload', ['done'])[1:]),
 'C19': dict(bounds=[HIST, CONF, QRY, 'one snapshot per operation, optionally preceded by an empty tree; arbitrary inclusive 64-bit range; optionally one failing read at position 0..failmax (6)'], harnesses=[H('h_stream_trees', ['forward', 'reverse', 'bounded', 'forward with fault', 'reverse with fault', 'error before the last tree'], dict(ops=2, nmax=2, kbmax=1, opkinds=2, failmax=4, qmin=1, qkinds=1), dict(ops=2, nmax=4)),
     H('h_stream_trees', ['forward', 'reverse', 'bounded', 'purged', 'repaired'], dict(ops=1, nmax=2, kbmax=1, opkinds=2, faults=0, qmin=1, qkinds=1, bkinds=1, purge=1, losses=1), dict(ops=2, nmax=3, opkinds=2, qmin=1, qkinds=1, purge=1, losses=1, failmax=4), tag='-purged')] + BIG('h_stream_trees', ['forward', 'reverse'], which='leaf deep', faults=0, max_start=2, min_end=60, max_q=0, bkinds=1, qdepth=0)),
 'C25': dict(bounds=[HIST, CONF, QRY, PURGE], harnesses=[
     H('h_index_iter', ['done', 'purged'], dict(ops=2, nmax=2, opkinds=2, bkinds=1), dict(ops=3, nmax=4)),
     H('h_index_iter', ['done'], dict(ops=1, nmax=4, opkinds=2, qdepth=1, qouter=1, qkinds=1, qmin=1, max_purge=0), dict(ops=2, nmax=4, opkinds=2, qdepth=1, qouter=1, qkinds=1, max_purge=0), tag='-comb'), H('h_index_iter', ['done', 'purged'], dict(ops=1, nmax=4, opkinds=2, losses=1), dict(ops=1, nmax=7, leafmax=3, losses=1), tag='-single')] + BIG('h_index_iter', ['done', 'purged'], max_q=0, bkinds=1, qdepth=0) + COMB('h_index_iter', ['done'], max_purge=0)),

 'C09': dict(bounds=[HIST.replace('extend, extend_unpacked, pack, push', 'extend, extend_unpacked, pack, dropped transaction, failing append, reload from the root link'), CONF, 'streams that start at 0 and streams that continue at 5 offsets around 2^32, 2^38 and 2^50'], harnesses=[H('h_keystream', ['failed write', 'reload', 'rollback', 'several blocks'], dict(ops=2, nmax=2), dict(ops=3, nmax=3)),
     H('h_keystream', ['failed write', 'reload', 'rollback'], dict(ops=4, nmax=1, leafmax=1, kbmax=1, sbmax=2, failmax=1), dict(ops=5, nmax=1), tag='-long', time=dict(quick=45)),
    H('h_keystream', ['late', 'failed write', 'reload', 'rollback'], dict(late=1, ops=2, nmax=1), dict(late=1, ops=3, nmax=1), tag='-late')] + BIG('h_keystream', ['several blocks'], False, kops=2)),
 'C10': dict(bounds=[HIST, CONF, PURGE, 'one store fault: all reads or all writes from position 0..failmax (3) of the last operation on fail; the last operation is extend, extend_unpacked, pack or retain, or repair of a tree with any set of lost blocks; directly or in a committed or dropped transaction'], harnesses=[
     H('h_atomic', ['failed read', 'failed write', 'rollback', 'purged'], dict(ops=1, nmax=2, bkinds=1, opkinds=2, nmax1=2), dict(ops=2, nmax=2)),
     H('h_atomic', ['failed read', 'failed write', 'rollback'], dict(ops=1, nmax=7, min_n=7, leafmax=2, min_leaf=2, kbmax=2, min_kb=2, sbmax=2, opkinds=2, nmax1=3, min_n1=3, failmax=5, purge=0), dict(ops=1, nmax=11, min_n=7, leafmax=2, kbmax=2, sbmax=2, opkinds=2, nmax1=3, failmax=9, purge=0), tag='-mid', time=dict(quick=15)),
     H('h_repair_fault', ['failed repair', 'intact', 'repaired'], dict(ops=1, nmax=3, opkinds=1), dict(ops=2, nmax=3, opkinds=2))]),
 'C12': dict(bounds=[HIST, CONF, QRY, PURGE + ' before (prepurge=1)'], harnesses=[H('h_retain', ['all kept', 'purged'], dict(ops=1, nmax=3, opkinds=2, qkinds=1, bkinds=1, moremax=1), dict(ops=2, nmax=3, opkinds=2)),
     H('h_retain', ['all kept', 'purged'], dict(ops=2, nmax=2, opkinds=2, qkinds=0, bkinds=1, moremax=1, kbmax=1), dict(ops=3, nmax=2, qkinds=1, bkinds=1), tag='-multi'),
     H('h_retain', ['all kept', 'purged', 'repaired'], dict(ops=1, nmax=3, opkinds=2, qkinds=0, bkinds=1, moremax=1, prepurge=1, losses=1), dict(ops=2, nmax=3, opkinds=2, qkinds=1, bkinds=1, prepurge=1, losses=1), tag='-purged')] + BIG('h_retain', ['purged'], moremax=1, max_q=0, bkinds=1, qdepth=0)),
 'C13': dict(bounds=[HIST, CONF, 'every subset of the blocks of the tree is lost (hows=0) or truncated (hows=1)', PURGE + ' before (purge=1)'], harnesses=[
     H('h_repair', ['intact', 'repaired'], dict(ops=1, nmax=3, opkinds=2, hows=1), dict(ops=2, nmax=3, opkinds=2, hows=1)),
     H('h_repair', ['intact', 'repaired', 'purged'], dict(ops=1, nmax=3, opkinds=1, hows=0, purge=1, bkinds=1, losses=1), dict(ops=2, nmax=2, opkinds=2, purge=1, losses=1), tag='-purged'),
     H('h_repair', ['intact', 'repaired'], dict(ops=1, nmax=9, min_n=9, leafmax=2, min_leaf=2, kbmax=2, min_kb=2, sbmax=2, opkinds=1, hows=1), dict(ops=1, nmax=11, min_n=9, leafmax=2, kbmax=2, min_kb=2, sbmax=2, opkinds=2, hows=1), tag='-mid', time=dict(quick=15))]),
 'C15': dict(bounds=['sequences of up to nmax items of 3 shapes (small integer, 64-bit integer, byte string) with arbitrary contents, 13 stream offsets from 0 to 2^62, 2 keys and nonces', 'damage: truncation at every position, every value of every byte, arbitrary bytes up to rawlen (3), stream offsets at the end of the range', 'block sizes from 1 MB to 16 MB at and around the internal buffer sizes'], harnesses=[
     H('h_block', ['round trip'], dict(nmax=2), dict(nmax=3, shapes=9)), H('h_malformed', ['err', 'ok', 'damaged items'], dict(nmax=2), dict(nmax=3, rawlen=5)),
     H('h_empty_branch', ['done'], dict(), dict()), H('h_large', ['large', 'too large'], dict(), dict())]),
 'C16': dict(bounds=['up to nmax items per fill step with arbitrary link digests and nesting'], harnesses=[H('h_links', ['done', 'several links'], dict(nmax=1), dict(nmax=2))]),
 'C17': dict(bounds=['up to nmax items of 9 shapes with arbitrary contents, every split into filled and added items, every limit, every mask, arbitrary 64-bit index'], harnesses=[
     H('h_seq', ['several', 'left over'], dict(nmax=2), dict(nmax=3)), H('h_seq_ipld', ['filled', 'too large'], dict(nmax=3), dict(nmax=4))]),
 'C18': dict(bounds=['one operation with up to nmax elements of sizes chosen among small, fitting and too large, all byte limits near the sizes'], harnesses=[H('h_limits', ['refused', 'sealed early', 'target'], dict(ops=1, nmax=2), dict(ops=2, nmax=2), modelled=True),
     H('h_limits', ['refused', 'sealed early'], dict(ops=3, nmax=1, zstd_ratio=1, lstep=8, lmax=2, ustep=9, umax=3, tmin=11, tmax=13), dict(ops=3, nmax=2, zstd_ratio=1, lstep=8, lmax=2, ustep=9, umax=3, tmin=11, tmax=13), modelled=True, tag='-small', time=dict(quick=40))]),
 'C20': dict(bounds=['sequences of reads and writes on a memory store with arbitrary capacity', HIST, 'cache capacities 0, one block, large'], harnesses=[
     H('h_caches', ['done', 'failed write'], dict(ops=2, nmax=2, opkinds=3), dict(ops=2, nmax=3)), H('h_mem_store', ['found', 'full'], dict(), dict()), H('h_offer', ['done'], dict(), dict())]),
 'C24': dict(bounds=['indexes with up to nmax keys or children and arbitrary 64-bit counts, sizes, links and summaries'], harnesses=[H('h_wire', ['branch', 'leaf'], dict(), dict(nmax=5)), H('h_compact_seq', ['done'], dict(nmax=4), dict(nmax=6))]),
 'C26': dict(bounds=[HIST, CONF, 'one failing read at any position, in every kind of traversal'], harnesses=[H('h_read_errors', ['failed', 'not hit'], dict(ops=1, nmax=3, opkinds=2), dict(ops=2, nmax=3, opkinds=2)),
     H('h_read_errors', ['failed', 'not hit'], dict(ops=1, nmax=3, opkinds=2, queries=1, bkinds=1), dict(ops=2, nmax=3, opkinds=2, queries=1), tag='-query'),
     H('h_read_errors', ['failed', 'not hit', 'purged', 'repaired'], dict(ops=1, nmax=3, opkinds=1, purge=1, losses=1), dict(ops=1, nmax=4, opkinds=2, purge=1, losses=1), tag='-purged', time=dict(quick=20)),
     H('h_read_errors', ['failed', 'not hit'], dict(ops=1, nmax=14, min_n=12, leafmax=2, min_leaf=2, kbmax=2, min_kb=2, sbmax=3, min_sb=3, opkinds=2, failmax=24), dict(ops=1, nmax=14, min_n=12, leafmax=2, kbmax=2, sbmax=3, failmax=24), tag='-mid', time=dict(quick=15)),
     H('h_read_errors', ['failed'], dict(ops=1, opkinds=1, nmax=34, min_n=34, leafmax=1, kbmax=1, max_sb=2, **{'min_fail at': 12, 'failmax': 18}), dict(ops=1, opkinds=1, nmax=34, min_n=34, leafmax=1, kbmax=1, max_sb=2, failmax=70), tag='-deep', time=dict(quick=15))]),
 'C27': dict(bounds=['all limits from 0 to 3, byte limits including 0'], harnesses=[H('h_config', ['accepted', 'refused'], dict(), dict())]),
 'C28': dict(bounds=[HIST, CONF, PURGE], harnesses=[H('h_key_separation', ['done'], dict(ops=2, nmax=2, opkinds=2, purge=0), dict(ops=3, nmax=2, purge=0)),
     H('h_key_separation', ['done', 'purged'], dict(ops=1, nmax=3, opkinds=2, losses=1), dict(ops=2, nmax=3, losses=1), tag='-purged')]),
 'C29': dict(bounds=[HIST, CONF, PURGE], harnesses=[H('h_views', ['nothing sealed', 'proper prefix', 'purged', 'sealed branch'], dict(ops=2, nmax=2, opkinds=2), dict(ops=3, nmax=3)),
     H('h_views', ['nothing sealed', 'proper prefix', 'purged', 'sealed branch'], dict(ops=1, nmax=5, opkinds=2, losses=1), dict(ops=1, nmax=8, leafmax=3, losses=1), tag='-single')] + BIG('h_views', ['proper prefix', 'purged'], which='wide leaf deep hwide')),
 'C21': dict(crate='harness_tags', bounds=['expressions of nesting depth up to depth (2 to 4) with up to lits literals, each operator with 0..fan operands; tags are single characters out of nt (4), also those used by the textual form', 'tag indexes with up to elements elements of up to etags tags', 'further instances: tags that do not fit inline (47 bytes), sets with none, one or all of pad (300) further tags, expressions combined with factors (4) fixed disjunctions or conjunctions'], harnesses=[
     H('h_match', ['match', 'no match'], dict(depth=2, lits=2, minc=0, fan=2), dict(depth=2, lits=4, minc=0, fan=3)), H('h_dnf', ['done', 'several clauses', 'nothing matches'], dict(depth=2, lits=3, minc=0), dict(depth=2, lits=5, minc=0, fan=3)),
     H('h_dnf', ['done', 'several clauses'], dict(depth=2, lits=5, minc=1, fan=3, nt=3), dict(depth=3, lits=5, minc=1, fan=3), tag='-wide'), H('h_display', ['compound'], dict(), dict(lits=5, fan=3)),
     H('h_display', ['compound'], dict(depth=4, lits=5, fan=2, min_children=2, nt=2), dict(depth=3, lits=6, fan=3, min_children=2, nt=2), tag='-deep'),
     H('h_simplify', ['selected', 'not selected'], dict(depth=3, lits=5, nt=3), dict(depth=4, lits=6, nt=3)), H('h_dnf', ['done', 'several clauses'], dict(depth=4, lits=5, nt=2, minc=2), dict(depth=4, lits=6, nt=2, minc=2), tag='-deep'),
     H('h_match', ['match', 'no match'], dict(depth=3, lits=4, nt=2, minc=2, etags=1, elements=2), dict(depth=3, lits=5, nt=2, minc=2, etags=1, elements=2), tag='-deep'),
     H('h_match', ['match', 'no match'], dict(depth=1, lits=2, minc=1, fan=2, pad=300, padlits=1, nt=2, etags=1), dict(depth=1, lits=2, minc=0, fan=2, pad=300, padlits=1, nt=2, etags=2, elements=2), tag='-table'),
     H('h_match', ['match', 'no match'], dict(depth=1, lits=2, minc=1, nt=2, factors=4, pad=8, etags=1, elements=2, long=1), dict(depth=1, lits=2, minc=1, nt=2, factors=6, pad=12, etags=1, elements=2, long=1), tag='-factors'),
     H('h_dnf', ['done', 'several clauses'], dict(depth=1, lits=2, minc=1, nt=2, factors=4, pad=8, padlits=1, long=1), dict(depth=2, lits=3, minc=1, nt=2, factors=4, pad=8, padlits=1, long=1), tag='-factors'),
     H('h_display', ['compound'], dict(depth=1, lits=2, minc=1, nt=2, factors=5, pad=10, etags=1, long=1), dict(depth=2, lits=3, minc=1, nt=2, factors=5, pad=10, etags=1, long=1), tag='-factors')]),
 'C22': dict(crate='harness_tags', bounds=['up to clauses clauses with 1..ctags tags and arbitrary 64-bit time ranges, up to events events with up to etags tags (out of nt) and arbitrary 64-bit times, trees of up to 2 leaves', 'further instances with bulk (300 in a leaf, 24 in a tree) fixed events or pad (300) fixed tags'], harnesses=[
     H('h_leaf', ['selected', 'not selected'], dict(events=1, etags=2, clauses=2, ctags=2, nt=2), dict(events=2, etags=2, clauses=2, ctags=2, nt=3)),
     H('h_leaf', ['selected', 'not selected'], dict(events=2, etags=1, clauses=2, ctags=2, nt=2), dict(events=3, etags=1, clauses=2, ctags=1, nt=2), tag='-multi'),
     H('h_prune', ['visited', 'pruned'], dict(events=1, etags=2, clauses=1, ctags=2, nt=3), dict(events=2, etags=2, clauses=2, ctags=2, nt=2)),
     H('h_prune', ['visited', 'pruned'], dict(events=2, etags=1, clauses=2, ctags=2, nt=2), dict(events=3, etags=1, clauses=2, ctags=1, nt=2), tag='-multi'),
     H('h_tree', ['hit', 'none'], dict(events=1, etags=2, clauses=1, ctags=2, nt=3), dict(events=2, etags=1, clauses=2, ctags=1, nt=2)),
     H('h_tree', ['hit', 'none'], dict(events=2, etags=1, clauses=1, ctags=1, nt=3), dict(events=2, etags=2, clauses=1, ctags=1, nt=2), tag='-multi'),
     H('h_leaf', ['selected', 'not selected'], dict(events=1, bulk=300, etags=1, clauses=1, ctags=1, nt=2), dict(events=2, bulk=300, etags=1, clauses=1, ctags=2, nt=2), tag='-bulk'),
     H('h_leaf', ['selected', 'not selected'], dict(events=1, etags=1, clauses=1, ctags=1, nt=2, pad=300), dict(events=1, etags=1, clauses=2, ctags=1, nt=2, pad=300), tag='-table'),
     H('h_prune', ['visited', 'pruned'], dict(events=1, etags=1, clauses=1, ctags=1, nt=2, pad=300), dict(events=1, etags=1, clauses=2, ctags=1, nt=2, pad=300), tag='-table'),
     H('h_prune', ['visited', 'pruned'], dict(events=1, etags=1, clauses=1, ctags=1, nt=2, pad=6, long=1), dict(events=2, etags=1, clauses=1, ctags=1, nt=2, pad=6, long=1), tag='-long'),
     H('h_tree', ['hit', 'none'], dict(events=1, bulk=24, etags=1, clauses=1, ctags=1, nt=2), dict(events=2, bulk=24, etags=1, clauses=1, ctags=1, nt=2), tag='-bulk'),
     H('h_untagged', ['matches', 'does not match'], dict(), dict())]),
 'C23': dict(crate='harness_tags', bounds=['sequences of up to n keys with arbitrary 64-bit times and up to etags tags out of nt (4); tag tables of up to table strings with arbitrary element indices; arbitrary codec, hash code and digest, digest lengths 0, 1, 31, 32, 33', 'textual form of links: one arbitrary byte of the digest at position 0, 1, 15 or 31', 'serde form: as JSON, small or nearly maximal 64-bit times', 'further instances with bulk (300) fixed keys, pad (300) fixed tags and tags of 47 bytes'], harnesses=[
     H('h_seq', ['done', 'several'], dict(), dict(n=3)), H('h_summary', ['range', 'single'], dict(etags=0, xtags=0), dict(etags=1, nt=2)), H('h_summary', ['range', 'single'], dict(etags=2, nt=2, tmax=2), dict(etags=2, xtags=2, nt=3, tmax=3), tag='-tags'), H('h_seq_wire', ['several'], dict(etags=1), dict(n=3)), H('h_index_wire', ['accepted', 'refused'], dict(), dict(elements=3)), H('h_link', ['link', 'refused'], dict(), dict()), H('h_link_text', ['done'], dict(), dict()),
     H('h_seq', ['done', 'several'], dict(etags=3, tmax=1), dict(n=3, etags=3, tmax=1), tag='-tags'), H('h_seq_wire', ['several'], dict(n=2, etags=3, tmax=1), dict(n=3, etags=3, tmax=1), tag='-tags'),
     H('h_seq', ['done', 'several'], dict(n=1, bulk=300, etags=1, nt=2), dict(n=2, bulk=300, etags=1, nt=2), tag='-bulk'), H('h_seq', ['done', 'several'], dict(n=2, etags=1, nt=2, pad=300), dict(n=2, etags=2, nt=2, pad=300, long=1), tag='-table'),
     H('h_summary', ['range', 'single'], dict(etags=1, xtags=0, nt=2, tmax=1, pad=6), dict(etags=1, xtags=1, nt=2, tmax=1, pad=20, long=1), tag='-table'),
     H('h_seq_wire', ['several'], dict(n=2, bulk=300, etags=1, nt=2, tmax=2), dict(n=2, bulk=300, etags=1, nt=2), tag='-bulk'), H('h_seq_wire', ['several'], dict(n=2, etags=1, nt=2, tmax=2, pad=300, long=1), dict(n=2, etags=2, nt=2, tmax=2, pad=300, long=1), tag='-table'),
     H('h_index_wire', ['accepted', 'refused'], dict(elements=1, long=1), dict(elements=2, long=1), tag='-long'), H('h_json', ['several'], dict(n=2, etags=1, tmax=1, nt=2, big=1), dict(n=2, etags=2, tmax=9, nt=2, big=1)), H('h_json', ['several'], dict(n=2, etags=1, tmax=0, nt=1, pad=300, long=1), dict(n=2, etags=1, tmax=1, nt=2, pad=300, long=1), tag='-table'), H('h_json_index', ['accepted', 'refused'], dict(), dict(elements=3, long=1))]),
 'C30': dict(bounds=[HIST, CONF, QRY, 'one snapshot per operation, arbitrary inclusive 64-bit range, pool of one or two threads, optionally one failing read, optionally a consumer that stops early', 'schedules: every choice of the next thread where a thread blocks or ends, and up to `preempt` preemptions before an atomic read-modify-write of a location another thread uses (at most 12 per code location)'], harnesses=[
     H('h_threaded', ['complete', 'with fault', 'stopped early'], dict(ops=2, nmax=2, preempt=1, qkinds=1, bkinds=1), dict(ops=2, nmax=2, preempt=2, qkinds=1, bkinds=1), threads=True, time=dict(quick=80)),
     H('h_threaded', ['complete', 'with fault'], dict(ops=2, nmax=2, preempt=0, qkinds=2, empty=1, opkinds=3, early=0), dict(ops=3, nmax=3, preempt=0, qkinds=2, empty=1, opkinds=3, early=0), threads=True, tag='-broad'),
     H('h_threaded', ['complete', 'with fault'], dict(ops=1, nmax=2, preempt=0, qkinds=1, pool=2), dict(ops=2, nmax=2, preempt=1, qkinds=1, bkinds=1, pool=2), threads=True, tag='-pool')]),
 'C31': dict(bounds=['one forest with one append of up to nmax elements, shared by a thread that appends up to moremax elements and reads and a thread that reads a snapshot or builds another tree of up to moremax elements; cache capacities 0, small, large', 'two writers of a memory store with arbitrary capacity', 'schedules as for C30'], harnesses=[
     H('h_shared', ['reader', 'two writers'], dict(nmax=2, moremax=2, preempt=1), dict(nmax=2, moremax=2, preempt=2), threads=True),
     H('h_shared', ['reader', 'two writers'], dict(nmax=1, moremax=1, preempt=2), dict(nmax=1, moremax=1, preempt=3), threads=True, tag='-small'),
     H('h_shared_store', ['both', 'refused'], dict(preempt=2), dict(preempt=3), threads=True)]),
 'C32': dict(crate='harness_util', bounds=['blocks of up to nmax items of 15 shapes (numbers, strings, bytes, lists, maps, booleans, null, empty and nested ones; the first `shapes` of these), 2 keys, nonces, offsets; trees of up to nmax elements, all configurations of CONF for drawings, optionally purged'], harnesses=[
     H('h_dump', ['plain', 'sequence'], dict(nmax=1), dict(nmax=2, small=3)), H('h_dump', ['plain', 'sequence'], dict(nmax=2, small=1, shapes=9), dict(nmax=3, small=1, shapes=6), tag='-multi', time=dict(quick=30)),
     H('h_dump_tree', ['several leaves'], dict(nmax=6), dict(nmax=20)), H('h_graph', ['empty', 'several'], dict(ops=2, nmax=4), dict(ops=3, nmax=6, leafmax=3))]),
 'C33': dict(crate='harness_util', bounds=['sequences of ops puts and gets through two handles of one store, blocks of up to len bytes, optionally one failing operation of the database; the database itself (crate ipfs-sqlite-block-store and the C library) is replaced by a map', 'trees of up to nmax elements'], harnesses=[
     H('h_sqlite', ['fault', 'found'], dict(ops=3), dict(ops=4, len=3)), H('h_sqlite_tree', ['done'], dict(nmax=3), dict(nmax=6))]),
}
