"""What each check runs: entries, builds, depth parameters, time budgets (seconds)."""


def run(build, entries, params, budget, **kw):
    return dict(build=build, entries=entries.split(), params=list(params), budget=budget, **kw)


# reach points every entry must pass (default: 1)
REACH = {
    'c04_ids': [1, 2], 'c10_wide3': [255], 'c10_wide4': [255], 'c10_wide6': [255], 'c10_wide10': [255], 'c10_wide_typed': [1, 3, 255],
    'c12_member': [1, 2], 'c12_dynamic': [1, 2], 'c12_dead': [1, 2], 'c12_comps': [1, 2], 'c12_builder': [1, 2],
    'c18_any': [1, 2],
}

ASSUMPTIONS = [
    'rustc nightly translates the crates to LLVM IR correctly; the IR is what is checked (opt-level 0)',
    'the allocator never fails; heap objects never overlap; addresses are chosen by the engine (16-byte aligned, or as requested)',
    'RwLock, thread-local and panic/unwind primitives are modelled for a single thread (World is neither Send nor Sync)',
    'addresses and sizes that depend on symbolic data are enumerated value by value, all feasible values being explored',
    'formatting of panic messages is not executed (printing of ids is, on the IR of core built from its sources)',
]

CHECKS = {}

# worlds past every internal capacity, creations and entities as components: what the properties promise has to hold there too
BIG = run('dbg', 'c16_sets c16_moves c16_crowd c16_ids c16_wide c16_fan c16_types c16_thousands c16_late c16_ended c16_bytes c16_tides', (70, 1, 2, 1, 1, 1, 2, 0, 0), 250)
# more than 65536 of something
HOARD = run('dbg', 'c16_words c16_flood c16_hoard', (0,), 300, max_ins=9000000000)
HUGE = run('dbg', 'c16_words c16_flood', (0,), 200, max_ins=3000000000)
CREATE = run('dbg', 'c17_first c17_twice c17_reuse c17_left', (3, 2, 1, 1), 200)
# two entities per layout, every size and alignment class; payloads; growth of columns
LAYOUTS = run('dbg', 'c02_layouts c02_payloads c02_growth', (1, 1, 1), 300)
GROWTH = run('dbg', 'c02_payloads c02_growth', (1, 1, 1), 300)
# values of thousands of bytes; sets of 66 and 150 entities that end, lose and gain components in bulk
VAST = run('dbg', 'c02_vast c02_monsters c17_loads c06_crowds', (0, 0, 0, 1, 0, 0), 250)
TRAILS = run('dbg', 'c11_trails', (0,), 200)
READERS = run('dbg', 'c10_readers', (0, 0, 0, 65600), 200, max_ins=3000000000)
RELS = run('dbg', 'c18_hist c18_deep c18_after', (2, 2, 1), 200)


def more(pid, *runs):
    CHECKS[pid]['quick'] = CHECKS[pid]['quick'] + list(runs)
    CHECKS[pid]['thorough'] = CHECKS[pid]['thorough'] + list(runs)



def check(pid, quick, thorough, bounds, outside):
    CHECKS[pid] = dict(quick=quick, thorough=thorough, bounds=bounds, outside=outside)


SIMB = 'start situations 0-5 of model.rs (empty world; several entities in one set; sets linked by remembered moves; sets created by additions; reused slots; emptied sets), worlds of up to 8 tracked entities, component values fully symbolic; '
SIMO = 'histories longer than a start situation plus K operations, more entities or component types in one history than stated'

check('C01',
      [run('dbg', 'c01_hist c01_phases c01_world c01_abandoned c01_reused', (5, 3, 66000), 300), run('dbg_ents', 'c01_step c01_period', (5, 3), 200)],
      [run('dbg', 'c01_hist c01_phases c01_world c01_abandoned c01_reused', (7, 4, 1000000), 5000), run('dbg_ents', 'c01_step c01_period', (5, 5), 5000), run('rel', 'c01_hist c01_phases c01_world c01_abandoned', (5, 3), 600)],
      'allocator alone: all histories of 5 operations (thorough 7), phases of up to 9 creations and 6 despawns, the next 3 operations (thorough 5) from any state of up to 2 living slots with arbitrary 32-bit generations, ids with arbitrary 32-bit generations; through a world: 3 (thorough 4) operations incl. registration and abandoned builders',
      'slots reused 2^32 times; ids whose index was never issued (is_alive panics on them, as the repository\'s tests demand); longer histories')
check('C02',
      [run('dbg', 'c02_core c02_write c02_sizes c02_zst c02_deep', (2, 2, 3), 400)],
      [run('dbg', 'c02_core c02_write c02_sizes c02_zst c02_deep', (3, 3, 4), 6000), run('rel', 'c02_core c02_write c02_sizes c02_zst c02_deep', (2, 2, 3), 600)],
      SIMB + 'K operations after the start situation: 2 (3 for the two-type world); thorough: 3 (4)', SIMO)
check('C03',
      [run('dbg', 'c03_shapes c03_deep c03_wide c03_nobody_has c03_ways', (2, 3, 0), 400)],
      [run('dbg', 'c03_shapes c03_deep c03_wide c03_nobody_has c03_ways', (3, 4, 1), 6000)],
      SIMB + 'query arities 1..10; iterators consumed by next, nth, last, count, fold, skip, step_by; K operations: 2 (3 with two types); thorough: 3 (4)', SIMO)
check('C04',
      [run('dbg', 'c04_hist c04_mem c04_ids c04_again', (2, 2, 2), 400)],
      [run('dbg', 'c04_hist c04_mem c04_ids c04_again', (3, 3, 3), 6000), run('rel', 'c04_hist c04_mem c04_ids c04_again', (2, 2, 2), 600)],
      SIMB + 'looked-up ids: all ever issued plus existing slots with an arbitrary 32-bit generation; K operations: 2; thorough: 3; also in a world that follows another one with memory given out again', SIMO)
check('C05',
      [run('dbg', 'c05_typed c05_dyn c05_mix c05_none c05_two c05_three c05_four c05_five c05_ways c05_ended', (1, 2, 1, 0), 400)],
      [run('dbg', 'c05_typed c05_dyn c05_mix c05_none c05_two c05_three c05_four c05_five c05_ways c05_ended', (2, 3, 2, 1), 6000)],
      SIMB + 'every untyped query of 2 to 5 positions over entity ids, a stranger and 3 (4 and 5 positions: 2) components in both modes, repeated names included, and one of 10; arbitrary 64-bit unknown ids; ids of ended components whose slots serve again; K operations: 1 (2 with two types); thorough: 2 (3)',
      SIMO + '; queries with no position at all')
check('C06',
      [run('dbg', 'c06_main c06_kinds c06_dyn', (2, 2), 400)],
      [run('dbg', 'c06_main c06_kinds c06_dyn', (3, 3), 6000), run('rel', 'c06_main c06_kinds c06_dyn', (2, 2), 600)],
      SIMB + 'K operations: 2; thorough: 3', SIMO + '; values given to a builder that is never built (they never become part of an entity); panicking destructors')
check('C07',
      [run('dbg', 'c07_main c07_more c07_zst', (2, 2), 500)],
      [run('dbg', 'c07_main c07_more c07_zst', (3, 2), 7000), run('rel', 'c07_main c07_more c07_zst', (2, 2), 900)],
      SIMB + 'every load, store, allocation, deallocation, null or misaligned reference on every path is checked (bounds, liveness, layout, initialisation) and leaks at the end; K operations: 2; thorough: 3', SIMO + '; aliasing rules (stacked borrows); data races (World is neither Send nor Sync)')
check('C08',
      [run('dbg_bits', 'c08_one c08_two c08_three c08_none c08_drain', (2, 1), 400), run('dbg_bits', 'c08_store c08_keyed', (2, 2), 200), run('dbg', 'c08_public', (2, 2), 200)],
      [run('dbg_bits', 'c08_one c08_two c08_three c08_none c08_drain', (3, 2), 7000), run('dbg_bits', 'c08_store c08_keyed', (3, 3), 4000), run('dbg', 'c08_public', (2, 2), 400)],
      'up to 3 bitsets of arbitrary words and lengths of up to 4 words, every map function of the crate, the first k ones checked for every content: k = 2 (3 sets: 1); thorough 3 (2); bit writes at symbolic positions', 'iterators followed for more than k ones except in the drain entry; more than 3 sets on the iterator itself (queries over 10 sets: C03)')
check('C09',
      [run('dbg', 'c09_small c09_index c09_long c09_shrunk c09_writes c09_mixed c09_layouts c09_growth c09_vast c09_monsters', (2, 1, 1, 1, 1), 400), run('dbg', 'c09_large', (2, 1), 200)],
      [run('dbg', 'c09_small c09_index c09_long c09_shrunk c09_writes c09_mixed c09_layouts c09_growth c09_vast c09_monsters', (3, 1, 2, 2, 2), 6000), run('dbg', 'c09_large', (3, 2), 3000), run('rel', 'c09_small c09_large c09_index c09_long c09_writes c09_mixed', (2, 1), 600)],
      'element layouts: sizes 0,1,3,8,12,16,24,40,64.. with alignments 1..64 (see uvec.rs), 36 layouts of up to 1100 bytes and 6 of 2051 to 10007 and 3 of 65536 to 70001 (sizes.rs), element bytes and indexes symbolic; K operations from 8 start situations: 2 (large elements 1); thorough 3 (2); 25 start situations with storage that was once larger, 1 operation (thorough 2) and 36 pushes', 'layouts whose size is not a multiple of the alignment; longer histories except the long-run entry (growth across several reallocations)')
check('C10',
      [run('dbg', 'c10_typed c10_typed_dyn c10_dyn_typed c10_dyn c10_triple c10_used c10_worlds c10_many c10_wide3 c10_wide4 c10_wide6 c10_wide10 c10_wide_typed', (2, 2, 262), 500)],
      [run('dbg', 'c10_typed c10_typed_dyn c10_dyn_typed c10_dyn c10_triple c10_used c10_worlds c10_many c10_wide3 c10_wide4 c10_wide6 c10_wide10 c10_wide_typed', (2, 2, 140), 900), run('rel', 'c10_typed c10_typed_dyn c10_dyn_typed c10_dyn c10_triple c10_used c10_worlds c10_many c10_wide3 c10_wide4 c10_wide6 c10_wide10 c10_wide_typed', (2, 2, 140), 900)],
      'every pair (and a choice of triples) of live queries, typed and untyped, over the shapes of locks.rs on two component types, single queries of 3, 4, 6 and 10 positions (untyped: any two positions naming one component; typed: 26 shapes up to 10), single queries in worlds of 262 components in use, up to 65600 shared queries held at once or 65600 queries one after another, before and after use and drop; refusal is observed as blocking for ever or panicking', 'other threads (World is neither Send nor Sync); more than 3 live queries; locks poisoned by a panic of the caller while an exclusive query is alive')
check('C11',
      [run('dbg', 'c11_moves c11_hist c11_many c11_hub', (3, 3, 2, 2), 400)],
      [run('dbg', 'c11_moves c11_hist c11_many c11_hub', (4, 4, 3, 3), 6000)],
      SIMB + 'K operations: 3 (five component types: 2); thorough: 4 (3); three entities taking any ways of one or two additions through the sets one after another, each then ending or losing a component; one set with 5 (6) remembered moves, any 4 (5) of them used one after another', SIMO)
check('C13',
      [run('dbg', 'c13_hist c13_mixed', (2, 2), 400), run('dbg', 'c18_deep c18_after', (2, 2, 1), 200)],
      [run('dbg', 'c13_hist c13_mixed', (3, 3), 6000)],
      SIMB + 'one data-less entity, one entity with a 12-byte layout and one Rust type used both ways, plus worlds in which entities are attached to one another (rel.rs); K operations: 2; thorough: 3', SIMO)
C12E = 'c12_member c12_dynamic c12_dead c12_comps c12_builder c12_long'
check('C12',
      [run('dbg', C12E, (0, 1, 1, 0), 300), run('rel', C12E, (0, 1, 1, 1), 300)],
      [run('dbg', C12E, (1, 1, 1, 0), 4000), run('dbg', C12E, (0, 2, 1, 0), 4000), run('dbg', C12E, (0, 1, 2, 0), 4000), run('rel', C12E, (0, 1, 1, 0), 600)],
      SIMB + 'one refused call (thorough: also two, also after one more operation) of every kind listed in refuse.rs, followed by 1 operation (thorough 2) and a full comparison; 11 layouts with and without destructor that need or do not need data; creations of 3 to 11 components one of which, at several places, was named before, is dead or needs data; with and without debug assertions', SIMO + '; values handed to a refused call are not required to be dropped')
C14E = 'c14_parts c14_pair c14_triple c14_hashes c14_keys c14_issued'
check('C14',
      [run('dbg', C14E, (0,), 300), run('dbg', 'c14_print_id c14_print_gen c14_print_index c14_debug_id', (0,), 300, core=True)],
      [run('dbg', C14E, (0,), 300), run('rel', C14E, (0,), 300), run('dbg', 'c14_print_id c14_print_gen c14_print_index c14_debug_id', (0,), 600, core=True), run('rel', 'c14_print_id c14_print_gen c14_print_index c14_debug_id', (0,), 600, core=True)],
      'all ids (2^32 indexes and generations): every single id, pair and triple; every 64-bit key of the id hash; ids issued by a world after 0-3 reuses; every printed form for every id', 'other hashers than the crate\'s and a recording one')
check('C18',
      [run('dbg', 'c18_hist c18_deep c18_after c18_any', (2, 3, 1), 400)],
      [run('dbg', 'c18_hist c18_deep c18_after c18_any', (3, 3, 2), 6000), run('rel', 'c18_hist c18_deep c18_after c18_any', (2, 2, 1), 600)],
      'worlds of up to 9 entities (plain, with a data layout, standing for Rust types) attached to one another in every way the start situations 0-7 of rel.rs and K further operations give: K = 2 (3 situations: 3; after the despawn of a component: 1); thorough 3 (3; 2); attached values symbolic', SIMO)
C15E = 'c15_reg c15_end c15_endmem c15_twins c15_routes c15_worlds c15_quiet c15_again'
check('C15',
      [run('dbg', C15E, (2, 2, 2, 3, 3, 1), 400)],
      [run('dbg', C15E, (3, 3, 3, 4, 4, 2), 7000), run('rel', C15E, (2, 2, 2, 3, 3, 1), 900)],
      SIMB + 'registration and the end of type entities among K operations (2; thorough 3); 8 equal-looking types, two of them of the same name, met by 5 routes: 2 contacts (two types: 3; two worlds: 3); thorough 3 (4; 4); one world after another with memory given out again', SIMO)
C16E = 'c16_bytes c16_tides c16_ended c16_late c16_moves c16_crowd c16_ids c16_wide c16_fan c16_types c16_thousands'
check('C16',
      [run('dbg', C16E + ' c16_sets', (70, 2, 3, 2, 1, 1, 2, 1, 1), 400), run('dbg', 'c16_sets', (140, 1, 0, 0, 0, 0, 0), 100), HOARD],
      [run('dbg', C16E + ' c16_sets', (70, 3, 4, 3, 2, 2, 3, 2, 2), 9000), run('dbg', 'c16_sets', (140, 2, 0, 0, 0, 0, 0), 3000), run('dbg', 'c16_sets', (210, 2, 0, 0, 0, 0, 0), 3000), HOARD, run('rel', C16E + ' c16_sets', (140, 1, 3, 2, 1, 1, 2, 1, 1), 900)],
      'worlds of up to 140 (thorough 210) component sets made in three ways, 40 remembered moves out of one set, 4 to 33 entities per set, component ids of index 0 to 130 in new and used slots, 12 (data-less ones: 270) components per entity, 270 components and more than 512 sets, 70 Rust types, 4100 entities and 520 endings, 2600 endings and as many new beginnings in three orders, 65540 component sets, 65545 entities in one set, 65600 endings and new beginnings; then K operations on the entities at the boundaries (K = 1 to 3, thorough 2 to 4) and a comparison of the whole world', 'larger worlds; histories longer than the construction plus K operations')
C17E = 'c17_left c17_first c17_dyn c17_perm c17_perm5 c17_twice c17_reuse c17_mixed c17_macro'
check('C17',
      [run('dbg', C17E, (3, 2, 1, 1), 400)],
      [run('dbg', C17E, (5, 3, 2, 2), 9000), run('rel', C17E, (3, 2, 1, 1), 900)],
      'creations of up to 3 (thorough 5) of 5 component kinds in every order (and of all 4 or 5 of two further choices of kinds), 11 kinds of sizes 0 to 64 and alignments 1 to 64, five capacity hints, six states of the reused buffer, built, built twice, never built, extended after being built; two (thorough three) creations in a row or with one (two) operations between; values symbolic', 'values given to a creation that is never finished are not required to be destroyed; more components in one creation: C16')

more('C01', run('dbg', 'c16_ids c16_thousands c16_tides c17_twice', (3, 2, 1, 1, 1, 1, 2), 200), HUGE)
more('C02', VAST, TRAILS, BIG, CREATE, LAYOUTS, HUGE)
more('C03', TRAILS, BIG, HUGE)
more('C04', BIG, HUGE)
more('C05', BIG, GROWTH, run('dbg', 'c02_monsters', (0, 0, 0, 1), 200))
more('C06', VAST, BIG, CREATE, RELS, GROWTH)
more('C07', VAST, BIG, CREATE, RELS, LAYOUTS, run('dbg', 'c09_layouts c09_growth', (0, 0, 0, 1, 1), 200))
more('C11', TRAILS, BIG, HUGE)
more('C10', READERS)
more('C12', run('dbg', 'c12_data', (0,), 200), run('rel', 'c12_data', (0,), 200))
more('C13', BIG, LAYOUTS, run('dbg', 'c02_vast c02_monsters', (0, 0, 0, 1), 200), TRAILS)
more('C08', run('dbg', 'c16_late c16_ended', (70, 1, 2, 1, 1, 1, 2, 0, 0), 200))
more('C15', run('dbg', 'c16_types c16_ids c16_ended', (70, 1, 2, 1, 1, 1, 2, 0, 0), 200))
more('C17', run('dbg', 'c16_wide c16_thousands', (70, 1, 2, 1, 1, 1, 2), 200), GROWTH, run('dbg', 'c17_loads', (0,), 200))
more('C16', run('dbg', 'c06_crowds c17_loads c02_vast c02_monsters', (0, 0, 0, 0, 0, 0), 200))
more('C18', run('dbg', 'c16_fan c16_ids c16_sets c16_ended', (70, 1, 2, 1, 1, 1, 2, 0, 1), 200), run('dbg', 'c05_ended', (0,), 100))

NOT_APPLICABLE = {}
HOOKS = {'guard': 'cfg(arche_verif)', 'enable': 'RUSTFLAGS=--cfg arche_verif="bits" (bitsets, C08) or --cfg arche_verif="entities" (allocator state, C01)', 'source_commits': ['748e0b2']}
