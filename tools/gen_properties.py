#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run by hand after editing; the .jsonl is committed)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,obs,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
W="arche_tape/src/world.rs"; EN="arche_tape/src/entities.rs"; BI="arche_tape/src/bitset_iterator.rs"; SQ="arche_tape/src/static_query.rs"; DQ="arche_tape/src/dyn_query.rs"; EB="arche_tape/src/entity_builder.rs"; UV="untyped_vec/src/lib.rs"; AV="arche_tape/src/array_vec.rs"; LI="arche_tape/src/lib.rs"
H=["histories","inputs"]
p("C01","An entity id denotes exactly one lifetime",
 "Every entity that is created gets an id different from every id handed out before (until one slot has been reused 2^32 times). An id is reported alive from its creation up to the first successful despawn of that very id and dead for ever after, and despawn returns true exactly once per id. Creating and despawning other entities never changes whether an id is alive.",
 H,"every sequence of spawns and despawns of any live or stale id, and every internal free-list / generation state reachable by one",
 "the tests walk five fixed sequences of at most three spawns; reuse order, interleaved stale ids and generation wrap with several free slots are never combined",
 [EN,W],[("Entities::spawn / despawn / is_alive: generation counter + free list",EN),("World::despawn, EntityBuilder::build keep entity metadata in step",W)],
 ["World::is_alive","World::despawn","World::get_entity_meta"],
 [("generations","(alive, generation) per slot",EN),("despawned","free list of slots",EN)],"constructor for an id / allocator state with chosen numbers")
p("C02","Structural changes never disturb any entity's component data",
 "After any sequence of spawning, despawning, adding and removing components and writing through queries, every component of every living entity reads back exactly the value last written to it. In particular moving, swapping or removing one entity's data never changes, loses or exchanges another entity's values.",
 H,"every history of spawn/despawn/add/remove/write over entities sharing component sets, with arbitrary component values",
 "the tests use literal values and at most two structural operations; swap positions (first, middle, last), repeated moves between the same sets and different value sizes are not combined",
 [W,EB,UV],[("add_component_dynamic_with_data / remove_component_dynamic: zip over sorted storages, swap move, meta fix-up",W),("Archetype::despawn: swap_remove + meta fix-up",W),("UntypedVec::swap_move_element_to_other_vec / swap_remove / push_raw",UV),("EntityBuilder::build",EB)],
 ["World::query(..).get","World::query(..).iter","World::get_component_mut_dynamic"])
p("C03","Typed query iteration is exact",
 "Iterating a typed query yields every living entity that has all the requested components exactly once and no other entity, each with its own id and its own component values in the requested positions. This holds for every mix of shared, exclusive and id parameters, whatever the history of the world, and a component type nobody carries gives an empty iteration rather than an error.",
 H,"every world history and every query shape (tuples of & / &mut / ids over the component types)",
 "tests iterate freshly spawned worlds with one or two component sets; empty component sets left behind by moves, despawned rows and the not-yet-used component case are not reached",
 [SQ,BI,W],[("StaticQuery::new / iter / IntraArchetypeIter",SQ),("BitsetIterator over archetype_bitset and entities_bitvec",BI),("query_archetypes",W)],
 ["StaticQuery::iter"])
p("C04","Looking one entity up through a query agrees with its components",
 "Looking up an id through a typed query returns a result exactly when that id is alive and the entity has every requested component, and the references returned are that entity's own values. Ids of despawned entities never give access to the entity that now occupies their slot.",
 H,"every world history, every live or stale id, every query shape",
 "the tests look up only live, never-moved entities; stale ids whose slot was reused and entities relocated by another entity's removal are not sampled",
 [SQ,W],[("StaticQuery::get: alive check, entity meta, offset",SQ),("entity metadata maintenance",W)],["StaticQuery::get"])
p("C05","Untyped queries see the same world as typed ones",
 "A query by component ids, iterated by rows or by columns, yields exactly the living entities that have every named component, with pointers that address those entities' own data, properly aligned, and column lengths equal to the number of entities. Naming an id that nobody carries, that is dead or that this world never used gives an empty result.",
 H,"every world history and every list of fetches (ids, shared, exclusive), row and column access",
 "the tests cover freshly spawned worlds and row access only; column access, moved entities, dead ids, entities-as-components and zero-sized components are not exercised",
 [DQ,BI,W],[("DynQuery::new / iter / column_iter, FetchType::make_create_ptr_fn",DQ),("BitsetIterator",BI)],["DynQuery::iter","DynQuery::column_iter"])
p("C06","Each component value is destroyed exactly once, at the right moment",
 "The destructor of a component value that became part of an entity runs exactly once: when that component is removed, when its entity is despawned, or when the world is dropped, whichever comes first. It never runs earlier (in particular not when data is moved between component sets or storage grows), never twice, and is not skipped for zero-sized types.",
 H,"every history ending in dropping the world, with destructor-carrying component types of several sizes including zero",
 "the storage crate's tests drop one element of one type; no test observes destructors through the world at all",
 [UV,W,EB],[("UntypedVec::pop / swap_remove / Drop",UV),("Archetype::despawn, remove_component_dynamic",W),("ManuallyDrop hand-over in EntityBuilder::with and World::add_component",EB)],["Drop impls of component types"])
p("C07","Safe use of the world is memory safe and leak free",
 "No sequence of calls to the safe API reads or writes memory outside live allocations, reads uninitialised memory, frees twice, frees with the wrong layout, or produces a misaligned or null reference, whatever the size and alignment of the component types. Once the world and everything taken from it are dropped, all memory it allocated has been released.",
 H,"every history over component types of sizes 0..64 and alignments 1..64, including storage growth and empty component sets",
 "ordinary tests do not observe memory errors or leaks and use naturally aligned primitive types only",
 [UV,W,EB,SQ,DQ,AV],[("UntypedVec::realloc and pointer arithmetic",UV),("EntityBuilder byte buffer and its reuse",EB),("pointer casts in queries",SQ)],["every safe API call"])
p("C08","Bitset combination yields exactly the common positions",
 "Iterating a combination of bitsets yields, in increasing order and without repetition, exactly the positions below the requested length at which every (optionally mapped) bitset has a one, and after the end keeps reporting the end. A bitset reads back exactly the bits written to it, reports nothing beyond its length, and writing one position never changes another.",
 ["inputs","histories"],"all bit patterns, lengths and numbers of combined sets within the stated words; all write sequences",
 "the tests use about ten hand-picked patterns within two words",
 [BI],[("BitsetIterator::next",BI),("Bitvec::set_bit / push_bit / get_bit, Bitsetsss",BI)],["BitsetIterator (test-visible)","query iteration"],None,"re-export of the crate-private bitset types")
p("C09","The untyped vector behaves like a vector for every element layout",
 "For every element size and alignment, including zero-sized and over-aligned elements, the untyped vector behaves as a growable array: pushed elements read back in order and byte for byte, removing by swapping replaces the removed element by the last one, moving an element to another vector appends it there and removes it here, popping an empty vector does nothing and says so. Lengths, element access beyond the end and slices agree with that model at all times.",
 H,"every operation sequence within the bound, every element layout in the stated set, arbitrary element bytes and indexes",
 "the tests use u32 and one pointer-sized struct and at most five elements; zero-sized and over-aligned layouts and middle elements are untested",
 [UV],[("UntypedVec::push_raw / pop / swap_remove / swap_move_element_to_other_vec / get_raw / as_slice / realloc",UV)],["untyped_vec::UntypedVec public API"])
p("C10","Conflicting accesses are never granted together, compatible ones are",
 "While a query holding exclusive access to a component is alive, no other query on that component can be obtained, and while shared access is held no exclusive one can; a query that itself asks for conflicting access is never granted. Queries that only share, or that use different components, are granted side by side, and dropping a query releases everything it held.",
 ["histories","inputs","programs"],"every pair of typed or untyped query shapes held together, in every order of acquisition and release, over components registered in any order and by any route",
 "no test holds two queries at once",
 [SQ,DQ,W],[("locks / lock_lookup: one RwLock per component",W),("guards held in StaticQuery / DynQuery",SQ),("DynQuery::new guards",DQ)],["World::query","World::query_dynamic"])
p("C11","Component membership is exactly what was added minus what was removed",
 "After any sequence of additions and removals an entity has exactly the components added and not since removed, independently of the order of operations and of what other entities went through before. Asking whether it has a component, looking it up and iterating queries all agree with that set.",
 H,"all orders of adding and removing components over several entities, including repeated transitions served from caches",
 "tests perform at most one add and one remove per entity, so cached transitions, long chains and alternative routes to the same set are never compared",
 [W,AV,EB],[("AddRemoveCache, find_archetype_dynamic{,_plus_id,_minus_id}, from_archetype_with/without",W),("ArrayVec::push_start",AV),("component order in create_archetype",EB)],["World::has_component","StaticQuery::get","StaticQuery::iter"])
p("C12","Refused operations leave the world unchanged",
 "Operations that are refused - adding a component that is present, removing one that is absent, giving a new entity the same component twice, using a dead id as entity or as component, adding data-less what needs data - panic or report failure without any effect on existing entities, their components, queries or later operations. Despawning a dead id returns false and changes nothing.",
 ["histories","inputs","fault_sequences"],"every refused operation at every point of a history, followed by further use of the world",
 "one should_panic test exists and it inspects nothing after the panic",
 [W,EB,EN],[("asserts before mutation in add/remove",W),("duplicate detection in EntityBuilder",EB),("alive checks",EN)],["World API after catch_unwind"])
p("C13","Entities used as components behave like any other component",
 "A plain entity added to other entities as a data-less component, or an entity spawned with a data layout and used as a component with data, can be added at creation or later, removed, found and queried exactly like a typed component, and its values are preserved bit for bit. A component id made for a Rust type is interchangeable between the typed and the untyped interface.",
 H,"every history mixing typed and untyped creation, addition, removal and lookup of components, over several value layouts",
 "the untyped tests only spawn and iterate; untyped add, remove and lookup have no test",
 [W,EB,DQ],[("add_component_dynamic(_with_data) / remove_component_dynamic / get_component_mut_dynamic",W),("with_dynamic / with_dynamic_with_data",EB)],["World dynamic API","DynQuery"])
p("C14","Entity ids compare, order and hash consistently",
 "Two entity ids are equal exactly when both their index and generation are equal, exactly when their 64-bit forms are equal and exactly when neither is ordered before the other; the order is total and transitive. Equal ids hash equally, ids that differ have different 64-bit forms, and the printable parts agree with the id.",
 ["inputs"],"all pairs and triples of ids (all 2^32 indexes and generations)",
 "tests compare a handful of small literal ids; the high bits, ordering and hashing are not tested",
 [EN,LI],[("EcsId eq/ord/hash/as_u64",EN),("TypeIdHasher",LI)],["EcsId"],None,"constructor for an id with chosen index and generation")
p("C15","Each component type has one identity per world",
 "Within a world each Rust type always maps to the same component id, different types map to different ids, and merely registering a type changes no query result, apart from the type's own entity appearing, and makes no later operation fail. The mapping is unaffected by the order of registration, by entities coming and going, and by what other worlds do; if the entity standing for a type is despawned the type can simply be used again.",
 H,"all registration orders and routes (spawn, add, remove, explicit registration), interleaved with spawns, despawns and queries, over several worlds",
 "registration is only ever exercised implicitly, always followed by an entity carrying the type",
 [W,SQ,EB,LI],[("get_or_create_type_id_ecsid, type_id_to_ecs_id",W),("TypeIdHasher",LI),("QueryParam::fetch_type",SQ)],["World::get_or_create_type_id_ecsid","World::query"])
p("C16","Results do not depend on the size of the world",
 "All guarantees about entities, components and queries hold unchanged when the number of component sets, component types, entities per set or distinct transitions grows past any internal capacity. In particular results are the same before and after crossing machine-word, cache and initial-allocation boundaries.",
 ["configurations","inputs","histories"],"worlds scaled past every internal threshold (64 and 128 component sets, 4+ cached transitions, 4/8/16.. elements, 32 ids, 4096 entities), arbitrary probe choices",
 "the largest test world has two component sets and ten entities",
 [W,BI,AV,UV,EB],[("archetype_bitset words",BI),("CACHE_SIZE",W),("UntypedVec::realloc",UV)],["queries and lookups in large worlds"])
p("C17","Creating an entity stores exactly the given values",
 "An entity created with any list of component values, in any order, of any sizes and alignments, with or without a capacity hint, ends up with exactly those values and no others. Buffers reused from earlier creations, abandoned creations, component types first seen midway, and finishing the same creation twice never change that or affect other entities.",
 ["inputs","histories","configurations"],"all orders and layouts of component lists within the bound, all capacity hints in range, all sequences of finished, abandoned and repeated creations",
 "tests build with naturally aligned primitives in one order, capacity hints are tried on empty entities only, and buffer reuse is never observed",
 [EB,W],[("EntityBuilder with/with_dynamic_with_data/realloc/build/create_archetype",EB),("entity_builder_reuse",W)],["EntityBuilder","World::spawn_with_capacity"])
p("C18","Despawning an entity that is used as a component keeps the world consistent",
 "Despawning an entity removes it as a component from every entity that carries it, and leaves all their other components intact. Under no circumstances does a dead id remain attached to a living entity as a component, nor does an entity later reusing its slot appear to be attached.",
 H,"every history in which an entity that is, was, or never became a component of others is despawned and its slot reused",
 "the only test for it is disabled by an early return",
 [W,BI],[("World::despawn",W),("slot-indexed archetype bitsets",BI)],["World::despawn","World::query_dynamic"])
out=os.path.join(os.path.dirname(__file__),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json')) if os.path.exists('/root/.vp/PROPERTIES.schema.json') else None
if s:
    for x in P: jsonschema.validate(x,s)
print(len(P))
