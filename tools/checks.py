"""Which harnesses decide which property, and within which bounds."""


def H(name, bounds, tier="quick", profiles=("dev",), **kw):
    return dict(name=name, bounds=bounds, tier=tier, profiles=profiles, **kw)


BOTH = ("dev", "rel")
T = "thorough"
# the archetype id hash as an uninterpreted function of its bytes: decides for every hash function, so for every collision
UF = {"uf": ("fnv1a_hash_32",)}
# the same, for hash functions that do not yield the reserved value
UFN = {"uf": ("fnv1a_hash_32",), "uf_not": (0xFFFF_FFFF,)}
CHECKS = {
    "C01": {"harnesses": [
        H("h_c01_hist1", "5 initial worlds (up to 4 entities), any 1 of 34 operations on any entity, all component values symbolic", profiles=BOTH),
        H("h_c01_hist2", "5 initial worlds, any of 8 row-moving operations then any of 34 operations, any entities", profiles=BOTH),
        H("h_c01_moves3", "4 entities in shared storages, 3 operations from sets of 4-5, any entities", profiles=BOTH),
        H("h_c01_growth", "storages at 126-129 rows (growth boundary 128), any 2 of 5 operations", profiles=BOTH),
        H("h_c01_growth2", "257 rows: two growths with zero-sized, over-aligned and heap-owning components", profiles=BOTH),
        H("h_c01_wide", "entities with 12-14 components, tuples in permuted order", profiles=BOTH),
        H("h_c01_arity", "groups of every arity 1-14 in two orders, next to larger and smaller sets; written and read as tuples", profiles=BOTH),
        H("h_c01_two", "two registries (5 and 2 initial worlds), an operation on the first, registries swapped and boxed, an operation on each, one dropped"),
        H("h_c01_many", "300 storages (sets of 9 types), the queried set in 8 storage positions incl. 127/128/254-256, any component change of it or a neighbour", profiles=BOTH),
        H("h_c01_big", "storages of 257 or 65537 rows, first/last/middle rows, any operation"),
        H("h_c01_coll", "entities in sets whose hashes collide with each other (disjoint, overlapping, nested) or with another type's id, one of any operations, all values read"),
        H("h_c01_iterate", "4 initial worlds, values written through 8 mutable iterations, all then read", profiles=BOTH),
        H("h_c01_layouts", "12 pairs of component layouts (sizes 0-65535, alignments 1-32768), 1-3 entities, 6 continuations", profiles=BOTH),
        H("h_c01_pairs", "the same layouts as two-component entities", profiles=BOTH),
        H("h_c01_laygrow", "8 pairs of layouts, 129 entities (growth)", profiles=BOTH),
        H("h_c01_hist3", "5 initial worlds, 2 row-moving operations then any operation", T),
        H("h_c01_moves4", "2 initial worlds, 4 row-moving operations of 5", T),
    ]},
    "C02": {"hook_feature": "c02l", "harnesses": [
        H("h_c02_forged", "5 initial worlds, 1 of 6 operations, then any operation with any 32-bit handle value of no live entity", profiles=BOTH),
        H("h_c02_reuse", "3 entities, 4 operations out of create/destroy/remove on any handle, then any operation on any handle"),
        H("h_c02_wrap", "a slot recycled 1, 2, 127, 128, 254 or 255 times, then any handle value", profiles=BOTH),
        H("h_c02_register", "entity register: any 5 creations/destructions with symbolic 32-bit handles and symbolic rows", reach=[0, 1, 2], profiles=BOTH),
        H("h_c02_large", "entity register with 257 to 2^24-3 live entities, boundary slot numbers", hook=True, profiles=BOTH),
        H("h_c02_big", "257, 1025 or 65537 live handles, one destroyed and possibly reused, every handle queried"),
        H("h_c02_cycles", "a slot taken through whole version cycles, stale handles of every age", profiles=BOTH),
    ]},
    "C03": {"harnesses": [
        H("h_c03_hist1", "4 initial worlds, any operation", profiles=BOTH),
        H("h_c03_hist2", "4 initial worlds, any 2 of 16 operations", profiles=BOTH),
        H("h_c03_fail", "4 initial worlds, failing creations with duplicate groups, operations with any forged handle", profiles=BOTH),
        H("h_c03_growth", "storages at the growth boundary, 2 of 4 operations", profiles=BOTH),
        H("h_c03_iterate", "iteration and writes in all variants", profiles=BOTH),
        H("h_c03_arity", "groups of every arity 1-14 in two orders, next to larger and smaller sets; values with destructors", profiles=BOTH),
        H("h_c03_many", "300 storages (sets of 9 types), the queried set in 8 storage positions incl. 127/128/254-256, any component change of it or a neighbour"),
        H("h_c03_coll", "entities in sets with colliding hashes (disjoint, overlapping, nested) or hash equal to a type id, any operation"),
        H("h_c03_hist3", "4 initial worlds, any 3 of 16 operations", T),
    ], "leaks": True},
    "C04": {"harnesses": [
        H("h_c04_hist1", "5 initial worlds (up to 4 entities), any of 34 operations, whole observable state compared", profiles=BOTH),
        H("h_c04_hist2", "5 initial worlds (up to 4 entities), two additions/removals of any component on any entity, failing ones included", profiles=BOTH),
        H("h_c04_wide", "entities with 12-14 components, any component added or removed at the maximum", profiles=BOTH),
        H("h_c04_ladder", "1 to 14 components and back, in any rotation of the types", profiles=BOTH),
        H("h_c04_many", "300 storages (sets of 9 types), the queried set in 8 storage positions incl. 127/128/254-256, any component change of it or a neighbour"),
        H("h_c04_coll", "entities in sets with colliding hashes (disjoint, overlapping, nested) or hash equal to a type id, any operation, whole state compared", profiles=BOTH),
        H("h_c04_hist3", "5 initial worlds (up to 4 entities), three component-set changes", T),
    ]},
    "C05": {"harnesses": [
        H("h_c05_plain", "5 initial worlds (up to 4 entities), any of 34 operations, 10 groups, 4 unfiltered variants", profiles=BOTH),
        H("h_c05_filter", "7-entity world with 5 storages, 10 groups, 4 filtered variants, the filter any predicate on component sets (one symbolic bit per set)", profiles=BOTH),
        H("h_c05_filter_hist", "5 initial worlds (up to 4 entities), one operation, 3 groups, 4 filtered variants, any filter", profiles=BOTH),
        H("h_c05_rich", "7-entity world, all variants in turn, writing through the mutable ones"),
        H("h_c05_growth", "storages of 126-129 rows, 8 variants", profiles=BOTH),
        H("h_c05_many", "300 storages (sets of 9 types), the queried set in 8 storage positions incl. 127/128/254-256, any component change of it or a neighbour; 8 variants, 2 filters"),
        H("h_c05_arity", "groups of every arity 1-14 in two orders, next to larger and smaller sets; 8 variants", profiles=BOTH),
        H("h_c05_big", "storages of 257 or 65537 rows, first/last/middle rows, any operation; 8 variants"),
        H("h_c05_coll", "entities in sets with colliding hashes (disjoint, overlapping, nested) or hash equal to a type id; 8 variants"),
        H("h_c05_adaptors", "iterators used through count, last, fold, nth, size_hint and resumed stepping", profiles=BOTH),
        H("h_c05_hist2", "5 initial worlds (up to 4 entities), two operations, 10 groups, 4 variants", T),
    ]},
    "C06": {"harnesses": [
        H("h_c06_hist1", "5 initial worlds (up to 4 entities), one of 12 operations, all groups, 4 exact variants", profiles=BOTH),
        H("h_c06_paths", "one set reached by creation, by 18 orders of additions with detours, and by removals", profiles=BOTH),
        H("h_c06_wide", "14-component sets", profiles=BOTH),
        H("h_c06_growth", "storages of 126-129 rows, 4 exact variants", profiles=BOTH),
        H("h_c06_many", "300 storages (sets of 9 types), the queried set in 8 storage positions incl. 127/128/254-256, any component change of it or a neighbour; 4 variants"),
        H("h_c06_arity", "groups of every arity 1-14 in two orders, next to larger and smaller sets; 4 variants", profiles=BOTH),
        H("h_c06_big", "storages of 257 or 65537 rows, first/last/middle rows, any operation; 4 variants"),
        H("h_c06_coll", "entities in sets with colliding hashes (disjoint, overlapping, nested) or hash equal to a type id; 4 variants"),
        H("h_c06_hist2", "5 initial worlds (up to 4 entities), two operations, all groups, variants with handles", T),
    ]},
    "C07": {"harnesses": [
        H("h_c07_churn", "any 5 creations/destructions/removals from an empty registry", profiles=BOTH),
        H("h_c07_hist2", "5 initial worlds (up to 4 entities), two operations", profiles=BOTH),
        H("h_c07_many", "70 entities, a range at any position of length 1, 2, 7 or 70 destroyed, 0-70 created again", profiles=BOTH),
        H("h_c07_wrap", "a slot recycled 127-257 times", profiles=BOTH),
        H("h_c07_big", "257, 1025, 65536 or 65537 entities, one, 200 or nearly all destroyed"),
        H("h_c07_adaptors", "enumeration through count, last, fold, nth, size_hint and resumed stepping, after up to 4 creations and 3 operations", profiles=BOTH),
        H("h_c07_churn6", "any 6 creations/destructions/removals", T),
    ]},
    "C08": {"harnesses": [
        H("h_c08_hist1", "5 initial worlds (up to 4 entities), one of 6 operations, removal of any entity by any of the groups", profiles=BOTH),
        H("h_c08_state", "4 initial worlds plus any 32-bit handle value, removal by any group, whole state compared", profiles=BOTH),
        H("h_c08_twice", "5 initial worlds (up to 4 entities), two removals of any entities by any groups with a creation in between"),
        H("h_c08_wide", "12-14 components, removal by permuted tuples", profiles=BOTH),
        H("h_c08_arity", "groups of every arity 1-14 in two orders, next to larger and smaller sets; any of them removed by the group", profiles=BOTH),
        H("h_c08_many", "300 storages (sets of 9 types), the queried set in 8 storage positions incl. 127/128/254-256, any component change of it or a neighbour; removal by two groups"),
        H("h_c08_big", "storages of 257 or 65537 rows, two removals, all values read"),
        H("h_c08_coll", "entities in sets with colliding hashes (disjoint, overlapping, nested) or hash equal to a type id, removal of any by any of the groups", profiles=BOTH),
    ]},
    "C09": {"harnesses": [
        H("h_c09_hist1", "any 1-3 distinct types (16-bit ids, sizes, alignments symbolic), built in their given order, then one addition or removal of any type", profiles=BOTH, **UF),
        H("h_c09_hist2", "any 1-2 types, two additions/removals of any types", **UF),
        H("h_c09_relations", "inclusion/exclusion of any two sets of 1-3 types", **UF),
        H("h_c09_member", "membership and addition by Rust type, any 1-3 types", **UF, profiles=BOTH),
        H("h_c09_full", "13-14 spread-out types, add/remove any type, then add/remove one of 15; ids hash to no reserved value", **UFN, profiles=BOTH),
        H("h_c09_ladder", "growing to 14 types and shrinking to 1 in 105 orders", profiles=BOTH),
        H("h_c09_relations_full", "13-14 types against any 1-2 types", **UF, profiles=BOTH),
        H("h_c09_reserved", "two sets whose real hash is the reserved value, in 4 orders, with steps away from them", profiles=BOTH),
        H("h_c09_hist3", "any type, three additions/removals of any types", T, **UF),
        H("h_c09_hist4", "any 3 types and two steps", T, **UF),
    ]},
    "C10": {"harnesses": [
        H("h_c10_any3", "groups of any 1-3 descriptors, duplicates included", profiles=BOTH, **UF),
        H("h_c10_any4", "groups of any 4 descriptors", **UF, profiles=BOTH),
        H("h_c10_any5", "groups of any 5 descriptors", **UF, profiles=BOTH),
        H("h_c10_mid", "groups of 6, 7, 8 or 10 descriptors, one of them with any id", **UF, profiles=BOTH),
        H("h_c10_wide", "groups of 13-14 descriptors, one of them with any id", **UF, profiles=BOTH),
        H("h_c10_limits", "empty group, more than 14 types", profiles=BOTH),
        H("h_c10_tuples", "tuples of 1-6 Rust types, repetitions included", profiles=BOTH),
        H("h_c10_arity", "tuples of every arity 2-14 in two orders", profiles=BOTH),
    ]},
    "C11": {"harnesses": [
        H("h_c11_collide", "3 really colliding pairs of sets, 4 requests/derivations in any order", profiles=BOTH),
        H("h_c11_entities", "3 entities with colliding sets, each obtained in 3 ways, values symbolic", profiles=BOTH),
        H("h_c11_reserved", "a set hashing to the reserved value, requested and derived", profiles=BOTH),
        H("h_c11_pairs", "three sets of any two types", **UF),
        H("h_c11_mixed", "sequences of 3-4 sets of 1-3 any types", **UF, profiles=BOTH),
        H("h_c11_triples", "two sets of any three types; pair, triple, pair", **UF),
        H("h_c11_derived", "1-2 sets of 1-3 any types, then any type added to or removed from any storage", **UF),
        H("h_c11_orders", "two orders of building up a 4-type set, plain and colliding ids", profiles=BOTH),
        H("h_c11_many", "66-300 single-type sets in 4 orders, then any type"),
        H("h_c11_manypairs", "66-171 two-type sets in 3 orders, each requested twice", profiles=BOTH),
        H("h_c11_hist2", "5 initial worlds, two operations: entities grouped by component set", profiles=BOTH),
        H("h_c11_derived2", "1 set of 1-2 any types, two derivations", **UF),
        H("h_c11_hist3", "5 initial worlds, three operations", T),
    ]},
    "C12": {"harnesses": [
        H("h_c12_layouts", "12 pairs of component layouts (sizes 0-65535, alignments 1-32768), 1-3 entities, 6 continuations, iteration", profiles=BOTH),
        H("h_c12_pairs", "the same layouts as two-component entities in both tuple orders", profiles=BOTH),
        H("h_c12_growth", "8 pairs of layouts, 129 entities (growth), 6 continuations", profiles=BOTH),
        H("h_c12_hist1", "5 initial worlds, any of 34 operations, then one of 31 observations or an operation with any handle value", profiles=BOTH),
        H("h_c12_hist2", "5 initial worlds, any two of 34 operations on any entities", profiles=BOTH),
        H("h_c12_empty", "5 initial worlds, everything destroyed, iteration, two more operations", profiles=BOTH),
        H("h_c12_coll", "entities in sets with colliding hashes (disjoint, overlapping, nested) or hash equal to a type id, any operation"),
        H("h_c12_huge", "storages of 2^20+1, 2^23 or 2^24-1 rows of 255-300 bytes (up to 5 GB), first, middle and last row accessed", profiles=BOTH),
        H("h_c12_foreign", "handles of another registry", reach=[0, 1], profiles=BOTH),
        H("h_c12_raw", "storages of 64 pairs of run-time layouts and 8 capacities incl. 0, the maximum and beyond", profiles=BOTH),
        H("h_c12_source", "the storage table with any 16-bit source number, 0-3 storages", reach=[0, 1], profiles=BOTH),
        H("h_c12_arity", "groups of every arity 1-14 in two orders, next to larger and smaller sets; every kind of access", profiles=BOTH),
        H("h_c12_many", "300 storages (sets of 9 types), the queried set in 8 storage positions incl. 127/128/254-256, any component change of it or a neighbour"),
        H("h_c12_big", "storages of 257 or 65537 rows, first/last/middle rows, any operation, 4 iteration variants"),
        H("h_c12_hist3", "5 initial worlds, three row-moving operations"),
    ], "leaks": True},
    "C13": {"harnesses": [
        H("h_c13_pack", "all 2^24 indices x 2^8 versions of two handles", profiles=BOTH),
        H("h_c13_set", "any handle, any 3 setter calls with any values", profiles=BOTH),
        H("h_c13_raw", "all 2^32 raw values", profiles=BOTH)]},
    "C14": {"harnesses": [
        H("h_c14_record", "any 4 changes of a record with any values", profiles=BOTH),
        H("h_c14_array", "three neighbouring records, any 3 changes with any values", profiles=BOTH),
        H("h_c14_row", "all 2^32 row values, all 2^24 links", profiles=BOTH),
        H("h_c14_archetype", "all 2^16 storage numbers", profiles=BOTH)]},
    "C15": {"hooks_only": True, "harnesses": [
        H("h_c15_register", "entity register 0-3 below its limit of 2^24-1, any 4 creations/destructions of 8 slots", profiles=BOTH),
        H("h_c15_register5", "as h_c15_register with 5 steps", profiles=BOTH),
        H("h_c15_limit", "registry 0-2 below its entity limit, 4 component sets, destruction of the first, middle or last entity, values symbolic", reach=[0, 1], profiles=BOTH),
        H("h_c15_moves", "registry at or 1 below its entity limit, component changes between two storages of 5 relative sizes", reach=[0, 1], profiles=BOTH),
        H("h_c15_growth", "storages at or 1 below every power of two from 128 to 2^23 rows, grown through creation or component changes", profiles=BOTH),
        H("h_c15_storage", "storages of 13 capacities up to 2^24-2, grown", profiles=BOTH),
        H("h_c15_sets", "65534 component sets, 8 operations needing or not needing another one"),
        H("h_c15_hist", "5 initial worlds, two operations, refilled", profiles=BOTH),
        H("h_c15_recycle", "at the entity limit, 300 destructions and creations", profiles=BOTH),
    ]},
    "C16": {"harnesses": [
        H("h_c16_short", "all inputs of up to 3 bytes, any 64-bit limit", profiles=BOTH),
        H("h_c16_bytes", "all inputs of up to 24 bytes, any 64-bit limit", profiles=BOTH),
        H("h_c16_long", "inputs of 127-300 bytes, 9 of them symbolic, 9 limits", profiles=BOTH),
        H("h_c16_str", "all 7-bit strings of up to 12 bytes", profiles=BOTH),
        H("h_c16_spec", "published test vectors", profiles=BOTH),
        H("h_c16_names", "the ids of the component types used here", profiles=BOTH)]},
    "C17": {"harnesses": [
        H("h_c17_any", "5 initial worlds, any of 17 invalid groups (2-14 types, repetitions in any position) in any of 17 operations on any live, dead or forged handle; whole state compared afterwards", profiles=BOTH),
        H("h_c17_hist", "5 initial worlds, all 17 operations with an invalid group on all handles before and after any of 34 operations", profiles=BOTH),
        H("h_c17_many", "9 storages, any invalid group and operation", profiles=BOTH),
        H("h_c17_wide", "an entity with 14 components", profiles=BOTH),
    ]},
    "C18": {"harnesses": [
        H("h_c18_hist2", "storages of 4 kinds with 0-4 rows and capacity 0-4, any 2 of 13 operations on any rows, all values and handles symbolic", profiles=BOTH),
        H("h_c18_small", "single-component storages incl. zero-sized and over-aligned, capacities incl. 0 and beyond the maximum, any 2 operations", profiles=BOTH),
        H("h_c18_growth", "growth from capacity 0, 1, 3, 5 or 128 up to 260 rows, every row checked after every growth", profiles=BOTH),
        H("h_c18_copy", "8 pairs of storages with 1-3 rows, any rows, shared components copied", profiles=BOTH),
        H("h_c18_layouts", "12 pairs of component layouts (sizes 0-65535, alignments 1-32768), 3 rows, any of 6 operations on any rows, every byte compared", profiles=BOTH),
        H("h_c18_big", "storages of 257 or 65537 rows, 5 operations on 6 rows, every row compared"),
        H("h_c18_small3", "as h_c18_small with any 3 operations", T),
        H("h_c18_hist3", "storages of 3 kinds, any 3 operations", T),
    ]},
    "C19": {"harnesses": [
        H("h_c19_destroy", "5 initial worlds, any entity destroyed with its first or second destructor panicking, whole state compared, then any of 17 operations", profiles=BOTH, reach=[0, 1]),
        H("h_c19_twice", "5 initial worlds, an operation, two destructions with panicking destructors, creation", reach=[0, 1], profiles=BOTH),
        H("h_c19_handle", "after a panic: 9 operations with the destroyed handle or any 32-bit handle value", reach=[0, 1], profiles=BOTH),
        H("h_c19_drop", "the registry dropped with its k-th destructor panicking (k<=6), after any operation", reach=[0, 1, 2], profiles=BOTH),
        H("h_c19_archetype", "a storage of 1-4 rows, two removals with panicking destructors", profiles=BOTH, reach=[0, 1]),
    ]},
    "C20": {"harnesses": [
        H("h_c20_slots", "0-3 entities, any 4 of 7 operations: slot numbers of all new entities"),
        H("h_c20_slots6", "0-3 entities, any 5 of 7 operations", tier="thorough"),
        H("h_c20_rounds", "5 initial worlds and any of 15 operations on any entity, repeated 14 times", profiles=BOTH),
        H("h_c20_rounds2", "5 initial worlds and any two of 8 operations on any entities, repeated 14 times"),
        H("h_c20_idle", "5 initial worlds, one of 8 operations, 10 kinds of observation"),
        H("h_c20_rejected", "5 initial worlds, one of 8 operations, any of 18 operations rejected for any handle value or for the entity's components"),
        H("h_c20_rows", "1-5000 rows, a part of them removed and created again 6 times"),
        H("h_c20_moves", "storages of 1-129 and 0-128 rows, an entity moved back and forth 300 times"),
        H("h_c20_cycles", "1-2 slots used 600 times beside 0-2 others", profiles=BOTH),
        H("h_c20_many", "300 storages emptied and filled 4 times"),
        H("h_c20_coll", "sets with colliding hashes, 12 times"),
    ], "leaks": True},
    "C30": {"crate": "derive", "harnesses": [
        H("h_c30_shapes", "unit, tuple and braced structs and enums, 4 kinds of attributes and visibility, 7 where clauses, 6 parameter lists, 9 names"),
        H("h_c30_params", "every subset of 9 generic parameters (lifetimes, types, constants, bounds, defaults), with and without a comma at the end, with and without a where clause"),
        H("h_c30_names", "every name of 1-6 ASCII characters that starts with a capital or underscore or ends in a digit or underscore"),
    ]},
    "C31": {"harnesses": [
        H("h_c31_shared", "5 initial worlds, at most one of 34 operations, 8 kinds of shared observation (queries by any handle value, enumeration, 6 shared iterations of 8 groups) on two threads", profiles=BOTH),
        H("h_c31_sets", "entities in sets with colliding hashes, queries and iterations on two threads"),
        H("h_c31_rows", "storages of 1-130 rows, any shared observation on two threads"),
        H("h_c31_moved", "5 initial worlds, an operation on one thread, any of 34 operations and all observations on another"),
        H("h_c31_dropped", "made on one thread, dropped on another"),
        H("h_c31_separate", "two registries on two threads: 3 worlds, any two of 12 operations"),
        H("h_c31_chunks", "slices handed out by 6 mutable iterations are disjoint"),
    ]},
    "C32": {"harnesses": [
        H("h_c32_growth", "storages at 127-128 rows, 4 operations growing them, k-th allocation failing, then the operation again", profiles=BOTH, reach=[0, 1]),
        H("h_c32_new", "a fresh registry"),
        H("h_c32_archetype", "storages of capacity 0, 1, 2, 3, 128: creation and growth with the k-th allocation failing (k<5)", profiles=BOTH, reach=[0, 1]),
        H("h_c32_op", "5 initial worlds, any of 20 operations with its k-th allocation failing (k<8), then any of 8 operations", profiles=BOTH, reach=[0, 1]),
        H("h_c32_twice", "5 initial worlds, two operations with failures in a row", reach=[0, 1]),
    ]},
}
NOTES = {}
NOT_APPLICABLE = {}
