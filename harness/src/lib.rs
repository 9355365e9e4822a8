//! Harnesses: each is one exploration of the real crate, written against its public interface.
//! The harnesses of a property are compiled only with that property's feature.
#![allow(static_mut_refs, unused_macros, dead_code)]
pub mod sym;
#[macro_use]
pub mod world;
pub mod hist;
pub mod iter;
pub mod wide;
pub mod desc;
pub mod lay;
pub mod sets;
pub mod big;
pub mod coll;
macro_rules! properties {
    ($($feat:literal $m:ident: $($f:ident)*;)*) => {
        $(#[cfg(feature = $feat)] pub mod $m;)*
        pub static HARNESSES: &[(&str, extern "C" fn())] = &[$($(#[cfg(feature = $feat)] (stringify!($f), $m::$f as extern "C" fn()),)*)*];
    };
}
properties! {
    "c01" c01: h_c01_hist1 h_c01_hist2 h_c01_hist3 h_c01_moves3 h_c01_moves4 h_c01_growth h_c01_growth2 h_c01_wide h_c01_arity h_c01_two h_c01_many h_c01_big h_c01_iterate h_c01_layouts h_c01_pairs h_c01_laygrow h_c01_coll;
    "c02" c02: h_c02_forged h_c02_reuse h_c02_wrap h_c02_register h_c02_big h_c02_cycles;
    "c02l" c02l: h_c02_large;
    "c03" c03: h_c03_hist1 h_c03_hist2 h_c03_hist3 h_c03_fail h_c03_growth h_c03_iterate h_c03_arity h_c03_many h_c03_coll;
    "c04" c04: h_c04_hist1 h_c04_hist2 h_c04_hist3 h_c04_wide h_c04_ladder h_c04_many h_c04_coll;
    "c05" c05: h_c05_plain h_c05_filter h_c05_filter_hist h_c05_rich h_c05_hist2 h_c05_growth h_c05_many h_c05_arity h_c05_big h_c05_coll h_c05_adaptors;
    "c06" c06: h_c06_hist1 h_c06_hist2 h_c06_paths h_c06_wide h_c06_growth h_c06_many h_c06_arity h_c06_big h_c06_coll;
    "c07" c07: h_c07_churn h_c07_churn6 h_c07_hist2 h_c07_many h_c07_wrap h_c07_big h_c07_adaptors;
    "c08" c08: h_c08_hist1 h_c08_state h_c08_twice h_c08_wide h_c08_arity h_c08_many h_c08_big h_c08_coll;
    "c09" c09: h_c09_hist1 h_c09_hist2 h_c09_hist3 h_c09_hist4 h_c09_relations h_c09_member h_c09_full h_c09_ladder h_c09_relations_full h_c09_reserved;
    "c10" c10: h_c10_any3 h_c10_any4 h_c10_any5 h_c10_wide h_c10_mid h_c10_limits h_c10_tuples h_c10_arity;
    "c11" c11: h_c11_pairs h_c11_mixed h_c11_triples h_c11_derived h_c11_derived2 h_c11_collide h_c11_reserved h_c11_many h_c11_manypairs h_c11_entities h_c11_hist2 h_c11_hist3 h_c11_orders;
    "c12" c12: h_c12_layouts h_c12_pairs h_c12_growth h_c12_hist1 h_c12_hist2 h_c12_hist3 h_c12_empty h_c12_foreign h_c12_raw h_c12_source h_c12_arity h_c12_many h_c12_big h_c12_coll h_c12_huge;
    "c13" c13: h_c13_pack h_c13_set h_c13_raw;
    "c14" c14: h_c14_record h_c14_array h_c14_row h_c14_archetype;
    "c15" c15: h_c15_register h_c15_register5 h_c15_limit h_c15_moves h_c15_growth h_c15_storage h_c15_sets h_c15_hist h_c15_recycle;
    "c16" c16: h_c16_short h_c16_bytes h_c16_long h_c16_str h_c16_spec h_c16_names;
    "c17" c17: h_c17_any h_c17_hist h_c17_many h_c17_wide;
    "c18" c18: h_c18_hist2 h_c18_small h_c18_small3 h_c18_hist3 h_c18_growth h_c18_copy h_c18_layouts h_c18_big;
    "c19" c19: h_c19_destroy h_c19_twice h_c19_handle h_c19_drop h_c19_archetype;
    "c20" c20: h_c20_slots h_c20_slots6 h_c20_rounds h_c20_rounds2 h_c20_idle h_c20_rejected h_c20_rows h_c20_moves h_c20_cycles h_c20_many h_c20_coll;
    "c31" c31: h_c31_shared h_c31_sets h_c31_rows h_c31_moved h_c31_dropped h_c31_separate h_c31_chunks;
    "c32" c32: h_c32_op h_c32_twice h_c32_growth h_c32_new h_c32_archetype;
}
