use crate::sym::*;
use shard_ecs::fnv1a::*;
use shard_ecs::*;

/// FNV-1a as published: for every byte, xor then multiply; primes written as shifts and additions
fn spec32(b: &[u8]) -> u32 { let mut h = 2166136261u32; for x in b { h ^= *x as u32; h = h.wrapping_add(h << 1).wrapping_add(h << 4).wrapping_add(h << 7).wrapping_add(h << 8).wrapping_add(h << 24); } h }
fn mul32(b: &[u8]) -> u32 { let mut h = 2166136261u32; for x in b { h = (h ^ *x as u32).wrapping_mul(16777619); } h }
fn mul64(b: &[u8]) -> u64 { let mut h = 14695981039346656037u64; for x in b { h = (h ^ *x as u64).wrapping_mul(1099511628211); } h }
fn fold(h: u32) -> u16 { (h >> 16) as u16 ^ h as u16 }

const MAX: usize = 24;
fn verify(buf: &[u8], limit: Option<usize>) {
    let used = match limit { Some(k) if k > 0 && k <= buf.len() => k, _ => buf.len() };
    let p = &buf[..used];
    check(fnv1a_hash_32(buf, limit) == mul32(p), "the 32-bit hash is FNV-1a of the prefix");
    check(fnv1a_hash_64(buf, limit) == mul64(p), "the 64-bit hash is FNV-1a of the prefix");
    check(fnv1a_hash_16_xor(buf, limit) == fold(mul32(p)), "the 16-bit hash is the xor of the halves of the 32-bit hash");
}
/// up to three arbitrary bytes, any limit
#[no_mangle]
pub extern "C" fn h_c16_short() {
    let b: [u8; 3] = core::array::from_fn(|_| any_u8());
    let n = pick(4) as usize;
    let l = any_u64() as usize;
    verify(&b[..n], if pick(2) == 0 { None } else { Some(l) });
    reach(0);
}
/// any bytes, any length up to 24, any limit
#[no_mangle]
pub extern "C" fn h_c16_bytes() {
    let b: [u8; MAX] = core::array::from_fn(|_| any_u8());
    let n = pick(MAX as u32 + 1) as usize;
    let buf = &b[..n];
    // any 64-bit limit: every value is either a proper prefix length, or means the whole input
    let l = any_u64() as usize;
    let limit = if pick(2) == 0 { None } else { Some(l) };
    verify(buf, limit);
    reach(0);
}
/// long inputs
#[no_mangle]
pub extern "C" fn h_c16_long() {
    let n = [127, 128, 255, 256, 257, 300][pick(6) as usize];
    let mut b = [0u8; 300];
    for k in 0..300 { b[k] = (k * 37 + 11) as u8; }
    for k in [0, 1, 126, 127, 128, 254, 255, 256, 299] { b[k] = any_u8(); }
    let limit = [None, Some(0), Some(128), Some(255), Some(256), Some(257), Some(300), Some(301), Some(usize::MAX)][pick(9) as usize];
    verify(&b[..n], limit);
    reach(0);
}
/// strings
#[no_mangle]
pub extern "C" fn h_c16_str() {
    let b: [u8; 12] = core::array::from_fn(|_| { let c = any(7) as u8; c });
    let n = pick(13) as usize;
    let s = unsafe { core::str::from_utf8_unchecked(&b[..n]) };
    check(fnv1a_hash_str_32(s) == mul32(&b[..n]), "the 32-bit string hash is FNV-1a of its bytes");
    check(fnv1a_hash_str_64(s) == mul64(&b[..n]), "the 64-bit string hash is FNV-1a of its bytes");
    check(fnv1a_hash_str_16_xor(s) == fold(mul32(&b[..n])), "the 16-bit string hash is the xor of the halves of the 32-bit hash");
    reach(0);
}
/// the specification itself: shift-and-add and published test vectors
#[no_mangle]
pub extern "C" fn h_c16_spec() {
    let b = [any_u8()];
    check(spec32(&b) == mul32(&b), "harness: the prime is 2^24 + 2^8 + 0x93");
    check(mul32(b"") == 0x811c9dc5 && mul32(b"a") == 0xe40c292c && mul32(b"foobar") == 0xbf9cf968, "harness: published vectors");
    check(mul64(b"") == 0xcbf29ce484222325 && mul64(b"a") == 0xaf63dc4c8601ec8c && mul64(b"foobar") == 0x85944171f73967e8, "harness: published vectors");
    check(fnv1a_hash_32(b"foobar", None) == 0xbf9cf968 && fnv1a_hash_64(b"foobar", None) == 0x85944171f73967e8, "published vectors");
    reach(0);
}
macro_rules! named { ($($T:ident $n:literal),*) => { $(struct $T; impl Component for $T { const NAME: &'static str = $n; })* fn names() { $( check(<$T as Component>::ID.into_u16() == fold(mul32($n.as_bytes())), "a default id is the 16-bit hash of the name"); check(<$T as Component>::DESCRIPTOR.component_type_id() == <$T as Component>::ID, "a descriptor has the type's id"); )* } } }
named!(N0 "", N1 "a", N2 "Position", N3 "a rather long component name, longer than most", N4 "\u{fc}nic\u{f6}de \u{1f980}", N5 "shard::Velocity", N6 "\u{0}\u{7f}");
/// ids of component types: default ids are hashes of the names, given ids are kept
#[no_mangle]
pub extern "C" fn h_c16_names() {
    names();
    struct G;
    impl Component for G { const NAME: &'static str = "given"; const ID: ComponentTypeId = ComponentTypeId::from_u16(4711); }
    check(<G as Component>::ID.into_u16() == 4711 && <G as Component>::DESCRIPTOR.component_type_id().into_u16() == 4711, "a given id is kept");
    reach(0);
}
