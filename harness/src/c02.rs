use crate::hist::*;
use crate::sym::*;
use crate::world::*;
use shard_ecs::*;

/// every operation with an arbitrary handle value that identifies no live entity
fn reject<const N: usize>(w: &mut World<N>, t: usize) {
    match pick(9) {
        0 => w.destroy(t),
        1 => w.remove::<A>(t),
        2 => w.remove::<(D, A)>(t),
        3 => w.add::<D>(t),
        4 => w.add::<C>(t),
        5 => w.del::<A>(t),
        6 => w.write::<A>(t),
        7 => w.write_group::<(D, A)>(t),
        _ => { w.check_entity(t); w.check_groups_of(t); }
    }
}
fn accept<const N: usize>(w: &World<N>) { for t in 0..w.n { w.check_entity(t); } w.check_enumeration(); }

/// any history of creation and destruction, then any handle value
#[no_mangle]
pub extern "C" fn h_c02_forged() {
    let mut w = World::<9>::new();
    prefix(&mut w, pick(PREFIXES));
    op(&mut w, &[MK_A, DESTROY, ADD_D, DEL_A, RM_BAD, RM_A]);
    let t = w.forge();
    reject(&mut w, t);
    w.check_all();
    w.check_enumeration();
    reach(0);
    w.finish();
}
/// all orders of creating and destroying: handles stay distinct, stale ones stay rejected
#[no_mangle]
pub extern "C" fn h_c02_reuse() {
    let mut w = World::<10>::new();
    for _ in 0..3 { w.create::<A>(); }
    for _ in 0..4 { op(&mut w, &[MK_A, DESTROY, RM_A]); }
    let t = pick(w.n as u32) as usize;
    reject(&mut w, t);
    accept(&w);
    reach(0);
    w.finish();
}
/// a slot recycled up to 257 times: its first handle is rejected until the version wraps around
#[no_mangle]
pub extern "C" fn h_c02_wrap() {
    let mut w = World::<8>::new();
    w.create::<A>();
    let first = w.create::<A>();
    let h0 = w.e[first].h;
    let n = [1, 2, 127, 128, 254, 255][pick(6) as usize];
    w.destroy(first);
    for i in 0..n {
        let h = match w.r.create_entity(A(i)) { Ok(h) => h, Err(_) => { check(false, "creation succeeds"); return; } };
        check(h != h0 && h != w.e[0].h && h.is_valid(), "a recycled slot gets a different handle");
        check(!w.r.has_component::<A>(h0) && w.r.get_component::<A>(h0).is_none() && !w.r.destroy_entity(h0), "a destroyed handle stays rejected");
        if i + 1 < n { check(w.r.destroy_entity(h), "a live handle is accepted"); check(!w.r.destroy_entity(h), "a destroyed handle is rejected"); }
        else { w.e[2] = Ent { h, live: true, mask: MA, val: { let mut v = [0; NC]; v[0] = i as u64; v }, serial: u32::MAX }; w.n = 3; }
    }
    let t = w.forge();
    reject(&mut w, t);
    accept(&w);
    reach(0);
    w.finish();
}
/// register level: any sequence of creations and destructions with any handle values and any stored rows
#[no_mangle]
pub extern "C" fn h_c02_register() {
    let mut r = EntityRegistry::default();
    let mut live = [(Entity::INVALID, 0u32, 0u16, false); 8];
    let mut n = 0;
    for _ in 0..5 {
        if n < 8 && pick(2) == 0 {
            let (row, arch) = (any(24) as u32, any_u16());
            let (ri, ai) = match (IndexInArchetype::new(row), ArchetypeIndex::new(arch)) { (Some(r), Some(a)) => (r, a), _ => { assume(false); return; } };
            match r.create_entity(ri, ai) {
                Some(h) => { for k in 0..n { check(!live[k].3 || live[k].0 != h, "live handles are pairwise distinct"); } check(h.is_valid(), "handles are valid"); live[n] = (h, row, arch, true); n += 1; }
                None => check(false, "creation succeeds below the limit"),
            }
        } else {
            let h = unsafe { Entity::from_raw(any_u32()) };
            let mut hit = n;
            for k in 0..n { if live[k].3 && live[k].0 == h { hit = k; } }
            check(r.destroy_entity(h) == (hit < n), "destruction succeeds exactly for live handles");
            if hit < n { live[hit].3 = false; }
        }
    }
    let h = unsafe { Entity::from_raw(any_u32()) };
    let mut hit = n;
    for k in 0..n { if live[k].3 && live[k].0 == h { hit = k; } }
    match r.entity_entry(h) {
        Some(e) => { check(hit < n, "only live handles are accepted"); check(e.index_in_archetype().value() == live[hit].1 && e.archetype_index() == live[hit].2 && e.version() == h.version(), "a live handle leads to its own record"); reach(1); }
        None => { check(hit == n, "every live handle is accepted"); reach(2); }
    }
    check(r.entity_entry_mut(h).is_some() == (hit < n), "mutable access is granted for the same handles");
    let mut c = 0;
    for h in r.iter() { let mut ok = false; for k in 0..n { ok |= live[k].3 && live[k].0 == h; } check(ok, "only live handles are enumerated"); c += 1; }
    let mut l = 0;
    for k in 0..n { l += live[k].3 as u32; }
    check(c == l, "all live handles are enumerated");
    reach(0);
}
/// tens of thousands of live handles, some of them destroyed and reused
#[no_mangle]
pub extern "C" fn h_c02_big() {
    let mut w = crate::big::Big::new();
    w.fill([257, 1025, 65537][pick(3) as usize]);
    let k = w.spot();
    if pick(2) == 0 { w.destroy(k) } else { w.remove(k) }
    match pick(3) { 0 => {} 1 => { w.create(5); } _ => { w.destroy(0); w.create(6); w.create(7); } }
    w.destroy(k);
    w.add(k);
    w.del(k);
    w.write(k, 3);
    w.check_values();
    w.check_enumeration();
    reach(0);
}
/// one or two slots recycled hundreds of times: none of the last 255 handles of a slot is accepted
#[no_mangle]
pub extern "C" fn h_c02_cycles() {
    const K: usize = 255;
    let mut w = World::<4>::new();
    if pick(2) == 0 { w.create::<A>(); }
    let two = pick(2) == 0;
    let n = [254, 255, 256, 257, 300, 511, 512, 600][pick(8) as usize];
    let by_group = pick(2) == 0;
    // handles of each slot, most recent last
    let mut old = [[Entity::INVALID; K]; 2];
    let mut used = [0; 2];
    for i in 0..n {
        let mut h = [Entity::INVALID; 2];
        for k in 0..1 + two as usize { match w.r.create_entity(A(i + k as u32)) { Ok(x) => h[k] = x, Err(_) => { check(false, "creation succeeds"); return; } } }
        check(!two || h[0] != h[1], "live handles are distinct");
        for k in 0..w.n { check(h[0] != w.e[k].h && h[1] != w.e[k].h, "live handles are distinct"); }
        let near = i % 64 == 0 || i + 2 > n || (i > 250 && i < 260) || (i > 508 && i < 515);
        for k in 0..1 + two as usize {
            check(w.r.get_component::<A>(h[k]).is_some_and(|c| c.0 == i + k as u32), "a live handle is accepted and identifies its entity");
            if near {
                for s in 0..2 { for o in &old[s][K - used[s]..] {
                    check(*o != h[k], "a handle is not issued again before its slot was recycled 256 times");
                    check(!w.r.has_component::<A>(*o), "a destroyed handle stays rejected");
                } }
                let s = (h[k].index() & 1) as usize;
                if used[s] > 0 { let o = old[s][K - 1]; check(!w.r.destroy_entity(o) && w.r.remove_component::<A>(o).is_err() && w.r.get_component_mut::<A>(o).is_none(), "a destroyed handle stays rejected"); let o = old[s][K - used[s]]; check(!w.r.destroy_entity(o), "a destroyed handle stays rejected"); }
            }
        }
        for k in 0..1 + two as usize {
            if i + 1 == n && k == 0 { continue; }
            if by_group { check(w.r.remove_entity::<A>(h[k]).is_some(), "a live handle is accepted"); } else { check(w.r.destroy_entity(h[k]), "a live handle is accepted"); }
            let s = (h[k].index() & 1) as usize;
            old[s].copy_within(1.., 0);
            old[s][K - 1] = h[k];
            used[s] = K.min(used[s] + 1);
            if near { check(!w.r.has_component::<A>(h[k]), "a destroyed handle is rejected"); }
        }
        if i + 1 == n { let mut v = [0; NC]; v[0] = i as u64; w.e[w.n] = Ent { h: h[0], live: true, mask: MA, val: v, serial: u32::MAX }; w.n += 1; }
    }
    let t = w.forge();
    reject(&mut w, t);
    accept(&w);
    reach(0);
    w.finish();
}
