//! Sizes of trees (C15).
use crate::json::J;
use crate::tree::*;
use crate::{tick, Ctx, R};
use merkletree::merkle::*;
use merkletree::store::StoreConfig;
use typenum::*;

/// None: does not fit the machine word.
fn num(x: &J) -> Option<usize> {
    let mut v: i128 = x.get("c").i() as i128;
    for t in x.get("m").a() {
        v += (t.a()[0].u() as i128) << t.a()[1].u();
    }
    if v < 0 || v > usize::MAX as i128 {
        None
    } else {
        Some(v as usize)
    }
}
macro_rules! eq {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        tick(1);
        if $a != $b { return Err(format!("{}: got {:?}, specified {:?}", format!($($t)*), $a, $b)); }
    }};
}

pub fn run(_ctx: &Ctx, c: &J) -> R {
    let s = c.get("s").u();
    let b = 1usize << s;
    eq!(log2_pow2(b), s, "log2_pow2({})", b);
    eq!(next_pow2(b), b, "next_pow2({})", b);
    eq!(next_pow2(b - 1), if s == 1 { 1 } else { b }, "next_pow2({})", b - 1);
    if s < 62 {
        eq!(next_pow2(b + 1), 2 * b, "next_pow2({})", b + 1);
    }
    for g in c.get("good").a() {
        let n = num(g.get("n")).unwrap();
        let len = num(g.get("len")).unwrap();
        let rc = g.get("rc").u();
        eq!(call(|| get_merkle_tree_len(n, b)).ok(), Some(len), "get_merkle_tree_len({}, {})", n, b);
        eq!(call(|| Ok(get_merkle_tree_row_count(n, b))).ok(), Some(rc), "get_merkle_tree_row_count({}, {})", n, b);
        eq!(call(|| get_merkle_tree_leafs(len, b)).ok(), Some(n), "get_merkle_tree_leafs({}, {})", len, b);
        eq!(call(|| Ok(is_merkle_tree_size_valid(n, b))).ok(), Some(true), "is_merkle_tree_size_valid({}, {})", n, b);
        eq!(call(|| Ok(StoreConfig::default_rows_to_discard(n, b))).ok(), Some(g.get("def").u()), "default_rows_to_discard({}, {})", n, b);
        eq!(call(|| Ok(get_merkle_proof_lemma_len(rc, b))).ok(), num(g.get("lemma")), "get_merkle_proof_lemma_len({}, {})", rc, b);
        for (r, x) in g.get("cache").a().iter().enumerate() {
            eq!(call(|| get_merkle_tree_cache_size(n, b, r)).ok(), num(x), "get_merkle_tree_cache_size({}, {}, {})", n, b, r);
        }
        for r in g.get("none").us().into_iter().chain(vec![64, 1 << 40, usize::MAX]) {
            eq!(call(|| get_merkle_tree_cache_size(n, b, r)).ok(), None::<usize>, "get_merkle_tree_cache_size({}, {}, {})", n, b, r);
        }
        // arities that are no powers of two
        for bad in vec![0, 3, 5, 6, 7, 9, 12, b + 1, b.saturating_sub(1), 3 * b.min(1 << 60)] {
            if bad != 0 && bad.is_power_of_two() {
                continue;
            }
            eq!(call(|| get_merkle_tree_len(n, bad)).is_ok(), false, "get_merkle_tree_len({}, {}) succeeds", n, bad);
            eq!(call(|| Ok(is_merkle_tree_size_valid(n, bad))).ok().unwrap_or(false), false, "is_merkle_tree_size_valid({}, {})", n, bad);
            eq!(call(|| get_merkle_tree_leafs(len, bad)).is_ok(), false, "get_merkle_tree_leafs({}, {}) succeeds", len, bad);
        }
    }
    for x in c.get("badn").a() {
        if let Some(n) = num(x) {
            eq!(call(|| Ok(is_merkle_tree_size_valid(n, b))).ok().unwrap_or(false), false, "is_merkle_tree_size_valid({}, {})", n, b);
            if s == 1 && n < 1 << 63 {
                eq!(call(|| get_merkle_tree_len(n, b)).is_ok(), false, "get_merkle_tree_len({}, {}) succeeds", n, b);
            }
        }
    }
    for x in c.get("few").a() {
        if let Some(n) = num(x) {
            eq!(call(|| get_merkle_tree_len(n, b)).is_ok(), false, "get_merkle_tree_len({}, {}) succeeds", n, b);
        }
    }
    for x in c.get("badlen").a() {
        if let Some(len) = num(x) {
            eq!(call(|| get_merkle_tree_leafs(len, b)).ok(), None::<usize>, "get_merkle_tree_leafs({}, {})", len, b);
        }
    }
    Ok(())
}

pub fn run_len(_ctx: &Ctx, c: &J) -> R {
    let a = c.get("a").us();
    for e in c.get("exp").a() {
        let (n, len) = (num(&e.a()[0]), num(&e.a()[1]));
        let n = n.unwrap();
        let f = |n: usize| match (a[0], a[1], a[2]) {
            (2, 0, 0) => get_merkle_tree_len_generic::<U2, U0, U0>(n),
            (2, 1, 0) => get_merkle_tree_len_generic::<U2, U1, U0>(n),
            (2, 4, 0) => get_merkle_tree_len_generic::<U2, U4, U0>(n),
            (2, 4, 2) => get_merkle_tree_len_generic::<U2, U4, U2>(n),
            (2, 3, 5) => get_merkle_tree_len_generic::<U2, U3, U5>(n),
            (4, 0, 0) => get_merkle_tree_len_generic::<U4, U0, U0>(n),
            (4, 2, 0) => get_merkle_tree_len_generic::<U4, U2, U0>(n),
            (4, 5, 3) => get_merkle_tree_len_generic::<U4, U5, U3>(n),
            (8, 0, 0) => get_merkle_tree_len_generic::<U8, U0, U0>(n),
            (8, 8, 0) => get_merkle_tree_len_generic::<U8, U8, U0>(n),
            (8, 8, 2) => get_merkle_tree_len_generic::<U8, U8, U2>(n),
            (8, 1, 1) => get_merkle_tree_len_generic::<U8, U1, U1>(n),
            (16, 2, 0) => get_merkle_tree_len_generic::<U16, U2, U0>(n),
            (16, 11, 7) => get_merkle_tree_len_generic::<U16, U11, U7>(n),
            _ => panic!("VH: arities"),
        };
        eq!(call(|| f(n)).ok(), len, "get_merkle_tree_len_generic {:?} of {}", a, n);
        eq!(call(|| f(a[0] - 1)).is_ok(), false, "get_merkle_tree_len_generic {:?} of {} succeeds", a, a[0] - 1);
        eq!(call(|| f(0)).is_ok(), false, "get_merkle_tree_len_generic {:?} of 0 succeeds", a);
    }
    Ok(())
}
