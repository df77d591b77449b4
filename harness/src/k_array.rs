//! Histories of calls on a store (C14).
use crate::json::J;
use crate::model::*;
use crate::tree::*;
use crate::{tick, with_store, Ctx, R};
use merkletree::store::*;
use std::path::Path;

/// The elements that stand for the value v: one, or a block of w.
fn block(v: usize, w: usize) -> impl Iterator<Item = El> {
    (0..w).map(move |j| if w == 1 { El::val(v) } else { El::val(v * 8192 + j) })
}

fn vals(first: usize, k: usize, w: usize) -> Vec<El> {
    (0..k).flat_map(|j| block(first + j, w)).collect()
}

pub fn run(ctx: &Ctx, c: &J) -> R {
    let stores = c.get("stores").a();
    for st in stores {
        // element sizes: one byte, odd, the usual one, the largest; in turn
        let pick = c.get("hist").show().bytes().map(|x| x as usize).sum::<usize>();
        let es = if c.get("scale").u() > 1 { [5usize, 32, 128][pick % 3] } else { [1usize, 5, 32, 64, 100, 128][pick % 6] };
        set_env(es, 0);
        let dir = ctx.fresh("a");
        with_store!(st.s(), S => history::<S>(&dir, c)).map_err(|e| format!("{} store, {} byte elements: {}", st.s(), es, e))?;
    }
    Ok(())
}

fn history<S: StoreX>(dir: &Path, c: &J) -> R {
    // a position of the specification stands for w positions of the store
    let w = c.get("scale").u();
    let cap = c.get("cap").u() * w;
    let init = c.get("init").a();
    let how = init[0].s();
    let k0 = init[1].u();
    let cfg = StoreConfig::new(dir, "array", 0);
    let hist = c.get("hist").a();
    let first: Vec<El> = vals(100 * (hist.len() + 2), k0, w);
    let made = match (how, k0) {
        ("plain", 0) => call(|| S::new(cap)),
        ("config", 0) => call(|| S::new_with_config(cap, 2, cfg.clone())),
        ("plain", _) => call(|| S::new_from_slice(cap, &cat(&first))),
        ("config", _) => call(|| S::new_from_slice_with_config(cap, 2, &cat(&first), cfg.clone())),
        _ => panic!("VH: init"),
    };
    let mut s = made.want(&format!("creating the store ({}, {} elements)", how, k0))?;
    observe(&s, &first.iter().map(|x| Some(*x)).collect::<Vec<_>>(), true, cap, w, "at first")?;
    for (no, h) in hist.iter().enumerate() {
        let op = h.get("op").a();
        let name = op[0].s();
        let what = format!("call {} ({})", no + 1, hist[..=no].iter().map(|x| format!("{}", x.get("op").show())).collect::<Vec<_>>().join(" "));
        let r: Out<()> = match name {
            "write_at" => call(|| block(op[2].u(), w).enumerate().try_for_each(|(j, x)| s.write_at(x, op[1].u() * w + j))),
            "push" => call(|| block(op[2].u(), w).try_for_each(|x| s.push(x))),
            "copy" => call(|| s.copy_from_slice(&cat(&vals(op[3].u(), op[2].u(), w)), op[1].u() * w)),
            "part" => {
                if es() == 1 {
                    Out::Refused("".into())
                } else {
                    let mut b = cat(&vals(op[3].u(), op[2].u() + 1, w));
                    b.truncate(op[2].u() * w * es() + 1 + (no % (es() - 1)));
                    call(|| s.copy_from_slice(&b, op[1].u() * w))
                }
            }
            "far_write" => call(|| s.write_at(El::val(op[2].u()), far(op[1].u()))),
            "far_copy" => call(|| s.copy_from_slice(&cat(&vals(op[2].u(), 1, 1)), far(op[1].u()))),
            "sync" => call(|| s.sync()),
            "compact" => call(|| s.compact(2, cfg.clone(), 2).map(|_| ())),
            "reinit" => call(|| s.reinit()),
            "reopen" => {
                let o = if op[1].s() == "disk" {
                    drop(s);
                    call(|| S::new_from_disk(cap, 2, &cfg))
                } else {
                    drop(s);
                    call(|| S::new_with_config(cap, 2, cfg.clone()))
                };
                match o {
                    Out::Ok(x) => {
                        s = x;
                        Out::Ok(())
                    }
                    Out::Refused(e) => return Err(format!("{}: refused: {}", what, e)),
                }
            }
            x => panic!("VH: op {}", x),
        };
        match (&r, h.get("ok").b()) {
            (Out::Ok(()), false) => return Err(format!("{}: accepted, but it must be refused", what)),
            (Out::Refused(e), true) => return Err(format!("{}: refused: {}", what, e)),
            _ => {}
        }
        let st = h.get("st");
        let want: Vec<Option<El>> = st.get("cells").a().iter().flat_map(|x| if x.i() < 0 { vec![None; w] } else { block(x.u(), w).map(Some).collect::<Vec<_>>() }).collect();
        if want.len() != st.get("len").u() * w {
            panic!("VH: cells");
        }
        observe(&s, &want, st.get("up").b(), cap, w, &what)?;
    }
    Ok(())
}

/// `up`: the store must answer; otherwise it may refuse, but not answer wrongly.
fn observe<S: StoreX>(s: &S, want: &[Option<El>], up: bool, cap: usize, w: usize, what: &str) -> R {
    let n = want.len();
    if s.len() != n {
        return Err(format!("{}: length {}, specified {}", what, s.len(), n));
    }
    if s.is_empty() != (n == 0) {
        return Err(format!("{}: is_empty {}", what, s.is_empty()));
    }
    let same = |x: &El, k: usize| want[k].map_or(true, |w| w == *x);
    let hi = cap.max(n) + 2;
    // which positions are read, and between which the ranges run: all, or those about the ends of the blocks
    let at: Vec<usize> = if w == 1 { (0..hi).collect() } else { (0..=hi / w + 1).flat_map(|k| vec![(k * w).saturating_sub(1), k * w, k * w + 1, k * w + w / 2]).collect() };
    let ends: Vec<usize> = if w == 1 { (0..=hi).collect() } else { (0..=hi / w + 1).flat_map(|k| vec![k * w, k * w + 1 + w / 3]).chain(vec![hi, n.saturating_sub(1), n + 1]).collect() };
    let mut buf = vec![0u8; es()];
    for i in at.iter().copied().chain(vec![1 << 40, usize::MAX / 2, usize::MAX - 1, usize::MAX]).chain((0..hi.min(16)).map(far)) {
        match call(|| s.read_at(i)) {
            Out::Ok(x) => {
                if i >= n || !same(&x, i) {
                    return Err(format!("{}: read_at({}) gives {:?}, specified {:?}", what, i, x, want.get(i)));
                }
            }
            Out::Refused(e) => {
                if i < n && up {
                    return Err(format!("{}: read_at({}) refused: {}", what, i, e));
                }
            }
        }
        match call(|| s.read_into(i, &mut buf)) {
            Out::Ok(()) => {
                if i >= n || !same(&El::from_bytes(&buf), i) {
                    return Err(format!("{}: read_into({}) gives {:?}, specified {:?}", what, i, El::from_bytes(&buf), want.get(i)));
                }
            }
            Out::Refused(e) => {
                if i < n && up {
                    return Err(format!("{}: read_into({}) refused: {}", what, i, e));
                }
            }
        }
        tick(2);
    }
    for &a in &ends {
        for &b in ends.iter().filter(|b| **b > a) {
            // of blocks: the short ones, the whole, and a few of the others
            if w > 1 && b > a + w && (a, b) != (0, n) && (a, b) != (0, hi) && (a * 7 + b * 3 + what.len()) % 16 != 0 {
                continue;
            }
            match call(|| s.read_range(a..b)) {
                Out::Ok(x) => {
                    if b > n || x.len() != b - a || !x.iter().enumerate().all(|(j, y)| same(y, a + j)) {
                        return Err(format!("{}: read_range({}..{}) gives {:?}", what, a, b, &x[..x.len().min(16)]));
                    }
                }
                Out::Refused(e) => {
                    if b <= n && up {
                        return Err(format!("{}: read_range({}..{}) refused: {}", what, a, b, e));
                    }
                }
            }
            tick(1);
            if S::RANGE_INTO {
                let mut big = vec![0u8; (b - a) * es()];
                match call(|| s.read_range_into(a, b, &mut big)) {
                    Out::Ok(()) => {
                        if b > n || !big.chunks(es()).enumerate().all(|(j, y)| same(&El::from_bytes(y), a + j)) {
                            return Err(format!("{}: read_range_into({}, {}) differs", what, a, b));
                        }
                    }
                    Out::Refused(e) => {
                        if b <= n && up {
                            return Err(format!("{}: read_range_into({}, {}) refused: {}", what, a, b, e));
                        }
                    }
                }
                tick(1);
            }
        }
    }
    if up {
        match call(|| Ok(s.seen())) {
            Out::Ok(Some(v)) if v.len() != n || !v.iter().enumerate().all(|(i, x)| same(x, i)) => return Err(format!("{}: dereferences to {:?}", what, &v[..v.len().min(16)])),
            Out::Ok(_) => (),
            Out::Refused(e) => return Err(format!("{}: cannot be dereferenced: {}", what, e)),
        }
    }
    let mut ranges = vec![];
    for a in 0..3 {
        ranges.extend(vec![(a, far(a + 1)), (far(a), far(a + 1)), (a, usize::MAX)]);
    }
    for (a, b) in ranges {
        if let Out::Ok(x) = call(|| s.read_range(a..b)) {
            return Err(format!("{}: read_range({}..{}) gives {:?}", what, a, b, x));
        }
        if S::RANGE_INTO {
            if let Out::Ok(()) = call(|| s.read_range_into(a, b, &mut buf)) {
                return Err(format!("{}: read_range_into({}, {}) answers", what, a, b));
            }
        }
        tick(1);
    }
    match call(|| s.last()) {
        Out::Ok(x) => {
            if n == 0 || !same(&x, n - 1) {
                return Err(format!("{}: last() gives {:?}", what, x));
            }
        }
        Out::Refused(e) => {
            if n > 0 && up {
                return Err(format!("{}: last() refused: {}", what, e));
            }
        }
    }
    Ok(())
}
