//! Shared by the handlers: reference trees and comparison of observations.
use crate::json::J;
use crate::model::*;
use crate::tree::*;
use crate::{tick, R};
use std::path::Path;

pub fn rows(c: &J) -> Vec<(usize, usize)> {
    c.get("rows").a().iter().map(|x| (x.a()[0].u(), x.a()[1].u())).collect()
}
pub fn kids(c: &J) -> Vec<(usize, usize, Vec<usize>)> {
    if !c.has("kids") {
        return vec![];
    }
    c.get("kids")
        .a()
        .iter()
        .map(|x| (x.a()[0].u(), x.a()[1].u(), x.a()[2].us()))
        .collect()
}

/// Input values of dataset `ds` (numbers of El::val).
pub fn dataset(ds: &str, n: usize) -> Vec<usize> {
    match ds {
        "distinct" => (0..n).map(|i| i + 1).collect(),
        "zero" => vec![0; n],
        "equal" => vec![7; n],
        "mixed" => (0..n).map(|i| [0, 1, 1, 0, 5][i % 5] + if i % 7 == 0 { i } else { 0 }).collect(),
        // repeats: trees of some sizes become equal to each other
        x if x.starts_with("cycle") => {
            let k: usize = x[5..].parse().expect("VH: dataset");
            (0..n).map(|i| 1 + i % k).collect()
        }
        x if x.starts_with("seed") => {
            let k: usize = x[4..].parse().expect("VH: dataset");
            (0..n).map(|i| (k + 1) * 100_003 + i).collect()
        }
        x => panic!("VH: dataset {}", x),
    }
}
pub fn obj(v: usize) -> Vec<u8> {
    let mut o = format!("object {}", v).into_bytes();
    o.resize(o.len() + v % 11, 0);
    o
}

/// The reference tree for one way of deriving the leaf row, and the input for the constructor.
pub fn reference(c: &J, leaf: &str, vals: &[usize]) -> (RefTree, Input) {
    let b = c.get("b").u();
    let n = vals.len();
    let items: Vec<El> = vals.iter().map(|v| El::val(*v)).collect();
    let data: Vec<Vec<u8>> = if leaf == "data" { vals.iter().map(|v| obj(*v)).collect() } else { vec![] };
    let leaves: Vec<El> = match leaf {
        "leaf" => items.iter().map(|x| ref_leaf(x.bytes())).collect(),
        "data" => data.iter().map(|d| ref_leaf(ref_data(d).bytes())).collect(),
        "raw" | "tree" => items.clone(),
        x => panic!("VH: leaf rule {}", x),
    };
    let k = kids(c);
    let t = if k.is_empty() {
        RefTree::eval(b, &rows(c), leaves)
    } else {
        RefTree::eval_table(b, leaves, &k)
    };
    let inp = Input {
        leaf_bytes: if leaf == "raw" { t.leaf_bytes() } else { vec![] },
        tree_bytes: if leaf == "tree" { t.bytes() } else { vec![] },
        items,
        data,
        n,
    };
    (t, inp)
}

/// Which positions can be read: everything, or the base row and the rows from `cs` on.
#[derive(Clone, Copy)]
pub struct Window {
    pub n: usize,
    pub cs: usize,
    pub len: usize,
    /// the base row comes from somewhere else: no range spans both
    pub split: bool,
}

macro_rules! eq {
    ($a:expr, $b:expr, $($t:tt)*) => {
        if $a != $b { return Err(format!("{}: got {:?}, specified {:?}", format!($($t)*), $a, $b)); }
    };
}

/// Compares everything the tree reports with the reference.
pub fn observe(t: &dyn TreeDyn, rt: &RefTree, c: &J, win: Option<Window>, what: &str) -> R {
    let len = c.get("len").u();
    eq!(t.leafs(), rt.n, "{} leafs", what);
    eq!(t.len(), len, "{} len", what);
    eq!(t.row_count(), c.get("rc").u(), "{} row_count", what);
    eq!(t.root(), rt.vals[c.get("root").u()], "{} root", what);
    eq!(t.is_empty(), false, "{} is_empty", what);
    tick(5);
    if let Some(w) = win {
        nodes(t, rt, w, what)?;
    }
    Ok(())
}

pub fn nodes(t: &dyn TreeDyn, rt: &RefTree, w: Window, what: &str) -> R {
    let len = w.len;
    let mut buf = vec![0u8; es()];
    let mut idx: Vec<usize> = Vec::new();
    if len <= 3000 {
        idx.extend(0..len);
    } else {
        idx.extend(0..40);
        let mut m = Mix::new(len as u64);
        for _ in 0..400 {
            idx.push((m.next() as usize) % len);
        }
        for b in &[1024usize, 4096, 262_144, w.n, w.cs] {
            for d in 0..4 {
                idx.push((b + d).saturating_sub(2).min(len - 1));
            }
        }
        idx.extend(len - 20..len);
    }
    for i in idx {
        if i >= w.n && i < w.cs {
            continue;
        }
        match call(|| t.read_at(i)) {
            Out::Ok(x) => eq!(x, rt.vals[i], "{} read_at({})", what, i),
            Out::Refused(e) => return Err(format!("{} read_at({}): refused: {}", what, i, e)),
        }
        match call(|| t.read_into(i, &mut buf)) {
            Out::Ok(()) => eq!(&buf[..], rt.vals[i].bytes(), "{} read_into({})", what, i),
            Out::Refused(e) => return Err(format!("{} read_into({}): refused: {}", what, i, e)),
        }
        tick(2);
    }
    // all positions, by ranges
    let mut ranges = Vec::new();
    for &(lo, hi) in &[(0, w.n), (w.cs, len)] {
        let mut s = lo;
        let mut step = 1;
        while s < hi {
            let e = (s + step).min(hi);
            ranges.push((s, e));
            s = e;
            step = (step * 3 + 1).min(50_000);
        }
    }
    if w.n == w.cs && !w.split {
        ranges.push((0, len));
        ranges.push((w.n - 1, w.n + 1));
    }
    for (s, e) in ranges {
        match call(|| t.read_range(s, e)) {
            Out::Ok(x) => {
                if x != rt.vals[s..e] {
                    return Err(format!("{} read_range({}, {}) differs from the tree", what, s, e));
                }
            }
            Out::Refused(m) => return Err(format!("{} read_range({}, {}): refused: {}", what, s, e, m)),
        }
        if t.range_into() {
            let mut big = vec![0u8; (e - s) * es()];
            match call(|| t.read_range_into(s, e, &mut big)) {
                Out::Ok(()) => {
                    if big != cat(&rt.vals[s..e]) {
                        return Err(format!("{} read_range_into({}, {}) differs from the tree", what, s, e));
                    }
                }
                Out::Refused(m) => return Err(format!("{} read_range_into({}, {}): refused: {}", what, s, e, m)),
            }
        }
        tick(e - s);
    }
    Ok(())
}

pub fn write_file(p: &Path, bytes: &[u8]) {
    std::fs::write(p, bytes).expect("VH: write");
}


/// The specified proof: layers innermost first, `[sub, top, lemma, path]`.
pub fn spec_proof<F: Fn(usize) -> El>(layers: &J, node: &F) -> P {
    let mut inner: Option<Box<P>> = None;
    for l in layers.a() {
        let x = l.a();
        inner = Some(Box::new(P {
            sub: x[0].u(),
            top: x[1].u(),
            lemma: x[2].us().into_iter().map(|k| node(k)).collect(),
            path: x[3].us(),
            inner,
        }));
    }
    *inner.expect("VH: layers")
}
