//! Inputs that fail (C20).
use crate::json::J;
use crate::k_base::*;
use crate::model::*;
use crate::tree::*;
use crate::{tick, with_base, Ctx, R};
use anyhow::Result;
use merkletree::merkle::MerkleTree;
use merkletree::store::*;
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use typenum::Unsigned;

#[derive(Debug, PartialEq, Clone, Copy)]
struct Fault(usize);
impl std::fmt::Display for Fault {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "item {} is not available", self.0)
    }
}
impl std::error::Error for Fault {}

struct Items {
    at: usize,
    n: usize,
    ver: usize,
    faults: Vec<usize>,
    calls: Rc<Cell<usize>>,
}
fn value(ver: usize, i: usize) -> El {
    El::val(1 + i + ver * 5_000_011)
}
impl Iterator for Items {
    type Item = Result<El>;
    fn next(&mut self) -> Option<Result<El>> {
        self.calls.set(self.calls.get() + 1);
        if self.at >= self.n {
            return None;
        }
        let i = self.at;
        self.at += 1;
        Some(if self.faults.contains(&i) { Err(Fault(i).into()) } else { Ok(value(self.ver, i)) })
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.n - self.at, Some(self.n - self.at))
    }
}
impl ExactSizeIterator for Items {}

enum Got {
    Tree(BoxTree),
    Error(Option<usize>, String),
    Panic(String),
}

fn attempt<S: StoreX, B: Unsigned + Send + Sync + 'static>(n: usize, ver: usize, faults: &[usize], cfg: Option<StoreConfig>) -> (Got, usize) {
    let calls = Rc::new(Cell::new(0));
    let it = Items { at: 0, n, ver, faults: faults.to_vec(), calls: calls.clone() };
    let got = catch_unwind(AssertUnwindSafe(|| -> Result<MerkleTree<El, Alg, S, B>> {
        match cfg {
            None => MerkleTree::try_from_iter(it),
            Some(c) => MerkleTree::try_from_iter_with_config(it, c),
        }
    }));
    let got = match got {
        Ok(Ok(t)) => Got::Tree(Box::new(t)),
        Ok(Err(e)) => Got::Error(e.chain().filter_map(|x| x.downcast_ref::<Fault>()).map(|f| f.0).next(), format!("{:#}", e)),
        Err(p) => Got::Panic(panic_text(&p)),
    };
    let k = calls.get();
    (got, k)
}

pub fn run(ctx: &Ctx, c: &J) -> R {
    let (b, n) = (c.get("b").u(), c.get("n").u());
    set_env(if n > 1000 { 8 } else { [32, 8, 16][n % 3] }, n % 2);
    with_base!(b, B => {
        one::<VecStore<El>, B>(ctx, c, false)?;
        one::<DiskStore<El>, B>(ctx, c, false)?;
        one::<DiskStore<El>, B>(ctx, c, true)?;
        one::<MmapStore<El>, B>(ctx, c, false)?;
        one::<MmapStore<El>, B>(ctx, c, true)?;
        one::<Lc, B>(ctx, c, true)?;
        one::<Lc, B>(ctx, c, false)?;
        one::<VecStore<El>, B>(ctx, c, true)
    })
}

fn one<S: StoreX, B: Unsigned + Send + Sync + 'static>(ctx: &Ctx, c: &J, with_cfg: bool) -> R {
    let n = c.get("n").u();
    let dir = ctx.fresh("f");
    let cfg = StoreConfig::new(&dir, "tree", 0);
    let path = StoreConfig::data_path(&dir, "tree");
    let mut left: Option<Vec<u8>> = None;
    for (x, w) in c.get("res").a().iter().enumerate() {
        let ver = x + 1;
        let faults = c.get("faults").a()[x].us();
        let mut out = w.get("out").s();
        let mut src = w.get("ver").u();
        let persistent = with_cfg && S::NAME != "vec";
        if !persistent && out == "kept" {
            // nothing is kept without a file
            out = if faults.is_empty() { "ok" } else { "err" };
            src = ver;
        }
        if S::NAME == "lc" && !with_cfg && out != "err" {
            continue;
        }
        let what = format!("attempt {} on {}{} (arity {}, {} items, errors at {:?})", ver, S::NAME, if with_cfg { " with a configuration" } else { "" }, B::to_usize(), n, faults);
        let (got, calls) = attempt::<S, B>(n, ver, &faults, if with_cfg { Some(cfg.clone()) } else { None });
        tick(3);
        let right = |t: &BoxTree, v: usize| -> R {
            let rt = RefTree::eval(B::to_usize(), &rows(c), (0..n).map(|i| ref_leaf(value(v, i).bytes())).collect());
            if t.root() != rt.root() || t.leafs() != n || t.len() != rt.vals.len() {
                return Err(format!("{}: another tree than that of its items", what));
            }
            if S::NAME != "lc" {
                for i in 0..rt.vals.len() {
                    if n > 1000 && i % 997 != 0 && i + 50 < rt.vals.len() {
                        continue;
                    }
                    if call(|| t.read_at(i)).ok() != Some(rt.vals[i]) {
                        return Err(format!("{}: node {} is wrong", what, i));
                    }
                }
            }
            Ok(())
        };
        match (out, got) {
            (_, Got::Panic(p)) if out != "kept" => return Err(format!("{}: panics: {}", what, p)),
            ("err", Got::Tree(_)) => return Err(format!("{}: gives a tree", what)),
            ("err", Got::Error(first, text)) => {
                let should = *faults.iter().min().unwrap();
                if first != Some(should) {
                    return Err(format!("{}: the error is not that of item {}: {}", what, should, text));
                }
                if calls != should + 1 {
                    return Err(format!("{}: {} items were asked for, specified {}", what, calls, should + 1));
                }
            }
            ("ok", Got::Error(_, e)) => return Err(format!("{}: refused: {}", what, e)),
            ("ok", Got::Tree(t)) => {
                right(&t, src)?;
                drop(t);
                if persistent {
                    left = std::fs::read(&path).ok();
                }
            }
            ("kept", Got::Tree(t)) => {
                if S::NAME != "mmap" || t.root() != El::default() {
                    right(&t, src)?;
                }
            }
            ("kept", _) => {}
            (o, _) => panic!("VH: outcome {}", o),
        }
        if out == "kept" && std::fs::read(&path).ok() != left {
            return Err(format!("{}: the file of the complete tree changed", what));
        }
    }
    Ok(())
}
