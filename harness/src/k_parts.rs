//! Compound trees over persisted parts, some of them missing (C16).
use crate::json::J;
use crate::k_base::*;
use crate::model::*;
use crate::tree::*;
use crate::{tick, Ctx, R};
use anyhow::Result;
use merkletree::merkle::MerkleTree;
use merkletree::store::*;
use typenum::*;

macro_rules! eq {
    ($a:expr, $b:expr, $($t:tt)*) => {
        if $a != $b { return Err(format!("{}: got {:?}, specified {:?}", format!($($t)*), $a, $b)); }
    };
}
macro_rules! declared {
    ($s:expr, $t:expr, $ST:ident, $TT:ident => $body:expr) => {
        match ($s, $t) {
            (0, 0) => { type $ST = U0; type $TT = U0; $body }
            (1, 0) => { type $ST = U1; type $TT = U0; $body }
            (2, 0) => { type $ST = U2; type $TT = U0; $body }
            (3, 0) => { type $ST = U3; type $TT = U0; $body }
            (0, 1) => { type $ST = U0; type $TT = U1; $body }
            (0, 2) => { type $ST = U0; type $TT = U2; $body }
            (1, 1) => { type $ST = U1; type $TT = U1; $body }
            (2, 1) => { type $ST = U2; type $TT = U1; $body }
            (1, 2) => { type $ST = U1; type $TT = U2; $body }
            (2, 2) => { type $ST = U2; type $TT = U2; $body }
            (x, y) => panic!("VH: shape {} {}", x, y),
        }
    };
}

pub fn run(ctx: &Ctx, c: &J) -> R {
    set_env([32, 5, 8][c.get("n").u() % 3], c.get("n").u() % 2);
    match c.get("b").u() {
        2 => declared!(c.get("st").u(), c.get("tt").u(), ST, TT => all::<U2, ST, TT>(ctx, c)),
        4 => declared!(c.get("st").u(), c.get("tt").u(), ST, TT => all::<U4, ST, TT>(ctx, c)),
        x => panic!("VH: arity {}", x),
    }
}
fn all<B: Unsigned + Send + Sync + 'static, ST: Unsigned + Send + Sync + 'static, TT: Unsigned + Send + Sync + 'static>(ctx: &Ctx, c: &J) -> R {
    history::<DiskStore<El>, B, ST, TT>(ctx, c)?;
    history::<MmapStore<El>, B, ST, TT>(ctx, c)?;
    history::<Lc, B, ST, TT>(ctx, c)?;
    history::<VecStore<El>, B, ST, TT>(ctx, c)
}

fn history<S: StoreX, B: Unsigned + Send + Sync + 'static, ST: Unsigned + Send + Sync + 'static, TT: Unsigned + Send + Sync + 'static>(ctx: &Ctx, c: &J) -> R {
    type M<S, B, ST, TT> = MerkleTree<El, Alg, S, B, ST, TT>;
    let (b, n) = (c.get("b").u(), c.get("n").u());
    let (st, tt) = (ST::to_usize(), TT::to_usize());
    let want = st * tt.max(1);
    let rws = rows(c);
    let part = |q: usize| -> RefTree {
        RefTree::eval(b, &rws, (0..n).map(|i| ref_leaf(El::val(1 + q * 100 + i).bytes())).collect())
    };
    let parts: Vec<RefTree> = (0..want + 2).map(part).collect();
    let input = |q: usize| Input { items: (0..n).map(|i| El::val(1 + q * 100 + i)).collect(), data: vec![], leaf_bytes: parts[q].leaf_bytes(), tree_bytes: parts[q].bytes(), n };
    let root = || {
        let mut layer: Vec<El> = parts[..want].iter().map(|t| t.root()).collect();
        if st > 0 {
            layer = layer.chunks(st).map(|g| ref_node(g, 1)).collect();
        }
        if tt > 0 {
            layer = vec![ref_node(&layer, 1)];
        }
        layer[0]
    };
    let dir = ctx.fresh("p");
    let persistent = S::NAME != "vec";
    let cfg = |q: usize| StoreConfig::new(&dir, format!("part-{}", q), 0);
    let file = |q: usize| StoreConfig::data_path(&dir, &format!("part-{}", q));
    let slice = |q: usize| build_t::<Alg, S, B, U0, U0>("from_tree_slice", &input(q), None);
    for (at, l) in c.get("log").a().iter().enumerate() {
        let op = l.get("op").a();
        let (name, k) = (op[0].s(), op[1].s().parse::<usize>().expect("VH: number"));
        let what = format!("step {}: {} of {} (declared {}/{}, arity {}, {} leaves a part, {})", at + 1, name, k, st, tt, b, n, S::NAME);
        let cfgs: Vec<StoreConfig> = (0..k).map(cfg).collect();
        tick(1);
        let got: Out<Option<Box<dyn TreeDyn>>> = match name {
            "build" => {
                // the bytes of the part: the same for every store (a level cache built from leaves has no base row)
                call(|| Ok(Some(Box::new(build_t::<Alg, S, B, U0, U0>(if persistent { "from_tree_slice_with_config" } else { "from_tree_slice" }, &input(k), if persistent { Some(cfg(k)) } else { None })?) as Box<dyn TreeDyn>)))
            }
            "drop" => call(|| if persistent { S::delete(cfg(k)).map(|_| None) } else { Ok(None) }),
            "from_store_configs" | "from_sub_tree_store_configs" => call(|| -> Result<_> {
                let t: M<S, B, ST, TT> = if name == "from_store_configs" { M::from_store_configs(n, &cfgs)? } else { M::from_sub_tree_store_configs(n, &cfgs)? };
                Ok(Some(Box::new(t) as Box<dyn TreeDyn>))
            }),
            _ => {
                if S::NAME == "lc" {
                    continue; // parts in memory need a complete store
                }
                call(|| -> Result<_> {
                    if name == "from_slices" {
                        let bytes: Vec<Vec<u8>> = (0..k).map(|q| parts[q].bytes()).collect();
                        let v: Vec<&[u8]> = bytes.iter().map(|x| &x[..]).collect();
                        return Ok(Some(Box::new(M::<S, B, ST, TT>::from_slices(&v, n)?) as Box<dyn TreeDyn>));
                    }
                    let t: M<S, B, ST, TT> = match name {
                        "from_trees" => M::from_trees((0..k).map(slice).collect::<Result<Vec<_>>>()?)?,
                        "from_sub_trees_as_trees" => M::from_sub_trees_as_trees((0..k).map(slice).collect::<Result<Vec<_>>>()?)?,
                        "from_stores" => {
                            let mut v = Vec::new();
                            for q in 0..k {
                                let x = parts[q].bytes();
                                v.push(S::new_from_slice(x.len() / es(), &x)?);
                            }
                            M::from_stores(n, v)?
                        }
                        x => panic!("VH: {}", x),
                    };
                    Ok(Some(Box::new(t) as Box<dyn TreeDyn>))
                })
            }
        };
        let loads = name.contains("configs");
        let out = if loads && !persistent { "no" } else { l.get("out").s() };
        match (out, got) {
            ("ok", Out::Refused(e)) => return Err(format!("{}: refused: {}", what, e)),
            ("no", Out::Ok(_)) => return Err(format!("{}: gives a tree", what)),
            ("ok", Out::Ok(Some(t))) if name.starts_with("from") => {
                eq!(t.root(), root(), "{} root", what);
                eq!(t.leafs(), want * n, "{} leafs", what);
                for i in 0..want * n {
                    let x = call(|| t.read_at(i)).want(&format!("{} leaf {}", what, i))?;
                    eq!(x, parts[i / n].vals[i % n], "{} leaf {}", what, i);
                }
                tick(want * n);
            }
            _ => {}
        }
        // the files are those of the parts that are there, and hold them
        let here = l.get("here").us();
        if persistent {
            let mut have: Vec<String> = std::fs::read_dir(&dir).expect("VH: dir").map(|e| e.unwrap().path().display().to_string()).collect();
            let mut should: Vec<String> = here.iter().map(|q| file(*q).display().to_string()).collect();
            have.sort();
            should.sort();
            eq!(have, should, "{}: files", what);
            for q in &here {
                if std::fs::read(file(*q)).unwrap_or_default() != parts[*q].bytes() {
                    return Err(format!("{}: the file of part {} changed", what, q));
                }
            }
            tick(1 + here.len());
        }
    }
    Ok(())
}
