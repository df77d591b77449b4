//! Construction of single trees (C01, C02).
use crate::json::J;
use crate::k_base::*;
use crate::model::*;
use crate::tree::*;
use crate::{tick, with_base, with_store, Ctx, R};
use merkletree::store::{Store, StoreConfig};

macro_rules! eq {
    ($a:expr, $b:expr, $($t:tt)*) => {
        if $a != $b { return Err(format!("{}: got {:?}, specified {:?}", format!($($t)*), $a, $b)); }
    };
}

pub fn run(ctx: &Ctx, c: &J) -> R {
    let b = c.get("b").u();
    let n = c.get("n").u();
    let len = c.get("len").u();
    let rs = c.get("rs").us();
    let cs = c.get("cs").us();
    let mut count = 0;
    {
        {
            let (es_, mode_, ds) = (c.get("es").u(), c.get("mode").u(), c.get("ds").s());
            set_env(es_, mode_);
            {
                let vals = dataset(&ds, n);
                let mut cache: Vec<(String, RefTree, Input)> = Vec::new();
                for run in c.get("runs").a() {
                    let (store, ctor, leaf) = (run.a()[0].s(), run.a()[1].s(), run.a()[2].s());
                    if !cache.iter().any(|x| x.0 == leaf) {
                        let (t, i) = reference(c, leaf, &vals);
                        cache.push((leaf.to_string(), t, i));
                    }
                    let (_, rt, inp) = cache.iter().find(|x| x.0 == leaf).unwrap();
                    let with_cfg = ctor.ends_with("with_config");
                    let r_list: Vec<usize> = if store == "lc" { (0..rs.len()).collect() } else { vec![count % rs.len()] };
                    for ri in r_list {
                        count += 1;
                        let what = format!(
                            "{} on {} (arity {}, {} leaves, {} byte elements, algorithm {}, data {}, rows {})",
                            ctor, store, b, n, es_, mode_, ds, rs[ri]
                        );
                        let dir = ctx.fresh("t");
                        let cfg = if with_cfg { Some(StoreConfig::new(&dir, "tree", rs[ri])) } else { None };
                        let mut t = call(|| build_named(store, b, ctor, inp, cfg.clone())).want(&what)?;
                        let mut win = Window { n, cs: n, len, split: false };
                        if store == "lc" {
                            win.cs = cs[ri];
                            win.split = true;
                            // the base row is available from a replica, unless the file holds it
                            if leaf != "tree" {
                                observe(&*t, rt, c, None, &what)?;
                                let rep = dir.join("replica");
                                write_file(&rep, &rt.leaf_bytes());
                                call(|| t.attach(&rep)).want(&what)?;
                            }
                        }
                        observe(&*t, rt, c, Some(win), &what)?;
                        if let Some(cfg) = cfg {
                            // what is on disk is what is specified
                            if store == "disk" || store == "mmap" {
                                drop(t);
                                let got = std::fs::read(StoreConfig::data_path(&cfg.path, &cfg.id)).map_err(|e| format!("{}: data file: {}", what, e))?;
                                if got != rt.bytes() {
                                    return Err(format!("{}: data file differs from the tree ({} bytes, specified {})", what, got.len(), rt.bytes().len()));
                                }
                            }
                        }
                    }
                }
                // the trait's default hashing, and the crate's own element type
                if n <= 64 && mode_ == 0 {
                    plain_runs(c, b, &vals)?;
                }
            }
        }
    }
    Ok(())
}

fn plain_runs(c: &J, b: usize, vals: &[usize]) -> R {
    let (rt, inp) = reference(c, "leaf", vals);
    let (rtd, inpd) = reference(c, "data", vals);
    let what = format!("default algorithm, arity {}, {} leaves", b, vals.len());
    if b <= 8 {
        for store in &["vec", "disk"] {
            let t = call(|| {
                with_store!(*store, S => match b {
                    2 => build::<AlgD, S, typenum::U2>("new", &inp, None),
                    4 => build::<AlgD, S, typenum::U4>("new", &inp, None),
                    _ => build::<AlgD, S, typenum::U8>("new", &inp, None),
                })
            })
            .want(&what)?;
            observe(&*t, &rt, c, Some(Window { n: rt.n, cs: rt.n, len: rt.vals.len(), split: false }), &what)?;
        }
        let t = call(|| match b {
            2 => build::<AlgD, merkletree::store::VecStore<El>, typenum::U2>("from_data", &inpd, None),
            4 => build::<AlgD, merkletree::store::VecStore<El>, typenum::U4>("from_data", &inpd, None),
            _ => build::<AlgD, merkletree::store::VecStore<El>, typenum::U8>("from_data", &inpd, None),
        })
        .want(&what)?;
        observe(&*t, &rtd, c, Some(Window { n: rt.n, cs: rt.n, len: rt.vals.len(), split: false }), &what)?;
    }
    if es() == 32 && b <= 8 {
        with_base!(b, B => native::<B>(&rt, &inp, &what))?;
    }
    Ok(())
}

/// Trees over the crate's own [u8; 32] elements.
fn native<B: typenum::marker_traits::Unsigned>(rt: &RefTree, inp: &Input, what: &str) -> R {
    use merkletree::merkle::MerkleTree;
    let items: Vec<[u8; 32]> = inp
        .items
        .iter()
        .map(|x| {
            let mut a = [0u8; 32];
            a.copy_from_slice(x.bytes());
            a
        })
        .collect();
    let v: MerkleTree<[u8; 32], Alg32, merkletree::store::VecStore<[u8; 32]>, B> =
        call(|| MerkleTree::new(items.clone())).want(what)?;
    let d: MerkleTree<[u8; 32], Alg32, merkletree::store::DiskStore<[u8; 32]>, B> =
        call(|| MerkleTree::new(items.clone())).want(what)?;
    for i in 0..rt.vals.len() {
        let a = call(|| v.read_at(i)).want(what)?;
        let e = call(|| d.read_at(i)).want(what)?;
        let s = call(|| d.data().unwrap().read_at(i)).want(what)?;
        if a[..] != *rt.vals[i].bytes() || a != e || a != s {
            return Err(format!("{}: node {} of a [u8; 32] tree differs", what, i));
        }
        tick(2);
    }
    eq!(&v.root()[..], rt.root().bytes(), "{} root", what);
    Ok(())
}
