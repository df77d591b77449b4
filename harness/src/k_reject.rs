//! Impossible requests (C16).
use crate::json::J;
use crate::k_base::*;
use crate::model::*;
use crate::tree::*;
use crate::{tick, with_store, Ctx, R};
use anyhow::Result;
use merkletree::merkle::MerkleTree;
use merkletree::store::*;
use typenum::*;

macro_rules! any_base {
    ($b:expr, $B:ident => $body:expr) => {
        match $b {
            0 => { type $B = U0; $body }
            1 => { type $B = U1; $body }
            2 => { type $B = U2; $body }
            3 => { type $B = U3; $body }
            4 => { type $B = U4; $body }
            5 => { type $B = U5; $body }
            6 => { type $B = U6; $body }
            7 => { type $B = U7; $body }
            8 => { type $B = U8; $body }
            12 => { type $B = U12; $body }
            16 => { type $B = U16; $body }
            8192 => { type $B = U8192; $body }
            x => panic!("VH: arity {}", x),
        }
    };
}
macro_rules! any_shape {
    ($s:expr, $t:expr, $ST:ident, $TT:ident => $body:expr) => {
        match ($s, $t) {
            (1, 0) => { type $ST = U1; type $TT = U0; $body }
            (2, 0) => { type $ST = U2; type $TT = U0; $body }
            (0, 1) => { type $ST = U0; type $TT = U1; $body }
            (0, 2) => { type $ST = U0; type $TT = U2; $body }
            (2, 2) => { type $ST = U2; type $TT = U2; $body }
            (x, y) => panic!("VH: shape {} {}", x, y),
        }
    };
}

/// An iterator that reports a size of its own choice.
struct Hint<I> {
    it: I,
    least: usize,
    hint: Option<usize>,
}
impl<I: Iterator> Iterator for Hint<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.least, self.hint)
    }
}

fn make<S: StoreX>(c: &J, ctor: &str, inp: &Input, cfg: Option<StoreConfig>) -> Result<BoxTree> {
    let (b, st, tt) = (c.get("b").u(), c.get("st").u(), c.get("tt").u());
    if st > 0 || tt > 0 {
        return match b {
            2 => any_shape!(st, tt, ST, TT => Ok(Box::new(build_t::<Alg, S, U2, ST, TT>(ctor, inp, cfg)?) as BoxTree)),
            4 => any_shape!(st, tt, ST, TT => Ok(Box::new(build_t::<Alg, S, U4, ST, TT>(ctor, inp, cfg)?) as BoxTree)),
            x => panic!("VH: arity {}", x),
        };
    }
    let form = c.get("form").s();
    let hint = match form {
        "unknown" | "atleast" => None,
        _ => Some(c.get("n").u()),
    };
    let least = if form == "atleast" { c.get("n").u() } else { 0 };
    if form == "unknown" || form == "atleast" || form == "fewer" || form == "more" {
        let it = Hint { it: inp.items.clone().into_iter().map(Ok), least, hint };
        let plain = Hint { it: inp.items.clone().into_iter(), least, hint };
        let data = Hint { it: inp.data.iter().map(|x| Obj(x.clone())), least, hint };
        return any_base!(b, B => {
            type M<S, B> = MerkleTree<El, Alg, S, B>;
            let t: Result<M<S, B>> = match ctor {
                "new" => M::new(plain),
                "new_with_config" => M::new_with_config(plain, cfg.unwrap()),
                "try_from_iter" => M::try_from_iter(it),
                "try_from_iter_with_config" => M::try_from_iter_with_config(it, cfg.unwrap()),
                "from_data" => M::from_data(data),
                "from_data_with_config" => M::from_data_with_config(data, cfg.unwrap()),
                x => panic!("VH: constructor {}", x),
            };
            t.map(|t| Box::new(t) as BoxTree)
        });
    }
    any_base!(b, B => build::<Alg, S, B>(ctor, inp, cfg))
}

pub fn run(ctx: &Ctx, c: &J) -> R {
    let (b, n, form) = (c.get("b").u(), c.get("n").u(), c.get("form").s());
    let (k, x) = (c.get("c").u(), c.get("x").u());
    set_env(if n > 1000 { 4 } else { [32, 5, 8][(b + n + x) % 3] }, n % 2);
    let given = match form {
        "fewer" => n.saturating_sub(1),
        "more" => n + 1,
        _ => n,
    };
    let items: Vec<El> = (0..given).map(|i| El::val(i + 1)).collect();
    let data: Vec<Vec<u8>> = (0..given).map(|i| obj(i + 1)).collect();
    let mut leaf_bytes = cat(&items);
    leaf_bytes.extend(vec![0x77u8; x]);
    let mut tree_bytes: Vec<u8> = cat(&(0..k).map(|i| El::val(i + 1)).collect::<Vec<_>>());
    tree_bytes.extend(vec![0x77u8; x]);
    let inp = Input { items, data, leaf_bytes, tree_bytes, n };
    let ctors: &[&str] = match form {
        "exact" => &["new", "new_with_config", "try_from_iter", "try_from_iter_with_config", "from_par_iter", "from_par_iter_with_config", "from_data", "from_data_with_config"],
        "unknown" | "atleast" | "fewer" | "more" => &["new", "new_with_config", "try_from_iter", "try_from_iter_with_config", "from_data", "from_data_with_config"],
        "bytes" => &["from_byte_slice", "from_byte_slice_with_config"],
        "tree" => &["from_tree_slice", "from_tree_slice_with_config"],
        "store" => &["from_data_store"],
        f => panic!("VH: form {}", f),
    };
    let gb = c.get("gb").u();
    let grows: Vec<(usize, usize)> = c.get("good").a().iter().map(|x| (x.a()[0].u(), x.a()[1].u())).collect();
    let gitems: Vec<El> = (0..gb * gb).map(|i| El::val(5000 + i)).collect();
    let good = RefTree::eval(gb, &grows, gitems.iter().map(|x| ref_leaf(x.bytes())).collect());
    let ginp = Input { items: gitems, data: vec![], leaf_bytes: vec![], tree_bytes: vec![], n: gb * gb };
    let out = c.get("out").s();
    for store in &["vec", "disk", "mmap", "lc"] {
        for ctor in ctors {
            let with_cfg = ctor.ends_with("_with_config");
            if *store == "lc" && !with_cfg && out != "no" {
                continue; // needs a configuration
            }
            let dir = ctx.fresh("r");
            let cfg = StoreConfig::new(&dir, "tree", 0);
            let what = format!(
                "{} on {} (arity {}, {} leaves, input {}, {} tree elements, {} surplus bytes, declared {}/{}, {} byte elements)",
                ctor, store, b, n, form, k, x, c.get("st").u(), c.get("tt").u(), es()
            );
            for turn in 0..2 {
                let again = if turn == 0 { "" } else { " the second time" };
                let got = call(|| with_store!(*store, S => make::<S>(c, ctor, &inp, if with_cfg { Some(cfg.clone()) } else { None })));
                tick(1);
                match (out, got) {
                    ("ok", Out::Refused(e)) => return Err(format!("{}: refused{}: {}", what, again, e)),
                    ("no", Out::Ok(_)) => return Err(format!("{}: gives a tree{}", what, again)),
                    ("ok", Out::Ok(t)) | ("any", Out::Ok(t)) => {
                        let rule = if form == "tree" || form == "store" { None } else if form == "bytes" { Some("raw") } else if ctor.starts_with("from_data") { Some("data") } else { Some("leaf") };
                        if let Some(rule) = rule {
                            let leaves = inp.items.iter().zip(&inp.data).map(|(i, d)| match rule {
                                "raw" => *i,
                                "leaf" => ref_leaf(i.bytes()),
                                _ => ref_leaf(ref_data(d).bytes()),
                            }).collect();
                            let rt = RefTree::eval(b, &rows(c), leaves);
                            if t.root() != rt.root() || t.leafs() != n {
                                return Err(format!("{}: another tree", what));
                            }
                        }
                        break;
                    }
                    (_, Out::Refused(_)) => {}
                    (o, _) => panic!("VH: outcome {}", o),
                }
                if !with_cfg {
                    break;
                }
            }
            if with_cfg && out != "ok" {
                // what a refusal leaves behind is not taken for a tree
                match call(|| build_named(store, gb, "new_with_config", &ginp, Some(cfg.clone()))) {
                    Out::Ok(t) => {
                        if out == "no" && (t.root() != good.root() || t.leafs() != gb * gb) {
                            return Err(format!("{}: what the refusal left behind is taken for a tree", what));
                        }
                    }
                    Out::Refused(e) => {
                        if out == "no" && *store != "lc" {
                            return Err(format!("{}: after the refusal the configuration cannot be used: {}", what, e));
                        }
                    }
                }
            }
        }
    }
    Ok(())
}
