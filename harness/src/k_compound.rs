//! Compound trees (C07, C08, C09, C13): every constructor against the specified composition.
use crate::json::J;
use crate::k_base::*;
use crate::k_proof::{refused_indices, same_proof};
use crate::model::*;
use crate::tree::*;
use crate::{tick, Ctx, R};
use anyhow::Result;
use merkletree::merkle::MerkleTree;
use merkletree::store::*;
use std::path::{Path, PathBuf};
use typenum::marker_traits::Unsigned;
use typenum::{U0, U1, U2, U3, U4, U5, U8};

pub type M<S, B, ST, TT> = MerkleTree<El, Alg, S, B, ST, TT>;

/// What the parts are made from.
pub struct Parts {
    pub b: usize,
    pub n: usize,
    pub dir: PathBuf,
    pub items: Vec<Vec<El>>,
    pub trees: Vec<RefTree>,
    pub rows: Vec<(usize, usize)>,
    /// numbers of discarded rows tried with the level cache, with the start of the cached rows
    pub rs: Vec<(usize, usize)>,
    /// byte offsets of the parts in the replica
    pub offsets: Vec<usize>,
}
impl Parts {
    pub fn cfg(&self, tag: &str, q: usize, r: usize) -> StoreConfig {
        StoreConfig::new(&self.dir, format!("{}-{}", tag, q), r)
    }
    pub fn file(&self, tag: &str, q: usize) -> PathBuf {
        StoreConfig::data_path(&self.dir, &format!("{}-{}", tag, q))
    }
    /// Writes the file of part q in the given layout.
    pub fn put(&self, tag: &str, q: usize, layout: &str, r: usize) {
        let t = &self.trees[q];
        let cs = self.rs.iter().find(|x| x.0 == r).map(|x| x.1).unwrap_or(t.n);
        let bytes = match layout {
            "full" => t.bytes(),
            "v1" => [t.leaf_bytes(), cat(&t.vals[cs..])].concat(),
            "v2" => cat(&t.vals[cs..]),
            x => panic!("VH: layout {}", x),
        };
        write_file(&self.file(tag, q), &bytes);
    }
    /// One file holding the leaves of all parts at their offsets, with other bytes in between.
    pub fn replica(&self, name: &str) -> PathBuf {
        let p = self.dir.join(name);
        let w = self.n * es();
        let end = self.offsets.iter().max().unwrap() + w;
        let mut all = vec![0xE7u8; end + 3];
        for (q, o) in self.offsets.iter().enumerate() {
            all[*o..*o + w].copy_from_slice(&self.trees[q].leaf_bytes());
        }
        write_file(&p, &all);
        p
    }
}

pub fn run(ctx: &Ctx, c: &J) -> R {
    set_env(c.get("es").u(), c.get("mode").u());
    let (b, n, s, t) = (c.get("b").u(), c.get("n").u(), c.get("s").u(), c.get("t").u());
    let parts = c.get("parts").u();
    let vals = dataset(c.get("ds").s(), n * parts);
    let rws = rows(c);
    let mut ps = Parts { b, n, dir: ctx.fresh("c"), items: vec![], trees: vec![], rows: rws.clone(), rs: vec![], offsets: vec![] };
    for x in c.get("rs").a() {
        ps.rs.push((x.a()[0].u(), x.a()[1].u()));
    }
    ps.offsets = c.get("offsets").a().iter().map(|x| x.a()[0].u() * es() + x.a()[1].u()).collect();
    for q in 0..parts {
        let items: Vec<El> = vals[q * n..(q + 1) * n].iter().map(|v| El::val(*v)).collect();
        ps.trees.push(RefTree::eval(b, &rws, items.iter().map(|x| ref_leaf(x.bytes())).collect()));
        ps.items.push(items);
    }
    // all nodes by their global number
    let mut all: Vec<El> = ps.trees.iter().flat_map(|x| x.vals.clone()).collect();
    for x in c.get("tops").a() {
        let x = x.a();
        assert_eq!(x[0].u(), all.len());
        let ks: Vec<El> = x[2].us().iter().map(|k| all[*k]).collect();
        let h = ref_node(&ks, x[1].u());
        all.push(h);
    }
    let w = Want {
        proofs: c.get("proofs").a().iter().map(|x| (x.a()[0].u(), spec_proof(&x.a()[1], &|id: usize| all[id]))).collect(),
        leaves: c.get("ids").a().iter().zip(c.get("proofs").a()).map(|(id, p)| (p.a()[0].u(), all[id.u()])).collect(),
        root: all[c.get("root").u()],
        c,
    };
    macro_rules! sub {
        ($B:ty, $S:ty) => {{
            one::<VecStore<El>, $B, $S>(&ps, &w)?;
            one::<DiskStore<El>, $B, $S>(&ps, &w)?;
            one::<Lc, $B, $S>(&ps, &w)?;
            lc_sub::<$B, $S>(&ps, &w)
        }};
    }
    macro_rules! top {
        ($B:ty, $S:ty, $T:ty) => {{
            two::<VecStore<El>, $B, $S, $T>(&ps, &w)?;
            two::<DiskStore<El>, $B, $S, $T>(&ps, &w)?;
            two::<Lc, $B, $S, $T>(&ps, &w)?;
            lc_top::<$B, $S, $T>(&ps, &w)
        }};
    }
    match (b, s, t) {
        (2, 1, 0) => {
            one::<MmapStore<El>, U2, U1>(&ps, &w)?;
            sub!(U2, U1)
        }
        (2, 2, 0) => {
            one::<MmapStore<El>, U2, U2>(&ps, &w)?;
            sub!(U2, U2)
        }
        (2, 3, 0) => sub!(U2, U3),
        (4, 2, 0) => sub!(U4, U2),
        (4, 5, 0) => sub!(U4, U5),
        (8, 8, 0) => sub!(U8, U8),
        (8, 4, 0) => sub!(U8, U4),
        (2, 1, 1) => top!(U2, U1, U1),
        (2, 2, 2) => {
            two::<MmapStore<El>, U2, U2, U2>(&ps, &w)?;
            top!(U2, U2, U2)
        }
        (2, 3, 2) => top!(U2, U3, U2),
        (2, 2, 3) => top!(U2, U2, U3),
        (2, 2, 4) => top!(U2, U2, U4),
        (2, 1, 5) => top!(U2, U1, U5),
        (4, 3, 4) => top!(U4, U3, U4),
        (4, 1, 2) => top!(U4, U1, U2),
        (4, 2, 3) => top!(U4, U2, U3),
        (8, 8, 2) => top!(U8, U8, U2),
        x => panic!("VH: shape {:?}", x),
    }
}

struct Want<'a> {
    proofs: Vec<(usize, P)>,
    leaves: Vec<(usize, El)>,
    root: El,
    c: &'a J,
}

macro_rules! eq {
    ($a:expr, $b:expr, $($t:tt)*) => {
        if $a != $b { return Err(format!("{}: got {:?}, specified {:?}", format!($($t)*), $a, $b)); }
    };
}

/// `full`: every row can be read; `cached`: row numbers for cached proofs (None: the default).
fn look(t: &dyn TreeDyn, w: &Want, full: bool, cached: &[Option<usize>], what: &str) -> R {
    let c = w.c;
    let what = &format!("{} (arities {}/{}/{}, parts of {} leaves, algorithm {}, {} byte elements)",
        what, c.get("b").u(), c.get("s").u(), c.get("t").u(), c.get("n").u(), mode(), es());
    eq!(t.leafs(), c.get("leafs").u(), "{} leafs", what);
    eq!(t.len(), c.get("len").u(), "{} len", what);
    eq!(t.row_count(), c.get("rc").u(), "{} row_count", what);
    eq!(t.is_empty(), false, "{} is_empty", what);
    eq!(t.root(), w.root, "{} root", what);
    for (i, x) in &w.leaves {
        let got = call(|| t.read_at(*i)).want(&format!("{} read_at({})", what, i))?;
        eq!(got, *x, "{} read_at({})", what, i);
        tick(1);
    }
    for i in c.get("refused").us().into_iter().chain(vec![1 << 40, usize::MAX, far(0), far(1), usize::MAX / 2 + 1]) {
        if let Out::Ok(x) = call(|| t.read_at(i)) {
            return Err(format!("{} read_at({}) is out of range but gives {:?}", what, i, x));
        }
    }
    if full {
        for (i, p) in &w.proofs {
            let got = call(|| t.gen_proof(*i)).want(&format!("{} gen_proof({})", what, i))?;
            good(&got, p, &format!("{} gen_proof({})", what, i))?;
        }
        refused_indices(t, c, what, false)?;
    }
    for r in cached {
        for (i, p) in &w.proofs {
            let x = format!("{} gen_cached_proof({}, {:?})", what, i, r);
            let got = call(|| t.gen_cached_proof(*i, *r)).want(&x)?;
            good(&got, p, &x)?;
        }
        refused_indices(t, c, what, true)?;
    }
    Ok(())
}
fn good(got: &Prf, want: &P, what: &str) -> R {
    same_proof(got, want, what)?;
    match call(|| (got.validate)()) {
        Out::Ok(true) => {}
        x => return Err(format!("{}: the honest proof does not validate: {:?}", what, x)),
    }
    tick(4 + want.lemma.len());
    Ok(())
}

/// Base trees of the parts, in order.
pub fn bases<S: StoreX, B: Unsigned + Send + Sync + 'static>(ps: &Parts, order: &[usize], tag: &str) -> Result<Vec<M<S, B, U0, U0>>> {
    let mut v = Vec::new();
    for q in order {
        let inp = Input { items: ps.items[*q].clone(), n: ps.n, ..Default::default() };
        if S::NAME == "lc" {
            let mut t = build_t::<Alg, S, B, U0, U0>("new_with_config", &inp, Some(ps.cfg(tag, *q, 0)))?;
            let rep = ps.dir.join(format!("rep-{}-{}", tag, q));
            write_file(&rep, &ps.trees[*q].leaf_bytes());
            S::attach(&mut t, &rep)?;
            v.push(t);
        } else {
            v.push(build_t::<Alg, S, B, U0, U0>("new", &inp, None)?);
        }
    }
    Ok(v)
}
pub fn clear(ps: &Parts) {
    for e in std::fs::read_dir(&ps.dir).expect("VH: dir") {
        let _ = std::fs::remove_file(e.expect("VH: dir").path());
    }
}
fn refs(ps: &Parts) -> Vec<Vec<u8>> {
    ps.trees.iter().map(|t| t.bytes()).collect()
}
pub fn configs(ps: &Parts, tag: &str, r: usize) -> Vec<StoreConfig> {
    (0..ps.trees.len()).map(|q| ps.cfg(tag, q, r)).collect()
}

/// One layer above the base trees.
fn one<S: StoreX, B: Unsigned + Send + Sync + 'static, ST: Unsigned + Send + Sync + 'static>(ps: &Parts, w: &Want) -> R {
    let nm = S::NAME;
    let p = ps.trees.len();
    let order: Vec<usize> = (0..p).collect();
    let persistent = nm != "vec";
    let none: &[Option<usize>] = if S::RANGE_INTO && nm != "lc" { &[None, Some(0)] } else { &[] };
    clear(ps);
    {
        let t: M<S, B, ST, U0> = call(|| M::from_trees(bases::<S, B>(ps, &order, "a")?)).want(&format!("from_trees on {}", nm))?;
        look(&t, w, true, none, &format!("from_trees on {}", nm))?;
    }
    let bytes = refs(ps);
    let slices: Vec<&[u8]> = bytes.iter().map(|x| &x[..]).collect();
    if nm != "lc" {
        let t: M<S, B, ST, U0> = call(|| M::<S, B, ST, U0>::from_slices(&slices, ps.n)).want(&format!("from_slices on {}", nm))?;
        look(&t, w, true, none, &format!("from_slices on {}", nm))?;
        let t: M<S, B, ST, U0> = call(|| {
            let mut v = Vec::new();
            for x in &bytes {
                v.push(S::new_from_slice(x.len() / es(), x)?);
            }
            M::from_stores(ps.n, v)
        })
        .want(&format!("from_stores on {}", nm))?;
        look(&t, w, true, none, &format!("from_stores on {}", nm))?;
    }
    clear(ps);
    {
        let cs = configs(ps, "b", 0);
        let t: M<S, B, ST, U0> = call(|| M::from_slices_with_configs(&slices, ps.n, &cs)).want(&format!("from_slices_with_configs on {}", nm))?;
        look(&t, w, true, none, &format!("from_slices_with_configs on {}", nm))?;
        drop(t);
        if persistent {
            for q in 0..p {
                eq!((std::fs::read(ps.file("b", q)).unwrap_or_default() == bytes[q]), true, "from_slices_with_configs on {}: the file of part {} is that part", nm, q);
            }
        }
    }
    if persistent && nm != "lc" {
        clear(ps);
        for q in 0..p {
            ps.put("f", q, "full", 0);
        }
        let cs = configs(ps, "f", 0);
        let t: M<S, B, ST, U0> = call(|| M::from_store_configs(ps.n, &cs)).want(&format!("from_store_configs on {}", nm))?;
        look(&t, w, true, none, &format!("from_store_configs on {}", nm))?;
    }
    refusals_sub::<S, B, ST>(ps, w)
}

fn fail_if_ok<T>(x: Out<T>, what: String) -> R {
    tick(1);
    match x {
        Out::Ok(_) => Err(format!("{}: accepted, specified to be refused", what)),
        _ => Ok(()),
    }
}

/// A tree of `size` leaves of part data (sizes other than the part's own: data repeated).
fn sized(ps: &Parts, q: usize, size: usize) -> (Input, RefTree) {
    let q = q % ps.trees.len();
    let items: Vec<El> = (0..size).map(|k| ps.items[q][k % ps.n]).collect();
    let mut rws = vec![(0, size)];
    while rws[rws.len() - 1].1 > 1 {
        let (s, w) = rws[rws.len() - 1];
        rws.push((s + w, w / ps.b));
    }
    let rt = RefTree::eval(ps.b, &rws, items.iter().map(|x| ref_leaf(x.bytes())).collect());
    let inp = Input { leaf_bytes: rt.leaf_bytes(), tree_bytes: rt.bytes(), items, data: vec![], n: size };
    (inp, rt)
}

/// Wrong numbers and sizes of parts.
fn refusals_sub<S: StoreX, B: Unsigned + Send + Sync + 'static, ST: Unsigned + Send + Sync + 'static>(ps: &Parts, w: &Want) -> R {
    let nm = S::NAME;
    for l in w.c.get("bad").a() {
        let sizes = l.us();
        clear(ps);
        let mk = || -> Result<Vec<M<S, B, U0, U0>>> {
            let mut v = Vec::new();
            for (q, z) in sizes.iter().enumerate() {
                let (inp, _) = sized(ps, q, *z);
                v.push(if nm == "lc" {
                    build_t::<Alg, S, B, U0, U0>("from_tree_slice_with_config", &inp, Some(ps.cfg("r", q, 0)))?
                } else {
                    build_t::<Alg, S, B, U0, U0>("from_tree_slice", &inp, None)?
                });
            }
            Ok(v)
        };
        let v = call(mk).want("parts of a refused compound tree")?;
        fail_if_ok(call(|| M::<S, B, ST, U0>::from_trees(v)), format!("from_trees on {} with parts of {:?} leaves for {} parts", nm, sizes, ST::to_usize()))?;
        let data: Vec<Vec<u8>> = sizes.iter().enumerate().map(|(q, z)| sized(ps, q, *z).1.bytes()).collect();
        let sl: Vec<&[u8]> = data.iter().map(|x| &x[..]).collect();
        if nm != "lc" {
            for n in sizes.iter().cloned().chain(vec![ps.n]) {
                fail_if_ok(call(|| M::<S, B, ST, U0>::from_slices(&sl, n)), format!("from_slices on {} with parts of {:?} leaves for {} parts of {}", nm, sizes, ST::to_usize(), n))?;
            }
        }
        clear(ps);
        let cs: Vec<StoreConfig> = (0..sizes.len()).map(|q| ps.cfg("x", q, 0)).collect();
        fail_if_ok(call(|| M::<S, B, ST, U0>::from_slices_with_configs(&sl, ps.n, &cs)), format!("from_slices_with_configs on {} with parts of {:?} leaves for {} parts of {}", nm, sizes, ST::to_usize(), ps.n))?;
        if nm == "disk" {
            clear(ps);
            for (q, d) in data.iter().enumerate() {
                write_file(&ps.file("y", q), d);
            }
            let cs: Vec<StoreConfig> = (0..sizes.len()).map(|q| ps.cfg("y", q, 0)).collect();
            for n in sizes.iter().cloned().chain(vec![ps.n]) {
                fail_if_ok(call(|| M::<S, B, ST, U0>::from_store_configs(n, &cs)), format!("from_store_configs on {} with parts of {:?} leaves for {} parts of {}", nm, sizes, ST::to_usize(), n))?;
            }
        }
    }
    // the declared layers have to be the ones that are built
    clear(ps);
    let order: Vec<usize> = (0..ps.trees.len()).collect();
    let v = call(|| bases::<S, B>(ps, &order, "z")).want("base trees")?;
    fail_if_ok(call(|| M::<S, B, ST, U2>::from_trees(v)), format!("from_trees on {} for a tree declared with a top layer", nm))?;
    clear(ps);
    let v = call(|| bases::<S, B>(ps, &order, "z")).want("base trees")?;
    fail_if_ok(call(|| M::<S, B, U0, U0>::from_trees(v)), format!("from_trees on {} for a tree declared without sub-trees", nm))?;
    Ok(())
}

/// Level caches with discarded rows.
fn lc_sub<B: Unsigned + Send + Sync + 'static, ST: Unsigned + Send + Sync + 'static>(ps: &Parts, w: &Want) -> R {
    let p = ps.trees.len();
    for (r, _) in ps.rs.clone() {
        clear(ps);
        for q in 0..p {
            ps.put("v1", q, "v1", r);
            ps.put("v2", q, "v2", r);
        }
        let t: M<Lc, B, ST, U0> = call(|| M::from_store_configs(ps.n, &configs(ps, "v1", r))).want("from_store_configs on lc, version 1")?;
        look(&t, w, r == 0, &[Some(r)], &format!("from_store_configs on lc, version 1, {} rows discarded", r))?;
        let rep = ReplicaConfig::new(ps.replica("replica"), ps.offsets.clone());
        let t: M<Lc, B, ST, U0> = call(|| M::from_store_configs_and_replica(ps.n, &configs(ps, "v2", r), &rep)).want("from_store_configs_and_replica")?;
        look(&t, w, r == 0, &[Some(r)], &format!("from_store_configs_and_replica, {} rows discarded", r))?;
        let mut cs = configs(ps, "v2", r);
        let mut short = rep.clone();
        short.offsets.pop();
        fail_if_ok(call(|| M::<Lc, B, ST, U0>::from_store_configs_and_replica(ps.n, &cs, &short)), "from_store_configs_and_replica with one offset less than configurations".into())?;
        short.offsets.extend(&[0, 0]);
        fail_if_ok(call(|| M::<Lc, B, ST, U0>::from_store_configs_and_replica(ps.n, &cs, &short)), "from_store_configs_and_replica with one offset more than configurations".into())?;
        short.offsets.pop();
        cs.pop();
        fail_if_ok(call(|| M::<Lc, B, ST, U0>::from_store_configs_and_replica(ps.n, &cs, &short)), "from_store_configs_and_replica with one configuration less than offsets".into())?;
        short.offsets.pop();
        fail_if_ok(call(|| M::<Lc, B, ST, U0>::from_store_configs_and_replica(ps.n, &cs, &short)), "from_store_configs_and_replica with one part less than declared".into())?;
    }
    Ok(())
}

/// Two layers above the base trees.
fn two<S: StoreX, B: Unsigned + Send + Sync + 'static, ST: Unsigned + Send + Sync + 'static, TT: Unsigned + Send + Sync + 'static>(ps: &Parts, w: &Want) -> R {
    let nm = S::NAME;
    let p = ps.trees.len();
    let (s, t) = (ST::to_usize(), TT::to_usize());
    let order: Vec<usize> = (0..p).collect();
    let none: &[Option<usize>] = if S::RANGE_INTO && nm != "lc" { &[None, Some(0)] } else { &[] };
    let groups = |tag: &str, cnt: usize| -> Result<Vec<M<S, B, ST, U0>>> {
        let mut v = Vec::new();
        for g in 0..cnt {
            let o: Vec<usize> = (0..s).map(|k| (g * s + k) % p).collect();
            v.push(M::from_trees(bases::<S, B>(ps, &o, &format!("{}{}", tag, g))?)?);
        }
        Ok(v)
    };
    clear(ps);
    {
        let x: M<S, B, ST, TT> = call(|| M::from_sub_trees(groups("g", t)?)).want(&format!("from_sub_trees on {}", nm))?;
        look(&x, w, true, none, &format!("from_sub_trees on {}", nm))?;
    }
    clear(ps);
    {
        let x: M<S, B, ST, TT> = call(|| M::from_sub_trees_as_trees(bases::<S, B>(ps, &order, "h")?)).want(&format!("from_sub_trees_as_trees on {}", nm))?;
        look(&x, w, true, none, &format!("from_sub_trees_as_trees on {}", nm))?;
    }
    if nm == "disk" || nm == "mmap" {
        clear(ps);
        for q in 0..p {
            ps.put("f", q, "full", 0);
        }
        let x: M<S, B, ST, TT> = call(|| M::from_sub_tree_store_configs(ps.n, &configs(ps, "f", 0))).want(&format!("from_sub_tree_store_configs on {}", nm))?;
        look(&x, w, true, none, &format!("from_sub_tree_store_configs on {}", nm))?;
        drop(x);
        let one_more = || {
            let mut cs = configs(ps, "f", 0);
            ps.put("f", p - 1, "full", 0);
            write_file(&ps.file("f", p), &ps.trees[0].bytes());
            cs.push(ps.cfg("f", p, 0));
            cs
        };
        let cs = one_more();
        fail_if_ok(call(|| M::<S, B, ST, TT>::from_sub_tree_store_configs(ps.n, &cs)), format!("from_sub_tree_store_configs on {} with one part more than declared", nm))?;
        fail_if_ok(call(|| M::<S, B, ST, TT>::from_sub_tree_store_configs(ps.n, &cs[..p - 1])), format!("from_sub_tree_store_configs on {} with one part less than declared", nm))?;
        // single-layer constructors of a two-layer type
        fail_if_ok(call(|| M::<S, B, ST, TT>::from_store_configs(ps.n, &cs[..s])), format!("from_store_configs on {} for a tree declared with a top layer", nm))?;
        fail_if_ok(call(|| M::<S, B, ST, TT>::from_store_configs(ps.n, &cs[..p])), format!("from_store_configs on {} for a tree declared with a top layer", nm))?;
    }
    if nm != "lc" {
        for cnt in vec![0, t - 1, t + 1] {
            let v = call(|| groups("w", cnt)).want("groups")?;
            fail_if_ok(call(|| M::<S, B, ST, TT>::from_sub_trees(v)), format!("from_sub_trees on {} with {} groups instead of {}", nm, cnt, t))?;
        }
        for l in w.c.get("bad").a() {
            let sizes = l.us();
            let mk = || -> Result<Vec<M<S, B, U0, U0>>> {
                let mut v = Vec::new();
                for (q, z) in sizes.iter().enumerate() {
                    v.push(build_t::<Alg, S, B, U0, U0>("from_tree_slice", &sized(ps, q, *z).0, None)?);
                }
                Ok(v)
            };
            let v = call(mk).want("parts of a refused compound tree")?;
            fail_if_ok(call(|| M::<S, B, ST, TT>::from_sub_trees_as_trees(v)), format!("from_sub_trees_as_trees on {} with parts of {:?} leaves for {} x {} parts", nm, sizes, t, s))?;
            // the same sizes as groups, where each group is possible on its own
            if sizes.len() == p && sizes.chunks(s).all(|g| g.iter().all(|z| *z == g[0])) {
                let v = call(mk).want("parts of a refused compound tree")?;
                let mut it = v.into_iter();
                let mut gs: Vec<M<S, B, ST, U0>> = Vec::new();
                for _ in 0..t {
                    let g: Vec<_> = it.by_ref().take(s).collect();
                    gs.push(call(|| M::from_trees(g)).want("a group of equal parts")?);
                }
                fail_if_ok(call(|| M::<S, B, ST, TT>::from_sub_trees(gs)), format!("from_sub_trees on {} with parts of {:?} leaves", nm, sizes))?;
            }
        }
        let v = call(|| bases::<S, B>(ps, &order[..t.min(p)], "q")).want("bases")?;
        fail_if_ok(call(|| M::<S, B, U0, TT>::from_sub_trees(v)), format!("from_sub_trees on {} over trees without sub-trees", nm))?;
        let v = call(|| groups("v", t)).want("groups")?;
        fail_if_ok(call(|| M::<S, B, ST, U0>::from_sub_trees(v)), format!("from_sub_trees on {} for a tree declared without a top layer", nm))?;
        let v = call(|| bases::<S, B>(ps, &order, "q")).want("bases")?;
        fail_if_ok(call(|| M::<S, B, ST, U0>::from_sub_trees_as_trees(v)), format!("from_sub_trees_as_trees on {} for a tree declared without a top layer", nm))?;
    }
    Ok(())
}

fn lc_top<B: Unsigned + Send + Sync + 'static, ST: Unsigned + Send + Sync + 'static, TT: Unsigned + Send + Sync + 'static>(ps: &Parts, w: &Want) -> R {
    let p = ps.trees.len();
    for (r, _) in ps.rs.clone() {
        clear(ps);
        for q in 0..p {
            ps.put("v1", q, "v1", r);
            ps.put("v2", q, "v2", r);
        }
        let t: M<Lc, B, ST, TT> = call(|| M::from_sub_tree_store_configs(ps.n, &configs(ps, "v1", r))).want("from_sub_tree_store_configs on lc, version 1")?;
        look(&t, w, r == 0, &[Some(r)], &format!("from_sub_tree_store_configs on lc, version 1, {} rows discarded", r))?;
        let rep = ReplicaConfig::new(ps.replica("replica"), ps.offsets.clone());
        let t: M<Lc, B, ST, TT> = call(|| M::from_sub_tree_store_configs_and_replica(ps.n, &configs(ps, "v2", r), &rep)).want("from_sub_tree_store_configs_and_replica")?;
        look(&t, w, r == 0, &[Some(r)], &format!("from_sub_tree_store_configs_and_replica, {} rows discarded", r))?;
        let mut cs = configs(ps, "v2", r);
        let mut short = rep.clone();
        short.offsets.pop();
        fail_if_ok(call(|| M::<Lc, B, ST, TT>::from_sub_tree_store_configs_and_replica(ps.n, &cs, &short)), "from_sub_tree_store_configs_and_replica with one offset less than configurations".into())?;
        cs.pop();
        fail_if_ok(call(|| M::<Lc, B, ST, TT>::from_sub_tree_store_configs_and_replica(ps.n, &cs, &short)), "from_sub_tree_store_configs_and_replica with one part less than declared".into())?;
        let mut long = rep.clone();
        long.offsets.push(0);
        let mut cs = configs(ps, "v2", r);
        fail_if_ok(call(|| M::<Lc, B, ST, TT>::from_sub_tree_store_configs_and_replica(ps.n, &cs, &long)), "from_sub_tree_store_configs_and_replica with one offset more than configurations".into())?;
        std::fs::copy(ps.file("v2", 0), ps.file("v2", p)).expect("VH: copy");
        cs.push(ps.cfg("v2", p, r));
        fail_if_ok(call(|| M::<Lc, B, ST, TT>::from_sub_tree_store_configs_and_replica(ps.n, &cs, &long)), "from_sub_tree_store_configs_and_replica with one part more than declared".into())?;
    }
    let _: &Path = &ps.dir;
    let _ = &ps.rows;
    Ok(())
}
