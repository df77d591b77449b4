//! Several trees in use at a time (C04, C05, C07, C08, C09): an answer depends on the tree asked only.
use crate::json::J;
use crate::k_base::*;
use crate::k_compound::{bases, clear, configs, Parts, M};
use crate::k_forge::make;
use crate::k_proof::same_proof;
use crate::model::*;
use crate::tree::*;
use crate::{tick, with_small_base, Ctx, R};
use anyhow::Result;
use merkletree::merkle::MerkleTree;
use merkletree::proof::Proof;
use merkletree::store::*;
use std::collections::BTreeMap;
use std::sync::Arc;
use typenum::marker_traits::Unsigned;
use typenum::{U1, U2, U3};

macro_rules! eq {
    ($a:expr, $b:expr, $($t:tt)*) => {
        if $a != $b { return Err(format!("{}: got {:?}, specified {:?}", format!($($t)*), $a, $b)); }
    };
}

/// What a tree of one version is.
struct Ref {
    ps: Parts,
    all: Vec<El>,
    proofs: Vec<(usize, P)>,
}
struct Slot<'a> {
    c: &'a J,
    name: String,
    tree: Option<BoxTree>,
    refs: BTreeMap<usize, Arc<Ref>>,
    dir: std::path::PathBuf,
}
impl<'a> Slot<'a> {
    fn how(&self) -> &str {
        self.c.get("how").s()
    }
    fn single(&self) -> bool {
        self.c.get("s").u() == 0
    }
    fn reference(&mut self, v: usize) -> Arc<Ref> {
        if let Some(x) = self.refs.get(&v) {
            return x.clone();
        }
        let c = self.c;
        let (b, n, parts) = (c.get("b").u(), c.get("n").u(), c.get("parts").u());
        let vals = dataset(&format!("seed{}", v), n * parts);
        let rws = rows(c);
        let mut ps = Parts { b, n, dir: self.dir.clone(), items: vec![], trees: vec![], rows: rws.clone(), rs: vec![(c.get("r0").u(), c.get("cs").u())], offsets: vec![] };
        for q in 0..parts {
            ps.offsets.push((parts - 1 - q) * (n + 3) * es() + 5);
            let items: Vec<El> = vals[q * n..(q + 1) * n].iter().map(|x| ref_data(&obj(*x))).collect();
            ps.trees.push(RefTree::eval(b, &rws, items.iter().map(|x| ref_leaf(x.bytes())).collect()));
            ps.items.push(items);
        }
        let mut all: Vec<El> = ps.trees.iter().flat_map(|x| x.vals.clone()).collect();
        for x in c.get("tops").a() {
            let x = x.a();
            assert_eq!(x[0].u(), all.len(), "VH: node numbers");
            let ks: Vec<El> = x[2].us().iter().map(|k| all[*k]).collect();
            let h = ref_node(&ks, x[1].u());
            all.push(h);
        }
        let proofs = c.get("proofs").a().iter().map(|x| (x.a()[0].u(), spec_proof(&x.a()[1], &|id: usize| all[id]))).collect();
        let r = Arc::new(Ref { ps, all, proofs });
        self.refs.insert(v, r.clone());
        r
    }
    /// Builds the tree of version v (`fresh`), or opens again what is there.
    fn open(&mut self, v: usize, fresh: bool) -> R {
        let r = self.reference(v);
        self.tree = None;
        if fresh {
            clear(&r.ps);
        }
        let what = format!("{}: {}", self.name, if fresh { "build" } else { "open again" });
        let c = self.c;
        let (b, s, t) = (c.get("b").u(), c.get("s").u(), c.get("t").u());
        let how = c.get("how").s();
        let r0 = c.get("r0").u();
        macro_rules! sub {
            ($B:ty, $S:ty) => {
                one::<$B, $S>(&r.ps, how, r0, fresh)
            };
        }
        macro_rules! top {
            ($B:ty, $S:ty, $T:ty) => {
                two::<$B, $S, $T>(&r.ps, how, r0, fresh)
            };
        }
        use typenum::{U4, U8};
        let x = call(|| match (b, s, t) {
            (b, 0, 0) => with_small_base!(b, B => single::<B>(&r.ps, c, fresh)),
            (2, 1, 0) => sub!(U2, U1),
            (2, 2, 0) => sub!(U2, U2),
            (2, 3, 0) => sub!(U2, U3),
            (4, 2, 0) => sub!(U4, U2),
            (8, 2, 0) => sub!(U8, U2),
            (2, 2, 2) => top!(U2, U2, U2),
            (2, 3, 2) => top!(U2, U3, U2),
            (4, 2, 3) => top!(U4, U2, U3),
            x => panic!("VH: shape {:?}", x),
        });
        self.tree = Some(x.want(&what)?);
        Ok(())
    }
    fn tree(&self) -> &dyn TreeDyn {
        &**self.tree.as_ref().expect("VH: no tree in the slot")
    }
}

fn single<B: Unsigned + Send + Sync + 'static>(ps: &Parts, c: &J, fresh: bool) -> Result<BoxTree> {
    let (b, n, len, r0) = (ps.b, ps.n, c.get("len").u(), c.get("r0").u());
    let cfg = ps.cfg("t", 0, r0);
    let plain = ps.cfg("t", 0, 0);
    let inp = Input { items: ps.items[0].clone(), n, ..Default::default() };
    let rep = ps.dir.join("replica");
    write_file(&rep, &ps.trees[0].leaf_bytes());
    let how = c.get("how").s();
    Ok(match how {
        "vec" => build_named("vec", b, "new", &inp, None)?,
        "mmap" => build_named("mmap", b, "new_with_config", &inp, Some(plain))?,
        "disk" => {
            if fresh {
                build_named("disk", b, "new_with_config", &inp, Some(plain))?
            } else {
                let s: DiskStore<El> = DiskStore::new_from_disk(len, b, &plain)?;
                Box::new(MerkleTree::<El, Alg, DiskStore<El>, B>::from_data_store(s, n)?)
            }
        }
        "built" => {
            let mut t = build_named("lc", b, "new_with_config", &inp, Some(cfg))?;
            t.attach(&rep)?;
            t
        }
        "v1" | "v2" | "later" => {
            if fresh {
                let mut t = build_named("disk", b, "new_with_config", &inp, Some(cfg.clone()))?;
                t.compact(cfg.clone(), if how == "v1" { 1 } else { 2 })?;
            }
            let s: Lc = match how {
                "v1" => Lc::new_from_disk(len, b, &cfg)?,
                "v2" => Lc::new_from_disk_with_reader(len, b, &cfg, ExternalReader::new_from_path(&rep)?)?,
                _ => {
                    let mut s = Lc::new_from_disk(len, b, &cfg)?;
                    s.set_external_reader(ExternalReader::new_from_path(&rep)?)?;
                    s
                }
            };
            Box::new(MerkleTree::<El, Alg, Lc, B>::from_data_store(s, n)?)
        }
        x => panic!("VH: {}", x),
    })
}
fn files(ps: &Parts, how: &str, r0: usize, fresh: bool) -> ReplicaConfig {
    if fresh {
        for q in 0..ps.trees.len() {
            ps.put("c", q, if how == "disk" { "full" } else { how }, r0);
        }
    }
    ReplicaConfig::new(ps.replica("replica"), ps.offsets.clone())
}
fn one<B: Unsigned + Send + Sync + 'static, ST: Unsigned + Send + Sync + 'static>(ps: &Parts, how: &str, r0: usize, fresh: bool) -> Result<BoxTree> {
    let order: Vec<usize> = (0..ps.trees.len()).collect();
    if how == "vec" {
        let t: M<VecStore<El>, B, ST, typenum::U0> = M::from_trees(bases::<VecStore<El>, B>(ps, &order, "v")?)?;
        return Ok(Box::new(t));
    }
    let rep = files(ps, how, r0, fresh);
    let cs = configs(ps, "c", r0);
    Ok(match how {
        "disk" => {
            let t: M<DiskStore<El>, B, ST, typenum::U0> = M::from_store_configs(ps.n, &cs)?;
            Box::new(t)
        }
        "v1" => {
            let t: M<Lc, B, ST, typenum::U0> = M::from_store_configs(ps.n, &cs)?;
            Box::new(t)
        }
        "v2" => {
            let t: M<Lc, B, ST, typenum::U0> = M::from_store_configs_and_replica(ps.n, &cs, &rep)?;
            Box::new(t)
        }
        x => panic!("VH: {}", x),
    })
}
fn two<B: Unsigned + Send + Sync + 'static, ST: Unsigned + Send + Sync + 'static, TT: Unsigned + Send + Sync + 'static>(ps: &Parts, how: &str, r0: usize, fresh: bool) -> Result<BoxTree> {
    let order: Vec<usize> = (0..ps.trees.len()).collect();
    if how == "vec" {
        let t: M<VecStore<El>, B, ST, TT> = M::from_sub_trees_as_trees(bases::<VecStore<El>, B>(ps, &order, "v")?)?;
        return Ok(Box::new(t));
    }
    let rep = files(ps, how, r0, fresh);
    let cs = configs(ps, "c", r0);
    Ok(match how {
        "disk" => {
            let t: M<DiskStore<El>, B, ST, TT> = M::from_sub_tree_store_configs(ps.n, &cs)?;
            Box::new(t)
        }
        "v1" => {
            let t: M<Lc, B, ST, TT> = M::from_sub_tree_store_configs(ps.n, &cs)?;
            Box::new(t)
        }
        "v2" => {
            let t: M<Lc, B, ST, TT> = M::from_sub_tree_store_configs_and_replica(ps.n, &cs, &rep)?;
            Box::new(t)
        }
        x => panic!("VH: {}", x),
    })
}

/// The number of the object that leaf i of version v is made from (dataset "seedV").
fn object(v: usize, i: usize) -> usize {
    (v + 1) * 100_003 + i
}
fn mixed(how: &str, p: &P, q: &P) -> P {
    fn inner(p: &mut P) -> &mut P {
        if p.inner.is_none() {
            return p;
        }
        inner(p.inner.as_mut().unwrap())
    }
    let mut p = p.clone();
    let mut q = q.clone();
    match how {
        "root" => *p.lemma.last_mut().unwrap() = *q.lemma.last().unwrap(),
        "leaf" => inner(&mut p).lemma[0] = inner(&mut q).lemma[0],
        "sibling" => {
            let (x, y) = (inner(&mut p), inner(&mut q));
            let k = x.lemma.len() - 2;
            x.lemma[k] = y.lemma[k];
        }
        "path" => inner(&mut p).path = inner(&mut q).path.clone(),
        "lemma" => p.lemma = q.lemma.clone(),
        "inner" => {
            if p.inner.is_none() {
                return q;
            }
            p.inner = q.inner.clone();
        }
        x => panic!("VH: {}", x),
    }
    p
}
fn rebuilt<B: Unsigned>(p: &P) -> Result<Proof<El, B>> {
    let i = match &p.inner {
        None => None,
        Some(x) => Some(Box::new(rebuilt::<B>(x)?)),
    };
    make::<B>(p.sub, p.top, i, p.lemma.clone(), p.path.clone())
}

pub fn run(ctx: &Ctx, c: &J) -> R {
    set_env(c.get("es").u(), c.get("mode").u());
    let mut slots: Vec<Slot> = c
        .get("slots")
        .a()
        .iter()
        .enumerate()
        .map(|(k, x)| Slot {
            c: x,
            name: format!("tree {} ({} of arities {}/{}/{}, {} leaves, {} rows missing, {} byte elements, algorithm {})", k + 1, x.get("how").s(), x.get("b").u(), x.get("s").u(), x.get("t").u(), x.get("leafs").u(), x.get("r0").u(), es(), mode()),
            tree: None,
            refs: BTreeMap::new(),
            dir: ctx.fresh(&format!("q{}", k)),
        })
        .collect();
    // the proofs that were kept: from which slot, as handed out
    let mut held: Vec<(usize, Prf, P, usize, usize)> = Vec::new();
    let mut heard: Vec<(Prf, P)> = Vec::new();
    for (at, step) in c.get("steps").a().iter().enumerate() {
        let x = step.a();
        let op = x[0].s();
        let fail = |e: String| format!("step {} {}: {}", at + 1, step.show(), e);
        let k = |j: usize| x[j].u() - 1;
        match op {
            "build" => slots[k(1)].open(x[2].u(), true).map_err(fail)?,
            "reopen" => slots[k(1)].open(x[2].u(), false).map_err(fail)?,
            "drop" => {
                let s = &mut slots[k(1)];
                s.tree = None;
                for e in std::fs::read_dir(&s.dir).expect("VH: dir") {
                    let _ = std::fs::remove_file(e.expect("VH: dir").path());
                }
            }
            "prove" | "cached" => {
                let cached = op == "cached";
                let must = x[if cached { 5 } else { 4 }].b();
                let s = &mut slots[k(1)];
                let r = s.reference(x[2].u());
                let i = x[3].u();
                let want = &r.proofs[i].1;
                let got = if cached {
                    let r = if x[4].i() < 0 { None } else { Some(x[4].u()) };
                    call(|| s.tree().gen_cached_proof(i, r))
                } else {
                    call(|| s.tree().gen_proof(i))
                };
                tick(1);
                match got {
                    Out::Ok(p) => {
                        same_proof(&p, want, &s.name).map_err(fail)?;
                        if !matches!(call(|| (p.validate)()), Out::Ok(true)) {
                            return Err(fail(format!("{}: the proof does not validate", s.name)));
                        }
                        tick(1 + want.lemma.len());
                        if must {
                            held.push((k(1), p, want.clone(), x[2].u(), i));
                        } else {
                            heard.push((p, want.clone()));
                        }
                    }
                    Out::Refused(e) => {
                        if must {
                            return Err(fail(format!("{}: refused: {}", s.name, e)));
                        }
                    }
                }
            }
            "read" => {
                let s = &mut slots[k(1)];
                let r = s.reference(x[2].u());
                let want = r.all[x[4].u()];
                let got = call(|| s.tree().read_at(x[3].u())).want(&s.name).map_err(fail)?;
                if got != want {
                    return Err(fail(format!("{}: read {:?}, specified {:?}", s.name, got, want)));
                }
                tick(1);
            }
            "range" => {
                let s = &mut slots[k(1)];
                let r = s.reference(x[2].u());
                let (lo, hi) = (x[3].u(), x[4].u());
                match call(|| s.tree().read_range(lo, hi)) {
                    Out::Ok(got) => {
                        if got[..] != r.all[lo..hi] {
                            return Err(fail(format!("{}: read {:?}, specified {:?}", s.name, got, &r.all[lo..hi])));
                        }
                    }
                    Out::Refused(e) => {
                        if hi > lo {
                            return Err(fail(format!("{}: refused: {}", s.name, e)));
                        }
                    }
                }
                tick(1);
            }
            "look" => {
                let s = &mut slots[k(1)];
                let r = s.reference(x[2].u());
                look(s.tree(), s.c, &r, &s.name).map_err(fail)?;
            }
            "refused" => {
                let s = &slots[k(1)];
                for i in s.c.get("refused").us().into_iter().chain(vec![usize::MAX, far(0), far(1)]) {
                    for cached in &[false, true] {
                        if let Out::Ok(_) = if *cached { call(|| s.tree().gen_cached_proof(i, None)) } else { call(|| s.tree().gen_proof(i)) } {
                            return Err(fail(format!("{}: leaf {} does not exist but has a proof", s.name, i)));
                        }
                        tick(1);
                    }
                }
            }
            "validate" => {
                let (_, p, want, _, _) = &held[k(1)];
                kept(p, want).map_err(fail)?;
            }
            "all" => {
                for (_, p, want, _, _) in &held {
                    kept(p, want).map_err(fail)?;
                }
                for (p, want) in &heard {
                    kept(p, want).map_err(fail)?;
                }
            }
            "mix" => {
                let (s, p, ..) = &held[k(1)];
                let (_, q, ..) = &held[k(2)];
                let m = mixed(x[3].s(), &p.p, &q.p);
                let want = x[4].b();
                let b = slots[*s].c.get("b").u();
                let got = with_small_base!(b, B => {
                    let pr = call(|| rebuilt::<B>(&m)).want("Proof::new of well-formed parts").map_err(fail)?;
                    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| pr.validate::<Alg>())) {
                        Ok(Ok(x)) => x,
                        Ok(Err(_)) => false,
                        Err(e) => return Err(fail(format!("validate panicked: {}", panic_text(&e)))),
                    }
                });
                let o = obj(object(held[k(1)].3, held[k(1)].4));
                let with = with_small_base!(b, B => call(|| rebuilt::<B>(&m)?.validate_with_data::<Alg>(&Obj(o))).ok().unwrap_or(false));
                if with != x[5].b() {
                    return Err(fail(format!("validate_with_data of the mixed proof says {}, specified {}: {:?}", with, x[5].b(), m)));
                }
                if got != want {
                    return Err(fail(format!("validate of the mixed proof says {}, specified {}: {:?}", got, want, m)));
                }
                tick(1);
            }
            "object" => {
                let want = x[4].b();
                let o = obj(object(x[2].u(), x[3].u()));
                let got = call(|| (held[k(1)].1.validate_data)(&o)).ok().unwrap_or(false);
                if got != want {
                    return Err(fail(format!("validate_with_data says {}, specified {}", got, want)));
                }
                tick(1);
            }
            "attach" => {
                let s = &mut slots[k(1)];
                let r = s.reference(x[2].u());
                let rep = s.dir.join(format!("replica{}", at));
                write_file(&rep, &r.ps.trees[0].leaf_bytes());
                let t = s.tree.as_mut().expect("VH: no tree in the slot");
                call(|| t.attach(&rep)).want(&s.name).map_err(fail)?;
            }
            "threads" => {
                let vers = x[1].us();
                let refs: Vec<Option<Arc<Ref>>> = vers.iter().enumerate().map(|(k, v)| if *v == 0 { None } else { Some(slots[k].reference(*v)) }).collect();
                let mut jobs: Vec<(&dyn TreeDyn, &J, Arc<Ref>, &str, usize)> = Vec::new();
                for (k, r) in refs.iter().enumerate() {
                    if let Some(r) = r {
                        for w in 0..2 {
                            jobs.push((slots[k].tree(), slots[k].c, r.clone(), &slots[k].name, w));
                        }
                    }
                }
                let out: Vec<R> = std::thread::scope(|sc| {
                    let hs: Vec<_> = jobs.iter().map(|(t, c, r, name, w)| sc.spawn(move || many(*t, c, r, name, *w))).collect();
                    hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread that asked for proofs panicked".into()))).collect()
                });
                for o in out {
                    o.map_err(fail)?;
                }
            }
            x => panic!("VH: step {}", x),
        }
    }
    Ok(())
}

fn kept(p: &Prf, want: &P) -> R {
    if p.p != *want {
        return Err(format!("a kept proof changed: {:?}, specified {:?}", p.p, want));
    }
    if !matches!(call(|| (p.validate)()), Out::Ok(true)) {
        return Err(format!("a kept proof does not validate any more: {:?}", p.p));
    }
    tick(1);
    Ok(())
}
fn look(t: &dyn TreeDyn, c: &J, r: &Ref, what: &str) -> R {
    eq!(t.leafs(), c.get("leafs").u(), "{} leafs", what);
    eq!(t.len(), c.get("len").u(), "{} len", what);
    eq!(t.row_count(), c.get("rc").u(), "{} row_count", what);
    eq!(t.is_empty(), false, "{} is_empty", what);
    eq!(t.root(), r.all[c.get("root").u()], "{} root", what);
    let ids = c.get("ids").us();
    for (i, id) in ids.iter().enumerate() {
        let got = call(|| t.read_at(i)).want(&format!("{} read_at({})", what, i))?;
        eq!(got, r.all[*id], "{} read_at({})", what, i);
    }
    tick(5 + ids.len());
    Ok(())
}
/// One of several threads that ask everything of one tree, in its own order.
fn many(t: &dyn TreeDyn, c: &J, r: &Ref, name: &str, w: usize) -> R {
    let n = r.proofs.len();
    for k in 0..n {
        let (i, want) = &r.proofs[if w == 0 { k } else { n - 1 - k }];
        let what = format!("{}: leaf {} asked by one of several threads", name, i);
        for r0 in &[None, Some(c.get("r0").u()), Some(0)] {
            match call(|| if c.get("must").b() && r0.is_none() { t.gen_proof(*i) } else { t.gen_cached_proof(*i, *r0) }) {
                Out::Ok(p) => {
                    same_proof(&p, want, &what)?;
                    if !matches!(call(|| (p.validate)()), Out::Ok(true)) {
                        return Err(format!("{}: the proof does not validate", what));
                    }
                }
                Out::Refused(e) => {
                    if c.get("must").b() && r0.is_none() {
                        return Err(format!("{}: refused: {}", what, e));
                    }
                }
            }
            tick(1);
        }
    }
    look(t, c, r, name)
}
