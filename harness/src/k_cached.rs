//! Proofs from stores that lack rows (C09): the same proof as from the complete tree.
use crate::json::J;
use crate::k_base::*;
use crate::k_proof::same_proof;
use crate::model::*;
use crate::tree::*;
use crate::{tick, with_small_base, Ctx, R};
use merkletree::merkle::MerkleTree;
use merkletree::store::*;

pub fn run(ctx: &Ctx, c: &J) -> R {
    let b = c.get("b").u();
    let n = c.get("n").u();
    set_env(c.get("es").u(), c.get("mode").u());
    let vals = dataset(c.get("ds").s(), n);
    let (rt, inp) = reference(c, "leaf", &vals);
    let proofs: Vec<(usize, P)> = c.get("proofs").a().iter().map(|x| (x.a()[0].u(), spec_proof(&x.a()[1], &|id: usize| rt.vals[id]))).collect();
    let len = c.get("len").u();
    let cached = c.get("cached").a();
    let tag = |what: &str, r0: usize| format!("{} with {} rows discarded (arity {}, {} leaves, {} byte elements, algorithm {})", what, r0, b, n, es(), mode());
    // a complete store answers every request
    {
        let t = call(|| build_named("disk", b, "new", &inp, None)).want("disk")?;
        for req in cached[0].a()[2].a() {
            ask(&*t, c, &proofs, Some(req.a()[0].u()), true, &tag("disk", 0))?;
        }
        ask(&*t, c, &proofs, None, true, &tag("disk", 0))?;
        ask(&*t, c, &proofs, Some(1000), true, &tag("disk", 0))?;
        ask(&*t, c, &proofs, Some(usize::MAX), true, &tag("disk", 0))?;
    }
    for x in cached {
        let x = x.a();
        let (r0, cs) = (x[0].u(), x[1].u());
        for kind in &["v1", "v2", "v2 opened first", "built", "compacted v1", "compacted v2"] {
            let dir = ctx.fresh("k");
            let cfg = StoreConfig::new(&dir, "tree", r0);
            let rep = dir.join("replica");
            let file = StoreConfig::data_path(&dir, "tree");
            let what = tag(kind, r0);
            write_file(&rep, &rt.leaf_bytes());
            let t: BoxTree = match *kind {
                "v1" => {
                    write_file(&file, &[rt.leaf_bytes(), cat(&rt.vals[cs..])].concat());
                    open(b, n, len, &cfg, None)?
                }
                "v2" => {
                    write_file(&file, &cat(&rt.vals[cs..]));
                    open(b, n, len, &cfg, Some(&rep))?
                }
                "v2 opened first" => {
                    write_file(&file, &cat(&rt.vals[cs..]));
                    call(|| {
                        let mut s: Lc = Lc::new_from_disk(len, b, &cfg)?;
                        s.set_external_reader(ExternalReader::new_from_path(&rep)?)?;
                        Ok(with_small_base!(b, B => Box::new(MerkleTree::<El, Alg, Lc, B>::from_data_store(s, n)?) as BoxTree))
                    })
                    .want(&what)?
                }
                "built" => {
                    let mut t = call(|| build_named("lc", b, "new_with_config", &inp, Some(cfg.clone()))).want(&what)?;
                    call(|| t.attach(&rep)).want(&what)?;
                    t
                }
                k => {
                    let mut t = call(|| build_named("disk", b, "new_with_config", &inp, Some(cfg.clone()))).want(&what)?;
                    let v = if k == "compacted v1" { 1 } else { 2 };
                    match call(|| t.compact(cfg.clone(), v)) {
                        Out::Ok(true) => {}
                        x => return Err(format!("{}: compact: {:?}", what, x)),
                    }
                    drop(t);
                    open(b, n, len, &cfg, if v == 1 { None } else { Some(&rep) })?
                }
            };
            for req in x[2].a() {
                ask(&*t, c, &proofs, Some(req.a()[0].u()), req.a()[1].b(), &what)?;
            }
            ask(&*t, c, &proofs, None, x[3].b(), &what)?;
            ask(&*t, c, &proofs, Some(1000), x[3].b(), &what)?;
        }
    }
    Ok(())
}

fn open(b: usize, n: usize, len: usize, cfg: &StoreConfig, rep: Option<&std::path::Path>) -> Result<BoxTree, String> {
    call(|| {
        let s: Lc = match rep {
            None => Lc::new_from_disk(len, b, cfg)?,
            Some(p) => Lc::new_from_disk_with_reader(len, b, cfg, ExternalReader::new_from_path(p)?)?,
        };
        Ok(with_small_base!(b, B => Box::new(MerkleTree::<El, Alg, Lc, B>::from_data_store(s, n)?) as BoxTree))
    })
    .want("opening a level cache")
}

fn ask(t: &dyn TreeDyn, c: &J, proofs: &[(usize, P)], r: Option<usize>, must: bool, what: &str) -> R {
    for (i, want) in proofs {
        let w = format!("{}: gen_cached_proof({}, {:?})", what, i, r);
        match call(|| t.gen_cached_proof(*i, r)) {
            Out::Ok(p) => {
                same_proof(&p, want, &w)?;
                if !matches!(call(|| (p.validate)()), Out::Ok(true)) {
                    return Err(format!("{}: the proof does not validate", w));
                }
                tick(2 + want.lemma.len());
            }
            Out::Refused(e) => {
                if must {
                    return Err(format!("{}: refused: {}", w, e));
                }
            }
        }
    }
    let mut idx = c.get("refused").us();
    idx.extend(vec![usize::MAX, far(0), far(1), usize::MAX / 2 + 1]);
    for i in idx {
        if let Out::Ok(_) = call(|| t.gen_cached_proof(i, r)) {
            return Err(format!("{}: gen_cached_proof({}, {:?}) is out of range but gives a proof", what, i, r));
        }
    }
    Ok(())
}
