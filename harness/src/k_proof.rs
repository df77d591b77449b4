//! Proofs of single trees (C04).
use crate::json::J;
use crate::k_base::*;
use crate::model::*;
use crate::tree::*;
use crate::{tick, Ctx, R};
use merkletree::store::StoreConfig;

pub fn run(ctx: &Ctx, c: &J) -> R {
    let b = c.get("b").u();
    let n = c.get("n").u();
    let (es_, mode_, ds) = (c.get("es").u(), c.get("mode").u(), c.get("ds").s());
    set_env(es_, mode_);
    let vals = dataset(ds, n);
    let (rt, inp) = reference(c, "leaf", &vals);
    let node = |id: usize| rt.vals[id];
    let proofs: Vec<(usize, P)> = c.get("proofs").a().iter().map(|x| (x.a()[0].u(), spec_proof(&x.a()[1], &node))).collect();
    if n <= 64 && b <= 16 {
        with_data(c, b, &vals)?;
    }
    let stores: &[&str] = if b > 16 {
        &["vec", "disk"]
    } else if n > 4096 {
        &["vec", "disk", "lc"]
    } else {
        &["vec", "disk", "mmap", "lc"]
    };
    for store in stores {
        let what = format!("proof on {} (arity {}, {} leaves, {} byte elements, algorithm {}, data {})", store, b, n, es_, mode_, ds);
        let dir = ctx.fresh("p");
        let mut t = if *store == "lc" {
            let cfg = StoreConfig::new(&dir, "tree", 0);
            call(|| build_named("lc", b, "new_with_config", &inp, Some(cfg))).want(&what)?
        } else {
            call(|| build_named(store, b, "new", &inp, None)).want(&what)?
        };
        if *store == "lc" {
            let rep = dir.join("replica");
            write_file(&rep, &rt.leaf_bytes());
            call(|| t.attach(&rep)).want(&what)?;
        }
        check_proofs(&*t, &proofs, &what, false)?;
        refused_indices(&*t, c, &what, false)?;
    }
    Ok(())
}

/// Trees over objects: the honest proof of a leaf accepts its object and no other one.
fn with_data(c: &J, b: usize, vals: &[usize]) -> R {
    let (rt, inp) = reference(c, "data", vals);
    for store in &["vec", "disk"] {
        let t = call(|| build_named(store, b, "from_data", &inp, None)).want("from_data")?;
        for x in c.get("proofs").a() {
            let i = x.a()[0].u();
            let want = spec_proof(&x.a()[1], &|id: usize| rt.vals[id]);
            let what = format!("from_data on {} (arity {}, {} leaves), leaf {}", store, b, vals.len(), i);
            let p = call(|| t.gen_proof(i)).want(&what)?;
            same_proof(&p, &want, &what)?;
            let near = vec![i, (i + 1) % vals.len(), (i + vals.len() / 2) % vals.len(), vals.len() - 1 - i];
            for k in near {
                let same = inp.data[k] == inp.data[i];
                let got = matches!(call(|| (p.validate_data)(&inp.data[k])), Out::Ok(true));
                if got != same {
                    return Err(format!("{}: validate_with_data of the object of leaf {} says {}, specified {}", what, k, got, same));
                }
                tick(1);
            }
            let mut other = inp.data[i].clone();
            other.push(0);
            if let Out::Ok(true) = call(|| (p.validate_data)(&other)) {
                return Err(format!("{}: validate_with_data accepts a longer object", what));
            }
        }
    }
    Ok(())
}

/// Every proof is exactly the specified one, and validates.
pub fn check_proofs(t: &dyn TreeDyn, proofs: &[(usize, P)], what: &str, cached: bool) -> R {
    for (i, want) in proofs {
        let p = if cached {
            call(|| t.gen_cached_proof(*i, None)).want(&format!("{}: gen_cached_proof({})", what, i))?
        } else {
            call(|| t.gen_proof(*i)).want(&format!("{}: gen_proof({})", what, i))?
        };
        same_proof(&p, want, &format!("{}: leaf {}", what, i))?;
        match call(|| (p.validate)()) {
            Out::Ok(true) => {}
            x => return Err(format!("{}: leaf {}: the honest proof does not validate: {:?}", what, i, x)),
        }
        tick(3 + want.lemma.len());
    }
    Ok(())
}

pub fn same_proof(p: &Prf, want: &P, what: &str) -> R {
    if p.p != *want {
        return Err(format!("{}: proof {:?}, specified {:?}", what, p.p, want));
    }
    let mut leaf = want;
    while let Some(x) = &leaf.inner {
        leaf = x;
    }
    if p.item != leaf.lemma[0] {
        return Err(format!("{}: item {:?}, specified {:?}", what, p.item, leaf.lemma[0]));
    }
    if p.root != *want.lemma.last().unwrap() {
        return Err(format!("{}: root {:?}, specified {:?}", what, p.root, want.lemma.last()));
    }
    Ok(())
}

pub fn refused_indices(t: &dyn TreeDyn, c: &J, what: &str, cached: bool) -> R {
    let mut idx = c.get("refused").us();
    idx.push(1 << 40);
    idx.extend(vec![usize::MAX, far(0), far(1), usize::MAX / 2 + 1]);
    for i in idx {
        if let Out::Ok(p) = if cached { call(|| t.gen_cached_proof(i, None)) } else { call(|| t.gen_proof(i)) } {
            return Err(format!("{}: index {} is out of range but got a proof {:?}", what, i, p.p));
        }
        tick(1);
    }
    Ok(())
}
