//! Reads of level-cache stores (C11).
use crate::json::J;
use crate::k_base::*;
use crate::model::*;
use crate::tree::*;
use crate::{tick, with_small_base, Ctx, R};
use merkletree::merkle::MerkleTree;
use merkletree::store::*;

pub fn run(ctx: &Ctx, c: &J) -> R {
    let (b, n, r, v) = (c.get("b").u(), c.get("n").u(), c.get("r").u(), c.get("v").u());
    set_env(c.get("es").u(), c.get("mode").u());
    let vals = dataset(c.get("ds").s(), n);
    let (rt, inp) = reference(c, "leaf", &vals);
    let (len, cs) = (c.get("len").u(), c.get("cs").u());
    // positions, and up to where a range from there must and may be answered
    let marks: Vec<(usize, usize, usize)> = c.get("marks").a().iter().map(|x| (x.a()[0].u(), x.a()[1].u(), x.a()[2].u())).collect();
    let dir = ctx.fresh("k");
    let cfg = StoreConfig::new(&dir, "tree", r);
    let file = StoreConfig::data_path(&dir, "tree");
    let rep = dir.join("replica");
    let mut pad = vec![0x5au8; 37];
    pad.extend(rt.leaf_bytes());
    pad.extend(vec![0xa5u8; 41]);
    write_file(&rep, &pad);
    let rc = ReplicaConfig::new(&rep, vec![37]);
    let tag = |k: &str| format!("level cache version {} ({}), {} rows discarded, arity {}, {} leaves, {} byte elements", v, k, r, b, n, es());
    let kinds: &[&str] = if v == 1 { &["file", "compacted", "slice"] } else { &["file", "reader later", "compacted", "built"] };
    for kind in kinds {
        let _ = std::fs::remove_file(&file);
        let what = tag(kind);
        let ext = || ExternalReader::new_from_config(&rc, 0);
        let tree_bytes = rt.bytes();
        let s: Out<Lc> = match (*kind, v) {
            ("file", 1) => {
                write_file(&file, &[rt.leaf_bytes(), cat(&rt.vals[cs..])].concat());
                call(|| Lc::new_from_disk(len, b, &cfg))
            }
            ("slice", _) => call(|| Lc::new_from_slice_with_config(len, b, &tree_bytes, cfg.clone())),
            ("file", _) => {
                write_file(&file, &cat(&rt.vals[cs..]));
                call(|| Lc::new_from_disk_with_reader(len, b, &cfg, ext()?))
            }
            ("reader later", _) => {
                write_file(&file, &cat(&rt.vals[cs..]));
                call(|| {
                    let mut s = Lc::new_from_disk(len, b, &cfg)?;
                    s.set_external_reader(ext()?)?;
                    Ok(s)
                })
            }
            ("compacted", _) => {
                let mut t = call(|| build_named("disk", b, "new_with_config", &inp, Some(cfg.clone()))).want(&what)?;
                match call(|| t.compact(cfg.clone(), v as u32)) {
                    Out::Ok(true) => {}
                    x => return Err(format!("{}: compact: {:?}", what, x)),
                }
                drop(t);
                if v == 1 {
                    call(|| Lc::new_from_disk(len, b, &cfg))
                } else {
                    call(|| Lc::new_from_disk_with_reader(len, b, &cfg, ext()?))
                }
            }
            ("built", _) => {
                let t = call(|| build_named("lc", b, "new_with_config", &inp, Some(cfg.clone()))).want(&what)?;
                drop(t);
                call(|| Lc::new_from_disk_with_reader(len, b, &cfg, ext()?))
            }
            _ => panic!("VH: kind"),
        };
        let s = s.want(&what)?;
        reads(
            &rt, &marks, len, &what,
            &|i| s.read_at(i),
            &|i, x| s.read_into(i, x),
            &|a, e| s.read_range(a..e),
            &|a, e, x| s.read_range_into(a, e, x),
        )?;
        bytes(&s, &rt, &marks, len, &what)?;
        match call(|| s.last()) {
            Out::Ok(x) if x == rt.root() => {}
            x => return Err(format!("{}: last(): {:?}", what, x)),
        }
        if Store::len(&s) != len {
            return Err(format!("{}: len {}", what, Store::len(&s)));
        }
        let t = call(|| Ok(with_small_base!(b, B => Box::new(MerkleTree::<El, Alg, Lc, B>::from_data_store(s, n)?) as BoxTree))).want(&what)?;
        observe(&*t, &rt, c, None, &what)?;
        reads(
            &rt, &marks, len, &format!("tree over {}", what),
            &|i| t.read_at(i),
            &|i, x| t.read_into(i, x),
            &|a, e| t.read_range(a, e),
            &|a, e, x| t.read_range_into(a, e, x),
        )?;
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn reads(
    rt: &RefTree,
    marks: &[(usize, usize, usize)],
    len: usize,
    what: &str,
    at: &dyn Fn(usize) -> anyhow::Result<El>,
    into: &dyn Fn(usize, &mut [u8]) -> anyhow::Result<()>,
    range: &dyn Fn(usize, usize) -> anyhow::Result<Vec<El>>,
    range_into: &dyn Fn(usize, usize, &mut [u8]) -> anyhow::Result<()>,
) -> R {
    for &(s, must_to, may_to) in marks {
        let (must1, may1) = (s < must_to, s < may_to);
        let judge = |name: &str, e: usize, must: bool, may: bool, got: Out<Vec<u8>>| -> R {
            tick(1);
            match got {
                Out::Ok(x) => {
                    if !may {
                        return Err(format!("{}: {}({}, {}) is answered, but it touches what is not kept", what, name, s, e));
                    }
                    if x != cat(&rt.vals[s..e]) {
                        return Err(format!("{}: {}({}, {}) is not what the tree holds there", what, name, s, e));
                    }
                }
                Out::Refused(m) => {
                    if must {
                        return Err(format!("{}: {}({}, {}): refused: {}", what, name, s, e, m));
                    }
                }
            }
            Ok(())
        };
        judge("read_at", s + 1, must1, may1, call(|| at(s).map(|x| x.bytes().to_vec())))?;
        let mut buf = vec![0u8; es()];
        let o = call(|| into(s, &mut buf));
        judge("read_into", s + 1, must1, may1, map(o, buf))?;
        for &(e, _, _) in marks {
            if e <= s {
                continue;
            }
            let (must, may) = (e <= must_to, e <= may_to);
            judge("read_range", e, must, may, call(|| range(s, e).map(|x| cat(&x))))?;
            let mut buf = vec![0u8; (e - s) * es()];
            let o = call(|| range_into(s, e, &mut buf));
            judge("read_range_into", e, must, may, map(o, buf))?;
        }
    }
    for s in vec![len + 7, 1 << 20, 1 << 40, usize::MAX - 1, far(0), far(1), far(len - 1)] {
        if call(|| at(s)).is_ok() || call(|| range(s, s + 1)).is_ok() || call(|| range(0, s)).is_ok() || call(|| into(s, &mut vec![0u8; es()])).is_ok() {
            return Err(format!("{}: position {} is answered", what, s));
        }
    }
    Ok(())
}
fn map(o: Out<()>, b: Vec<u8>) -> Out<Vec<u8>> {
    match o {
        Out::Ok(()) => Out::Ok(b),
        Out::Refused(e) => Out::Refused(e),
    }
}

/// The byte-wise interface of the store.
fn bytes(s: &Lc, rt: &RefTree, marks: &[(usize, usize, usize)], len: usize, what: &str) -> R {
    let all = rt.bytes();
    let w = es();
    for &(a, must_to, may_to) in marks {
        for &(e, _, _) in marks {
            if e <= a || e > len {
                continue;
            }
            let (must, may) = (e <= must_to, e <= may_to);
            let (x, y) = (a * w, e * w);
            let mut buf = vec![0u8; y - x];
            let into = call(|| s.store_read_into(x, y, &mut buf));
            for got in vec![call(|| s.store_read_range(x, y)), map(into, buf)] {
                match got {
                    Out::Ok(g) => {
                        if !may || g != all[x..y] {
                            return Err(format!("{}: bytes {}..{} answered wrongly", what, x, y));
                        }
                    }
                    Out::Refused(m) => {
                        if must {
                            return Err(format!("{}: bytes {}..{}: refused: {}", what, x, y, m));
                        }
                    }
                }
            }
        }
    }
    Ok(())
}
