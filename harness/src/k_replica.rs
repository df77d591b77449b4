//! Base data in an external replica (C13).
use crate::json::J;
use crate::k_base::*;
use crate::model::*;
use crate::tree::*;
use crate::{tick, with_small_base, Ctx, R};
use anyhow::anyhow;
use merkletree::merkle::MerkleTree;
use merkletree::store::*;
use std::fs::OpenOptions;
use std::os::unix::fs::FileExt;
use std::path::Path;
use typenum::*;

fn big(x: &J) -> u64 {
    ((x.a()[0].u() as u64) << 30) + x.a()[1].u() as u64
}

/// A replica that exists only around the base data.
#[derive(Clone)]
pub struct Virt {
    at: Vec<(u64, Vec<u8>)>,
    /// gives what there is, at most so many bytes at a time, and says how many
    most: Option<usize>,
}
impl std::io::Read for Virt {
    fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> {
        Err(std::io::Error::new(std::io::ErrorKind::Other, "positions only"))
    }
}
fn virt_read(start: usize, end: usize, buf: &mut [u8], v: &Virt) -> anyhow::Result<usize> {
    for (p, d) in &v.at {
        let (s, e) = (start as u64, end as u64);
        if let (Some(most), true) = (v.most, s >= *p) {
            let o = (s - *p) as usize;
            let k = d.len().saturating_sub(o).min(end - start).min(most);
            if k > 0 {
                buf[..k].copy_from_slice(&d[o..o + k]);
            }
            return Ok(k);
        }
        if s >= *p && e <= *p + d.len() as u64 {
            let o = (s - *p) as usize;
            buf[..end - start].copy_from_slice(&d[o..o + end - start]);
            return Ok(end - start);
        }
    }
    Err(anyhow!("nothing at {}..{}", start, end))
}

struct Env<'a> {
    c: &'a J,
    parts: Vec<RefTree>,
    len: usize,
    n: usize,
    b: usize,
    leaves: Vec<El>,
    offs: Vec<usize>,
    what: String,
}

pub fn run(ctx: &Ctx, c: &J) -> R {
    let (b, n, s, t, r) = (c.get("b").u(), c.get("n").u(), c.get("s").u(), c.get("t").u(), c.get("r").u());
    set_env(c.get("es").u(), 1);
    let offs: Vec<usize> = c.get("offs").a().iter().map(|x| big(x) as usize).collect();
    let pos: Vec<u64> = c.get("pos").a().iter().map(big).collect();
    let p = offs.len();
    let leaves: Vec<El> = (0..p * n).map(|i| El::val(i + 1)).collect();
    let parts: Vec<RefTree> = (0..p).map(|q| RefTree::eval(b, &rows(c), leaves[q * n..(q + 1) * n].to_vec())).collect();
    let e = Env {
        c,
        len: c.get("len").u(),
        n,
        b,
        what: format!("replica, arity {}, {} leaves, {}x{} parts, {} rows discarded, {} byte elements, offsets {}", b, n, s, t, r, es(), c.get("pat").s()),
        parts,
        leaves,
        offs: offs.clone(),
    };
    let cs = c.get("cs").u();
    let dir = ctx.fresh("k");
    let cfgs: Vec<StoreConfig> = (0..p).map(|q| StoreConfig::new(&dir, format!("part-{}", q), r)).collect();
    for q in 0..p {
        write_file(&StoreConfig::data_path(&dir, &cfgs[q].id), &cat(&e.parts[q].vals[cs..]));
    }
    let rep = dir.join("replica");
    // filler around the data, so that a wrong position is noticed
    let f = OpenOptions::new().create(true).write(true).open(&rep).expect("VH: replica");
    let fill = vec![0xEEu8; n * es() + 64];
    for o in &offs {
        f.write_all_at(&fill, (*o as u64).saturating_sub(30)).expect("VH: replica");
        // what a position cut to 32 bits would find
        f.write_all_at(&fill, (*o as u64) & 0x7fff_ffff).expect("VH: replica");
    }
    for (i, x) in e.leaves.iter().enumerate() {
        f.write_all_at(x.bytes(), pos[i]).expect("VH: replica");
    }
    drop(f);
    let rc = ReplicaConfig::new(&rep, offs.clone());
    // saved and loaded again
    let rc: ReplicaConfig = if c.show().len() % 2 == 0 { serde_json::from_str(&serde_json::to_string(&rc).expect("saving a configuration")).expect("loading a saved configuration") } else { rc };
    let everything: Vec<usize> = (0..p * n).collect();
    whole(&e, &cfgs, &rc, &everything)?;
    virtual_reader(&e, &cfgs)?;
    replaced(&e, &cfgs, &rc, &dir)?;
    // wrong numbers of offsets, no replica
    let mut wrong = vec![offs[..p - 1].to_vec(), [&offs[..], &[0]].concat(), vec![]];
    wrong.retain(|w| w.len() != p);
    for w in wrong {
        let k = w.len();
        if compound(&e, &cfgs, &ReplicaConfig::new(&rep, w)).map_or(false, |x| x.is_ok()) {
            return Err(format!("{}: accepted with {} offsets", e.what, k));
        }
    }
    let gone = ReplicaConfig::new(dir.join("absent"), offs.clone());
    if compound(&e, &cfgs, &gone).map_or(false, |x| x.is_ok()) || call(|| ExternalReader::new_from_config(&gone, 0)).is_ok() {
        return Err(format!("{}: accepted without a replica", e.what));
    }
    // replicas cut short
    for x in c.get("cuts").a() {
        let end = big(&x.a()[0]);
        let short = dir.join("short");
        copy_sparse(&rep, &short, end);
        whole(&e, &cfgs, &ReplicaConfig::new(&short, offs.clone()), &x.a()[1].us())
            .map_err(|m| format!("replica of {} bytes: {}", end, m))?;
        let _ = std::fs::remove_file(&short);
    }
    Ok(())
}

/// The data of `a` before byte `end`, holes kept.
fn copy_sparse(a: &Path, b: &Path, end: u64) {
    use std::os::unix::io::AsRawFd;
    let f = std::fs::File::open(a).expect("VH: copy");
    let o = std::fs::File::create(b).expect("VH: copy");
    o.set_len(end).expect("VH: copy");
    let mut at: i64 = 0;
    loop {
        let d = unsafe { libc::lseek(f.as_raw_fd(), at, libc::SEEK_DATA) };
        if d < 0 || d as u64 >= end {
            break;
        }
        let h = unsafe { libc::lseek(f.as_raw_fd(), d, libc::SEEK_HOLE) };
        let h = (h as u64).min(end);
        let mut buf = vec![0u8; (h - d as u64) as usize];
        f.read_exact_at(&mut buf, d as u64).expect("VH: copy");
        o.write_all_at(&buf, d as u64).expect("VH: copy");
        at = h as i64;
    }
}

fn single(e: &Env, cfg: &StoreConfig, rd: ExternalReader<std::fs::File>) -> Out<BoxTree> {
    call(|| {
        let s: Lc = Lc::new_from_disk_with_reader(e.len, e.b, cfg, rd)?;
        Ok(with_small_base!(e.b, B => Box::new(MerkleTree::<El, Alg, Lc, B>::from_data_store(s, e.n)?) as BoxTree))
    })
}

/// Compound constructors for the shape; None if it has no layers or is not instantiated.
fn compound(e: &Env, cfgs: &[StoreConfig], rc: &ReplicaConfig) -> Option<Out<BoxTree>> {
    let (s, t) = (e.c.get("s").u(), e.c.get("t").u());
    macro_rules! go {
        ($B:ident, $S:ident, $T:ident, $f:ident) => {
            Some(call(|| Ok(Box::new(MerkleTree::<El, Alg, Lc, $B, $S, $T>::$f(e.n, cfgs, rc)?) as BoxTree)))
        };
    }
    match (e.b, s, t) {
        (_, 0, 0) => None,
        (2, 1, 0) => go!(U2, U1, U0, from_store_configs_and_replica),
        (2, 3, 0) => go!(U2, U3, U0, from_store_configs_and_replica),
        (4, 2, 0) => go!(U4, U2, U0, from_store_configs_and_replica),
        (8, 8, 0) => go!(U8, U8, U0, from_store_configs_and_replica),
        (2, 2, 2) => go!(U2, U2, U2, from_sub_tree_store_configs_and_replica),
        (2, 3, 2) => go!(U2, U3, U2, from_sub_tree_store_configs_and_replica),
        (4, 2, 3) => go!(U4, U2, U3, from_sub_tree_store_configs_and_replica),
        (8, 1, 1) => go!(U8, U1, U1, from_sub_tree_store_configs_and_replica),
        x => panic!("VH: shape {:?}", x),
    }
}

fn read(t: &dyn TreeDyn, i: usize, want: &El, ok: bool, what: &str) -> R {
    tick(1);
    match call(|| t.read_at(i)) {
        Out::Ok(x) => {
            if !ok {
                return Err(format!("{}: leaf {} is answered although the replica does not hold it", what, i));
            }
            if x != *want {
                return Err(format!("{}: leaf {} is {:?}, specified {:?}", what, i, x, want));
            }
        }
        Out::Refused(m) => {
            if ok {
                return Err(format!("{}: leaf {}: refused: {}", what, i, m));
            }
        }
    }
    Ok(())
}

/// Single trees of all parts and the compound tree; `can`: the leaves the replica holds.
fn whole(e: &Env, cfgs: &[StoreConfig], rc: &ReplicaConfig, can: &[usize]) -> R {
    let p = cfgs.len();
    let mut has = vec![false; p * e.n];
    for i in can {
        has[*i] = true;
    }
    for q in 0..p {
        let what = format!("{}, part {}", e.what, q);
        let rd = call(|| ExternalReader::new_from_config(rc, q)).want(&what)?;
        let t = single(e, &cfgs[q], rd).want(&what)?;
        tree(&*t, e, q, &has[q * e.n..(q + 1) * e.n], &what)?;
        if call(|| t.read_at(e.len)).is_ok() {
            return Err(format!("{}: position {} is answered", what, e.len));
        }
    }
    if let Some(t) = compound(e, cfgs, rc) {
        let what = format!("{}, compound", e.what);
        let t = t.want(&what)?;
        for i in 0..p * e.n {
            read(&*t, i, &e.leaves[i], has[i], &what)?;
        }
        for i in (0..p * e.n).step_by(1 + p * e.n / 12) {
            proof(&*t, i, &e.leaves[i], has[i], &what)?;
        }
        if call(|| t.read_at(p * e.n)).is_ok() {
            return Err(format!("{}: leaf {} is answered", what, p * e.n));
        }
    }
    Ok(())
}

fn proof(t: &dyn TreeDyn, i: usize, leaf: &El, has: bool, what: &str) -> R {
    tick(1);
    match call(|| t.gen_cached_proof(i, None)) {
        Out::Ok(p) => {
            if !has {
                return Err(format!("{}: a proof for leaf {} although the replica does not hold it", what, i));
            }
            if p.item != *leaf || p.root != t.root() || !matches!(call(|| (p.validate)()), Out::Ok(true)) {
                return Err(format!("{}: wrong proof for leaf {}", what, i));
            }
        }
        Out::Refused(m) => {
            // other leaves of the segment may be missing
            if has && !what.contains("bytes") && !m.contains("failed to read") && !m.contains("buffer") {
                return Err(format!("{}: proof for leaf {}: refused: {}", what, i, m));
            }
        }
    }
    Ok(())
}

fn tree(t: &dyn TreeDyn, e: &Env, q: usize, has: &[bool], what: &str) -> R {
    let rt = &e.parts[q];
    if t.root() != rt.root() {
        return Err(format!("{}: root", what));
    }
    for i in 0..e.n {
        read(t, i, &rt.vals[i], has[i], what)?;
        let mut buf = vec![0u8; es()];
        match call(|| t.read_into(i, &mut buf)) {
            Out::Ok(()) if has[i] && buf == rt.vals[i].bytes() => {}
            Out::Refused(_) if !has[i] => {}
            x => return Err(format!("{}: read_into({}): {:?} {:?}", what, i, x, buf)),
        }
        proof(t, i, &rt.vals[i], has[i], what)?;
    }
    for a in 0..e.n {
        for z in vec![a + 1, a + 2, (a + e.n) / 2 + 1, e.n] {
            if z <= a || z > e.n {
                continue;
            }
            let ok = has[a..z].iter().all(|x| *x);
            match call(|| t.read_range(a, z)) {
                Out::Ok(x) if ok && x == rt.vals[a..z] => {}
                Out::Refused(_) if !ok => {}
                x => return Err(format!("{}: read_range({}, {}): {:?}", what, a, z, x)),
            }
            let mut buf = vec![0u8; (z - a) * es()];
            match call(|| t.read_range_into(a, z, &mut buf)) {
                Out::Ok(()) if ok && buf == cat(&rt.vals[a..z]) => {}
                Out::Refused(_) if !ok => {}
                x => return Err(format!("{}: read_range_into({}, {}): {:?}", what, a, z, x)),
            }
            tick(2);
        }
    }
    Ok(())
}

/// The same with a reader supplied by the user, at offsets no file system would bear.
fn virtual_reader(e: &Env, cfgs: &[StoreConfig]) -> R {
    type LcV = LevelCacheStore<El, Virt>;
    for q in 0..cfgs.len() {
        for up in &[0u64, 1 << 33, (1 << 45) + 13, (1 << 62) + 1] {
            let o = e.offs[q] as u64 + up;
            let what = format!("{}, part {}, user's reader at {}", e.what, q, o);
            let rd = ExternalReader { offset: o as usize, source: Virt { at: vec![(o, e.parts[q].leaf_bytes())], most: None }, read_fn: virt_read };
            let s = call(|| LcV::new_from_disk_with_reader(e.len, e.b, &cfgs[q], rd)).want(&what)?;
            let rt = &e.parts[q];
            for i in 0..e.n {
                match call(|| s.read_at(i)) {
                    Out::Ok(x) if x == rt.vals[i] => {}
                    x => return Err(format!("{}: leaf {}: {:?}", what, i, x)),
                }
                tick(1);
            }
            match call(|| s.read_range(0..e.n)) {
                Out::Ok(x) if x == rt.vals[..e.n] => {}
                x => return Err(format!("{}: all leaves: {:?}", what, x)),
            }
            let t = call(|| Ok(with_small_base!(e.b, B => {
                let t = MerkleTree::<El, Alg, LcV, B>::from_data_store(s, e.n)?;
                (t.root(), (0..e.n).map(|i| t.read_at(i)).collect::<anyhow::Result<Vec<El>>>()?, t.gen_cached_proof(e.n - 1, None)?.item())
            })))
            .want(&what)?;
            if t.0 != rt.root() || t.1 != rt.vals[..e.n] || t.2 != rt.vals[e.n - 1] {
                return Err(format!("{}: tree differs", what));
            }
        }
        // readers that give less than they are asked for, because the replica ends or for no reason
        let full = e.parts[q].leaf_bytes();
        for keep in vec![0, 1, es() - 1, es(), full.len() / 2 + 1, full.len() - 1, full.len()] {
            for most in vec![usize::MAX, full.len() / 2 + 1, es(), (es() + 1) / 2] {
                let what = format!("{}, part {}, user's reader with {} of {} bytes, at most {} at a time", e.what, q, keep, full.len(), most);
                let rd = ExternalReader { offset: e.offs[q], source: Virt { at: vec![(e.offs[q] as u64, full[..keep].to_vec())], most: Some(most) }, read_fn: virt_read };
                let s = call(|| LcV::new_from_disk_with_reader(e.len, e.b, &cfgs[q], rd)).want(&what)?;
                let rt = &e.parts[q];
                let has = |a: usize, z: usize| z * es() <= keep;
                // answered if the reader gives it at once, never answered wrongly
                let judge = |name: &str, a: usize, z: usize, got: Out<Vec<u8>>| -> R {
                    tick(1);
                    match got {
                        Out::Ok(x) if has(a, z) && x == cat(&rt.vals[a..z]) => Ok(()),
                        Out::Refused(_) if !has(a, z) || (z - a) * es() > most => Ok(()),
                        x => Err(format!("{}: {}({}, {}): {:?}", what, name, a, z, x)),
                    }
                };
                for i in 0..e.n {
                    judge("read_at", i, i + 1, call(|| s.read_at(i).map(|x| x.bytes().to_vec())))?;
                    let mut buf = vec![0u8; es()];
                    judge("read_into", i, i + 1, call(|| s.read_into(i, &mut buf).map(|_| buf.clone())))?;
                }
                for (a, z) in vec![(0, e.n), (0, e.n / 2), (e.n / 2, e.n), (1, e.n)] {
                    judge("read_range", a, z, call(|| s.read_range(a..z).map(|x| cat(&x))))?;
                    let mut buf = vec![0u8; (z - a) * es()];
                    judge("read_range_into", a, z, call(|| s.read_range_into(a, z, &mut buf).map(|_| buf.clone())))?;
                }
            }
        }
    }
    Ok(())
}

/// After the reader is replaced, the base data come from the new one.
fn replaced(e: &Env, cfgs: &[StoreConfig], rc: &ReplicaConfig, dir: &Path) -> R {
    let other = dir.join("other");
    let vals: Vec<El> = (0..e.n).map(|i| El::val(900_000 + i)).collect();
    write_file(&other, &cat(&vals));
    let what = format!("{}, replaced reader", e.what);
    let q = cfgs.len() - 1;
    let rd = call(|| ExternalReader::new_from_config(rc, q)).want(&what)?;
    let mut t = single(e, &cfgs[q], rd).want(&what)?;
    call(|| t.attach(&other)).want(&what)?;
    for i in 0..e.n {
        read(&*t, i, &vals[i], true, &what)?;
    }
    if call(|| t.attach(&dir.join("absent"))).is_ok() {
        return Err(format!("{}: a replica that does not exist was attached", what));
    }
    for i in 0..e.n {
        read(&*t, i, &vals[i], true, &format!("{} (after a refused one)", what))?;
    }
    // back to the first, at its offset
    let mut s = call(|| Lc::new_from_disk(e.len, e.b, &cfgs[q])).want(&what)?;
    for round in 0..2 {
        let (rd, want) = if round == 0 {
            (call(|| ExternalReader::new_from_path(&other)).want(&what)?, &vals)
        } else {
            (call(|| ExternalReader::new_from_config(rc, q)).want(&what)?, &e.parts[q].vals)
        };
        call(|| s.set_external_reader(rd)).want(&what)?;
        for i in 0..e.n {
            match call(|| s.read_at(i)) {
                Out::Ok(x) if x == want[i] => {}
                x => return Err(format!("{} (round {}): leaf {}: {:?}", what, round, i, x)),
            }
        }
    }
    Ok(())
}
