//! Histories of persisted trees (C10, C12, C19).
use crate::json::J;
use crate::k_base::*;
use crate::k_proof::same_proof;
use crate::model::*;
use crate::tree::*;
use crate::{tick, with_small_base, Ctx, R};
use merkletree::merkle::MerkleTree;
use merkletree::store::*;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::Arc;

struct Slot {
    dir: PathBuf,
    id: &'static str,
    file: PathBuf,
    n: usize,
    len: usize,
    rows: Vec<(usize, usize)>,
    proofs: J,
}
struct Ref {
    rt: RefTree,
    inp: Input,
    proofs: Vec<(usize, P)>,
    replica: PathBuf,
}
struct World {
    b: usize,
    slots: Vec<Slot>,
    refs: BTreeMap<(usize, usize, String), Arc<Ref>>,
    replicas: PathBuf,
    trees: Vec<Option<BoxTree>>,
    pad: usize,
}
/// What the specification says an open tree is.
struct View {
    slot: usize,
    anon: bool,
    kind: String,
    cs: usize,
    r: usize,
    proves: bool,
    refs: Arc<Ref>,
}

fn rule_of(ctor: &str) -> &'static str {
    match ctor {
        "new" | "new_with_config" | "try_from_iter_with_config" | "from_par_iter_with_config" => "leaf",
        "from_data_with_config" => "data",
        "from_byte_slice_with_config" => "raw",
        "from_tree_slice" | "from_tree_slice_with_config" => "raw",
        x => panic!("VH: constructor {}", x),
    }
}

impl World {
    fn reference(&mut self, slot: usize, ver: usize, rule: &str) -> Arc<Ref> {
        let key = (slot, ver, rule.to_string());
        if let Some(x) = self.refs.get(&key) {
            return x.clone();
        }
        let s = &self.slots[slot - 1];
        let vals: Vec<usize> = (0..s.n).map(|i| ver * 1000 + slot * 300 + i + 1).collect();
        let items: Vec<El> = vals.iter().map(|v| El::val(*v)).collect();
        let data: Vec<Vec<u8>> = vals.iter().map(|v| obj(*v)).collect();
        let leaves: Vec<El> = match rule {
            "leaf" => items.iter().map(|x| ref_leaf(x.bytes())).collect(),
            "data" => data.iter().map(|d| ref_leaf(ref_data(d).bytes())).collect(),
            "raw" | "tree" => items.clone(),
            x => panic!("VH: rule {}", x),
        };
        let rt = RefTree::eval(self.b, &s.rows, leaves);
        let proofs = s.proofs.a().iter().map(|x| (x.a()[0].u(), spec_proof(&x.a()[1], &|id: usize| rt.vals[id]))).collect();
        let replica = self.replicas.join(format!("r{}-{}-{}", slot, ver, rule));
        let mut bytes = vec![0x33u8; self.pad];
        bytes.extend(rt.leaf_bytes());
        bytes.extend(vec![0xccu8; 19]);
        write_file(&replica, &bytes);
        let inp = Input { items, data, leaf_bytes: rt.leaf_bytes(), tree_bytes: rt.bytes(), n: s.n };
        let x = Arc::new(Ref { rt, inp, proofs, replica });
        self.refs.insert(key, x.clone());
        x
    }
    fn cfg(&self, slot: usize, r: usize) -> StoreConfig {
        let s = &self.slots[slot - 1];
        if (self.pad + slot + r) % 3 == 0 {
            // the configuration of a sibling, with another id
            return StoreConfig::from_config(&StoreConfig::new(&s.dir, "sibling", r), s.id, if r % 2 == 0 { None } else { Some(s.len) });
        }
        let config = StoreConfig::new(&s.dir, s.id, r);
        if (self.pad + slot + r) % 3 == 1 {
            // one that was saved in the meantime
            return serde_json::from_str(&serde_json::to_string(&config).expect("saving a configuration")).expect("loading a saved configuration");
        }
        config
    }
    fn ext(&self, x: &Ref) -> anyhow::Result<ExternalReader<std::fs::File>> {
        ExternalReader::new_from_config(&ReplicaConfig::new(&x.replica, vec![self.pad]), 0)
    }
}

fn over<S: StoreX>(b: usize, n: usize, s: S) -> anyhow::Result<BoxTree> {
    Ok(with_small_base!(b, B => Box::new(MerkleTree::<El, Alg, S, B>::from_data_store(s, n)?) as BoxTree))
}

pub fn run(ctx: &Ctx, c: &J) -> R {
    let b = c.get("b").u();
    let log = c.get("log").a();
    let h: usize = c.get("log").show().bytes().fold(7usize, |a, x| a.wrapping_mul(31).wrapping_add(x as usize));
    set_env([32, 5, 8, 64][(h >> 8) % 4], (h >> 16) % 2);
    let root = ctx.fresh("life");
    let dirs = [root.join("a"), root.join("a b")];
    for d in &dirs {
        std::fs::create_dir_all(d).expect("VH: dir");
        write_file(&d.join("sc-02-data-tree.dat.bak"), b"backup");
        write_file(&d.join("sc-01-data-tree.dat"), b"old");
        write_file(&d.join("tree"), b"notes");
    }
    let replicas = root.join("replicas");
    std::fs::create_dir_all(&replicas).expect("VH: dir");
    let places = [(0usize, "tree"), (0, "tree.1"), (1, "tree")];
    let ns = c.get("ns").us();
    let slots: Vec<Slot> = ns
        .iter()
        .enumerate()
        .map(|(k, n)| {
            let dir = dirs[places[k].0].clone();
            Slot {
                file: dir.join(format!("sc-02-data-{}.dat", places[k].1)),
                dir,
                id: places[k].1,
                n: *n,
                len: c.get("len").us()[k],
                rows: c.get("rows").a()[k].a().iter().map(|x| (x.a()[0].u(), x.a()[1].u())).collect(),
                proofs: c.get("proofs").a()[k].clone(),
            }
        })
        .collect();
    let nh = log[0].get("hs").a().len();
    let mut w = World { b, slots, refs: BTreeMap::new(), replicas, trees: (0..nh).map(|_| None).collect(), pad: (h >> 24) % 50 };
    let mut views: Vec<Option<View>> = (0..nh).map(|_| None).collect();
    let mut did: Vec<String> = Vec::new();
    for e in log {
        let op = e.get("op").a();
        did.push(e.get("op").show());
        let what = format!("arity {}, leaves {:?}, {} byte elements, algorithm {}; history {}", b, ns, es(), mode(), did.join(" "));
        let out = e.get("out").s();
        step(&mut w, &views, op, out, e).map_err(|m| format!("{}: {}", what, m))?;
        // open trees after the step
        let hs = e.get("hs").a();
        views = Vec::new();
        for (k, v) in hs.iter().enumerate() {
            if v.get("kind").s() == "none" {
                w.trees[k] = None;
                views.push(None);
                continue;
            }
            if w.trees[k].is_none() {
                panic!("VH: no tree for handle {} ({})", k + 1, what);
            }
            let refs = w.reference(v.get("slot").u(), v.get("ver").u(), v.get("rule").s());
            views.push(Some(View { slot: v.get("slot").u(), anon: v.get("anon").b(), kind: v.get("kind").s().to_string(), cs: v.get("cs").u(), r: v.get("r").u(), proves: v.get("proves").b(), refs }));
        }
        files(&mut w, &dirs, e).map_err(|m| format!("{}: {}", what, m))?;
        for (k, v) in views.iter().enumerate() {
            if let Some(v) = v {
                look(&w, &**w.trees[k].as_ref().unwrap(), v, k).map_err(|m| format!("{}: {}", what, m))?;
            }
        }
        // looking has no effect
        files(&mut w, &dirs, e).map_err(|m| format!("{}: after reading: {}", what, m))?;
    }
    Ok(())
}

fn files(w: &mut World, dirs: &[PathBuf], e: &J) -> R {
    let mut want: BTreeMap<PathBuf, Option<Vec<u8>>> = BTreeMap::new();
    for d in dirs {
        want.insert(d.join("sc-02-data-tree.dat.bak"), Some(b"backup".to_vec()));
        want.insert(d.join("sc-01-data-tree.dat"), Some(b"old".to_vec()));
        want.insert(d.join("tree"), Some(b"notes".to_vec()));
    }
    for (k, f) in e.get("files").a().iter().enumerate() {
        let f = f.a();
        if f[2].a().is_empty() {
            continue;
        }
        let r = w.reference(k + 1, f[0].u(), f[1].s());
        let mut bytes = Vec::new();
        for s in f[2].a() {
            bytes.extend(cat(&r.rt.vals[s.a()[0].u()..s.a()[1].u()]));
        }
        torn(&mut bytes, f[3].i(), w.pad);
        want.insert(w.slots[k].file.clone(), Some(bytes));
    }
    for d in dirs {
        for x in std::fs::read_dir(d).expect("VH: list") {
            let p = x.expect("VH: entry").path();
            match want.remove(&p) {
                None => return Err(format!("there is a file {:?} that nothing should have made", p)),
                Some(bytes) => {
                    let got = std::fs::read(&p).expect("VH: read");
                    let bytes = bytes.unwrap();
                    if got != bytes {
                        let at = got.iter().zip(bytes.iter()).position(|(a, b)| a != b).unwrap_or(got.len().min(bytes.len()));
                        return Err(format!("file {:?} has {} bytes, specified {}; they differ at byte {}", p, got.len(), bytes.len(), at));
                    }
                    tick(1);
                }
            }
        }
    }
    if let Some(p) = want.keys().next() {
        return Err(format!("file {:?} is missing", p));
    }
    Ok(())
}

/// A file that is too long or too short, by part of an element or by a whole one.
fn torn(bytes: &mut Vec<u8>, x: i64, pad: usize) {
    let part = [1, es() - 1, es() / 2][pad % 3].max(1);
    match x {
        0 => {}
        1 => bytes.extend(vec![0x5a; part]),
        2 => bytes.extend(vec![0x5a; es()]),
        -1 => bytes.truncate(bytes.len() - part),
        -2 => bytes.truncate(bytes.len() - es()),
        x => panic!("VH: torn {}", x),
    }
}

/// Compares everything an open tree shows with the specification.
fn look(w: &World, t: &dyn TreeDyn, v: &View, k: usize) -> R {
    let s = &w.slots[v.slot - 1];
    let what = format!("tree {} ({})", k + 1, v.kind);
    let rt = &v.refs.rt;
    if (t.root(), t.leafs(), t.len(), t.row_count(), t.is_empty()) != (rt.root(), s.n, s.len, s.rows.len(), false) {
        return Err(format!("{}: root {:?} leafs {} len {} rows {}, specified {:?} {} {} {}", what, t.root(), t.leafs(), t.len(), t.row_count(), rt.root(), s.n, s.len, s.rows.len()));
    }
    tick(5);
    match v.kind.as_str() {
        "blind" => return Ok(()),
        "released" => {
            if call(|| t.read_at(0)).is_ok() {
                return Err(format!("{}: reads are answered while the map is released", what));
            }
            return Ok(());
        }
        _ => {}
    }
    nodes(t, rt, Window { n: s.n, cs: v.cs, len: s.len, split: v.kind == "v2" }, &what)?;
    for (i, want) in &v.refs.proofs {
        if !v.proves {
            break;
        }
        let at = format!("{}: proof of leaf {}", what, i);
        let p = if v.kind == "full" || v.r == 0 { call(|| t.gen_proof(*i)).want(&at)? } else { call(|| t.gen_cached_proof(*i, Some(v.r))).want(&at)? };
        same_proof(&p, want, &at)?;
        if !matches!(call(|| (p.validate)()), Out::Ok(true)) {
            return Err(format!("{} does not validate", at));
        }
        tick(3);
    }
    Ok(())
}

fn judge<T>(out: &str, got: Out<T>) -> Result<Option<T>, String> {
    match (out, got) {
        ("ok", Out::Ok(x)) | ("same", Out::Ok(x)) => Ok(Some(x)),
        ("ok", Out::Refused(e)) => Err(format!("refused: {}", e)),
        ("no", Out::Ok(_)) => Err("accepted, but it has to be refused".to_string()),
        ("no", Out::Refused(_)) | ("same", Out::Refused(_)) => Ok(None),
        (x, _) => panic!("VH: outcome {}", x),
    }
}

/// Takes from this thread the right to write to files it may only read.
fn obey_modes() {
    const DAC: u32 = (1 << 1) | (1 << 2);
    #[repr(C)]
    struct Head {
        version: u32,
        pid: i32,
    }
    let mut head = Head { version: 0x2008_0522, pid: 0 };
    let mut data = [[0u32; 3]; 2];
    unsafe {
        if libc::syscall(libc::SYS_capget, &mut head, &mut data) == 0 {
            data[0][0] &= !DAC;
            libc::syscall(libc::SYS_capset, &mut head, &data);
        }
    }
}
/// Runs `f` in a thread that may only read the file; None if that cannot be had here.
fn as_reader<T: Send, F: FnOnce() -> T + Send>(file: &Path, replica: &Path, f: F) -> Option<T> {
    use std::os::unix::fs::PermissionsExt;
    for x in [file, replica] {
        std::fs::set_permissions(x, std::fs::Permissions::from_mode(0o444)).expect("VH: chmod");
    }
    let r = std::thread::scope(|s| {
        s.spawn(|| {
            obey_modes();
            let w = std::fs::OpenOptions::new().read(true).write(true).open(file);
            let ro = std::fs::File::open(file);
            let effective = matches!(w, Err(ref e) if e.kind() == std::io::ErrorKind::PermissionDenied) && ro.is_ok();
            drop((w, ro));
            println!("NOTE {}", if effective { "opened with a file that may only be read" } else { "read-only files cannot be had here" });
            if effective { Some(f()) } else { None }
        })
        .join()
        .expect("VH: thread")
    });
    for x in [file, replica] {
        std::fs::set_permissions(x, std::fs::Permissions::from_mode(0o644)).expect("VH: chmod");
    }
    r
}

fn step(w: &mut World, views: &[Option<View>], op: &[J], out: &str, e: &J) -> R {
    let name = op[0].s();
    let slot = op[1].u();
    let b = w.b;
    match name {
        "build" | "ctor" => {
            let (store, ctor, ver, r, h) = (op[2].s(), op[3].s(), op[4].u(), op[5].u(), op[6].u());
            let x = w.reference(slot, ver, rule_of(ctor));
            let cfg = w.cfg(slot, r);
            let got = call(|| build_named(store, b, ctor, &x.inp, Some(cfg)));
            if let Some(t) = judge(out, got)? {
                if out == "same" {
                    same(w, slot, &*t, e)?;
                } else {
                    w.trees[h - 1] = Some(t);
                }
            }
        }
        "anon" => {
            let (store, ctor, ver, h) = (op[2].s(), op[3].s(), op[4].u(), op[6].u());
            let x = w.reference(slot, ver, rule_of(ctor));
            w.trees[h - 1] = judge(out, call(|| build_named(store, b, ctor, &x.inp, None)))?;
        }
        "attach" => {
            let h = op[2].u();
            let v = views[h - 1].as_ref().unwrap();
            let plain = w.replicas.join(format!("attached-{}", slot));
            write_file(&plain, &v.refs.rt.leaf_bytes());
            judge(out, call(|| w.trees[h - 1].as_mut().unwrap().attach(&plain)))?;
        }
        "open" | "ro" => {
            let (how, n, r, h) = (op[2].s(), op[3].u(), op[4].u(), op[5].u());
            // the data the file was built from, for the replica
            let f = e.get("files").a()[slot - 1].a();
            let x = if f[2].a().is_empty() { w.reference(slot, 1, "leaf") } else { w.reference(slot, f[0].u(), f[1].s()) };
            let (_, len) = w.slots.iter().map(|s| (s.n, s.len)).find(|s| s.0 == n).unwrap();
            let cfg = w.cfg(slot, r);
            let file = w.slots[slot - 1].file.clone();
            let other = if name == "ro" { Some(w.reference(slot, f[0].u() % 2 + 1, "leaf")) } else { None };
            let w2 = &*w;
            let go = || match how {
                "disk" => call(|| over(b, n, DiskStore::<El>::new_from_disk(len, b, &cfg)?)),
                "path" => call(|| over(b, n, DiskStore::<El>::new_from_disk_with_path(len, &file)?)),
                "mmap" => call(|| over(b, n, MmapStore::<El>::new_from_disk(len, b, &cfg)?)),
                "v1" => call(|| over(b, n, Lc::new_from_disk(len, b, &cfg)?)),
                "reader" => call(|| over(b, n, Lc::new_from_disk_with_reader(len, b, &cfg, w2.ext(&x)?)?)),
                "later" => call(|| {
                    let mut s = Lc::new_from_disk(len, b, &cfg)?;
                    s.set_external_reader(w2.ext(&x)?)?;
                    over(b, n, s)
                }),
                "ctor" => call(|| build_named("disk", b, "new_with_config", &other.as_ref().unwrap().inp, Some(cfg.clone()))),
                x => panic!("VH: open {}", x),
            };
            let got = if name == "ro" {
                match as_reader(&file, &x.replica, go) {
                    Some(x) => x,
                    // no other user here: open it normally
                    None if how == "mmap" => Out::Refused("skipped".to_string()),
                    None => go(),
                }
            } else {
                go()
            };
            if let Some(t) = judge(out, got)? {
                w.trees[h - 1] = Some(t);
            }
        }
        "close" => w.trees[op[2].u() - 1] = None,
        "compact" | "compact_away" => {
            let (h, v, r) = (op[2].u(), op[3].u(), op[4].u());
            let mut cfg = w.cfg(slot, r);
            if name == "compact_away" {
                cfg.id = "nowhere".to_string();
            }
            if out == "ok" {
                // nobody else uses the file
                for k in 0..views.len() {
                    if k + 1 != h && views[k].as_ref().map(|v| v.slot) == Some(slot) && !views[k].as_ref().unwrap().anon && e.get("hs").a()[k].get("kind").s() == "none" {
                        w.trees[k] = None;
                    }
                }
            }
            let got = call(|| w.trees[h - 1].as_mut().unwrap().compact(cfg, v as u32));
            if judge(out, got)? == Some(false) {
                return Err("compact says false".to_string());
            }
        }
        "reinit" => {
            judge(out, call(|| w.trees[op[2].u() - 1].as_mut().unwrap().reinit()))?;
        }
        "query" => {
            let (q, n, r) = (op[2].s(), op[3].u(), op[4].u());
            let (_, len) = w.slots.iter().map(|s| (s.n, s.len)).find(|s| s.0 == n).unwrap();
            let cfg = w.cfg(slot, r);
            let got = call(|| match q {
                "disk" => DiskStore::<El>::is_consistent(len, b, &cfg),
                "v1" => Lc::is_consistent_v1(len, b, &cfg),
                _ => Lc::is_consistent(len, b, &cfg),
            });
            match (out, got) {
                ("true", Out::Ok(true)) | ("false", Out::Ok(false)) | ("no", Out::Refused(_)) => {}
                (_, g) => return Err(format!("consistency query answers {:?}, specified {}", g, out)),
            }
        }
        "tear" => {
            let f = e.get("files").a()[slot - 1].a();
            let r = w.reference(slot, f[0].u(), f[1].s());
            let mut bytes = Vec::new();
            for s in f[2].a() {
                bytes.extend(cat(&r.rt.vals[s.a()[0].u()..s.a()[1].u()]));
            }
            torn(&mut bytes, f[3].i(), w.pad);
            write_file(&w.slots[slot - 1].file, &bytes);
        }
        "delete" => {
            let cfg = w.cfg(slot, 0);
            let got = match op[2].s() {
                "disk" => call(|| <DiskStore<El> as Store<El>>::delete(cfg)),
                "mmap" => call(|| <MmapStore<El> as Store<El>>::delete(cfg)),
                "lc" => call(|| <Lc as Store<El>>::delete(cfg)),
                "tree" => {
                    let t = w.trees.iter().zip(views).filter(|(_, v)| v.as_ref().map(|v| v.anon) == Some(false)).find_map(|(t, _)| t.as_ref()).expect("VH: no tree");
                    call(|| t.delete(cfg))
                }
                x => panic!("VH: delete {}", x),
            };
            if judge(out, got)?.is_some() {
                // it can no longer be opened, and trying leaves nothing behind
                let s = &w.slots[slot - 1];
                let cfg = w.cfg(slot, 0);
                let again = call(|| DiskStore::<El>::new_from_disk(s.len, b, &cfg)).is_ok()
                    || call(|| MmapStore::<El>::new_from_disk(s.len, b, &cfg)).is_ok()
                    || call(|| Lc::new_from_disk(s.len, b, &cfg)).is_ok();
                if again {
                    return Err("a deleted store can still be opened".to_string());
                }
            }
        }
        "hammer" => {
            let (store, ver, h) = (op[2].s().to_string(), op[3].u(), op[5].u());
            let made = {
                let x = if slot > 0 { Some(w.reference(slot, ver, "leaf")) } else { None };
                let w = &*w;
                let cfg = if slot > 0 { Some(w.cfg(slot, 0)) } else { None };
                std::thread::scope(|s| -> Result<Option<BoxTree>, String> {
                    let mut th = Vec::new();
                    for k in 0..6usize {
                        th.push(s.spawn(move || -> R {
                            for round in 0..3 {
                                for j in 0..views.len() {
                                    let i = (j + k + round) % views.len();
                                    if let Some(v) = &views[i] {
                                        look(w, &**w.trees[i].as_ref().unwrap(), v, i).map_err(|m| format!("thread {}: {}", k, m))?;
                                    }
                                }
                            }
                            Ok(())
                        }));
                    }
                    let built = if let Some(x) = x { Some(call(|| build_named(&store, b, "new_with_config", &x.inp, cfg))) } else { None };
                    for t in th {
                        t.join().map_err(|_| "a reader panicked".to_string())??;
                    }
                    match built {
                        Some(o) => judge("ok", o),
                        None => Ok(None),
                    }
                })?
            };
            if let Some(t) = made {
                w.trees[h - 1] = Some(t);
            }
        }
        x => panic!("VH: step {}", x),
    }
    Ok(())
}

/// A constructor that may refuse an existing file, or show what it holds.
fn same(w: &mut World, slot: usize, t: &dyn TreeDyn, e: &J) -> R {
    let f = e.get("files").a()[slot - 1].a();
    let x = w.reference(slot, f[0].u(), f[1].s());
    if t.root() != x.rt.root() {
        return Err("opened an existing file as another tree".to_string());
    }
    Ok(())
}
