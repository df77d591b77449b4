//! Building under given schedules (C03).
use crate::json::J;
use crate::k_base::*;
use crate::model::*;
use crate::tree::*;
use crate::{tick, with_base, Ctx, R};
use anyhow::{anyhow, ensure, Result};
use merkletree::store::*;
use std::collections::HashMap;
use std::io::Write;
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

const CHUNK: usize = 4096;
const BLOCK: usize = 64 * CHUNK;
/// how long a worker is held back for the schedule; after that it goes on
const HOLD: Duration = Duration::from_millis(150);

// ------------------------------------------------------------------ a store that records
#[derive(Debug, Default, Clone)]
pub struct Spy {
    data: Vec<El>,
    len: usize,
}
#[derive(Default)]
struct Log {
    names: HashMap<El, usize>,
    parent: HashMap<El, (usize, usize)>, // first child -> (name, height)
    b: usize,
    vals: Arc<Vec<El>>,
    ev: Vec<String>,
    hashes: HashMap<std::thread::ThreadId, Vec<(i64, usize)>>,
    threads: Vec<std::thread::ThreadId>,
}
static LOG: Mutex<Option<Log>> = Mutex::new(None);
type Put = Arc<dyn Fn(usize, usize) + Send + Sync>;
static PUT: Mutex<Option<Put>> = Mutex::new(None);

fn with_log<F: FnOnce(&mut Log)>(f: F) {
    let mut l = LOG.lock().unwrap();
    if let Some(l) = l.as_mut() {
        f(l)
    }
}
fn start_log(b: usize, vals: &Arc<Vec<El>>, rt: &RefTree, rws: &[(usize, usize)]) {
    let mut l = Log { b, vals: vals.clone(), ..Default::default() };
    for (i, x) in rt.vals.iter().enumerate() {
        l.names.insert(*x, i);
    }
    for row in 1..rws.len() {
        for k in 0..rws[row].1 {
            l.parent.insert(vals[rws[row - 1].0 + k * b], (rws[row].0 + k, row - 1));
        }
    }
    *LOG.lock().unwrap() = Some(l);
}
fn stop_log() -> Vec<String> {
    match LOG.lock().unwrap().take() {
        Some(l) => l.ev,
        None => vec![],
    }
}

fn push(runs: &mut Vec<(i64, usize)>, name: Option<usize>) {
    let x = name.map(|v| v as i64).unwrap_or(-1);
    if let Some(l) = runs.last_mut() {
        if x >= 0 && l.0 >= 0 && l.0 + l.1 as i64 == x {
            l.1 += 1;
            return;
        }
    }
    if runs.len() < 6 {
        runs.push((x, 1));
    }
}
fn show(runs: &[(i64, usize)]) -> String {
    let v: Vec<String> = runs.iter().map(|(a, b)| format!("[{},{}]", a, b)).collect();
    format!("[{}]", v.join(","))
}
impl Log {
    fn me(&mut self) -> usize {
        let id = std::thread::current().id();
        match self.threads.iter().position(|x| *x == id) {
            Some(k) => k,
            None => {
                self.threads.push(id);
                self.threads.len() - 1
            }
        }
    }
    fn flush(&mut self, id: std::thread::ThreadId) {
        if let Some(r) = self.hashes.remove(&id) {
            let k = self.me();
            self.ev.push(format!("[\"h\",{},{}]", k, show(&r)));
        }
    }
    fn read(&mut self, lo: usize, hi: usize) {
        self.flush(std::thread::current().id());
        let k = self.me();
        self.ev.push(format!("[\"r\",{},{},{}]", k, lo, hi));
    }
    fn write(&mut self, at: usize, els: &[El]) {
        self.flush(std::thread::current().id());
        let mut runs = Vec::new();
        for (x, e) in els.iter().enumerate() {
            // equal values do not occur in these trees
            let nm = if self.vals.get(at + x) == Some(e) { Some(at + x) } else { self.names.get(e).cloned() };
            push(&mut runs, nm);
        }
        let k = self.me();
        self.ev.push(format!("[\"w\",{},{},{}]", k, at, show(&runs)));
    }
    fn hash(&mut self, nodes: &[El], height: usize) {
        let nm = match self.names.get(&nodes[0]) {
            Some(f) if f + nodes.len() <= self.vals.len() && nodes.len() == self.b && nodes == &self.vals[*f..f + nodes.len()] => match self.parent.get(&nodes[0]) {
                Some((p, h)) if *h == height => Some(*p),
                _ => None,
            },
            _ => None,
        };
        let r = self.hashes.entry(std::thread::current().id()).or_default();
        push(r, nm);
    }
}

impl Store<El> for Spy {
    fn new_with_config(size: usize, _b: usize, _c: StoreConfig) -> Result<Self> {
        Self::new(size)
    }
    fn new(size: usize) -> Result<Self> {
        Ok(Spy { data: vec![El::default(); size], len: 0 })
    }
    fn new_from_slice_with_config(size: usize, _b: usize, data: &[u8], _c: StoreConfig) -> Result<Self> {
        Self::new_from_slice(size, data)
    }
    fn new_from_slice(size: usize, data: &[u8]) -> Result<Self> {
        let mut s = Self::new(size)?;
        s.copy_from_slice(data, 0)?;
        Ok(s)
    }
    fn new_from_disk(_s: usize, _b: usize, _c: &StoreConfig) -> Result<Self> {
        Err(anyhow!("no files"))
    }
    fn write_at(&mut self, el: El, index: usize) -> Result<()> {
        self.put(index, &[el])
    }
    fn copy_from_slice(&mut self, buf: &[u8], start: usize) -> Result<()> {
        let els: Vec<El> = buf.chunks(es()).map(El::from_bytes).collect();
        self.put(start, &els)
    }
    fn compact(&mut self, _b: usize, _c: StoreConfig, _v: u32) -> Result<bool> {
        Ok(true)
    }
    fn delete(_c: StoreConfig) -> Result<()> {
        Ok(())
    }
    fn read_at(&self, index: usize) -> Result<El> {
        Ok(self.read_range(index..index + 1)?[0])
    }
    fn read_range(&self, r: std::ops::Range<usize>) -> Result<Vec<El>> {
        with_log(|l| l.read(r.start, r.end));
        ensure!(r.end <= self.len, "beyond the end");
        Ok(self.data[r].to_vec())
    }
    fn read_into(&self, pos: usize, buf: &mut [u8]) -> Result<()> {
        buf.copy_from_slice(self.read_at(pos)?.bytes());
        Ok(())
    }
    fn read_range_into(&self, start: usize, end: usize, buf: &mut [u8]) -> Result<()> {
        buf.copy_from_slice(&cat(&self.read_range(start..end)?));
        Ok(())
    }
    fn len(&self) -> usize {
        self.len
    }
    fn loaded_from_disk(&self) -> bool {
        false
    }
    fn is_empty(&self) -> bool {
        self.len == 0
    }
    fn push(&mut self, el: El) -> Result<()> {
        let k = self.len;
        self.put(k, &[el])
    }
}
impl Spy {
    fn put(&mut self, at: usize, els: &[El]) -> Result<()> {
        ensure!(at + els.len() <= self.data.len(), "beyond the capacity");
        self.data[at..at + els.len()].copy_from_slice(els);
        self.len = self.len.max(at + els.len());
        with_log(|l| l.write(at, els));
        let g = PUT.lock().unwrap().clone();
        if let Some(g) = g {
            g(at, els.len())
        }
        Ok(())
    }
}
impl StoreX for Spy {
    const NAME: &'static str = "spy";
    const RANGE_INTO: bool = true;
}

// ------------------------------------------------------------------ steering
#[derive(Default)]
struct Phase {
    order: Vec<usize>,
    pos: usize,
    arrived: Vec<bool>,
    hashed: Option<(usize, Instant)>,
    broken: bool,
}
struct Ctl {
    st: Mutex<Vec<Phase>>,
    cv: Condvar,
    spy: bool,
    settle: Duration,
}
impl Ctl {
    fn settle(&self, p: &mut Phase) {
        if let Some((k, at)) = p.hashed {
            if !self.spy && at.elapsed() >= self.settle {
                if p.pos < p.order.len() && p.order[p.pos] == k {
                    p.pos += 1;
                }
                p.hashed = None;
            }
        }
    }
    /// the first group of piece k of phase ph is about to be hashed
    fn arrive(&self, ph: usize, k: usize) {
        let t0 = Instant::now();
        let mut st = self.st.lock().unwrap();
        if st[ph].arrived[k] {
            return;
        }
        st[ph].arrived[k] = true;
        self.cv.notify_all();
        loop {
            let all = st[ph].arrived.iter().all(|x| *x);
            self.settle(&mut st[ph]);
            let p = &st[ph];
            if p.broken || (all && p.pos < p.order.len() && p.order[p.pos] == k) || p.pos >= p.order.len() {
                return;
            }
            if t0.elapsed() > HOLD * (1 + p.order.len() as u32) || (!all && t0.elapsed() > HOLD) {
                st[ph].broken = true;
                self.cv.notify_all();
                return;
            }
            let x = self.cv.wait_timeout(st, Duration::from_micros(500)).unwrap();
            st = x.0;
        }
    }
    fn last(&self, ph: usize, k: usize) {
        let mut st = self.st.lock().unwrap();
        st[ph].hashed = Some((k, Instant::now()));
        self.cv.notify_all();
    }
    fn written(&self, ph: usize, k: usize) {
        let mut st = self.st.lock().unwrap();
        let p = &mut st[ph];
        if p.pos < p.order.len() && p.order[p.pos] == k {
            p.pos += 1;
        }
        self.cv.notify_all();
    }
}

// ------------------------------------------------------------------ running
struct Known {
    b: usize,
    n: usize,
    rt: Arc<RefTree>,
    inp: Arc<Input>,
    vals: Arc<Vec<El>>,
}
static KNOWN: Mutex<Vec<Known>> = Mutex::new(Vec::new());

fn known(c: &J) -> (Arc<RefTree>, Arc<Input>, Arc<Vec<El>>) {
    let (b, n) = (c.get("b").u(), c.get("n").u());
    let mut k = KNOWN.lock().unwrap();
    if let Some(x) = k.iter().find(|x| x.b == b && x.n == n) {
        return (x.rt.clone(), x.inp.clone(), x.vals.clone());
    }
    if k.len() > 3 {
        k.remove(0);
    }
    let items: Vec<El> = (0..n).map(|i| El::val(i + 1)).collect();
    let rt = RefTree::eval(b, &rows(c), items.iter().map(|x| ref_leaf(x.bytes())).collect());
    let vals = Arc::new(rt.vals.clone());
    let inp = Input { items, data: vec![], leaf_bytes: rt.leaf_bytes(), tree_bytes: vec![], n };
    k.push(Known { b, n, rt: Arc::new(rt), inp: Arc::new(inp), vals: vals.clone() });
    let x = k.last().unwrap();
    (x.rt.clone(), x.inp.clone(), vals)
}

pub fn run(ctx: &Ctx, c: &J) -> R {
    set_env(8, 1);
    let (b, n, kind) = (c.get("b").u(), c.get("n").u(), c.get("kind").s());
    let (rt, inp, vals) = known(c);
    let order: Vec<Vec<usize>> = c.get("order").a().iter().map(|x| x.us()).collect();
    let blocks = !order.is_empty() && order[0].len() > 1;
    let stores: &[&str] = match kind {
        "lock" => if blocks || n > 100_000 { &["vec", "mmap"] } else { &["spy", "vec", "mmap"] },
        "map" => &["disk"],
        "lc" => &["lc"],
        x => panic!("VH: kind {}", x),
    };
    let free = order.is_empty();
    for (x, store) in stores.iter().enumerate() {
        let ctors: Vec<&str> = if *store == "spy" {
            vec!["from_par_iter", "try_from_iter"]
        } else if *store == "vec" {
            vec![if blocks { "from_par_iter" } else { ["from_par_iter", "new"][x % 2] }]
        } else if blocks || (!free && n > 100_000) {
            vec!["from_par_iter_with_config"]
        } else if free {
            vec!["from_par_iter_with_config", "try_from_iter_with_config", "from_byte_slice_with_config"]
        } else {
            vec![["from_par_iter_with_config", "try_from_iter_with_config"][(n / CHUNK + order.last().map(|o| o.first().cloned().unwrap_or(0)).unwrap_or(0)) % 2]]
        };
        for ctor in ctors {
            one(ctx, c, b, n, store, ctor, &rt, &inp, &vals, &order)?;
        }
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn one(ctx: &Ctx, c: &J, b: usize, n: usize, store: &str, ctor: &str, rt: &Arc<RefTree>, inp: &Arc<Input>, vals: &Arc<Vec<El>>, order: &[Vec<usize>]) -> R {
    let w = c.get("w").u();
    let rws = rows(c);
    let what = format!("{} on {} (arity {}, {} leaves, {} workers, finishing in the order {:?})", ctor, store, b, n, w, order);
    let dir = ctx.fresh("s");
    let r = c.get("r").u();
    let cfg = StoreConfig::new(&dir, "tree", r);
    let with_cfg = ctor.ends_with("_with_config");
    // pieces to steer: piece -> phase, number, first or last
    let mut marks: HashMap<El, (usize, usize)> = HashMap::new();
    let mut lasts: HashMap<El, (usize, usize)> = HashMap::new();
    let mut lmarks: HashMap<El, (usize, usize)> = HashMap::new();
    let mut llasts: HashMap<El, (usize, usize)> = HashMap::new();
    let mut phases: Vec<Phase> = Vec::new();
    let mut targets: HashMap<usize, (usize, usize)> = HashMap::new(); // write position -> piece
    for (ph, o) in order.iter().enumerate() {
        phases.push(Phase { order: o.clone(), arrived: vec![false; o.len()], ..Default::default() });
        if o.len() < 2 {
            continue;
        }
        for k in 0..o.len() {
            if ph == 0 {
                lmarks.insert(inp.items[k * BLOCK], (ph, k));
                llasts.insert(inp.items[(k + 1) * BLOCK - 1], (ph, k));
                targets.insert(k * BLOCK, (ph, k));
            } else {
                let (start, width) = rws[ph - 1];
                if k * CHUNK >= width {
                    continue;
                }
                marks.insert(vals[start + k * CHUNK], (ph, k));
                lasts.insert(vals[start + ((k + 1) * CHUNK).min(width) - b], (ph, k));
                targets.insert(rws[ph].0 + k * CHUNK / b, (ph, k));
            }
        }
    }
    let steer = order.iter().any(|o| o.len() > 1);
    let blocks = order.first().map(|o| o.len() > 1).unwrap_or(false);
    let ctl = Arc::new(Ctl { st: Mutex::new(phases), cv: Condvar::new(), spy: store == "spy", settle: Duration::from_millis(if blocks { 12 } else { 2 }) });
    let spy = store == "spy";
    if spy {
        start_log(b, vals, rt, &rws);
    }
    if steer || spy {
        let ct = ctl.clone();
        let (m, l) = (marks, lasts);
        set_gate(Some(Arc::new(move |nodes: &[El], height| {
            if let Some((ph, k)) = m.get(&nodes[0]) {
                ct.arrive(*ph, *k);
            }
            if spy {
                with_log(|x| x.hash(nodes, height));
            }
            if let Some((ph, k)) = l.get(&nodes[0]) {
                ct.last(*ph, *k);
            }
        })));
    }
    if blocks && ctor.contains("par") {
        let ct = ctl.clone();
        let (m, l) = (lmarks, llasts);
        set_leaf_gate(Some(Arc::new(move |x: &El| {
            if let Some((ph, k)) = m.get(x) {
                ct.arrive(*ph, *k);
            }
            if let Some((ph, k)) = l.get(x) {
                ct.last(*ph, *k);
            }
        })));
    }
    if spy {
        let ct = ctl.clone();
        *PUT.lock().unwrap() = Some(Arc::new(move |at, _| {
            if let Some((ph, k)) = targets.get(&at) {
                ct.written(*ph, *k);
            }
        }));
    }
    let pool = rayon::ThreadPoolBuilder::new().num_threads(if steer { w + 1 } else { w }).build().expect("VH: pool");
    let got = pool.install(|| {
        call(|| {
            let cfg = if with_cfg { Some(cfg.clone()) } else { None };
            if spy {
                with_base!(b, B => build::<Alg, Spy, B>(ctor, inp, cfg))
            } else {
                build_named(store, b, ctor, inp, cfg)
            }
        })
    });
    set_gate(None);
    set_leaf_gate(None);
    *PUT.lock().unwrap() = None;
    let ev = stop_log();
    if steer {
        let kept = ctl.st.lock().unwrap().iter().all(|p| p.order.len() < 2 || !p.broken);
        println!("NOTE {}", if kept { "schedules_carried_out" } else { "schedules_not_carried_out" });
    }
    let t = got.want(&what)?;
    let len = rt.vals.len();
    tick(4);
    if t.root() != rt.root() {
        return Err(format!("{}: another root", what));
    }
    if t.len() != len || t.leafs() != n {
        return Err(format!("{}: {} nodes, {} leaves", what, t.len(), t.leafs()));
    }
    if store != "lc" {
        let all = call(|| t.read_range(0, len)).want(&what)?;
        for i in 0..len {
            if all[i] != vals[i] {
                return Err(format!("{}: node {} is not that of the tree", what, i));
            }
        }
    }
    drop(t);
    if with_cfg && store != "vec" && !spy {
        let f = std::fs::read(StoreConfig::data_path(&dir, "tree")).map_err(|e| format!("{}: file: {}", what, e))?;
        let from = if store == "lc" { c.get("cs").u() } else { 0 };
        if f != cat(&vals[from..]) {
            return Err(format!("{}: the file does not hold the tree", what));
        }
    }
    if spy {
        if let Some(p) = std::env::var_os("VH_TRACE") {
            let mut f = std::fs::OpenOptions::new().append(true).create(true).open(p).expect("VH: trace");
            let mut ev = ev;
            ev.push(format!("[\"end\",0,{}]", len));
            writeln!(f, "{{\"b\":{},\"n\":{},\"what\":{},\"ev\":[{}]}}", b, n, crate::json::quote(&what), ev.join(",")).expect("VH: trace");
        }
    }
    Ok(())
}
