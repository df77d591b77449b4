//! Elements and algorithms given to the crate, and the reference evaluation of the
//! specification's symbolic nodes under them.
use merkletree::hash::Algorithm;
use merkletree::merkle::Element;
use std::cmp::Ordering as Ord_;
use std::hash::Hasher;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, RwLock};

pub const MAX_ES: usize = 128;

/// Element size in bytes and algorithm of the current case.
pub static ES: AtomicUsize = AtomicUsize::new(32);
pub static MODE: AtomicUsize = AtomicUsize::new(0);

pub fn set_env(es: usize, mode: usize) {
    assert!(es >= 1 && es <= MAX_ES);
    ES.store(es, Ordering::SeqCst);
    MODE.store(mode, Ordering::SeqCst);
}
pub fn es() -> usize {
    ES.load(Ordering::Relaxed)
}
pub fn mode() -> usize {
    MODE.load(Ordering::Relaxed)
}

/// An element whose size is chosen at run time.
#[derive(Clone, Copy)]
pub struct El {
    n: u8,
    b: [u8; MAX_ES],
}

impl El {
    pub fn from_bytes(x: &[u8]) -> El {
        let mut b = [0; MAX_ES];
        b[..x.len()].copy_from_slice(x);
        El { n: x.len() as u8, b }
    }
    pub fn bytes(&self) -> &[u8] {
        &self.b[..self.n as usize]
    }
    /// The pairwise different values numbered by the specification; 0 is the all-zero element.
    pub fn val(v: usize) -> El {
        let n = es();
        let mut b = [0u8; MAX_ES];
        if v > 0 {
            let mut s = Mix::new(0x5eed ^ (v as u64));
            s.fill(&mut b[..n]);
            // small elements: keep the values different
            let id = (v as u64).to_le_bytes();
            for k in 0..n.min(4) {
                b[k] = id[k];
            }
            if n >= 8 {
                b[n - 1] ^= 0x80;
            }
        }
        El { n: n as u8, b }
    }
}
impl Default for El {
    fn default() -> Self {
        El { n: es() as u8, b: [0; MAX_ES] }
    }
}
impl PartialEq for El {
    fn eq(&self, o: &El) -> bool {
        self.bytes() == o.bytes()
    }
}
impl Eq for El {}
impl PartialOrd for El {
    fn partial_cmp(&self, o: &El) -> Option<Ord_> {
        Some(self.cmp(o))
    }
}
impl Ord for El {
    fn cmp(&self, o: &El) -> Ord_ {
        self.bytes().cmp(o.bytes())
    }
}
impl std::hash::Hash for El {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write(self.bytes())
    }
}
impl std::fmt::Debug for El {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        for x in self.bytes().iter().take(8) {
            write!(f, "{:02x}", x)?;
        }
        Ok(())
    }
}
impl AsRef<[u8]> for El {
    fn as_ref(&self) -> &[u8] {
        self.bytes()
    }
}
impl Element for El {
    fn byte_len() -> usize {
        es()
    }
    fn from_slice(bytes: &[u8]) -> Self {
        assert_eq!(bytes.len(), es(), "element of wrong size");
        El::from_bytes(bytes)
    }
    fn copy_to_slice(&self, bytes: &mut [u8]) {
        bytes.copy_from_slice(self.bytes())
    }
}

/// A byte-stream mixing function: write(a); write(b) is the same as write(ab).
#[derive(Clone, Copy, Debug)]
pub struct Mix {
    a: u64,
    b: u64,
}
impl Mix {
    pub fn new(seed: u64) -> Mix {
        Mix { a: seed ^ 0x9E37_79B9_7F4A_7C15, b: 0xD1B5_4A32_D192_ED03 }
    }
    #[inline]
    pub fn put(&mut self, x: u8) {
        self.a = (self.a ^ u64::from(x)).wrapping_mul(0x0000_0100_0000_01B3).rotate_left(29);
        self.b = (self.b ^ self.a).wrapping_add(0xA076_1D64_78BD_642F).rotate_left(17);
    }
    pub fn feed(&mut self, x: &[u8]) {
        for c in x {
            self.put(*c);
        }
    }
    pub fn next(&mut self) -> u64 {
        self.a = self.a.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.a ^ self.b.rotate_left(7);
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn fill(&mut self, out: &mut [u8]) {
        for ch in out.chunks_mut(8) {
            let x = self.next().to_le_bytes();
            ch.copy_from_slice(&x[..ch.len()]);
        }
    }
    pub fn finish(&self) -> El {
        let mut m = *self;
        let n = es();
        let mut b = [0u8; MAX_ES];
        m.fill(&mut b[..n]);
        El { n: n as u8, b }
    }
}

// ---- reference semantics of the algorithms (independent of the crate) ----

pub fn ref_hash(parts: &[&[u8]]) -> El {
    let mut m = Mix::new(0);
    for p in parts {
        m.feed(p);
    }
    m.finish()
}
/// leaf hash
pub fn ref_leaf(x: &[u8]) -> El {
    if mode() == 0 {
        ref_hash(&[&[0], x])
    } else {
        ref_hash(&[&[0xAA, 0x17], x])
    }
}
/// interior hash of `kids` with `height`
pub fn ref_node(kids: &[El], height: usize) -> El {
    let mut m = Mix::new(0);
    if mode() == 0 {
        m.put(1);
    } else {
        m.feed(&[0xBB, kids.len() as u8]);
        m.feed(&(height as u64).to_le_bytes());
    }
    for k in kids {
        m.feed(k.bytes());
    }
    m.finish()
}
/// hash of an object that feeds `x`
pub fn ref_data(x: &[u8]) -> El {
    ref_hash(&[x])
}

type Gate = Arc<dyn Fn(&[El], usize) + Send + Sync>;
static GATED: AtomicBool = AtomicBool::new(false);
static GATE: RwLock<Option<Gate>> = RwLock::new(None);
/// Called at the start of every interior hash while set.
pub fn set_gate(g: Option<Gate>) {
    GATED.store(g.is_some(), Ordering::SeqCst);
    *GATE.write().unwrap() = g;
}
pub fn gate(nodes: &[El], height: usize) {
    if GATED.load(Ordering::Relaxed) {
        let g = GATE.read().unwrap().clone();
        if let Some(g) = g {
            g(nodes, height)
        }
    }
}
static LGATED: AtomicBool = AtomicBool::new(false);
type LGate = Arc<dyn Fn(&El) + Send + Sync>;
static LGATE: RwLock<Option<LGate>> = RwLock::new(None);
/// Called at the start of every leaf hash while set.
pub fn set_leaf_gate(g: Option<LGate>) {
    LGATED.store(g.is_some(), Ordering::SeqCst);
    *LGATE.write().unwrap() = g;
}

/// The algorithm used with most cases. hash() does not reset the state, so a missing reset shows.
/// MODE 0: default prefixes; MODE 1: depends on the height and the number of children.
#[derive(Clone, Debug)]
pub struct Alg(Mix);
impl Default for Alg {
    fn default() -> Self {
        Alg(Mix::new(0))
    }
}
impl Hasher for Alg {
    fn write(&mut self, b: &[u8]) {
        self.0.feed(b)
    }
    fn finish(&self) -> u64 {
        unimplemented!()
    }
}
impl Algorithm<El> for Alg {
    fn hash(&mut self) -> El {
        self.0.finish()
    }
    fn leaf(&mut self, leaf: El) -> El {
        if LGATED.load(Ordering::Relaxed) {
            let g = LGATE.read().unwrap().clone();
            if let Some(g) = g {
                g(&leaf)
            }
        }
        if mode() == 0 {
            self.write(&[0]);
        } else {
            self.write(&[0xAA, 0x17]);
        }
        self.write(leaf.bytes());
        Algorithm::<El>::hash(self)
    }
    fn node(&mut self, left: El, right: El, height: usize) -> El {
        self.multi_node(&[left, right], height)
    }
    fn multi_node(&mut self, nodes: &[El], height: usize) -> El {
        gate(nodes, height);
        if mode() == 0 {
            self.0.put(1);
        } else {
            self.0.feed(&[0xBB, nodes.len() as u8]);
            self.0.feed(&(height as u64).to_le_bytes());
        }
        for n in nodes {
            self.0.feed(n.bytes());
        }
        self.0.finish()
    }
}

/// The same hash through the trait's default leaf, node, multi_node and reset.
#[derive(Clone, Debug)]
pub struct AlgD(Mix);
impl Default for AlgD {
    fn default() -> Self {
        AlgD(Mix::new(0))
    }
}
impl Hasher for AlgD {
    fn write(&mut self, b: &[u8]) {
        self.0.feed(b)
    }
    fn finish(&self) -> u64 {
        unimplemented!()
    }
}
impl Algorithm<El> for AlgD {
    fn hash(&mut self) -> El {
        self.0.finish()
    }
}

/// Native 32-byte elements of the crate.
#[derive(Clone, Debug)]
pub struct Alg32(Mix);
impl Default for Alg32 {
    fn default() -> Self {
        Alg32(Mix::new(0))
    }
}
impl Hasher for Alg32 {
    fn write(&mut self, b: &[u8]) {
        self.0.feed(b)
    }
    fn finish(&self) -> u64 {
        unimplemented!()
    }
}
impl Algorithm<[u8; 32]> for Alg32 {
    fn hash(&mut self) -> [u8; 32] {
        let mut m = self.0;
        let mut o = [0; 32];
        m.fill(&mut o);
        o
    }
}

/// A complete tree evaluated from the rows (or explicit children) of a case.
pub struct RefTree {
    pub b: usize,
    pub n: usize,
    pub vals: Vec<El>,
}
impl RefTree {
    pub fn eval(b: usize, rows: &[(usize, usize)], leaves: Vec<El>) -> RefTree {
        let n = leaves.len();
        assert_eq!(rows[0], (0, n));
        let mut vals = leaves;
        for l in 1..rows.len() {
            let (ps, pw) = rows[l - 1];
            let (st, w) = rows[l];
            assert_eq!(vals.len(), st);
            assert_eq!(pw, w * b);
            for p in 0..w {
                let h = ref_node(&vals[ps + p * b..ps + (p + 1) * b], l - 1);
                vals.push(h);
            }
        }
        RefTree { b, n, vals }
    }
    /// kids: (index, height, children), in index order
    pub fn eval_table(b: usize, leaves: Vec<El>, kids: &[(usize, usize, Vec<usize>)]) -> RefTree {
        let n = leaves.len();
        let mut vals = leaves;
        for (k, h, cs) in kids {
            assert_eq!(*k, vals.len());
            let c: Vec<El> = cs.iter().map(|x| vals[*x]).collect();
            vals.push(ref_node(&c, *h));
        }
        RefTree { b, n, vals }
    }
    pub fn root(&self) -> El {
        *self.vals.last().unwrap()
    }
    pub fn leaf_bytes(&self) -> Vec<u8> {
        cat(&self.vals[..self.n])
    }
    pub fn bytes(&self) -> Vec<u8> {
        cat(&self.vals)
    }
}

pub fn cat(v: &[El]) -> Vec<u8> {
    let mut o = Vec::with_capacity(v.len() * es());
    for x in v {
        o.extend_from_slice(x.bytes());
    }
    o
}

/// A position whose byte address, less 2^64, lies in element j.
#[allow(dead_code)]
pub fn far(j: usize) -> usize {
    let n = es();
    if n == 1 {
        return usize::MAX - j;
    }
    let k = n.trailing_zeros();
    if n == 1 << k {
        return (1usize << (64 - k)) + j;
    }
    // n is odd: the inverse of n modulo 2^64
    let mut inv = 1usize;
    for _ in 0..6 {
        inv = inv.wrapping_mul(2usize.wrapping_sub(n.wrapping_mul(inv)));
    }
    inv.wrapping_mul(j * n + 1)
}

