//! Uniform access to the crate's generic types.
use crate::model::*;
use anyhow::{anyhow, Result};
use merkletree::hash::{Algorithm, Hashable};
use merkletree::merkle::{FromIndexedParallelIterator, MerkleTree};
use merkletree::proof::Proof;
use merkletree::store::*;
use std::fs::File;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;
use typenum::marker_traits::Unsigned;
use typenum::{U0, U1, U128, U16, U2, U3, U32, U4, U5, U64, U8};

pub type Lc = LevelCacheStore<El, File>;

/// Outcome of one call into the crate: a value, or a refusal (error or panic).
#[derive(Debug)]
pub enum Out<T> {
    Ok(T),
    Refused(String),
}
impl<T> Out<T> {
    pub fn ok(self) -> Option<T> {
        match self {
            Out::Ok(x) => Some(x),
            _ => None,
        }
    }
    pub fn want(self, what: &str) -> std::result::Result<T, String> {
        match self {
            Out::Ok(x) => Ok(x),
            Out::Refused(e) => Err(format!("{}: refused: {}", what, e)),
        }
    }
    pub fn is_ok(&self) -> bool {
        matches!(self, Out::Ok(_))
    }
}

pub fn call<T, F: FnOnce() -> Result<T>>(f: F) -> Out<T> {
    let q = crate::QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    crate::QUIET.with(|x| x.set(q));
    match r {
        Ok(Ok(x)) => Out::Ok(x),
        Ok(Err(e)) => Out::Refused(format!("{:#}", e)),
        Err(p) => Out::Refused(format!("panic: {}", panic_text(&p))),
    }
}
pub fn panic_text(p: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        (*s).to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".to_string()
    }
}

/// What differs between the stores.
pub trait StoreX: Store<El> + 'static {
    const NAME: &'static str;
    /// read_range_into is implemented
    const RANGE_INTO: bool;
    /// the elements as the store dereferences to them (with spare room, if it shows that)
    fn seen(&self) -> Option<Vec<El>> {
        None
    }
    fn attach<A: Algorithm<El>, B: Unsigned, ST: Unsigned, TT: Unsigned>(
        _t: &mut MerkleTree<El, A, Self, B, ST, TT>,
        _p: &Path,
    ) -> Result<()> {
        Err(anyhow!("no reader"))
    }
}
impl StoreX for VecStore<El> {
    const NAME: &'static str = "vec";
    const RANGE_INTO: bool = false;
    fn seen(&self) -> Option<Vec<El>> {
        Some(self[..].to_vec())
    }
}
impl StoreX for DiskStore<El> {
    const NAME: &'static str = "disk";
    const RANGE_INTO: bool = true;
}
impl StoreX for MmapStore<El> {
    const NAME: &'static str = "mmap";
    const RANGE_INTO: bool = false;
    fn seen(&self) -> Option<Vec<El>> {
        Some(self[..].chunks(es()).take(Store::len(self)).map(El::from_bytes).collect())
    }
}
impl StoreX for Lc {
    const NAME: &'static str = "lc";
    const RANGE_INTO: bool = true;
    fn attach<A: Algorithm<El>, B: Unsigned, ST: Unsigned, TT: Unsigned>(
        t: &mut MerkleTree<El, A, Self, B, ST, TT>,
        p: &Path,
    ) -> Result<()> {
        t.set_external_reader_path(p)
    }
}

/// The visible contents of a proof.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct P {
    pub lemma: Vec<El>,
    pub path: Vec<usize>,
    pub top: usize,
    pub sub: usize,
    pub inner: Option<Box<P>>,
}
pub struct Prf {
    pub p: P,
    pub item: El,
    pub root: El,
    pub validate: Box<dyn Fn() -> Result<bool>>,
    pub validate_data: Box<dyn Fn(&[u8]) -> Result<bool>>,
}

pub fn plain<B: Unsigned>(p: &Proof<El, B>) -> P {
    P {
        lemma: p.lemma().clone(),
        path: p.path().clone(),
        top: p.top_layer_nodes(),
        sub: p.sub_layer_nodes(),
        inner: p.sub_tree_proof.as_ref().map(|x| Box::new(plain(x))),
    }
}
pub fn prf<A: Algorithm<El> + 'static, B: Unsigned + 'static>(p: Proof<El, B>) -> Prf {
    let q = p.clone();
    let r = p.clone();
    Prf {
        p: plain(&p),
        item: p.item(),
        root: p.root(),
        validate: Box::new(move || q.validate::<A>()),
        validate_data: Box::new(move |d| r.validate_with_data::<A>(&d.to_vec())),
    }
}

pub trait TreeDyn: Send + Sync {
    fn root(&self) -> El;
    fn len(&self) -> usize;
    fn leafs(&self) -> usize;
    fn row_count(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn has_data(&self) -> bool;
    fn read_at(&self, i: usize) -> Result<El>;
    fn read_range(&self, s: usize, e: usize) -> Result<Vec<El>>;
    fn read_range_into(&self, s: usize, e: usize, buf: &mut [u8]) -> Result<()>;
    fn read_into(&self, i: usize, buf: &mut [u8]) -> Result<()>;
    fn gen_proof(&self, i: usize) -> Result<Prf>;
    fn gen_cached_proof(&self, i: usize, r: Option<usize>) -> Result<Prf>;
    fn compact(&mut self, c: StoreConfig, v: u32) -> Result<bool>;
    fn reinit(&mut self) -> Result<()>;
    fn delete(&self, c: StoreConfig) -> Result<()>;
    fn attach(&mut self, p: &Path) -> Result<()>;
    fn range_into(&self) -> bool;
}
impl<A, S, B, ST, TT> TreeDyn for MerkleTree<El, A, S, B, ST, TT>
where
    A: Algorithm<El> + Send + Sync + 'static,
    S: StoreX,
    B: Unsigned + Send + Sync + 'static,
    ST: Unsigned + Send + Sync + 'static,
    TT: Unsigned + Send + Sync + 'static,
{
    fn root(&self) -> El {
        MerkleTree::root(self)
    }
    fn len(&self) -> usize {
        MerkleTree::len(self)
    }
    fn leafs(&self) -> usize {
        MerkleTree::leafs(self)
    }
    fn row_count(&self) -> usize {
        MerkleTree::row_count(self)
    }
    fn is_empty(&self) -> bool {
        MerkleTree::is_empty(self)
    }
    fn has_data(&self) -> bool {
        MerkleTree::data(self).is_some()
    }
    fn read_at(&self, i: usize) -> Result<El> {
        MerkleTree::read_at(self, i)
    }
    fn read_range(&self, s: usize, e: usize) -> Result<Vec<El>> {
        MerkleTree::read_range(self, s, e)
    }
    fn read_range_into(&self, s: usize, e: usize, buf: &mut [u8]) -> Result<()> {
        MerkleTree::read_range_into(self, s, e, buf)
    }
    fn read_into(&self, i: usize, buf: &mut [u8]) -> Result<()> {
        MerkleTree::read_into(self, i, buf)
    }
    fn gen_proof(&self, i: usize) -> Result<Prf> {
        MerkleTree::gen_proof(self, i).map(prf::<A, B>)
    }
    fn gen_cached_proof(&self, i: usize, r: Option<usize>) -> Result<Prf> {
        MerkleTree::gen_cached_proof(self, i, r).map(prf::<A, B>)
    }
    fn compact(&mut self, c: StoreConfig, v: u32) -> Result<bool> {
        MerkleTree::compact(self, c, v)
    }
    fn reinit(&mut self) -> Result<()> {
        MerkleTree::reinit(self)
    }
    fn delete(&self, c: StoreConfig) -> Result<()> {
        MerkleTree::delete(self, c)
    }
    fn attach(&mut self, p: &Path) -> Result<()> {
        S::attach(self, p)
    }
    fn range_into(&self) -> bool {
        S::RANGE_INTO
    }
}
pub type BoxTree = Box<dyn TreeDyn>;

/// Input of the constructors of single trees.
#[derive(Clone, Default)]
pub struct Input {
    pub items: Vec<El>,
    pub data: Vec<Vec<u8>>,
    pub leaf_bytes: Vec<u8>,
    pub tree_bytes: Vec<u8>,
    pub n: usize,
}

pub fn build<A, S, B>(ctor: &str, inp: &Input, cfg: Option<StoreConfig>) -> Result<BoxTree>
where
    A: Algorithm<El> + Send + Sync + 'static,
    S: StoreX,
    B: Unsigned + Send + Sync + 'static,
{
    Ok(Box::new(build_t::<A, S, B, U0, U0>(ctor, inp, cfg)?))
}

pub fn build_t<A, S, B, ST, TT>(
    ctor: &str,
    inp: &Input,
    cfg: Option<StoreConfig>,
) -> Result<MerkleTree<El, A, S, B, ST, TT>>
where
    A: Algorithm<El> + Send + Sync + 'static,
    S: StoreX,
    B: Unsigned + Send + Sync + 'static,
    ST: Unsigned,
    TT: Unsigned,
{
    type M<A, S, B, ST, TT> = MerkleTree<El, A, S, B, ST, TT>;
    let c = || cfg.clone().expect("VH: config");
    match ctor {
        "new" => M::new(inp.items.clone()),
        "new_with_config" => M::new_with_config(inp.items.clone(), c()),
        "try_from_iter" => M::try_from_iter(inp.items.iter().map(|x| Ok(*x))),
        "try_from_iter_with_config" => {
            M::try_from_iter_with_config(inp.items.iter().map(|x| Ok(*x)), c())
        }
        "from_par_iter" => {
            <M<A, S, B, ST, TT> as FromIndexedParallelIterator<El, B>>::from_par_iter(
                inp.items.clone(),
            )
        }
        "from_par_iter_with_config" => {
            <M<A, S, B, ST, TT> as FromIndexedParallelIterator<El, B>>::from_par_iter_with_config(
                inp.items.clone(),
                c(),
            )
        }
        "from_data" => M::from_data(inp.data.iter().map(|x| Obj(x.clone()))),
        "from_data_with_config" => {
            M::from_data_with_config(inp.data.iter().map(|x| Obj(x.clone())), c())
        }
        "from_byte_slice" => M::from_byte_slice(&inp.leaf_bytes),
        "from_byte_slice_with_config" => M::from_byte_slice_with_config(&inp.leaf_bytes, c()),
        "from_tree_slice" => M::from_tree_slice(&inp.tree_bytes, inp.n),
        "from_tree_slice_with_config" => {
            M::from_tree_slice_with_config(&inp.tree_bytes, inp.n, c())
        }
        "from_data_store" => {
            let len = inp.tree_bytes.len() / es();
            let s = S::new_from_slice(len, &inp.tree_bytes)?;
            M::from_data_store(s, inp.n)
        }
        x => panic!("VH: unknown constructor {}", x),
    }
}

/// An object that feeds its bytes, in two pieces.
pub struct Obj(pub Vec<u8>);
impl<H: std::hash::Hasher> Hashable<H> for Obj {
    fn hash(&self, state: &mut H) {
        let k = self.0.len() / 2;
        state.write(&self.0[..k]);
        state.write(&self.0[k..]);
    }
}

#[macro_export]
macro_rules! with_base {
    ($b:expr, $B:ident => $body:expr) => {
        match $b {
            2 => { type $B = typenum::U2; $body }
            4 => { type $B = typenum::U4; $body }
            8 => { type $B = typenum::U8; $body }
            16 => { type $B = typenum::U16; $body }
            32 => { type $B = typenum::U32; $body }
            64 => { type $B = typenum::U64; $body }
            128 => { type $B = typenum::U128; $body }
            256 => { type $B = typenum::U256; $body }
            512 => { type $B = typenum::U512; $body }
            1024 => { type $B = typenum::U1024; $body }
            x => panic!("VH: arity {}", x),
        }
    };
}
#[macro_export]
macro_rules! with_small_base {
    ($b:expr, $B:ident => $body:expr) => {
        match $b {
            2 => { type $B = typenum::U2; $body }
            4 => { type $B = typenum::U4; $body }
            8 => { type $B = typenum::U8; $body }
            16 => { type $B = typenum::U16; $body }
            x => panic!("VH: arity {}", x),
        }
    };
}
#[macro_export]
macro_rules! with_store {
    ($s:expr, $S:ident => $body:expr) => {
        match $s {
            "vec" => { type $S = merkletree::store::VecStore<crate::model::El>; $body }
            "disk" => { type $S = merkletree::store::DiskStore<crate::model::El>; $body }
            "mmap" => { type $S = merkletree::store::MmapStore<crate::model::El>; $body }
            "lc" => { type $S = crate::tree::Lc; $body }
            x => panic!("VH: store {}", x),
        }
    };
}

/// Single tree by names.
pub fn build_named(
    store: &str,
    b: usize,
    ctor: &str,
    inp: &Input,
    cfg: Option<StoreConfig>,
) -> Result<BoxTree> {
    with_store!(store, S => with_base!(b, B => build::<Alg, S, B>(ctor, inp, cfg)))
}

// keep the list of arities in one place
#[allow(dead_code)]
type _Arities = (U0, U1, U2, U3, U4, U5, U8, U16, U32, U64, U128);
