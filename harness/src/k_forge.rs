//! Adversarial proofs (C05, C06, C08): the verdict of the specification against validate.
use crate::json::J;
use crate::k_base::*;
use crate::model::*;
use crate::tree::*;
use crate::{tick, with_small_base, Ctx, R};
use anyhow::Result;
use merkletree::hash::Hashable;
use merkletree::proof::Proof;
use std::cell::RefCell;
use typenum::marker_traits::Unsigned;
use typenum::{U0, U1, U2, U3, U5};

struct Nodes {
    key: (usize, usize, usize, usize, usize, String),
    vals: Vec<El>,
}
thread_local! { static LAST: RefCell<Option<Nodes>> = RefCell::new(None); }

/// All nodes of the shape, by global number.
fn nodes(b: usize, n: usize, s: usize, t: usize, mode_: usize, vals: &str) -> Vec<El> {
    let key = (b, n, s, t, mode_, vals.to_string());
    let hit = LAST.with(|l| l.borrow().as_ref().filter(|x| x.key == key).map(|x| x.vals.clone()));
    if let Some(v) = hit {
        return v;
    }
    let parts = s.max(1) * t.max(1);
    let mut rows = vec![(0, n)];
    while rows[rows.len() - 1].1 > 1 {
        let (st, w) = rows[rows.len() - 1];
        rows.push((st + w, w / b));
    }
    let mut all: Vec<El> = Vec::new();
    let mut roots: Vec<El> = Vec::new();
    for q in 0..parts {
        let leaves: Vec<El> = (0..n)
            .map(|k| q * n + k)
            .map(|k| if vals == "pairs" { 100 + k / 2 } else { 1 + k })
            .map(|o| ref_leaf(ref_data(&obj(o)).bytes()))
            .collect();
        let t = RefTree::eval(b, &rows, leaves);
        roots.push(t.root());
        all.extend(t.vals);
    }
    if s > 0 {
        let mut subs = Vec::new();
        for g in 0..t.max(1) {
            subs.push(ref_node(&roots[g * s..(g + 1) * s], 1));
        }
        all.extend(subs.iter().cloned());
        if t > 0 {
            all.push(ref_node(&subs, 1));
        }
    }
    LAST.with(|l| *l.borrow_mut() = Some(Nodes { key, vals: all.clone() }));
    all
}

fn code(c: &J, nodes: &[El]) -> El {
    if let J::Num(_) = c {
        return nodes[c.u()];
    }
    let x = c.a();
    match x[0].s() {
        "x" => El::val(5_000_000 + x[1].u()),
        "l" => ref_leaf(ref_data(&obj(x[1].u())).bytes()),
        "y" => near(code(&x[2], nodes), x[1].u()),
        "h" => {
            let k: Vec<El> = x[2].a().iter().map(|y| code(y, nodes)).collect();
            ref_node(&k, x[1].u())
        }
        y => panic!("VH: code {}", y),
    }
}

/// A value that shares all but some bits with x.
fn near(x: El, how: usize) -> El {
    let mut b = x.bytes().to_vec();
    let n = b.len();
    match how {
        0 => b[0] ^= 1,
        1 => b[0] ^= 0x80,
        2 => b[n - 1] ^= 1,
        3 => b[n - 1] ^= 0x80,
        4 => b[n / 2] ^= 0x10,
        5 => b[1..].iter_mut().for_each(|y| *y ^= 0x5a),
        6 => b[..n - 1].iter_mut().for_each(|y| *y ^= 0x5a),
        // the same sum and the same exclusive or of its bytes
        7 => {
            let k = (1..n).find(|k| b[*k] != b[0]).expect("VH: a value of equal bytes");
            b.swap(0, k);
        }
        8 => b[n - 8..].iter_mut().for_each(|y| *y = !*y),
        y => panic!("VH: near {}", y),
    }
    El::from_bytes(&b)
}

/// Path entries beyond what the specification's numbers can express.
fn index(v: usize) -> usize {
    const ALIAS: usize = 2_000_000_000;
    if v < ALIAS {
        return v;
    }
    (v - ALIAS) % 16 + (1usize << [8, 16, 31, 32, 63][(v - ALIAS) / 16])
}

pub fn make<B: Unsigned>(sub: usize, top: usize, inner: Option<Box<Proof<El, B>>>, lemma: Vec<El>, path: Vec<usize>) -> Result<Proof<El, B>> {
    macro_rules! subs {
        ($T:ty) => {
            match sub {
                0 => Proof::new::<$T, U0>(inner, lemma, path),
                1 => Proof::new::<$T, U1>(inner, lemma, path),
                2 => Proof::new::<$T, U2>(inner, lemma, path),
                3 => Proof::new::<$T, U3>(inner, lemma, path),
                5 => Proof::new::<$T, U5>(inner, lemma, path),
                x => panic!("VH: arity {}", x),
            }
        };
    }
    match top {
        0 => subs!(U0),
        1 => subs!(U1),
        2 => subs!(U2),
        3 => subs!(U3),
        x => panic!("VH: arity {}", x),
    }
}

/// Builds the proof although its lengths may be wrong: first with a lemma that fits the path,
/// then the lemma is replaced.
fn assemble<B: Unsigned>(layers: &[J], nodes: &[El]) -> Result<Proof<El, B>, String> {
    let mut inner: Option<Box<Proof<El, B>>> = None;
    for l in layers {
        let x = l.a();
        let (sub, top) = (x[0].u(), x[1].u());
        let lemma: Vec<El> = x[2].a().iter().map(|y| code(y, nodes)).collect();
        let path: Vec<usize> = x[3].us().into_iter().map(index).collect();
        let fits = 2 + (B::to_usize() - 1) * path.len();
        let single = sub == 0 && top == 0;
        let start = if single && lemma.len() != fits { vec![El::val(3); fits] } else { lemma.clone() };
        let mut p = call(|| make::<B>(sub, top, inner.clone(), start, path.clone())).want("Proof::new of well-formed parts")?;
        *p.lemma_mut() = lemma;
        inner = Some(Box::new(p));
    }
    Ok(*inner.expect("VH: no layers"))
}

pub fn run(_ctx: &Ctx, c: &J) -> R {
    let b = c.get("b").u();
    with_small_base!(b, B => go::<B>(c))
}

fn go<B: Unsigned>(c: &J) -> R {
    for es_ in &[8usize, 32, 13] {
        set_env(*es_, c.get("mode").u());
        let nodes = nodes(c.get("b").u(), c.get("n").u(), c.get("s").u(), c.get("t").u(), c.get("mode").u() * 100 + *es_, c.get("vals").s());
        set_env(*es_, c.get("vmode").u());
        let p = assemble::<B>(c.get("layers").a(), &nodes)?;
        let ok = c.get("ok").b();
        let got = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.validate::<Alg>())) {
            Ok(Ok(x)) => x,
            Ok(Err(_)) => false,
            Err(e) => return Err(format!("validate panicked: {}", panic_text(&e))),
        };
        if got != ok {
            return Err(format!("validate says {}, specified {} (arity {}, shape {}x{}x{}, {} byte elements, algorithm {} validated with {}): {:?}",
                got, ok, c.get("b").u(), c.get("n").u(), c.get("s").u(), c.get("t").u(), es_, c.get("mode").u(), c.get("vmode").u(), plain(&p)));
        }
        // a clone says the same, and asking again changes nothing
        if call(|| p.clone().validate::<Alg>()).ok().unwrap_or(false) != ok {
            return Err("a second validation of the same proof differs".to_string());
        }
        tick(2);
        for x in c.get("data").a() {
            let (o, want) = (x.a()[0].u(), x.a()[1].b());
            let got = call(|| p.validate_with_data::<Alg>(&Obj(obj(o)))).ok().unwrap_or(false);
            if got != want {
                return Err(format!("validate_with_data says {}, specified {} (object {}, proof alone {}): {:?}", got, want, o, ok, plain(&p)));
            }
            tick(1);
        }
        if c.get("leaf").b() && c.get("data").a().iter().any(|x| x.a()[1].b()) {
            // things that are close to the object but are not it
            let o = c.get("data").a().iter().find(|x| x.a()[1].b()).unwrap().a()[0].u();
            let item = ref_data(&obj(o));
            let leaf = ref_leaf(item.bytes());
            let mut longer = obj(o);
            longer.push(0);
            let mut shorter = obj(o);
            shorter.pop();
            let flip = |k: usize, bit: u8| {
                let mut x = obj(o);
                let n = x.len();
                x[k % n] ^= bit;
                x
            };
            let mut pre = vec![0u8];
            pre.extend(item.bytes());
            for (n, d) in vec![("its hash", item.bytes().to_vec()), ("its leaf hash", leaf.bytes().to_vec()), ("an object with another first bit", flip(0, 0x80)), ("an object with another last bit", flip(obj(o).len() - 1, 1)), ("an object with another byte", flip(obj(o).len() / 2, 0xff)), ("a longer object", longer), ("a shorter object", shorter), ("nothing", vec![]), ("a prefixed hash", pre)] {
                if call(|| p.validate_with_data::<Alg>(&Obj(d))).ok().unwrap_or(false) {
                    return Err(format!("validate_with_data accepts {} instead of the object", n));
                }
                tick(1);
            }
            // other types: values without bytes of their own, small values, and the object in two parts
            let none: [u8; 0] = [];
            let zero = [0u8; 1];
            let others: Vec<(&str, &dyn Hashable<Alg>)> = vec![("a unit", &()), ("an empty array", &none), ("an array", &zero), ("a boolean", &false), ("a number", &0u64)];
            for (n, d) in others {
                if call(|| p.validate_with_data::<Alg>(d)).ok().unwrap_or(false) {
                    return Err(format!("validate_with_data accepts {} instead of the object", n));
                }
                tick(1);
            }
            let whole = obj(o);
            let (a, b) = whole.split_at(whole.len() / 2);
            let parts = (a.to_vec(), b.to_vec());
            if !call(|| p.validate_with_data::<Alg>(&parts)).ok().unwrap_or(false) {
                return Err("validate_with_data refuses the object when it comes as a pair".to_string());
            }
            tick(1);
        }
    }
    Ok(())
}
