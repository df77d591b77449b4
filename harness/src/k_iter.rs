//! Iteration over stores (C17).
use crate::json::J;
use crate::model::*;
use crate::{tick, Ctx, R};
use merkletree::store::*;
use rayon::iter::plumbing::*;
use rayon::prelude::*;

macro_rules! history {
    ($fname:ident, $S:ident, $P:ident) => {
        fn $fname(s: &$S<El>, n: usize, hist: &[J]) -> R {
            enum Piece<'a> {
                P($P<'a, El>),
                I(<$P<'a, El> as Producer>::IntoIter),
            }
            let mut segs: Vec<Option<Piece>> = vec![Some(Piece::P($P::new(0, n, s)))];
            for (no, h) in hist.iter().enumerate() {
                let op = h.get("op").a();
                let x = op[1].u();
                let what = || format!("step {} of {}", no + 1, hist[..=no].iter().map(|x| x.get("op").show()).collect::<Vec<_>>().join(" "));
                match op[0].s() {
                    "split" => match segs[x].take() {
                        Some(Piece::P(p)) => {
                            let (a, b) = p.split_at(op[2].u());
                            segs[x] = Some(Piece::P(a));
                            segs.insert(x + 1, Some(Piece::P(b)));
                        }
                        _ => panic!("VH: split"),
                    },
                    "start" => match segs[x].take() {
                        Some(Piece::P(p)) => segs[x] = Some(Piece::I(p.into_iter())),
                        _ => panic!("VH: start"),
                    },
                    e => {
                        let it = match segs[x].as_mut() {
                            Some(Piece::I(i)) => i,
                            _ => panic!("VH: take"),
                        };
                        if e == "rest" {
                            let want: Vec<El> = (op[2].u()..op[3].u()).map(|i| El::val(i + 1)).collect();
                            let way = op[4].s();
                            let got: Vec<El> = match way {
                                "all" => it.by_ref().collect(),
                                "rev" => it.by_ref().rev().collect::<Vec<_>>().into_iter().rev().collect(),
                                "count" => {
                                    let k = it.by_ref().count();
                                    if k == want.len() { want.clone() } else { return Err(format!("{}: counts {}", what(), k)) }
                                }
                                "last" => {
                                    let l = it.by_ref().last();
                                    if l == want.last().cloned() { want.clone() } else { return Err(format!("{}: last is {:?}", what(), l)) }
                                }
                                "fold" => it.by_ref().fold(vec![], |mut v, x| { v.push(x); v }),
                                "rfold" => it.by_ref().rfold(vec![], |mut v, x| { v.insert(0, x); v }),
                                "step" => {
                                    let s: Vec<El> = it.by_ref().step_by(2).collect();
                                    if s == want.iter().cloned().step_by(2).collect::<Vec<_>>() { want.clone() } else { return Err(format!("{}: every other one gives {:?}", what(), s)) }
                                }
                                "find" => {
                                    let a = it.by_ref().position(|_| false);
                                    if a.is_none() { want.clone() } else { return Err(format!("{}: position {:?}", what(), a)) }
                                }
                                x => panic!("VH: rest {}", x),
                            };
                            if got != want {
                                return Err(format!("{}: got {:?}, specified {:?}", what(), got, want));
                            }
                            tick(1);
                        }
                        let got = match e {
                            "next" => it.next(),
                            "back" => it.next_back(),
                            "nth" => it.nth(op[3].u()),
                            "nth_back" => it.nth_back(op[3].u()),
                            // nothing is left
                            "rest" => it.next(),
                            x => panic!("VH: {}", x),
                        };
                        let want = if e == "rest" || op[2].i() < 0 { None } else { Some(El::val(op[2].u() + 1)) };
                        if got != want {
                            return Err(format!("{}: got {:?}, specified {:?}", what(), got, want));
                        }
                    }
                }
                let lens = h.get("lens").us();
                for (k, p) in segs.iter().enumerate() {
                    let (l, e) = match p {
                        Some(Piece::P(p)) => (p.len(), p.is_empty()),
                        Some(Piece::I(i)) => {
                            let l = ExactSizeIterator::len(i);
                            if i.size_hint() != (l, Some(l)) {
                                return Err(format!("{}: size_hint of piece {} is {:?} with {} elements left", what(), k, i.size_hint(), lens[k]));
                            }
                            (l, l == 0)
                        }
                        None => panic!("VH: piece"),
                    };
                    if l != lens[k] || e != (l == 0) {
                        return Err(format!("{}: piece {} reports {} elements, specified {}", what(), k, l, lens[k]));
                    }
                    tick(1);
                }
            }
            Ok(())
        }
    };
}
history!(vec_history, VecStore, VecStoreProducer);
history!(disk_history, DiskStore, DiskStoreProducer);

fn filled<S: Store<El>>(n: usize) -> S {
    let v: Vec<El> = (0..n).map(|k| El::val(k + 1)).collect();
    // room to spare: the capacity is not the length
    S::new_from_slice(n + 3, &cat(&v)).expect("VH: store")
}

pub fn run(_ctx: &Ctx, c: &J) -> R {
    set_env(8, 0);
    let n = c.get("n").u();
    let hist = c.get("hist").a();
    vec_history(&filled::<VecStore<El>>(n), n, hist).map_err(|e| format!("memory store of {}: {}", n, e))?;
    disk_history(&filled::<DiskStore<El>>(n), n, hist).map_err(|e| format!("disk store of {}: {}", n, e))
}

pub fn run_par(_ctx: &Ctx, c: &J) -> R {
    set_env(8, 0);
    let n = c.get("n").u();
    let pool = rayon::ThreadPoolBuilder::new().num_threads(c.get("pool").u()).build().expect("VH: pool");
    let grain = c.get("grain").u();
    pool.install(|| {
        macro_rules! all {
            ($S:ident, $name:expr) => {{
                let s = filled::<$S<El>>(n);
                par::<&$S<El>>(&s, n, grain).map_err(|e| format!("{} by reference: {}", $name, e))?;
                for k in 0..WAYS {
                    one(filled::<$S<El>>(n), n, grain, k).map_err(|e| format!("{} by value: {}", $name, e))?;
                }
            }};
        }
        all!(VecStore, "memory store");
        all!(DiskStore, "disk store");
        Ok(())
    })
    .map_err(|e: String| format!("{} elements, {} threads, grain {}: {}", n, c.get("pool").u(), grain, e))
}

const WAYS: usize = 24;
fn par<I: IndexedParallelIterator<Item = El> + Copy>(s: I, n: usize, g: usize) -> R {
    for k in 0..WAYS {
        one(s, n, g, k)?;
    }
    Ok(())
}
fn one<I: IndexedParallelIterator<Item = El>>(s: I, n: usize, g: usize, way: usize) -> R {
    let e = |i: usize| El::val(i + 1);
    let all: Vec<El> = (0..n).map(e).collect();
    if s.len() != n || s.opt_len() != Some(n) {
        return Err(format!("parallel length {} / {:?}", s.len(), s.opt_len()));
    }
    let ok = match way {
        0 => s.with_max_len(g).collect::<Vec<_>>() == all,
        1 => s.with_min_len(g).collect::<Vec<_>>() == all,
        2 => {
            let mut r = s.with_max_len(g).rev().collect::<Vec<_>>();
            r.reverse();
            r == all
        }
        3 => s.enumerate().with_max_len(g).map(|(i, x)| (i, x)).collect::<Vec<_>>() == all.iter().cloned().enumerate().collect::<Vec<_>>(),
        4 => s.skip(n / 3).with_max_len(g).collect::<Vec<_>>() == all[n / 3..],
        5 => s.take(n - n / 3).with_max_len(g).collect::<Vec<_>>() == all[..n - n / 3],
        6 => s.zip(all.clone()).with_max_len(g).filter(|(a, b)| a == b).count() == n,
        7 => s.chunks(g + 1).collect::<Vec<_>>().concat() == all,
        8 => s.with_max_len(g).fold(Vec::new, |mut v, x| { v.push(x); v }).reduce(Vec::new, |mut a, b| { a.extend(b); a }) == all,
        9 => s.with_max_len(g).filter(|x| x.bytes()[0] % 2 == 0).collect::<Vec<_>>() == all.iter().cloned().filter(|x| x.bytes()[0] % 2 == 0).collect::<Vec<_>>(),
        10 => {
            let mut r = s.zip(all.clone()).enumerate().with_max_len(g).rev().map(|(i, (a, b))| (i, a, b)).collect::<Vec<_>>();
            r.reverse();
            r.len() == n && r.iter().enumerate().all(|(j, (i, a, b))| *i == j && *a == all[j] && *b == all[j])
        }
        11 => s.interleave(all.clone()).collect::<Vec<_>>() == all.iter().flat_map(|x| vec![*x, *x]).collect::<Vec<_>>(),
        12 => s.step_by(g + 1).collect::<Vec<_>>() == all.iter().cloned().step_by(g + 1).collect::<Vec<_>>(),
        13 => {
            let mut v = vec![];
            s.collect_into_vec(&mut v);
            v == all
        }
        14 => s.filter(|x| x.bytes()[0] % 2 == 0).collect::<Vec<_>>() == all.iter().cloned().filter(|x| x.bytes()[0] % 2 == 0).collect::<Vec<_>>(),
        15 => s.flat_map_iter(|x| vec![x; g % 3]).collect::<Vec<_>>() == all.iter().flat_map(|x| vec![*x; g % 3]).collect::<Vec<_>>(),
        16 => s.count() == n,
        17 => s.map(Some).fold(Vec::new, |mut v, x| { v.push(x.unwrap()); v }).reduce(Vec::new, |mut a, b| { a.extend(b); a }) == all,
        18 => s.find_first(|x| *x == e(n / 2)) == all.get(n / 2).cloned(),
        19 => {
            let seen = std::sync::Mutex::new(vec![0usize; n]);
            s.for_each(|x| (0..n).filter(|i| n < 200 && e(*i) == x).for_each(|i| seen.lock().unwrap()[i] += 1));
            n >= 200 || seen.into_inner().unwrap().iter().all(|k| *k == 1)
        }
        20 => {
            let (a, b): (Vec<(usize, El)>, Vec<(usize, El)>) = s.enumerate().partition(|(i, _)| i % (g + 1) == 0);
            let mut v = [a, b].concat();
            v.sort_by_key(|x| x.0);
            v == all.iter().cloned().enumerate().collect::<Vec<_>>()
        }
        21 => s.rev().filter(|_| true).collect::<Vec<_>>() == all.iter().rev().cloned().collect::<Vec<_>>(),
        22 => s.rev().skip(g).take(n / 2).collect::<Vec<_>>() == all.iter().rev().skip(g).take(n / 2).cloned().collect::<Vec<_>>(),
        23 => s.chain(all.clone()).filter(|_| true).collect::<Vec<_>>() == [all.clone(), all.clone()].concat(),
        _ => panic!("VH: way"),
    };
    tick(n.max(1));
    if ok {
        Ok(())
    } else {
        Err(format!("way {} of collecting differs from the stored elements", way))
    }
}
