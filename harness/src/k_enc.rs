//! What feeding a value to a hasher writes (C18).
use crate::json::J;
use crate::model::*;
use crate::{tick, Ctx, R};
use merkletree::hash::{Algorithm, Hashable};
use merkletree::merkle::Element;
use std::hash::Hasher;

/// Records the bytes it is given.
#[derive(Default, Clone, Debug)]
pub struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
    fn finish(&self) -> u64 {
        unimplemented!()
    }
}
/// The recorded bytes as an "element" of any length.
impl Algorithm<Vec<u8>> for Rec {
    fn hash(&mut self) -> Vec<u8> {
        self.0.clone()
    }
}

fn bytes(j: &J) -> Vec<u8> {
    j.us().into_iter().map(|x| x as u8).collect()
}
fn fixed<const N: usize>(b: &[u8]) -> [u8; N] {
    let mut o = [0; N];
    assert_eq!(b.len(), N, "VH: width");
    o.copy_from_slice(b);
    o
}

/// A value of the specification; feeding it dispatches to the crate's implementation for its type.
struct Dyn<'a>(&'a J);
impl<'a> Hashable<Rec> for Dyn<'a> {
    fn hash(&self, st: &mut Rec) {
        let v = self.0.a();
        macro_rules! int {
            ($t:ty) => {
                Hashable::hash(&<$t>::from_ne_bytes(fixed(&bytes(&v[1]))), st)
            };
        }
        macro_rules! arr {
            ($n:expr) => {
                Hashable::hash(&fixed::<$n>(&bytes(&v[1])), st)
            };
        }
        match v[0].s() {
            "u8" => int!(u8),
            "i8" => int!(i8),
            "u16" => int!(u16),
            "i16" => int!(i16),
            "u32" => int!(u32),
            "i32" => int!(i32),
            "u64" => int!(u64),
            "i64" => int!(i64),
            "usize" => int!(usize),
            "isize" => int!(isize),
            "u128" => int!(u128),
            "i128" => int!(i128),
            "bool" => Hashable::hash(&(bytes(&v[1])[0] == 1), st),
            "char" => Hashable::hash(&std::char::from_u32(u32::from_le_bytes(fixed(&bytes(&v[1])))).expect("VH: char"), st),
            "str" => Hashable::hash(std::str::from_utf8(&bytes(&v[1])).expect("VH: text"), st),
            "String" => Hashable::hash(&String::from_utf8(bytes(&v[1])).expect("VH: text"), st),
            "vec" => Hashable::hash(&bytes(&v[1]), st),
            "arr" => match v[1].a().len() {
                0 => arr!(0),
                1 => arr!(1),
                2 => arr!(2),
                3 => arr!(3),
                4 => arr!(4),
                5 => arr!(5),
                7 => arr!(7),
                8 => arr!(8),
                9 => arr!(9),
                16 => arr!(16),
                31 => arr!(31),
                32 => arr!(32),
                33 => arr!(33),
                63 => arr!(63),
                64 => arr!(64),
                65 => arr!(65),
                128 => arr!(128),
                129 => arr!(129),
                200 => arr!(200),
                255 => arr!(255),
                256 => arr!(256),
                257 => arr!(257),
                1000 => arr!(1000),
                4096 => arr!(4096),
                _ => panic!("VH: array"),
            },
            "ref" => Hashable::hash(&&Dyn(&v[1]), st),
            "refref" => Hashable::hash(&&&Dyn(&v[1]), st),
            "mut" => {
                let mut d = Dyn(&v[1]);
                Hashable::hash(&&mut d, st)
            }
            "mixed" => {
                let d: Vec<Dyn> = v[1].a().iter().map(Dyn).collect();
                Hashable::hash(&d[..], st)
            }
            "tuple" => tuple(v[1].a(), st),
            "slice" => slice(v[1].s(), v[2].a(), st),
            x => panic!("VH: type {}", x),
        }
    }
}
fn tuple(p: &[J], st: &mut Rec) {
    let d = |i: usize| Dyn(&p[i]);
    match p.len() {
        0 => Hashable::hash(&(), st),
        1 => Hashable::hash(&(d(0),), st),
        2 => Hashable::hash(&(d(0), d(1)), st),
        3 => Hashable::hash(&(d(0), d(1), d(2)), st),
        4 => Hashable::hash(&(d(0), d(1), d(2), d(3)), st),
        5 => Hashable::hash(&(d(0), d(1), d(2), d(3), d(4)), st),
        6 => Hashable::hash(&(d(0), d(1), d(2), d(3), d(4), d(5)), st),
        7 => Hashable::hash(&(d(0), d(1), d(2), d(3), d(4), d(5), d(6)), st),
        8 => Hashable::hash(&(d(0), d(1), d(2), d(3), d(4), d(5), d(6), d(7)), st),
        9 => Hashable::hash(&(d(0), d(1), d(2), d(3), d(4), d(5), d(6), d(7), d(8)), st),
        10 => Hashable::hash(&(d(0), d(1), d(2), d(3), d(4), d(5), d(6), d(7), d(8), d(9)), st),
        11 => Hashable::hash(&(d(0), d(1), d(2), d(3), d(4), d(5), d(6), d(7), d(8), d(9), d(10)), st),
        12 => Hashable::hash(&(d(0), d(1), d(2), d(3), d(4), d(5), d(6), d(7), d(8), d(9), d(10), d(11)), st),
        _ => panic!("VH: tuple"),
    }
}
fn slice(t: &str, p: &[J], st: &mut Rec) {
    macro_rules! ints {
        ($t:ty) => {{
            let v: Vec<$t> = p.iter().map(|x| <$t>::from_ne_bytes(fixed(&bytes(x)))).collect();
            Hashable::hash(&v[..], st)
        }};
    }
    macro_rules! arrs {
        ($n:expr) => {{
            let v: Vec<[u8; $n]> = p.iter().map(|x| fixed(&bytes(x))).collect();
            Hashable::hash(&v[..], st)
        }};
    }
    match t {
        "u8" => ints!(u8),
        "i8" => ints!(i8),
        "u16" => ints!(u16),
        "i16" => ints!(i16),
        "u32" => ints!(u32),
        "i32" => ints!(i32),
        "u64" => ints!(u64),
        "i64" => ints!(i64),
        "usize" => ints!(usize),
        "isize" => ints!(isize),
        "u128" => ints!(u128),
        "i128" => ints!(i128),
        "arr" => match p.first().map_or(5, |x| x.a().len()) {
            1 => arrs!(1),
            2 => arrs!(2),
            3 => arrs!(3),
            4 => arrs!(4),
            5 => arrs!(5),
            6 => arrs!(6),
            7 => arrs!(7),
            8 => arrs!(8),
            9 => arrs!(9),
            10 => arrs!(10),
            11 => arrs!(11),
            12 => arrs!(12),
            13 => arrs!(13),
            15 => arrs!(15),
            16 => arrs!(16),
            17 => arrs!(17),
            20 => arrs!(20),
            21 => arrs!(21),
            23 => arrs!(23),
            24 => arrs!(24),
            25 => arrs!(25),
            28 => arrs!(28),
            31 => arrs!(31),
            32 => arrs!(32),
            33 => arrs!(33),
            40 => arrs!(40),
            47 => arrs!(47),
            48 => arrs!(48),
            49 => arrs!(49),
            63 => arrs!(63),
            64 => arrs!(64),
            65 => arrs!(65),
            100 => arrs!(100),
            127 => arrs!(127),
            128 => arrs!(128),
            129 => arrs!(129),
            255 => arrs!(255),
            256 => arrs!(256),
            257 => arrs!(257),
            _ => panic!("VH: slice of arrays"),
        },
        "strs" => {
            let v: Vec<String> = p.iter().map(|x| String::from_utf8(bytes(x)).expect("VH: text")).collect();
            let v: Vec<&str> = v.iter().map(|x| &x[..]).collect();
            Hashable::hash(&v[..], st)
        }
        "Strings" => {
            let v: Vec<String> = p.iter().map(|x| String::from_utf8(bytes(x)).expect("VH: text")).collect();
            Hashable::hash(&v[..], st)
        }
        "vecs" => {
            let v: Vec<Vec<u8>> = p.iter().map(bytes).collect();
            Hashable::hash(&v[..], st)
        }
        x => panic!("VH: slice of {}", x),
    }
}

pub fn run(_ctx: &Ctx, c: &J) -> R {
    let want = bytes(c.get("bytes"));
    let v = c.get("v");
    let same = |got: Vec<u8>, pre: &[u8], what: &str| -> R {
        tick(1);
        if got == [pre, &want[..]].concat() {
            Ok(())
        } else {
            Err(format!("{} of {}: wrote {:?}, specified {:?}", what, v.show(), got, want))
        }
    };
    match c.get("what").s() {
        "value" => {
            let mut h = Rec::default();
            Dyn(v).hash(&mut h);
            same(h.0, &[], "feeding")?;
            // the state before does not matter
            let mut h = Rec(vec![1, 2, 3]);
            Dyn(v).hash(&mut h);
            same(h.0, &[1, 2, 3], "feeding")
        }
        "leaf" => {
            let e = bytes(v);
            let mut a = Rec::default();
            same(a.leaf(e.clone()), &[], "leaf")?;
            let mut a = Rec(vec![9; 40]);
            Algorithm::<Vec<u8>>::reset(&mut a);
            same(a.leaf(e.clone()), &[], "leaf after reset")?;
            // as an algorithm over the crate's own byte arrays
            set_env(e.len(), 0);
            let x = El::from_bytes(&e);
            if AlgD::default().leaf(x) != ref_hash(&[&[0], &e]) {
                return Err("default leaf hash".into());
            }
            macro_rules! arr {
                ($n:expr) => {{
                    let a: [u8; $n] = Element::from_slice(&e);
                    let mut o = vec![0; $n];
                    Element::copy_to_slice(&a, &mut o);
                    if <[u8; $n] as Element>::byte_len() != $n || a[..] != e[..] || o != e {
                        return Err(format!("byte arrays of {} as elements", $n));
                    }
                }};
            }
            match e.len() {
                32 => arr!(32),
                _ => {}
            }
            Ok(())
        }
        "node" => {
            let kids: Vec<Vec<u8>> = v.a().iter().map(bytes).collect();
            for height in &[0usize, 1, 7, 63] {
                let mut a = Rec::default();
                same(a.multi_node(&kids, *height), &[], "multi_node")?;
                let mut a = Rec(vec![9; 40]);
                Algorithm::<Vec<u8>>::reset(&mut a);
                same(a.multi_node(&kids, *height), &[], "multi_node after reset")?;
                if kids.len() == 2 {
                    let mut a = Rec::default();
                    same(a.node(kids[0].clone(), kids[1].clone(), *height), &[], "node")?;
                }
            }
            Ok(())
        }
        "pointer" => {
            let k = v.a()[2].u();
            let mut data: Vec<u32> = (0..k as u32).collect();
            let mut text = "t".repeat(k);
            let mut h = Rec::default();
            let at = match (v.a()[0].s(), v.a()[1].s()) {
                ("const", "value") => {
                    let p: *const u32 = &data[k - 1];
                    Hashable::hash(&p, &mut h);
                    p as usize
                }
                ("mut", "value") => {
                    let p: *mut u32 = &mut data[k - 1];
                    Hashable::hash(&p, &mut h);
                    p as usize
                }
                ("const", "slice") => {
                    let p: *const [u32] = &data[..];
                    Hashable::hash(&p, &mut h);
                    p as *const u32 as usize
                }
                ("mut", "slice") => {
                    let p: *mut [u32] = &mut data[..];
                    Hashable::hash(&p, &mut h);
                    p as *mut u32 as usize
                }
                ("const", _) => {
                    let p: *const str = &text[..];
                    Hashable::hash(&p, &mut h);
                    p as *const u8 as usize
                }
                _ => {
                    let p: *mut str = &mut text[..];
                    Hashable::hash(&p, &mut h);
                    p as *mut u8 as usize
                }
            };
            let want: Vec<u8> = c.get("words").a().iter().flat_map(|x| if x.s() == "address" { at } else { k }.to_ne_bytes()).collect();
            tick(1);
            if h.0 != want {
                return Err(format!("pointer {}: wrote {:?}, specified {:?}", v.show(), h.0, want));
            }
            Ok(())
        }
        x => panic!("VH: {}", x),
    }
}
