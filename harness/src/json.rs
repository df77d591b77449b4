//! A small JSON reader and writer (no dependency needed).
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(i64),
    Str(String),
    Arr(Vec<J>),
    Obj(BTreeMap<String, J>),
}

impl J {
    pub fn get(&self, k: &str) -> &J {
        match self {
            J::Obj(m) => m.get(k).unwrap_or(&J::Null),
            _ => &J::Null,
        }
    }
    pub fn has(&self, k: &str) -> bool {
        !matches!(self.get(k), J::Null)
    }
    pub fn i(&self) -> i64 {
        match self {
            J::Num(x) => *x,
            other => panic!("VH: number expected, got {:?}", other),
        }
    }
    pub fn u(&self) -> usize {
        let x = self.i();
        assert!(x >= 0, "VH: non-negative number expected");
        x as usize
    }
    pub fn s(&self) -> &str {
        match self {
            J::Str(x) => x,
            other => panic!("VH: string expected, got {:?}", other),
        }
    }
    pub fn b(&self) -> bool {
        match self {
            J::Bool(x) => *x,
            other => panic!("VH: bool expected, got {:?}", other),
        }
    }
    pub fn a(&self) -> &Vec<J> {
        match self {
            J::Arr(x) => x,
            other => panic!("VH: array expected, got {:?}", other),
        }
    }
    pub fn us(&self) -> Vec<usize> {
        self.a().iter().map(|x| x.u()).collect()
    }
    pub fn is(&self) -> Vec<i64> {
        self.a().iter().map(|x| x.i()).collect()
    }
    /// short text for messages
    pub fn show(&self) -> String {
        match self {
            J::Null => "-".into(),
            J::Bool(x) => x.to_string(),
            J::Num(x) => x.to_string(),
            J::Str(x) => x.clone(),
            J::Arr(x) => format!("({})", x.iter().map(|y| y.show()).collect::<Vec<_>>().join(" ")),
            J::Obj(m) => format!("{{{}}}", m.iter().map(|(k, y)| format!("{} {}", k, y.show())).collect::<Vec<_>>().join(" ")),
        }
    }
    pub fn ss(&self) -> Vec<String> {
        self.a().iter().map(|x| x.s().to_string()).collect()
    }
}

pub fn parse(s: &str) -> J {
    let b = s.as_bytes();
    let mut p = 0;
    let v = val(b, &mut p);
    ws(b, &mut p);
    assert!(p == b.len(), "VH: trailing characters in JSON");
    v
}

fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && (b[*p] as char).is_whitespace() {
        *p += 1;
    }
}

fn val(b: &[u8], p: &mut usize) -> J {
    ws(b, p);
    match b[*p] {
        b'{' => {
            *p += 1;
            let mut m = BTreeMap::new();
            loop {
                ws(b, p);
                if b[*p] == b'}' {
                    *p += 1;
                    return J::Obj(m);
                }
                if b[*p] == b',' {
                    *p += 1;
                    continue;
                }
                let k = match val(b, p) {
                    J::Str(s) => s,
                    _ => panic!("VH: bad key"),
                };
                ws(b, p);
                assert!(b[*p] == b':');
                *p += 1;
                let v = val(b, p);
                m.insert(k, v);
            }
        }
        b'[' => {
            *p += 1;
            let mut v = Vec::new();
            loop {
                ws(b, p);
                if b[*p] == b']' {
                    *p += 1;
                    return J::Arr(v);
                }
                if b[*p] == b',' {
                    *p += 1;
                    continue;
                }
                v.push(val(b, p));
            }
        }
        b'"' => {
            *p += 1;
            let mut s = Vec::new();
            while b[*p] != b'"' {
                if b[*p] == b'\\' {
                    *p += 1;
                    match b[*p] {
                        b'n' => s.push(b'\n'),
                        b't' => s.push(b'\t'),
                        b'r' => s.push(b'\r'),
                        b'u' => {
                            let h = std::str::from_utf8(&b[*p + 1..*p + 5]).unwrap();
                            let c = u32::from_str_radix(h, 16).unwrap();
                            let mut t = [0; 4];
                            s.extend_from_slice(
                                std::char::from_u32(c).unwrap().encode_utf8(&mut t).as_bytes(),
                            );
                            *p += 4;
                        }
                        c => s.push(c),
                    }
                } else {
                    s.push(b[*p]);
                }
                *p += 1;
            }
            *p += 1;
            J::Str(String::from_utf8(s).expect("VH: utf8"))
        }
        b't' => {
            *p += 4;
            J::Bool(true)
        }
        b'f' => {
            *p += 5;
            J::Bool(false)
        }
        b'n' => {
            *p += 4;
            J::Null
        }
        _ => {
            let st = *p;
            while *p < b.len() && (b[*p] == b'-' || b[*p].is_ascii_digit()) {
                *p += 1;
            }
            J::Num(
                std::str::from_utf8(&b[st..*p])
                    .unwrap()
                    .parse()
                    .unwrap_or_else(|_| panic!("VH: bad number at {}", st)),
            )
        }
    }
}

pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
