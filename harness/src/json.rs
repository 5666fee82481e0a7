//! Just enough JSON.

#[derive(Debug, Clone)]
pub enum J {
    Null,
    Bool(bool),
    Num(i64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl J {
    pub fn get(&self, k: &str) -> &J {
        match self {
            J::Obj(v) => v.iter().find(|x| x.0 == k).map(|x| &x.1).unwrap_or(&J::Null),
            _ => &J::Null,
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            _ => &[],
        }
    }
    pub fn num(&self) -> i64 {
        match self {
            J::Num(n) => *n,
            _ => panic!("not a number: {:?}", self),
        }
    }
    pub fn bool(&self) -> bool {
        matches!(self, J::Bool(true))
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => "",
        }
    }
    pub fn ints(&self) -> Vec<i64> {
        self.arr().iter().map(|x| x.num()).collect()
    }
}

pub fn parse(s: &str) -> J {
    let b = s.as_bytes();
    let mut i = 0;
    let v = value(b, &mut i);
    ws(b, &mut i);
    assert!(i == b.len(), "trailing data in JSON");
    v
}

fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && (b[*i] as char).is_ascii_whitespace() {
        *i += 1;
    }
}

fn value(b: &[u8], i: &mut usize) -> J {
    ws(b, i);
    match b[*i] {
        b'{' => {
            *i += 1;
            let mut v = Vec::new();
            ws(b, i);
            while b[*i] != b'}' {
                ws(b, i);
                let k = match value(b, i) {
                    J::Str(s) => s,
                    _ => panic!("JSON key"),
                };
                ws(b, i);
                assert!(b[*i] == b':');
                *i += 1;
                v.push((k, value(b, i)));
                ws(b, i);
                if b[*i] == b',' {
                    *i += 1;
                }
            }
            *i += 1;
            J::Obj(v)
        }
        b'[' => {
            *i += 1;
            let mut v = Vec::new();
            ws(b, i);
            while b[*i] != b']' {
                v.push(value(b, i));
                ws(b, i);
                if b[*i] == b',' {
                    *i += 1;
                }
                ws(b, i);
            }
            *i += 1;
            J::Arr(v)
        }
        b'"' => {
            *i += 1;
            let mut s = Vec::new();
            while b[*i] != b'"' {
                if b[*i] == b'\\' {
                    *i += 1;
                    match b[*i] {
                        b'n' => s.push(b'\n'),
                        b't' => s.push(b'\t'),
                        b'u' => {
                            let h = std::str::from_utf8(&b[*i + 1..*i + 5]).unwrap();
                            let c = char::from_u32(u32::from_str_radix(h, 16).unwrap()).unwrap_or('?');
                            let mut t = [0; 4];
                            s.extend_from_slice(c.encode_utf8(&mut t).as_bytes());
                            *i += 4;
                        }
                        c => s.push(c),
                    }
                } else {
                    s.push(b[*i]);
                }
                *i += 1;
            }
            *i += 1;
            J::Str(String::from_utf8(s).unwrap())
        }
        b't' => {
            *i += 4;
            J::Bool(true)
        }
        b'f' => {
            *i += 5;
            J::Bool(false)
        }
        b'n' => {
            *i += 4;
            J::Null
        }
        _ => {
            let st = *i;
            while *i < b.len() && (b[*i] == b'-' || (b[*i] as char).is_ascii_digit()) {
                *i += 1;
            }
            J::Num(std::str::from_utf8(&b[st..*i]).unwrap().parse().expect("JSON number"))
        }
    }
}

pub fn list<I: IntoIterator<Item = i64>>(it: I) -> String {
    let mut s = String::from("[");
    for (i, x) in it.into_iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&x.to_string());
    }
    s.push(']');
    s
}
