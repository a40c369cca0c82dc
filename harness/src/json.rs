//! A small JSON reader: just enough for scripts (integers only).
#[derive(Debug, Clone, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(i64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

pub struct P<'a> {
    s: &'a [u8],
    i: usize,
}

pub fn parse(s: &str) -> J {
    let mut p = P { s: s.as_bytes(), i: 0 };
    let v = p.value();
    p.ws();
    assert_eq!(p.i, p.s.len(), "trailing characters in JSON");
    v
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] as char).is_ascii_whitespace() {
            self.i += 1;
        }
    }
    fn value(&mut self) -> J {
        self.ws();
        match self.s[self.i] {
            b'{' => {
                self.i += 1;
                let mut o = Vec::new();
                loop {
                    self.ws();
                    match self.s[self.i] {
                        b'}' => {
                            self.i += 1;
                            return J::Obj(o);
                        }
                        b',' => self.i += 1,
                        _ => {
                            let k = match self.value() {
                                J::Str(k) => k,
                                _ => panic!("bad key"),
                            };
                            self.ws();
                            assert_eq!(self.s[self.i], b':');
                            self.i += 1;
                            let v = self.value();
                            o.push((k, v));
                        }
                    }
                }
            }
            b'[' => {
                self.i += 1;
                let mut a = Vec::new();
                loop {
                    self.ws();
                    match self.s[self.i] {
                        b']' => {
                            self.i += 1;
                            return J::Arr(a);
                        }
                        b',' => self.i += 1,
                        _ => a.push(self.value()),
                    }
                }
            }
            b'"' => {
                self.i += 1;
                let st = self.i;
                while self.s[self.i] != b'"' {
                    assert_ne!(self.s[self.i], b'\\', "escapes unsupported");
                    self.i += 1;
                }
                let r = String::from_utf8(self.s[st..self.i].to_vec()).unwrap();
                self.i += 1;
                J::Str(r)
            }
            b't' => {
                self.i += 4;
                J::Bool(true)
            }
            b'f' => {
                self.i += 5;
                J::Bool(false)
            }
            b'n' => {
                self.i += 4;
                J::Null
            }
            _ => {
                let st = self.i;
                while self.i < self.s.len() && (self.s[self.i] == b'-' || self.s[self.i].is_ascii_digit()) {
                    self.i += 1;
                }
                J::Num(std::str::from_utf8(&self.s[st..self.i]).unwrap().parse().expect("number"))
            }
        }
    }
}

impl J {
    pub fn get(&self, k: &str) -> &J {
        match self {
            J::Obj(o) => o.iter().find(|x| x.0 == k).map(|x| &x.1).unwrap_or_else(|| panic!("no field {}", k)),
            _ => panic!("not an object"),
        }
    }
    pub fn opt(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(o) => o.iter().find(|x| x.0 == k).map(|x| &x.1),
            _ => None,
        }
    }
    pub fn s(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => panic!("not a string: {:?}", self),
        }
    }
    pub fn n(&self) -> i64 {
        match self {
            J::Num(n) => *n,
            _ => panic!("not a number: {:?}", self),
        }
    }
    pub fn b(&self) -> bool {
        match self {
            J::Bool(b) => *b,
            _ => panic!("not a bool: {:?}", self),
        }
    }
    pub fn a(&self) -> &[J] {
        match self {
            J::Arr(a) => a,
            // TLC prints an empty function/record for the empty sequence in places
            J::Obj(o) if o.is_empty() => &[],
            _ => panic!("not an array: {:?}", self),
        }
    }
    /// 4 x 16 bit, most significant first
    pub fn u64(&self) -> u64 {
        self.a().iter().fold(0u64, |x, h| (x << 16) | (h.n() as u64))
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.a().iter().map(|x| x.n() as u8).collect()
    }
}
