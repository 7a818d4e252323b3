//! Just enough JSON for replay and evidence files.
use std::fmt::Write;

#[derive(Clone, Debug)]
pub enum J {
    Null,
    B(bool),
    U(u64),
    F(f64),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
}
pub fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::O(v) => v.iter().find(|x| x.0 == k).map(|x| &x.1),
            _ => None,
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::S(x) => x,
            _ => "",
        }
    }
    pub fn u(&self) -> u64 {
        match self {
            J::U(x) => *x,
            _ => 0,
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::A(x) => x,
            _ => &[],
        }
    }
    pub fn dump(&self) -> String {
        let mut o = String::new();
        self.w(&mut o, 0);
        o.push('\n');
        o
    }
    fn flat(&self) -> bool {
        match self {
            J::A(v) => v.iter().all(|x| matches!(x, J::U(_) | J::F(_) | J::B(_) | J::Null)),
            J::O(v) => v.is_empty(),
            _ => true,
        }
    }
    fn w(&self, o: &mut String, ind: usize) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => write!(o, "{}", b).unwrap(),
            J::U(x) => write!(o, "{}", x).unwrap(),
            J::F(x) => write!(o, "{:.3}", x).unwrap(),
            J::S(x) => {
                o.push('"');
                for c in x.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        '\t' => o.push_str("\\t"),
                        c if (c as u32) < 32 || (c as u32) > 126 => {
                            let mut b = [0u16; 2];
                            for u in c.encode_utf16(&mut b) {
                                write!(o, "\\u{:04x}", u).unwrap()
                            }
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                let flat = self.flat();
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    if !flat {
                        o.push('\n');
                        o.extend(std::iter::repeat(' ').take(ind + 1));
                    }
                    x.w(o, ind + 1);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    o.push('\n');
                    o.extend(std::iter::repeat(' ').take(ind + 1));
                    J::S(k.clone()).w(o, 0);
                    o.push_str(": ");
                    x.w(o, ind + 1);
                }
                o.push('}');
            }
        }
    }
    pub fn parse(t: &str) -> Result<J, String> {
        let b = t.as_bytes();
        let mut i = 0;
        let v = Self::p(b, &mut i)?;
        Ok(v)
    }
    fn ws(b: &[u8], i: &mut usize) {
        while *i < b.len() && b[*i].is_ascii_whitespace() {
            *i += 1
        }
    }
    fn p(b: &[u8], i: &mut usize) -> Result<J, String> {
        Self::ws(b, i);
        let c = *b.get(*i).ok_or("unexpected end")?;
        match c {
            b'{' => {
                *i += 1;
                let mut v = vec![];
                loop {
                    Self::ws(b, i);
                    match b.get(*i) {
                        Some(b'}') => {
                            *i += 1;
                            return Ok(J::O(v));
                        }
                        Some(b',') => *i += 1,
                        Some(_) => {
                            let k = match Self::p(b, i)? {
                                J::S(k) => k,
                                _ => return Err("key".into()),
                            };
                            Self::ws(b, i);
                            if b.get(*i) != Some(&b':') {
                                return Err("colon".into());
                            }
                            *i += 1;
                            v.push((k, Self::p(b, i)?));
                        }
                        None => return Err("end".into()),
                    }
                }
            }
            b'[' => {
                *i += 1;
                let mut v = vec![];
                loop {
                    Self::ws(b, i);
                    match b.get(*i) {
                        Some(b']') => {
                            *i += 1;
                            return Ok(J::A(v));
                        }
                        Some(b',') => *i += 1,
                        Some(_) => v.push(Self::p(b, i)?),
                        None => return Err("end".into()),
                    }
                }
            }
            b'"' => {
                *i += 1;
                let mut u: Vec<u16> = vec![];
                let mut out: Vec<u8> = vec![];
                loop {
                    let c = *b.get(*i).ok_or("end")?;
                    *i += 1;
                    if c == b'\\' && b.get(*i) == Some(&b'u') {
                        let h = std::str::from_utf8(b.get(*i + 1..*i + 5).ok_or("end")?).map_err(|_| "u")?;
                        u.push(u16::from_str_radix(h, 16).map_err(|_| "u")?);
                        *i += 5;
                        continue;
                    }
                    if !u.is_empty() {
                        out.extend(String::from_utf16_lossy(&u).bytes());
                        u.clear();
                    }
                    match c {
                        b'"' => return Ok(J::S(String::from_utf8_lossy(&out).into_owned())),
                        b'\\' => {
                            let e = *b.get(*i).ok_or("end")?;
                            *i += 1;
                            out.push(match e {
                                b'n' => b'\n',
                                b't' => b'\t',
                                x => x,
                            })
                        }
                        c => out.push(c),
                    }
                }
            }
            b't' => {
                *i += 4;
                Ok(J::B(true))
            }
            b'f' => {
                *i += 5;
                Ok(J::B(false))
            }
            b'n' => {
                *i += 4;
                Ok(J::Null)
            }
            _ => {
                let st = *i;
                while *i < b.len() && (b[*i].is_ascii_digit() || b"+-.eE".contains(&b[*i])) {
                    *i += 1
                }
                let t = std::str::from_utf8(&b[st..*i]).map_err(|_| "num")?;
                if let Ok(x) = t.parse::<u64>() {
                    Ok(J::U(x))
                } else {
                    t.parse::<f64>().map(J::F).map_err(|_| format!("bad number {:?} at {}", t, st))
                }
            }
        }
    }
}
