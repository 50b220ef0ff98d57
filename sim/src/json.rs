//! A very small JSON reader and writer.
use std::collections::BTreeMap;
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(i128),
    F(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(BTreeMap<String, J>),
}
impl J {
    pub fn s(x: impl Into<String>) -> J {
        J::Str(x.into())
    }
    pub fn n(x: impl Into<i128>) -> J {
        J::Num(x.into())
    }
    pub fn obj(v: Vec<(&str, J)>) -> J {
        J::Obj(v.into_iter().map(|(a, b)| (a.to_string(), b)).collect())
    }
    pub fn get(&self, k: &str) -> &J {
        static N: J = J::Null;
        match self {
            J::Obj(m) => m.get(k).unwrap_or(&N),
            _ => &N,
        }
    }
    pub fn str(&self) -> String {
        match self {
            J::Str(s) => s.clone(),
            _ => String::new(),
        }
    }
    pub fn u(&self) -> u64 {
        match self {
            J::Num(n) => *n as u64,
            J::F(f) => *f as u64,
            _ => 0,
        }
    }
    pub fn write(&self, o: &mut String, ind: usize) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Num(n) => o.push_str(&n.to_string()),
            J::F(f) => o.push_str(&format!("{f:.3}")),
            J::Str(s) => esc(s, o),
            J::Arr(a) => {
                let flat = a.iter().all(|x| matches!(x, J::Num(_)));
                o.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    if !flat {
                        nl(o, ind + 1);
                    }
                    x.write(o, ind + 1);
                }
                if !flat && !a.is_empty() {
                    nl(o, ind);
                }
                o.push(']');
            }
            J::Obj(m) => {
                o.push('{');
                for (i, (k, v)) in m.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    nl(o, ind + 1);
                    esc(k, o);
                    o.push_str(": ");
                    v.write(o, ind + 1);
                }
                if !m.is_empty() {
                    nl(o, ind);
                }
                o.push('}');
            }
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.write(&mut s, 0);
        s.push('\n');
        s
    }
    pub fn parse(t: &str) -> Option<J> {
        let b = t.as_bytes();
        let mut p = 0;
        let v = val(b, &mut p)?;
        Some(v)
    }
}
fn nl(o: &mut String, ind: usize) {
    o.push('\n');
    for _ in 0..ind {
        o.push(' ');
    }
}
fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
}
fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && b[*p].is_ascii_whitespace() {
        *p += 1
    }
}
fn val(b: &[u8], p: &mut usize) -> Option<J> {
    ws(b, p);
    match b.get(*p)? {
        b'{' => {
            *p += 1;
            let mut m = BTreeMap::new();
            loop {
                ws(b, p);
                match b.get(*p)? {
                    b'}' => {
                        *p += 1;
                        return Some(J::Obj(m));
                    }
                    b',' => *p += 1,
                    _ => {
                        let k = val(b, p)?.str();
                        ws(b, p);
                        if *b.get(*p)? != b':' {
                            return None;
                        }
                        *p += 1;
                        m.insert(k, val(b, p)?);
                    }
                }
            }
        }
        b'[' => {
            *p += 1;
            let mut v = vec![];
            loop {
                ws(b, p);
                match b.get(*p)? {
                    b']' => {
                        *p += 1;
                        return Some(J::Arr(v));
                    }
                    b',' => *p += 1,
                    _ => v.push(val(b, p)?),
                }
            }
        }
        b'"' => {
            *p += 1;
            let mut s = vec![];
            loop {
                let c = *b.get(*p)?;
                *p += 1;
                match c {
                    b'"' => break,
                    b'\\' => {
                        let e = *b.get(*p)?;
                        *p += 1;
                        match e {
                            b'n' => s.push(b'\n'),
                            b'u' => {
                                let h = std::str::from_utf8(b.get(*p..*p + 4)?).ok()?;
                                *p += 4;
                                let ch = char::from_u32(u32::from_str_radix(h, 16).ok()?)?;
                                s.extend_from_slice(ch.to_string().as_bytes());
                            }
                            x => s.push(x),
                        }
                    }
                    x => s.push(x),
                }
            }
            Some(J::Str(String::from_utf8(s).ok()?))
        }
        b't' => {
            *p += 4;
            Some(J::Bool(true))
        }
        b'f' => {
            *p += 5;
            Some(J::Bool(false))
        }
        b'n' => {
            *p += 4;
            Some(J::Null)
        }
        _ => {
            let s = *p;
            while *p < b.len() && (b[*p] == b'-' || b[*p] == b'+' || b[*p] == b'.' || b[*p].is_ascii_alphanumeric()) {
                *p += 1
            }
            let t = std::str::from_utf8(&b[s..*p]).ok()?;
            t.parse::<i128>().map(J::Num).ok().or_else(|| t.parse::<f64>().map(J::F).ok())
        }
    }
}
