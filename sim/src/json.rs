//! A tiny JSON tree (integers, strings, booleans, arrays, objects): plans, replay files, worker results.
//! Accessors default to zero/empty so that a shrunk plan is still a plan.
use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Null,
    Bool(bool),
    Int(i64),
    Num(f64),
    Str(String),
    Arr(Vec<V>),
    Obj(BTreeMap<String, V>),
}

static NULL: V = V::Null;
static EMPTY: Vec<V> = Vec::new();

impl V {
    pub fn obj() -> V {
        V::Obj(BTreeMap::new())
    }
    pub fn set(mut self, k: &str, v: impl Into<V>) -> V {
        if let V::Obj(m) = &mut self {
            m.insert(k.to_string(), v.into());
        }
        self
    }
    pub fn put(&mut self, k: &str, v: impl Into<V>) {
        if let V::Obj(m) = self {
            m.insert(k.to_string(), v.into());
        }
    }
    pub fn get(&self, k: &str) -> &V {
        match self {
            V::Obj(m) => m.get(k).unwrap_or(&NULL),
            _ => &NULL,
        }
    }
    pub fn has(&self, k: &str) -> bool {
        !matches!(self.get(k), V::Null)
    }
    pub fn at(&self, i: usize) -> &V {
        match self {
            V::Arr(a) => a.get(i).unwrap_or(&NULL),
            _ => &NULL,
        }
    }
    pub fn arr(&self) -> &Vec<V> {
        match self {
            V::Arr(a) => a,
            _ => &EMPTY,
        }
    }
    pub fn int(&self) -> i64 {
        match self {
            V::Int(i) => *i,
            V::Num(f) => *f as i64,
            V::Bool(b) => *b as i64,
            _ => 0,
        }
    }
    pub fn i(&self, k: &str) -> i64 {
        self.get(k).int()
    }
    pub fn u(&self, k: &str) -> u64 {
        self.get(k).int().max(0) as u64
    }
    pub fn b(&self, k: &str) -> bool {
        self.get(k).int() != 0
    }
    pub fn str(&self) -> &str {
        match self {
            V::Str(s) => s,
            _ => "",
        }
    }
    pub fn s(&self, k: &str) -> &str {
        self.get(k).str()
    }
    pub fn write(&self, out: &mut String) {
        match self {
            V::Null => out.push_str("null"),
            V::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            V::Int(i) => {
                let _ = write!(out, "{}", i);
            }
            V::Num(f) => {
                if f.is_finite() {
                    let _ = write!(out, "{}", f);
                } else {
                    out.push_str("null");
                }
            }
            V::Str(s) => {
                out.push('"');
                for c in s.chars() {
                    match c {
                        '"' => out.push_str("\\\""),
                        '\\' => out.push_str("\\\\"),
                        '\n' => out.push_str("\\n"),
                        c if (c as u32) < 0x20 => {
                            let _ = write!(out, "\\u{:04x}", c as u32);
                        }
                        c => out.push(c),
                    }
                }
                out.push('"');
            }
            V::Arr(a) => {
                out.push('[');
                for (i, v) in a.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    v.write(out);
                }
                out.push(']');
            }
            V::Obj(m) => {
                out.push('{');
                for (i, (k, v)) in m.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    V::Str(k.clone()).write(out);
                    out.push(':');
                    v.write(out);
                }
                out.push('}');
            }
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        s
    }
    pub fn parse(s: &str) -> Result<V, String> {
        let b: Vec<char> = s.chars().collect();
        let mut p = 0;
        let v = val(&b, &mut p)?;
        ws(&b, &mut p);
        if p != b.len() {
            return Err(format!("trailing text at {}", p));
        }
        Ok(v)
    }
}

fn ws(b: &[char], p: &mut usize) {
    while *p < b.len() && b[*p].is_whitespace() {
        *p += 1;
    }
}

fn val(b: &[char], p: &mut usize) -> Result<V, String> {
    ws(b, p);
    let c = *b.get(*p).ok_or("unexpected end")?;
    match c {
        '{' => {
            *p += 1;
            let mut m = BTreeMap::new();
            loop {
                ws(b, p);
                if b.get(*p) == Some(&'}') {
                    *p += 1;
                    return Ok(V::Obj(m));
                }
                let k = match val(b, p)? {
                    V::Str(s) => s,
                    _ => return Err("key".into()),
                };
                ws(b, p);
                if b.get(*p) != Some(&':') {
                    return Err("colon".into());
                }
                *p += 1;
                m.insert(k, val(b, p)?);
                ws(b, p);
                if b.get(*p) == Some(&',') {
                    *p += 1;
                }
            }
        }
        '[' => {
            *p += 1;
            let mut a = vec![];
            loop {
                ws(b, p);
                if b.get(*p) == Some(&']') {
                    *p += 1;
                    return Ok(V::Arr(a));
                }
                a.push(val(b, p)?);
                ws(b, p);
                if b.get(*p) == Some(&',') {
                    *p += 1;
                }
            }
        }
        '"' => {
            *p += 1;
            let mut s = String::new();
            loop {
                let c = *b.get(*p).ok_or("string")?;
                *p += 1;
                match c {
                    '"' => return Ok(V::Str(s)),
                    '\\' => {
                        let e = *b.get(*p).ok_or("escape")?;
                        *p += 1;
                        match e {
                            'n' => s.push('\n'),
                            't' => s.push('\t'),
                            'u' => {
                                let h: String = b.get(*p..*p + 4).ok_or("u")?.iter().collect();
                                *p += 4;
                                let n = u32::from_str_radix(&h, 16).map_err(|e| e.to_string())?;
                                s.push(char::from_u32(n).unwrap_or('?'));
                            }
                            e => s.push(e),
                        }
                    }
                    c => s.push(c),
                }
            }
        }
        't' => {
            *p += 4;
            Ok(V::Bool(true))
        }
        'f' => {
            *p += 5;
            Ok(V::Bool(false))
        }
        'n' => {
            *p += 4;
            Ok(V::Null)
        }
        _ => {
            let st = *p;
            while *p < b.len() && (b[*p].is_ascii_digit() || "+-.eE".contains(b[*p])) {
                *p += 1;
            }
            if st == *p {
                return Err(format!("unexpected {:?} at {}", c, st));
            }
            let t: String = b[st..*p].iter().collect();
            match t.parse::<i64>() {
                Ok(i) => Ok(V::Int(i)),
                Err(_) => t.parse::<f64>().map(V::Num).map_err(|e| e.to_string()),
            }
        }
    }
}

macro_rules! from_int { ($($t:ty),*) => { $(impl From<$t> for V { fn from(x: $t) -> V { V::Int(x as i64) } })* } }
from_int!(i64, u64, i32, u32, usize);
impl From<bool> for V {
    fn from(x: bool) -> V {
        V::Bool(x)
    }
}
impl From<f64> for V {
    fn from(x: f64) -> V {
        V::Num(x)
    }
}
impl From<&str> for V {
    fn from(x: &str) -> V {
        V::Str(x.to_string())
    }
}
impl From<String> for V {
    fn from(x: String) -> V {
        V::Str(x)
    }
}
impl<T: Into<V>> From<Vec<T>> for V {
    fn from(x: Vec<T>) -> V {
        V::Arr(x.into_iter().map(|v| v.into()).collect())
    }
}
