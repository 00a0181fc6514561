//! Minimal JSON: enough for replay files, the known-findings file and evidence.
use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(BTreeMap<String, J>),
}

impl J {
    pub fn s(x: impl Into<String>) -> J {
        J::Str(x.into())
    }
    pub fn n(x: impl Into<f64>) -> J {
        J::Num(x.into())
    }
    pub fn u(x: u64) -> J {
        J::Num(x as f64)
    }
    pub fn obj(kv: Vec<(&str, J)>) -> J {
        J::Obj(kv.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
    }
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(m) => m.get(k),
            _ => None,
        }
    }
    pub fn str(&self) -> Option<&str> {
        match self {
            J::Str(s) => Some(s),
            _ => None,
        }
    }
    pub fn num(&self) -> Option<f64> {
        match self {
            J::Num(s) => Some(*s),
            _ => None,
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(a) => a,
            _ => &[],
        }
    }
    pub fn write(&self, out: &mut String, ind: usize) {
        match self {
            J::Null => out.push_str("null"),
            J::Bool(b) => {
                let _ = write!(out, "{b}");
            }
            J::Num(n) => {
                if n.fract() == 0.0 && n.abs() < 9e15 {
                    let _ = write!(out, "{}", *n as i64);
                } else {
                    let _ = write!(out, "{n}");
                }
            }
            J::Str(s) => {
                out.push('"');
                for c in s.chars() {
                    match c {
                        '"' => out.push_str("\\\""),
                        '\\' => out.push_str("\\\\"),
                        '\n' => out.push_str("\\n"),
                        '\r' => out.push_str("\\r"),
                        '\t' => out.push_str("\\t"),
                        c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                            let _ = write!(out, "\\u{:04x}", c as u32);
                        }
                        c => out.push(c),
                    }
                }
                out.push('"');
            }
            J::Arr(a) => {
                let flat = a.iter().all(|x| matches!(x, J::Num(_) | J::Bool(_) | J::Null));
                out.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    if !flat {
                        out.push('\n');
                        out.push_str(&" ".repeat(ind + 1));
                    }
                    x.write(out, ind + 1);
                }
                if !flat && !a.is_empty() {
                    out.push('\n');
                    out.push_str(&" ".repeat(ind));
                }
                out.push(']');
            }
            J::Obj(m) => {
                out.push('{');
                for (i, (k, v)) in m.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    out.push('\n');
                    out.push_str(&" ".repeat(ind + 1));
                    J::Str(k.clone()).write(out, 0);
                    out.push_str(": ");
                    v.write(out, ind + 1);
                }
                if !m.is_empty() {
                    out.push('\n');
                    out.push_str(&" ".repeat(ind));
                }
                out.push('}');
            }
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.write(&mut s, 0);
        s.push('\n');
        s
    }
    pub fn parse(s: &str) -> Result<J, String> {
        let b = s.as_bytes();
        let mut p = 0;
        let v = val(b, &mut p)?;
        ws(b, &mut p);
        if p != b.len() {
            return Err(format!("trailing text at {p}"));
        }
        Ok(v)
    }
}

fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && b[*p].is_ascii_whitespace() {
        *p += 1;
    }
}

fn val(b: &[u8], p: &mut usize) -> Result<J, String> {
    ws(b, p);
    match b.get(*p) {
        None => Err("unexpected end".into()),
        Some(b'{') => {
            *p += 1;
            let mut m = BTreeMap::new();
            loop {
                ws(b, p);
                if b.get(*p) == Some(&b'}') {
                    *p += 1;
                    return Ok(J::Obj(m));
                }
                if !m.is_empty() {
                    if b.get(*p) != Some(&b',') {
                        return Err(format!("expected , at {p}"));
                    }
                    *p += 1;
                }
                let J::Str(k) = val(b, p)? else { return Err("key".into()) };
                ws(b, p);
                if b.get(*p) != Some(&b':') {
                    return Err(format!("expected : at {p}"));
                }
                *p += 1;
                let v = val(b, p)?;
                m.insert(k, v);
            }
        }
        Some(b'[') => {
            *p += 1;
            let mut a = Vec::new();
            loop {
                ws(b, p);
                if b.get(*p) == Some(&b']') {
                    *p += 1;
                    return Ok(J::Arr(a));
                }
                if !a.is_empty() {
                    if b.get(*p) != Some(&b',') {
                        return Err(format!("expected , at {p}"));
                    }
                    *p += 1;
                }
                a.push(val(b, p)?);
            }
        }
        Some(b'"') => {
            *p += 1;
            let mut out = Vec::new();
            loop {
                match b.get(*p) {
                    None => return Err("string".into()),
                    Some(b'"') => {
                        *p += 1;
                        return String::from_utf8(out).map(J::Str).map_err(|e| e.to_string());
                    }
                    Some(b'\\') => {
                        let c = *b.get(*p + 1).ok_or("escape")?;
                        *p += 2;
                        match c {
                            b'n' => out.push(b'\n'),
                            b'r' => out.push(b'\r'),
                            b't' => out.push(b'\t'),
                            b'u' => {
                                let h = std::str::from_utf8(b.get(*p..*p + 4).ok_or("u")?).map_err(|e| e.to_string())?;
                                let v = u32::from_str_radix(h, 16).map_err(|e| e.to_string())?;
                                *p += 4;
                                let ch = char::from_u32(v).unwrap_or('\u{fffd}');
                                out.extend_from_slice(ch.to_string().as_bytes());
                            }
                            c => out.push(c),
                        }
                    }
                    Some(c) => {
                        out.push(*c);
                        *p += 1;
                    }
                }
            }
        }
        Some(b't') if b[*p..].starts_with(b"true") => {
            *p += 4;
            Ok(J::Bool(true))
        }
        Some(b'f') if b[*p..].starts_with(b"false") => {
            *p += 5;
            Ok(J::Bool(false))
        }
        Some(b'n') if b[*p..].starts_with(b"null") => {
            *p += 4;
            Ok(J::Null)
        }
        Some(_) => {
            let st = *p;
            while *p < b.len() && matches!(b[*p], b'0'..=b'9' | b'-' | b'+' | b'.' | b'e' | b'E') {
                *p += 1;
            }
            std::str::from_utf8(&b[st..*p])
                .ok()
                .and_then(|x| x.parse().ok())
                .map(J::Num)
                .ok_or(format!("bad value at {st}"))
        }
    }
}
