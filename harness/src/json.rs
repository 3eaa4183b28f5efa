//! Minimal JSON, for replay files, regression files and evidence.
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}
impl J {
    pub fn s(s: impl Into<String>) -> J {
        J::Str(s.into())
    }
    pub fn n(n: impl Into<f64>) -> J {
        J::Num(n.into())
    }
    pub fn u(n: usize) -> J {
        J::Num(n as f64)
    }
    pub fn obj(v: Vec<(&str, J)>) -> J {
        J::Obj(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
    }
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(v) => v.iter().find(|(n, _)| n == k).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn str(&self) -> Option<&str> {
        match self {
            J::Str(s) => Some(s),
            _ => None,
        }
    }
    pub fn num(&self) -> Option<f64> {
        match self {
            J::Num(s) => Some(*s),
            _ => None,
        }
    }
    pub fn arr(&self) -> Option<&[J]> {
        match self {
            J::Arr(s) => Some(s),
            _ => None,
        }
    }
    pub fn bool(&self) -> Option<bool> {
        match self {
            J::Bool(b) => Some(*b),
            _ => None,
        }
    }
    pub fn show(&self) -> String {
        let mut o = String::new();
        self.write(&mut o);
        o
    }
    fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => write!(o, "{}", b).unwrap(),
            J::Num(n) => {
                if n.is_finite() {
                    write!(o, "{}", n).unwrap()
                } else {
                    write!(o, "\"{}\"", n).unwrap()
                }
            }
            J::Str(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        '\r' => o.push_str("\\r"),
                        '\t' => o.push_str("\\t"),
                        c if (c as u32) < 0x20 || c as u32 == 0x7f || (c as u32) > 0x7e => {
                            let mut b = [0u16; 2];
                            for u in c.encode_utf16(&mut b) {
                                write!(o, "\\u{:04x}", u).unwrap();
                            }
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::Arr(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.write(o);
                }
                o.push(']');
            }
            J::Obj(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    J::Str(k.clone()).write(o);
                    o.push(':');
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
    pub fn parse(s: &str) -> Result<J, String> {
        let c: Vec<char> = s.chars().collect();
        let mut p = 0;
        let v = val(&c, &mut p)?;
        ws(&c, &mut p);
        if p != c.len() {
            return Err(format!("trailing text at {}", p));
        }
        Ok(v)
    }
}
fn ws(c: &[char], p: &mut usize) {
    while *p < c.len() && c[*p].is_whitespace() {
        *p += 1;
    }
}
fn val(c: &[char], p: &mut usize) -> Result<J, String> {
    ws(c, p);
    let e = |p: usize| Err(format!("bad JSON at {}", p));
    match c.get(*p) {
        Some('{') => {
            *p += 1;
            let mut v = vec![];
            ws(c, p);
            if c.get(*p) == Some(&'}') {
                *p += 1;
                return Ok(J::Obj(v));
            }
            loop {
                let k = match val(c, p)? {
                    J::Str(s) => s,
                    _ => return e(*p),
                };
                ws(c, p);
                if c.get(*p) != Some(&':') {
                    return e(*p);
                }
                *p += 1;
                v.push((k, val(c, p)?));
                ws(c, p);
                match c.get(*p) {
                    Some(',') => *p += 1,
                    Some('}') => {
                        *p += 1;
                        return Ok(J::Obj(v));
                    }
                    _ => return e(*p),
                }
            }
        }
        Some('[') => {
            *p += 1;
            let mut v = vec![];
            ws(c, p);
            if c.get(*p) == Some(&']') {
                *p += 1;
                return Ok(J::Arr(v));
            }
            loop {
                v.push(val(c, p)?);
                ws(c, p);
                match c.get(*p) {
                    Some(',') => *p += 1,
                    Some(']') => {
                        *p += 1;
                        return Ok(J::Arr(v));
                    }
                    _ => return e(*p),
                }
            }
        }
        Some('"') => {
            *p += 1;
            let mut units: Vec<u16> = vec![];
            loop {
                match c.get(*p) {
                    None => return e(*p),
                    Some('"') => {
                        *p += 1;
                        return Ok(J::Str(String::from_utf16_lossy(&units)));
                    }
                    Some('\\') => {
                        *p += 1;
                        let k = *c.get(*p).ok_or("eof")?;
                        *p += 1;
                        match k {
                            'n' => units.push(10),
                            'r' => units.push(13),
                            't' => units.push(9),
                            'b' => units.push(8),
                            'f' => units.push(12),
                            'u' => {
                                if *p + 4 > c.len() {
                                    return e(*p);
                                }
                                let h: String = c[*p..*p + 4].iter().collect();
                                units.push(u16::from_str_radix(&h, 16).map_err(|x| x.to_string())?);
                                *p += 4;
                            }
                            k => units.push(k as u16),
                        }
                    }
                    Some(&k) => {
                        let mut b = [0u16; 2];
                        units.extend_from_slice(k.encode_utf16(&mut b));
                        *p += 1;
                    }
                }
            }
        }
        Some(_) => {
            let st = *p;
            while *p < c.len() && !matches!(c[*p], ',' | ']' | '}') && !c[*p].is_whitespace() {
                *p += 1;
            }
            let w: String = c[st..*p].iter().collect();
            match &w[..] {
                "null" => Ok(J::Null),
                "true" => Ok(J::Bool(true)),
                "false" => Ok(J::Bool(false)),
                _ => w.parse().map(J::Num).map_err(|_| format!("bad JSON at {}", st)),
            }
        }
        None => e(*p),
    }
}
