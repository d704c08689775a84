//! A minimal JSON value: enough to write evidence and replay files and to
//! read replay files back.
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i64),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl J {
    pub fn s(x: impl Into<String>) -> J {
        J::Str(x.into())
    }
    pub fn obj(kv: Vec<(&str, J)>) -> J {
        J::Obj(kv.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
    }
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(kv) => kv.iter().find(|(x, _)| x == k).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn str(&self) -> Option<&str> {
        match self {
            J::Str(s) => Some(s),
            _ => None,
        }
    }
    pub fn int(&self) -> Option<i64> {
        match self {
            J::Int(i) => Some(*i),
            _ => None,
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(a) => a,
            _ => &[],
        }
    }
    pub fn render(&self) -> String {
        let mut s = String::new();
        self.w(&mut s, 0);
        s
    }
    fn w(&self, o: &mut String, ind: usize) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => write!(o, "{b}").unwrap(),
            J::Int(i) => write!(o, "{i}").unwrap(),
            J::Num(f) => write!(o, "{f:.3}").unwrap(),
            J::Str(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        '\r' => o.push_str("\\r"),
                        '\t' => o.push_str("\\t"),
                        c if (c as u32) < 0x20 || (c as u32) == 0x7f => write!(o, "\\u{:04x}", c as u32).unwrap(),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::Arr(a) => {
                o.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        o.push_str(", ");
                    }
                    x.w(o, ind + 1);
                }
                o.push(']');
            }
            J::Obj(kv) => {
                o.push_str("{\n");
                for (i, (k, v)) in kv.iter().enumerate() {
                    o.push_str(&" ".repeat(ind + 1));
                    J::Str(k.clone()).w(o, 0);
                    o.push_str(": ");
                    v.w(o, ind + 1);
                    if i + 1 < kv.len() {
                        o.push(',');
                    }
                    o.push('\n');
                }
                o.push_str(&" ".repeat(ind));
                o.push('}');
            }
        }
    }
    pub fn parse(text: &str) -> Result<J, String> {
        let b: Vec<char> = text.chars().collect();
        let mut p = 0;
        let v = parse_val(&b, &mut p)?;
        Ok(v)
    }
}

fn ws(b: &[char], p: &mut usize) {
    while *p < b.len() && b[*p].is_whitespace() {
        *p += 1;
    }
}

fn parse_val(b: &[char], p: &mut usize) -> Result<J, String> {
    ws(b, p);
    let c = *b.get(*p).ok_or("unexpected end")?;
    match c {
        '{' => {
            *p += 1;
            let mut kv = vec![];
            loop {
                ws(b, p);
                match b.get(*p) {
                    Some('}') => {
                        *p += 1;
                        return Ok(J::Obj(kv));
                    }
                    Some(',') => *p += 1,
                    Some('"') => {
                        let k = parse_val(b, p)?;
                        ws(b, p);
                        if b.get(*p) != Some(&':') {
                            return Err("expected ':'".into());
                        }
                        *p += 1;
                        let v = parse_val(b, p)?;
                        kv.push((k.str().unwrap().to_string(), v));
                    }
                    _ => return Err("bad object".into()),
                }
            }
        }
        '[' => {
            *p += 1;
            let mut a = vec![];
            loop {
                ws(b, p);
                match b.get(*p) {
                    Some(']') => {
                        *p += 1;
                        return Ok(J::Arr(a));
                    }
                    Some(',') => *p += 1,
                    Some(_) => a.push(parse_val(b, p)?),
                    None => return Err("bad array".into()),
                }
            }
        }
        '"' => {
            *p += 1;
            let mut s = String::new();
            loop {
                match b.get(*p) {
                    None => return Err("bad string".into()),
                    Some('"') => {
                        *p += 1;
                        return Ok(J::Str(s));
                    }
                    Some('\\') => {
                        *p += 1;
                        match b.get(*p) {
                            Some('n') => s.push('\n'),
                            Some('r') => s.push('\r'),
                            Some('t') => s.push('\t'),
                            Some('u') => {
                                let h: String = b[*p + 1..*p + 5].iter().collect();
                                let n = u32::from_str_radix(&h, 16).map_err(|e| e.to_string())?;
                                s.push(char::from_u32(n).unwrap_or('\u{fffd}'));
                                *p += 4;
                            }
                            Some(c) => s.push(*c),
                            None => return Err("bad escape".into()),
                        }
                        *p += 1;
                    }
                    Some(c) => {
                        s.push(*c);
                        *p += 1;
                    }
                }
            }
        }
        't' => {
            *p += 4;
            Ok(J::Bool(true))
        }
        'f' => {
            *p += 5;
            Ok(J::Bool(false))
        }
        'n' => {
            *p += 4;
            Ok(J::Null)
        }
        _ => {
            let st = *p;
            while *p < b.len() && (b[*p].is_ascii_digit() || "+-.eE".contains(b[*p])) {
                *p += 1;
            }
            let s: String = b[st..*p].iter().collect();
            if let Ok(i) = s.parse::<i64>() {
                Ok(J::Int(i))
            } else {
                s.parse::<f64>().map(J::Num).map_err(|e| format!("{e}: {s}"))
            }
        }
    }
}
