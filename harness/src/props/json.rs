//! A reader of JSON text that keeps numbers as they are written.

#[derive(Clone, Debug, PartialEq)]
pub enum Js {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    List(Vec<Js>),
    Map(Vec<(String, Js)>),
}

pub fn read(t: &str) -> Option<Js> {
    let c: Vec<char> = t.chars().collect();
    let mut i = 0;
    let v = value(&c, &mut i)?;
    skip(&c, &mut i);
    (i == c.len()).then_some(v)
}
fn skip(c: &[char], i: &mut usize) {
    while *i < c.len() && " \t\r\n".contains(c[*i]) {
        *i += 1;
    }
}
fn eat(c: &[char], i: &mut usize, w: char) -> Option<()> {
    skip(c, i);
    (c.get(*i) == Some(&w)).then(|| *i += 1)
}
fn value(c: &[char], i: &mut usize) -> Option<Js> {
    skip(c, i);
    match *c.get(*i)? {
        '"' => string(c, i).map(Js::Str),
        '[' => {
            *i += 1;
            let mut v = vec![];
            if eat(c, i, ']').is_some() {
                return Some(Js::List(v));
            }
            loop {
                v.push(value(c, i)?);
                if eat(c, i, ',').is_none() {
                    eat(c, i, ']')?;
                    return Some(Js::List(v));
                }
            }
        }
        '{' => {
            *i += 1;
            let mut v = vec![];
            if eat(c, i, '}').is_some() {
                return Some(Js::Map(v));
            }
            loop {
                skip(c, i);
                let k = string(c, i)?;
                eat(c, i, ':')?;
                v.push((k, value(c, i)?));
                if eat(c, i, ',').is_none() {
                    eat(c, i, '}')?;
                    return Some(Js::Map(v));
                }
            }
        }
        _ => {
            let from = *i;
            while *i < c.len() && (c[*i].is_ascii_alphanumeric() || "+-.".contains(c[*i])) {
                *i += 1;
            }
            let w: String = c[from..*i].iter().collect();
            match w.as_str() {
                "null" => Some(Js::Null),
                "true" => Some(Js::Bool(true)),
                "false" => Some(Js::Bool(false)),
                _ => w.starts_with(|c: char| c == '-' || c.is_ascii_digit()).then_some(()).and(w.parse::<f64>().ok()).map(|_| Js::Num(w)),
            }
        }
    }
}
fn string(c: &[char], i: &mut usize) -> Option<String> {
    (c.get(*i) == Some(&'"')).then_some(())?;
    *i += 1;
    let mut s = String::new();
    let mut units: Vec<u16> = vec![];
    let unit = |c: &[char], i: &mut usize| -> Option<u16> {
        let h: String = c.get(*i..*i + 4)?.iter().collect();
        *i += 4;
        u16::from_str_radix(&h, 16).ok()
    };
    loop {
        let k = *c.get(*i)?;
        *i += 1;
        if k == '\\' && c.get(*i) == Some(&'u') {
            *i += 1;
            units.push(unit(c, i)?);
            continue;
        }
        if !units.is_empty() {
            s += &String::from_utf16(&units).ok()?;
            units.clear();
        }
        match k {
            '"' => return Some(s),
            '\\' => {
                let e = *c.get(*i)?;
                *i += 1;
                s.push(match e {
                    'n' => '\n',
                    't' => '\t',
                    'r' => '\r',
                    'b' => '\u{8}',
                    'f' => '\u{c}',
                    '"' | '\\' | '/' => e,
                    _ => return None,
                });
            }
            k if (k as u32) < 32 => return None,
            k => s.push(k),
        }
    }
}
impl Js {
    pub fn get(&self, k: &str) -> Option<&Js> {
        match self {
            Js::Map(m) => m.iter().find(|x| x.0 == k).map(|x| &x.1),
            _ => None,
        }
    }
    pub fn map(&self) -> Option<&Vec<(String, Js)>> {
        match self {
            Js::Map(m) => Some(m),
            _ => None,
        }
    }
    pub fn list(&self) -> Option<&Vec<Js>> {
        match self {
            Js::List(m) => Some(m),
            _ => None,
        }
    }
    pub fn text(&self) -> Option<&str> {
        match self {
            Js::Str(m) => Some(m),
            _ => None,
        }
    }
    pub fn bool(&self) -> Option<bool> {
        match self {
            Js::Bool(m) => Some(*m),
            _ => None,
        }
    }
    pub fn float(&self) -> Option<f64> {
        match self {
            Js::Num(m) => m.parse().ok(),
            _ => None,
        }
    }
    pub fn whole(&self) -> Option<usize> {
        match self {
            Js::Num(m) => m.parse().ok(),
            _ => None,
        }
    }
}
