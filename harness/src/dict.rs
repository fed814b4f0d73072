//! Values worth trying: the numbers and texts that appear in the library's source, those new since the pinned tree
//! first. They only steer what is generated; no oracle looks at them.
use std::collections::BTreeMap;
use std::sync::OnceLock;

#[derive(Default)]
pub struct Dict {
    /// All numbers by how many bits hold them (8, 16, 32, 64), and the new ones.
    pub nums: [Vec<u64>; 4],
    pub fresh: [Vec<u64>; 4],
    pub texts: Vec<String>,
    pub fresh_texts: Vec<String>,
}

const BASE: &str = include_str!("../literals.txt");

enum Tok {
    Num(u64),
    Str(String),
    Op(char),
}

fn tokens(text: &str) -> Vec<Tok> {
    let c: Vec<char> = text.chars().collect();
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    let word = |x: char| x.is_alphanumeric() || x == '_';
    let mut out = vec![];
    let mut i = 0;
    let escape = |i: &mut usize| -> char {
        // at a backslash
        let e = at(*i + 1);
        *i += 2;
        match e {
            'n' => '\n',
            't' => '\t',
            'r' => '\r',
            '0' => '\0',
            'x' => {
                let v: String = [at(*i), at(*i + 1)].iter().collect();
                *i += 2;
                u8::from_str_radix(&v, 16).map_or('?', |x| x as char)
            }
            'u' => {
                let mut v = String::new();
                while at(*i) != '}' && at(*i) != '\0' {
                    if at(*i).is_ascii_hexdigit() {
                        v.push(at(*i));
                    }
                    *i += 1;
                }
                *i += 1;
                u32::from_str_radix(&v, 16).ok().and_then(char::from_u32).unwrap_or('?')
            }
            x => x,
        }
    };
    while i < c.len() {
        let x = c[i];
        if x == '/' && at(i + 1) == '/' {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if x == '/' && at(i + 1) == '*' {
            i += 2;
            while i < c.len() && !(c[i] == '*' && at(i + 1) == '/') {
                i += 1;
            }
            i += 2;
        } else if x == '"' {
            let mut s = String::new();
            i += 1;
            while i < c.len() && c[i] != '"' {
                if c[i] == '\\' {
                    s.push(escape(&mut i));
                } else {
                    s.push(c[i]);
                    i += 1;
                }
            }
            i += 1;
            out.push(Tok::Str(s));
        } else if x == '\'' && at(i + 1) == '\\' {
            let mut j = i + 1;
            let ch = escape(&mut j);
            out.push(Tok::Str(ch.to_string()));
            out.push(Tok::Num(u64::from(ch as u32)));
            i = j + 1;
        } else if x == '\'' && at(i + 2) == '\'' {
            out.push(Tok::Str(at(i + 1).to_string()));
            out.push(Tok::Num(u64::from(at(i + 1) as u32)));
            i += 3;
        } else if x.is_ascii_digit() {
            let mut s = String::new();
            while word(at(i)) {
                s.push(at(i));
                i += 1;
            }
            let mut s = s.replace('_', "");
            for suffix in ["usize", "isize", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64"] {
                if let Some(p) = s.strip_suffix(suffix) {
                    s = p.to_string();
                    break;
                }
            }
            let v = if let Some(h) = s.strip_prefix("0x") {
                u64::from_str_radix(h, 16)
            } else if let Some(b) = s.strip_prefix("0b") {
                u64::from_str_radix(b, 2)
            } else if let Some(b) = s.strip_prefix("0o") {
                u64::from_str_radix(b, 8)
            } else {
                s.parse()
            };
            if let Ok(v) = v {
                out.push(Tok::Num(v));
            }
        } else if word(x) {
            while word(at(i)) {
                i += 1;
            }
            out.push(Tok::Op('w'));
        } else {
            if !x.is_whitespace() {
                let two = at(i + 1) == x && (x == '<' || x == '>');
                out.push(Tok::Op(x));
                i += two as usize;
            }
            i += 1;
        }
    }
    out
}

fn scan(text: &str, nums: &mut BTreeMap<u64, usize>, texts: &mut BTreeMap<String, usize>) {
    let toks = tokens(text);
    for t in &toks {
        match t {
            Tok::Num(v) => {
                *nums.entry(*v).or_default() += 1;
            }
            Tok::Str(s) => {
                *texts.entry(s.clone()).or_default() += 1;
            }
            Tok::Op(_) => {}
        }
    }
    for w in toks.windows(3) {
        if let [Tok::Num(a), Tok::Op(o), Tok::Num(b)] = w {
            let v = match o {
                '*' => a.checked_mul(*b),
                '+' => a.checked_add(*b),
                '-' => a.checked_sub(*b),
                '|' => Some(a | b),
                '<' if *b < 64 => a.checked_shl(*b as u32),
                _ => None,
            };
            if let Some(v) = v {
                *nums.entry(v).or_default() += 1;
            }
        }
    }
}

fn files(dir: &std::path::Path, out: &mut Vec<String>) {
    let Ok(d) = std::fs::read_dir(dir) else { return };
    let mut all: Vec<_> = d.flatten().map(|e| e.path()).collect();
    all.sort();
    for p in all {
        if p.is_dir() {
            files(&p, out);
        } else if p.extension().map_or(false, |e| e == "rs") {
            out.extend(std::fs::read_to_string(&p));
        }
    }
}

fn source() -> (BTreeMap<u64, usize>, BTreeMap<String, usize>) {
    let (mut n, mut t) = (BTreeMap::new(), BTreeMap::new());
    let mut texts = vec![];
    files(std::path::Path::new("/repo/src"), &mut texts);
    for x in &texts {
        scan(x, &mut n, &mut t);
    }
    (n, t)
}

/// The list kept in literals.txt.
pub fn listing() -> String {
    let (n, t) = source();
    let mut s = String::new();
    for (x, k) in n {
        s += &format!("{} n {}\n", k, x);
    }
    for (x, k) in t {
        s += &format!("{} s {:?}\n", k, x);
    }
    s
}

fn widths(v: impl Iterator<Item = u64> + Clone) -> [Vec<u64>; 4] {
    let upto = |b: u32| {
        let mut l: Vec<u64> = v.clone().filter(|x| *x > 2 && (b == 64 || *x < 1u64 << b)).collect();
        l.sort();
        l.dedup();
        l
    };
    [upto(8), upto(16), upto(32), upto(64)]
}

pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let (n, t) = source();
        // new: more often there than in the pinned tree
        let base: std::collections::HashMap<&str, usize> = BASE
            .lines()
            .filter_map(|l| l.split_once(' '))
            .map(|(k, x)| (x, k.parse().unwrap_or(0)))
            .collect();
        let more = |k: usize, x: String| k > base.get(x.as_str()).copied().unwrap_or(0);
        let new: Vec<u64> = n.iter().filter(|(x, k)| more(**k, format!("n {}", x))).map(|x| *x.0).collect();
        let fresh_texts = t.iter().filter(|(x, k)| more(**k, format!("s {:?}", x))).map(|x| x.0.clone()).collect();
        // a shift count or a bit number stands for its power as well
        let powers: Vec<u64> = new.iter().filter(|x| **x > 2 && **x < 64).map(|x| 1u64 << x).collect();
        Dict {
            nums: widths(n.keys().copied()),
            fresh: widths(new.iter().chain(&powers).copied()),
            fresh_texts,
            texts: t.into_keys().filter(|x| x.len() < 60).collect(),
        }
    })
}

impl Dict {
    /// Counts and sizes to try beside the usual boundaries, at most max.
    pub fn sizes(&self, max: usize) -> Vec<usize> {
        let mut l = vec![];
        for &x in &self.fresh[1] {
            for y in [x - 1, x, x + 1] {
                if y as usize <= max {
                    l.push(y as usize);
                }
            }
        }
        l.sort();
        l.dedup();
        l.truncate(60);
        l
    }
}
