//! The neutral value tree that expected, reference-decoded and observed results are compared in.
use std::fmt;

#[derive(Clone, PartialEq, Eq)]
pub enum V {
    N(i64),
    S(String),
    B(Vec<u8>),
    L(Vec<V>),
    T(&'static str, Vec<V>),
}

pub fn n<T: Into<i64>>(x: T) -> V {
    V::N(x.into())
}
pub fn t(name: &'static str, v: Vec<V>) -> V {
    V::T(name, v)
}

impl V {
    pub fn kids(&self) -> &[V] {
        match self {
            V::L(v) | V::T(_, v) => v,
            _ => &[],
        }
    }
    pub fn kids_mut(&mut self) -> Option<&mut Vec<V>> {
        match self {
            V::L(v) | V::T(_, v) => Some(v),
            _ => None,
        }
    }
    pub fn tag(&self) -> &'static str {
        match self {
            V::T(n, _) => n,
            _ => "",
        }
    }
    pub fn num(&self) -> i64 {
        match self {
            V::N(n) => *n,
            _ => i64::MIN,
        }
    }
}

impl fmt::Debug for V {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            V::N(n) => write!(f, "{}", n),
            V::S(s) => write!(f, "{:?}", s),
            V::B(b) => {
                write!(f, "x'")?;
                for x in b.iter().take(64) {
                    write!(f, "{:02x}", x)?;
                }
                if b.len() > 64 {
                    write!(f, "..({} bytes)", b.len())?;
                }
                write!(f, "'")
            }
            V::L(v) => {
                write!(f, "[")?;
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        write!(f, ", ")?;
                    }
                    x.fmt(f)?;
                }
                write!(f, "]")
            }
            V::T(n, v) => {
                write!(f, "{}", n)?;
                if !v.is_empty() {
                    write!(f, "(")?;
                    for (i, x) in v.iter().enumerate() {
                        if i > 0 {
                            write!(f, ", ")?;
                        }
                        x.fmt(f)?;
                    }
                    write!(f, ")")?;
                }
                Ok(())
            }
        }
    }
}

pub fn clip(s: String, max: usize) -> String {
    if s.len() <= max {
        return s;
    }
    let mut e = max;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}...", &s[..e])
}

/// The first difference between two trees, as "path: expected X, observed Y".
pub fn diff(exp: &V, obs: &V) -> Option<String> {
    fn go(path: &mut String, a: &V, b: &V) -> Option<String> {
        if a == b {
            return None;
        }
        let (ka, kb) = (a.kids(), b.kids());
        let same_shape = match (a, b) {
            (V::L(_), V::L(_)) => true,
            (V::T(x, _), V::T(y, _)) => x == y,
            _ => false,
        };
        if same_shape {
            for i in 0..ka.len().min(kb.len()) {
                if ka[i] != kb[i] {
                    let l = path.len();
                    path.push_str(&format!("/{}{}", a.tag(), i));
                    let r = go(path, &ka[i], &kb[i]);
                    path.truncate(l);
                    if r.is_some() {
                        return r;
                    }
                }
            }
            if ka.len() != kb.len() {
                return Some(format!(
                    "{}/{}: expected {} elements, observed {}",
                    path,
                    a.tag(),
                    ka.len(),
                    kb.len()
                ));
            }
        }
        Some(format!(
            "{}: expected {}, observed {}",
            path,
            clip(format!("{:?}", a), 300),
            clip(format!("{:?}", b), 300)
        ))
    }
    go(&mut String::new(), exp, obs)
}
