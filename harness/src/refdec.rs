//! The reference decoder: a slow, direct reading of the specification, interpreting the tables in spec.rs.
//! It shares no code with the library. Where the specification or the library's documentation leaves a
//! point open it sets a grey flag instead of taking a side.
use crate::spec::{self, F};
use crate::val::*;

/// Bytes follow the class (the specification forbids it, the library ignores them).
pub const G_TRAILING: u32 = 1;
/// An 8-byte constant in the last index (its second half lies outside the pool).
pub const G_LONGEND: u32 = 2;
/// A character encoded in more bytes than needed.
pub const G_OVERLONG: u32 = 4;
/// Repeated keys in a lookupswitch (a map cannot hold them).
pub const G_DUPKEY: u32 = 8;
/// Keys of a lookupswitch out of order.
pub const G_UNSORTED: u32 = 16;
/// Annotation values or attributes nested deeper than any compiler nests them.
pub const G_DEEP: u32 = 32;
/// Declared constant count 0.
pub const G_CPZERO: u32 = 64;
/// Operand bytes or padding the specification fixes to zero are not zero.
pub const G_NONZERO: u32 = 128;
/// Code longer than 65535 bytes.
pub const G_BIGCODE: u32 = 256;

pub const NEST_OK: u32 = 16;
const NEST_MAX: u32 = 120;

/// On these the value is not compared even when the library accepts.
pub const G_VALUE_OPEN: u32 = G_LONGEND | G_DUPKEY | G_CPZERO;

#[derive(Debug, Clone)]
pub enum RErr {
    Eof,
    Bad(&'static str),
    /// nested too deep for the reference itself: no verdict
    Open,
}

type R<T> = Result<T, RErr>;

pub struct Decoded {
    pub pool: V,
    pub class: V,
    pub grey: u32,
}

struct Dec<'a> {
    b: &'a [u8],
    pos: usize,
    grey: u32,
    /// string constants by index
    strs: Vec<Option<String>>,
}

pub fn mutf8_units(b: &[u8]) -> R<(Vec<u16>, bool)> {
    let bad = RErr::Bad("string");
    let mut out = vec![];
    let mut overlong = false;
    let mut i = 0;
    while i < b.len() {
        let cont = |k: usize| -> R<u16> {
            match b.get(i + k) {
                Some(&c) if c & 0xC0 == 0x80 => Ok(u16::from(c & 0x3F)),
                _ => Err(RErr::Bad("string")),
            }
        };
        match b[i] {
            0x01..=0x7F => {
                out.push(u16::from(b[i]));
                i += 1;
            }
            0xC0..=0xDF => {
                let u = u16::from(b[i] & 0x1F) * 64 + cont(1)?;
                overlong |= u != 0 && u < 0x80;
                out.push(u);
                i += 2;
            }
            0xE0..=0xEF => {
                let u = u16::from(b[i] & 0x0F) * 4096 + cont(1)? * 64 + cont(2)?;
                overlong |= u < 0x800;
                out.push(u);
                i += 3;
            }
            _ => return Err(bad),
        }
    }
    Ok((out, overlong))
}

pub fn mutf8_decode(b: &[u8]) -> R<(String, bool)> {
    let (units, overlong) = mutf8_units(b)?;
    match String::from_utf16(&units) {
        Ok(s) => Ok((s, overlong)),
        Err(_) => Err(RErr::Bad("unpaired surrogate")),
    }
}

pub fn mutf8_encode(s: &str) -> Vec<u8> {
    let mut out = vec![];
    for u in s.encode_utf16() {
        match u {
            1..=0x7F => out.push(u as u8),
            0 | 0x80..=0x7FF => out.extend([0xC0 | (u >> 6) as u8, 0x80 | (u & 63) as u8]),
            _ => out.extend([
                0xE0 | (u >> 12) as u8,
                0x80 | ((u >> 6) & 63) as u8,
                0x80 | (u & 63) as u8,
            ]),
        }
    }
    out
}

impl<'a> Dec<'a> {
    fn take(&mut self, k: usize, end: usize) -> R<&'a [u8]> {
        if end - self.pos < k {
            return Err(RErr::Eof);
        }
        let r = &self.b[self.pos..self.pos + k];
        self.pos += k;
        Ok(r)
    }
    fn uint(&mut self, k: usize, end: usize) -> R<u64> {
        Ok(self.take(k, end)?.iter().fold(0, |a, &x| a << 8 | u64::from(x)))
    }
    fn u1(&mut self, end: usize) -> R<u8> {
        Ok(self.uint(1, end)? as u8)
    }
    fn u2(&mut self, end: usize) -> R<u16> {
        Ok(self.uint(2, end)? as u16)
    }
    fn i4(&mut self, end: usize) -> R<i32> {
        Ok(self.uint(4, end)? as u32 as i32)
    }

    fn string(&mut self, k: usize, end: usize) -> R<String> {
        let (s, overlong) = mutf8_decode(self.take(k, end)?)?;
        if overlong {
            self.grey |= G_OVERLONG;
        }
        Ok(s)
    }

    fn consts(&mut self) -> R<V> {
        let end = self.b.len();
        let count = self.u2(end)?;
        if count == 0 {
            self.grey |= G_CPZERO;
        }
        let mut slots: Vec<V> = vec![];
        self.strs = vec![None];
        while slots.len() + 1 < count as usize {
            let tag = self.u1(end)?;
            let (_, name, fmt) = *spec::CONSTS
                .iter()
                .find(|c| c.0 == tag)
                .ok_or(RErr::Bad("constant tag"))?;
            let mut s = None;
            let mut wide = false;
            let v = match tag {
                1 => {
                    let len = self.u2(end)? as usize;
                    let x = self.string(len, end)?;
                    s = Some(x.clone());
                    vec![V::S(x)]
                }
                3 => vec![n(self.i4(end)?)],
                4 => vec![V::N(self.uint(4, end)? as i64)],
                5 | 6 => {
                    wide = true;
                    vec![V::N(self.uint(8, end)? as i64)]
                }
                15 => {
                    let k = self.u1(end)? as usize;
                    if k == 0 || k >= spec::REF_KINDS.len() {
                        return Err(RErr::Bad("reference kind"));
                    }
                    vec![t(spec::REF_KINDS[k], vec![]), n(self.u2(end)?)]
                }
                _ => {
                    let mut v = vec![];
                    for _ in fmt.chars() {
                        v.push(n(self.u2(end)?));
                    }
                    v
                }
            };
            slots.push(t(name, v));
            self.strs.push(s);
            if wide {
                slots.push(t("none", vec![]));
                self.strs.push(None);
                if slots.len() + 1 > count as usize {
                    self.grey |= G_LONGEND;
                }
            }
        }
        Ok(t("Pool", vec![n(slots.len() as i64 + 1), V::L(slots)]))
    }

    fn fmt(&mut self, f: &[F], end: usize, nest: u32) -> R<Vec<V>> {
        let mut out = vec![];
        for x in f {
            out.push(match x {
                F::U1 => n(self.u1(end)?),
                F::U2 | F::Flags => n(self.u2(end)?),
                F::List(w, inner) => {
                    let count = self.uint(*w as usize, end)?;
                    let mut l = vec![];
                    for _ in 0..count {
                        let mut e = self.fmt(inner, end, nest)?;
                        l.push(if e.len() == 1 { e.pop().unwrap() } else { V::L(e) });
                    }
                    V::L(l)
                }
                F::Named('A') => self.anno(end, nest)?,
                F::Named('E') => self.elem(end, nest)?,
                F::Named('T') => self.type_anno(end)?,
                F::Named('S') => self.frame(end)?,
                F::Named(c) => panic!("no structure {}", c),
            });
        }
        Ok(out)
    }

    fn deeper(&mut self, nest: u32) -> R<u32> {
        if nest + 1 > NEST_OK {
            self.grey |= G_DEEP;
        }
        if nest + 1 > NEST_MAX {
            return Err(RErr::Open);
        }
        Ok(nest + 1)
    }

    fn anno(&mut self, end: usize, nest: u32) -> R<V> {
        let ty = self.u2(end)?;
        let count = self.u2(end)?;
        let mut pairs = vec![];
        for _ in 0..count {
            let name = self.u2(end)?;
            pairs.push(V::L(vec![n(name), self.elem(end, nest)?]));
        }
        Ok(t("Anno", vec![n(ty), V::L(pairs)]))
    }

    fn elem(&mut self, end: usize, nest: u32) -> R<V> {
        let tag = self.u1(end)?;
        if let Some(e) = spec::ELEM_SIMPLE.iter().find(|e| e.0 == tag) {
            return Ok(t(e.1, vec![n(self.u2(end)?)]));
        }
        match tag {
            b'e' => Ok(t("Enum", vec![n(self.u2(end)?), n(self.u2(end)?)])),
            b'@' => {
                let nest = self.deeper(nest)?;
                Ok(t("Annotation", vec![self.anno(end, nest)?]))
            }
            b'[' => {
                let nest = self.deeper(nest)?;
                let count = self.u2(end)?;
                let mut l = vec![];
                for _ in 0..count {
                    l.push(self.elem(end, nest)?);
                }
                Ok(t("Array", vec![V::L(l)]))
            }
            _ => Err(RErr::Bad("element value tag")),
        }
    }

    fn type_anno(&mut self, end: usize) -> R<V> {
        let tag = self.u1(end)?;
        let (_, name, fmt) = *spec::TARGETS
            .iter()
            .find(|x| x.0 == tag)
            .ok_or(RErr::Bad("target type"))?;
        let mut ops = vec![];
        for c in fmt.chars() {
            ops.push(match c {
                'B' => n(self.u1(end)?),
                'H' => n(self.u2(end)?),
                _ => {
                    let count = self.u2(end)?;
                    let mut l = vec![];
                    for _ in 0..count {
                        l.push(V::L(vec![n(self.u2(end)?), n(self.u2(end)?), n(self.u2(end)?)]));
                    }
                    V::L(l)
                }
            });
        }
        let steps = self.u1(end)?;
        let mut path = vec![];
        for _ in 0..steps {
            let k = self.u1(end)? as usize;
            let kind = *spec::PATHS.get(k).ok_or(RErr::Bad("path kind"))?;
            path.push(V::L(vec![t(kind, vec![]), n(self.u1(end)?)]));
        }
        Ok(t("TypeAnno", vec![t(name, ops), V::L(path), self.anno(end, 0)?]))
    }

    fn verif(&mut self, end: usize) -> R<V> {
        let tag = self.u1(end)? as usize;
        let name = *spec::VERIF.get(tag).ok_or(RErr::Bad("verification type"))?;
        Ok(t(name, if tag >= 7 { vec![n(self.u2(end)?)] } else { vec![] }))
    }

    fn frame(&mut self, end: usize) -> R<V> {
        let tag = self.u1(end)?;
        Ok(if tag < 64 {
            t("Same", vec![n(tag)])
        } else if tag < 128 {
            t("Same1", vec![n(tag - 64), self.verif(end)?])
        } else if tag < 247 {
            return Err(RErr::Bad("frame tag"));
        } else if tag == 247 {
            t("Same1", vec![n(self.u2(end)?), self.verif(end)?])
        } else if tag < 251 {
            t("Chop", vec![n(self.u2(end)?), n(251 - tag)])
        } else if tag == 251 {
            t("Same", vec![n(self.u2(end)?)])
        } else if tag < 255 {
            let d = self.u2(end)?;
            let mut l = vec![];
            for _ in 251..tag {
                l.push(self.verif(end)?);
            }
            t("Append", vec![n(d), V::L(l)])
        } else {
            let d = self.u2(end)?;
            let mut parts = vec![n(d)];
            for _ in 0..2 {
                let k = self.u2(end)?;
                let mut l = vec![];
                for _ in 0..k {
                    l.push(self.verif(end)?);
                }
                parts.push(V::L(l));
            }
            t("Full", parts)
        })
    }

    fn code(&mut self, end: usize, nest: u32) -> R<Vec<V>> {
        let stack = self.u2(end)?;
        let locals = self.u2(end)?;
        let len = self.uint(4, end)? as usize;
        if end - self.pos < len {
            return Err(RErr::Eof);
        }
        if len == 0 {
            return Err(RErr::Bad("empty code"));
        }
        if len > 65535 {
            self.grey |= G_BIGCODE;
        }
        let start = self.pos;
        let code_end = start + len;
        let mut ins = vec![];
        while self.pos < code_end {
            let at = self.pos - start;
            ins.push(V::L(vec![n(at as i64), self.instr(start, code_end)?]));
        }
        let count = self.u2(end)?;
        let mut exc = vec![];
        for _ in 0..count {
            let mut e = vec![];
            for _ in 0..4 {
                e.push(n(self.u2(end)?));
            }
            exc.push(V::L(e));
        }
        let nest = self.deeper(nest)?;
        let attrs = self.attrs(end, nest)?;
        Ok(vec![n(stack), n(locals), V::L(ins), V::L(exc), attrs])
    }

    fn instr(&mut self, start: usize, end: usize) -> R<V> {
        let opcode = self.u1(end)?;
        let op = spec::ops()[opcode as usize].as_ref().ok_or(RErr::Bad("opcode"))?;
        let mut args = vec![];
        for c in op.args.chars() {
            match c {
                'b' => args.push(n(self.u1(end)? as i8)),
                'u' => args.push(n(self.u1(end)?)),
                's' => args.push(n(self.u2(end)? as i16)),
                'h' => args.push(n(self.u2(end)?)),
                'i' => args.push(n(self.i4(end)?)),
                'z' => {
                    if self.u1(end)? != 0 {
                        self.grey |= G_NONZERO;
                    }
                }
                'A' => {
                    let k = self.u1(end)?;
                    let a = spec::ARRAY_TYPES
                        .iter()
                        .find(|a| a.0 == k)
                        .ok_or(RErr::Bad("array type"))?;
                    args.push(t(a.1, vec![]));
                }
                'W' => {
                    let k = self.u1(end)?;
                    if !spec::WIDE.contains(&k) {
                        return Err(RErr::Bad("wide opcode"));
                    }
                    let name = spec::ops()[k as usize].as_ref().unwrap().name;
                    let mut v = vec![n(self.u2(end)?)];
                    if name == "iinc" {
                        v.push(n(self.u2(end)? as i16));
                    }
                    return Ok(t(name, v));
                }
                'T' | 'L' => {
                    while (self.pos - start) % 4 != 0 {
                        if self.u1(end)? != 0 {
                            self.grey |= G_NONZERO;
                        }
                    }
                    args.push(n(self.i4(end)?));
                    let mut l = vec![];
                    if c == 'T' {
                        let low = self.i4(end)?;
                        let high = self.i4(end)?;
                        if low > high {
                            return Err(RErr::Bad("switch range"));
                        }
                        args.push(n(low));
                        args.push(n(high));
                        for _ in low as i64..=high as i64 {
                            l.push(n(self.i4(end)?));
                        }
                    } else {
                        let count = self.i4(end)?;
                        if count < 0 {
                            return Err(RErr::Bad("switch count"));
                        }
                        let mut m = std::collections::BTreeMap::new();
                        let mut last = None;
                        for _ in 0..count {
                            let k = self.i4(end)?;
                            let v = self.i4(end)?;
                            if last.map_or(false, |l| l > k) {
                                self.grey |= G_UNSORTED;
                            }
                            last = Some(k);
                            if m.insert(k, v).is_some() {
                                self.grey |= G_DUPKEY;
                            }
                        }
                        l = m.into_iter().map(|(k, v)| V::L(vec![n(k), n(v)])).collect();
                    }
                    args.push(V::L(l));
                }
                _ => unreachable!(),
            }
        }
        Ok(t(op.kind, args))
    }

    fn attrs(&mut self, end: usize, nest: u32) -> R<V> {
        let count = self.u2(end)?;
        let mut out = vec![];
        for _ in 0..count {
            let idx = self.u2(end)?;
            let name = match self.strs.get(idx as usize) {
                Some(Some(s)) => s.clone(),
                _ => return Err(RErr::Bad("attribute name")),
            };
            let len = self.uint(4, end)? as usize;
            if end - self.pos < len {
                return Err(RErr::Eof);
            }
            let aend = self.pos + len;
            out.push(match spec::attr_fmt(&name) {
                None => t("Unknown", vec![n(idx), V::B(self.take(len, aend)?.to_vec())]),
                Some((name, f)) => {
                    let v = match f {
                        [F::Named('C')] => self.code(aend, nest)?,
                        [F::Named('U')] => vec![V::S(self.string(len, aend)?)],
                        _ => self.fmt(f, aend, 0)?,
                    };
                    if self.pos != aend {
                        return Err(RErr::Bad("attribute length"));
                    }
                    t(name, v)
                }
            });
        }
        Ok(V::L(out))
    }

    fn members(&mut self, name: &'static str, end: usize) -> R<V> {
        let count = self.u2(end)?;
        let mut out = vec![];
        for _ in 0..count {
            out.push(t(
                name,
                vec![
                    n(self.u2(end)?),
                    n(self.u2(end)?),
                    n(self.u2(end)?),
                    self.attrs(end, 0)?,
                ],
            ));
        }
        Ok(V::L(out))
    }
}

pub fn decode(b: &[u8]) -> R<Decoded> {
    let mut d = Dec { b, pos: 0, grey: 0, strs: vec![] };
    let end = b.len();
    if d.take(4, end)? != [0xCA, 0xFE, 0xBA, 0xBE] {
        return Err(RErr::Bad("magic"));
    }
    let minor = d.u2(end)?;
    let major = d.u2(end)?;
    let pool = d.consts()?;
    let mut c = vec![n(minor), n(major), n(d.u2(end)?), n(d.u2(end)?), n(d.u2(end)?)];
    let k = d.u2(end)?;
    let mut ifs = vec![];
    for _ in 0..k {
        ifs.push(n(d.u2(end)?));
    }
    c.push(V::L(ifs));
    c.push(d.members("Field", end)?);
    c.push(d.members("Method", end)?);
    c.push(d.attrs(end, 0)?);
    if d.pos != end {
        d.grey |= G_TRAILING;
    }
    Ok(Decoded { pool, class: t("Class", c), grey: d.grey })
}
