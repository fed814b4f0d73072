//! The checks, one per property.
mod decode;
mod desc;
mod diff;
mod pool;
mod reject;
mod total;

use crate::engine::*;
use crate::gen::{self, Cfg, GenClass};
use crate::val::*;
use crate::{obs, refdec};
use jbcrs::basic::{Class, Pool};
use std::sync::OnceLock;

pub fn all() -> &'static [Check] {
    static ALL: OnceLock<Vec<Check>> = OnceLock::new();
    ALL.get_or_init(|| {
        let mut v = vec![];
        v.extend(total::checks());
        v.extend(decode::checks());
        v.extend(reject::checks());
        v.extend(pool::checks());
        v.extend(desc::checks());
        v.extend(diff::checks());
        v.sort_by_key(|c| c.id);
        v
    })
}

/// Number of cases: quick (in units that cost a few seconds in all) or thorough.
pub fn amount(thorough: bool, quick: u64, deep: u64) -> u64 {
    if thorough {
        deep
    } else {
        3 * quick
    }
}

/// The generator and the reference decoder must agree before either is used to judge the library.
pub fn selfcheck(g: &GenClass) {
    let d = match refdec::decode(&g.bytes) {
        Ok(d) => d,
        Err(e) => panic!("oracle: reference decoder refuses a generated file: {:?} {}", e, hex(&g.bytes)),
    };
    assert_eq!(d.grey, 0, "oracle: generated file is grey {}", hex(&g.bytes));
    if let Some(x) = diff(&g.class, &d.class).or_else(|| diff(&g.pool, &d.pool)) {
        panic!("oracle: generator and reference decoder differ: {}", x);
    }
}

pub fn make(cx: &mut Cx, cfg: &Cfg) -> GenClass {
    let g = gen::class(&mut cx.src, cfg);
    selfcheck(&g);
    g
}

/// Parses bytes that must be accepted.
pub fn accept(cx: &mut Cx, b: &[u8]) -> Result<(Pool, Class), Fail> {
    match cx.parse(b)? {
        Ok(x) => Ok(x),
        Err(e) => fail("rejected", format!("a well-formed file is rejected: {:?}", obs::error(&e))).with_input(b),
    }
}

/// Parses bytes that must be rejected; returns the error.
pub fn reject(cx: &mut Cx, b: &[u8], why: &str) -> Result<V, Fail> {
    match cx.parse(b)? {
        Err(e) => Ok(obs::error(&e)),
        Ok((_, c)) => fail(
            "accepted",
            format!("{}: accepted as {}", why, clip(format!("{:?}", obs::class(&c)), 600)),
        )
        .with_input(b),
    }
}

/// Parses a generated file and compares the class (everything but the constants).
pub fn class_equal(cx: &mut Cx, g: &GenClass) -> Result<(Pool, Class), Fail> {
    let (p, c) = accept(cx, &g.bytes)?;
    if let Some(d) = diff(&g.class, &obs::class(&c)) {
        return fail("differs", d).with_input(&g.bytes);
    }
    Ok((p, c))
}

pub fn pool_view(cx: &mut Cx, p: &Pool) -> Result<V, Fail> {
    cx.sut(1 << 16, "Pool lookups", || obs::pool(p))
}

/// Counts every kind of node in the tree as a class of the case.
pub fn label_tags(cx: &mut Cx, v: &V, only: &dyn Fn(&str) -> bool) {
    if let V::T(name, _) = v {
        if only(name) {
            cx.label(name);
        }
    }
    for k in v.kids() {
        label_tags(cx, k, only);
    }
}

pub fn has_tag(v: &V, name: &str) -> bool {
    v.tag() == name || v.kids().iter().any(|k| has_tag(k, name))
}

pub fn count_tags(v: &V, f: &dyn Fn(&str) -> bool) -> usize {
    f(v.tag()) as usize + v.kids().iter().map(|k| count_tags(k, f)).sum::<usize>()
}

pub fn show(g: &GenClass) -> String {
    format!("{} bytes {} => {:?}", g.bytes.len(), clip(hex(&g.bytes), 120), g.class)
}

pub fn be2(out: &mut Vec<u8>, x: usize) {
    out.extend((x as u16).to_be_bytes());
}
pub fn be4(out: &mut Vec<u8>, x: u32) {
    out.extend(x.to_be_bytes());
}

/// magic, versions, and a constant pool of the given encoded constants (count given).
pub fn head(count: usize, consts: &[u8]) -> Vec<u8> {
    let mut b = vec![0xCA, 0xFE, 0xBA, 0xBE, 0, 0, 0, 52];
    be2(&mut b, count);
    b.extend(consts);
    b
}
pub fn utf8(text: &[u8]) -> Vec<u8> {
    let mut b = vec![1];
    be2(&mut b, text.len());
    b.extend(text);
    b
}
/// flags, this, super, no interfaces, fields, methods or attributes
pub const EMPTY_BODY: [u8; 14] = [0, 0x21, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];

/// A class with one attribute of the given name and content (strings: 1 the name, 2 to 4 others).
pub fn one_attr(name: &str, content: &[u8]) -> Vec<u8> {
    let mut b = head(5, &[utf8(name.as_bytes()), utf8(b"Code"), utf8(b"Deprecated"), utf8(&[b'x'; 60000])].concat());
    b.extend([0, 0x21, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 1]);
    be4(&mut b, content.len() as u32);
    b.extend(content);
    b
}

pub fn repeat(count: usize, unit: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    be2(&mut v, count);
    for _ in 0..count {
        v.extend(unit);
    }
    v
}

pub fn body_of(code: &[u8], tail: &[u8]) -> Vec<u8> {
    let mut v = vec![0, 1, 0, 1];
    be4(&mut v, code.len() as u32);
    v.extend(code);
    v.extend(tail);
    v
}

/// Regression inputs: files under regress/, hex text.
pub fn regress() -> Vec<Vec<u8>> {
    let mut names: Vec<_> = std::fs::read_dir(format!("{}/regress", crate::root()))
        .into_iter()
        .flatten()
        .flatten()
        .map(|e| e.path())
        .collect();
    names.sort();
    names
        .iter()
        .filter_map(|p| unhex(&std::fs::read_to_string(p).ok()?))
        .collect()
}
