//! C19-C23: the constant pool as a stateful object, and its items.
use super::*;
use crate::engine::{Kind::*, Src};
use crate::gen::{Gen, SMALL};
use jbcrs::basic::{Item, ReferenceKind};
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};

const AS: &[&str] = &["the pool is judged through its public operations only: len, is_empty, get, get_utf8, get_class_name, get_class_name_opt, push, iter"];

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C19",
            rule: "Histories of pushes and lookups on new, preallocated (0 to 65535), default and parsed pools (parsed ones with repeated constants), items drawn from a small universe so that repeats and near repeats (same bits of another kind, 0.0 and -0.0, NaNs) are common; after every operation the result and the length are compared with a plain-list model, all lookups at the end. Non-trivial: histories with a repeated push or an 8-byte item; distinct by history.",
            assumptions: AS,
            corpus: false,
            phases: |th| {
                vec![
                    phase("histories", Random(amount(th, 200_000, 5_000_000), histories)),
                    phase("all pairs", All(|_| { let k = universe().len() as u64; k * k }, pairs)),
                    phase("long histories", Random(amount(th, 160, 4_000), long_histories)),
                    phase("large pools", Random(amount(th, 160, 6_000), large)),
                ]
            },
        },
        Check {
            id: "C20",
            rule: "Pools filled (by pushes or by parsing, with or without 8-byte constants, preallocated or not) to within 30 of the length limit, then histories of pushes across it; result, length, contents and iteration are compared with the list model. Non-trivial: every history that meets a refusal; distinct by history.",
            assumptions: AS,
            corpus: false,
            phases: |th| {
                vec![
                    phase("near the limit", Random(amount(th, 400, 40_000), near_limit)),
                    phase("every start", All(|t| WAYS * 40 * if t { 8 } else { 1 }, every_start)),
                ]
            },
        },
        Check {
            id: "C21",
            rule: "Iteration over pools that result from random histories, from parsing (repeated and 8-byte constants), and over full pools, interleaved with lookups, compared with lookups of all 65536 indices; the ended iterator is called up to 70000 further times; the provided methods of Iterator (nth, skip, step_by, last, count, fold, size_hint and others) give what the plain loop gives. Non-trivial: pools with an 8-byte item and at least three items; distinct by contents.",
            assumptions: AS,
            corpus: false,
            phases: |th| {
                vec![
                    phase("iterate", Random(amount(th, 24_000, 600_000), iterate)),
                    phase("iterator methods", Random(amount(th, 100_000, 1_500_000), steps)),
                    phase("past the end", Random(amount(th, 400, 8_000), past_the_end)),
                    phase("full pools", Random(amount(th, 240, 4_000), iterate_full)),
                ]
            },
        },
        Check {
            id: "C22",
            rule: "Pools with strings, class constants (to strings, to nothing, to other kinds, beyond the end) and all other kinds, pushed and parsed; every one of the 65536 indices is looked up in all four ways and compared with the list model. Non-trivial: pools with at least one class constant; distinct by contents.",
            assumptions: AS,
            corpus: false,
            phases: |th| vec![phase("lookups", Random(amount(th, 6_000, 120_000), lookups)), phase("full pools", Random(amount(th, 80, 2_000), lookups_full))],
        },
        Check {
            id: "C23",
            rule: "Pairs and triples of items: identical, one bit flipped or one part exchanged in one field, same bits under another kind, unrelated; equality must be kind and bits, symmetric and transitive, clones equal, hashes of equal items equal under two hashers, and a set and a map of items must behave like one of bit patterns. Non-trivial: every pair; distinct by pair.",
            assumptions: &[],
            corpus: false,
            phases: |th| {
                vec![
                    phase("pairs", Random(amount(th, 3_000_000, 60_000_000), item_pairs)),
                    phase("all pairs", All(|_| { let k = universe().len() as u64; k * k }, universe_pairs)),
                    phase("maps and sets", Random(amount(th, 60_000, 1_000_000), maps)),
                ]
            },
        },
    ]
}

// ---- items ----------------------------------------------------------------------------------

const KINDS: [ReferenceKind; 9] = [
    ReferenceKind::GetField,
    ReferenceKind::GetStatic,
    ReferenceKind::PutField,
    ReferenceKind::PutStatic,
    ReferenceKind::InvokeVirtual,
    ReferenceKind::InvokeStatic,
    ReferenceKind::InvokeSpecial,
    ReferenceKind::NewInvokeSpecial,
    ReferenceKind::InvokeInterface,
];

/// The text, by turns in a buffer that fits and in larger ones: what a text is worth does not depend on it.
fn roomy(s: &str) -> String {
    static TURN: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let turn = TURN.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let mut t = String::with_capacity(s.len() + turn % 3 * 19);
    t.push_str(s);
    t
}

/// Item of kind 0..16 with the given payload.
fn item(kind: usize, x: u64, s: &str) -> Item {
    let (a, b) = (x as u16, (x >> 16) as u16);
    match kind {
        0 => Item::UTF8(roomy(s)),
        1 => Item::Integer(x as i32),
        2 => Item::Float(f32::from_bits(x as u32)),
        3 => Item::Long(x as i64),
        4 => Item::Double(f64::from_bits(x)),
        5 => Item::Class(a),
        6 => Item::String(a),
        7 => Item::FieldRef { class: a, name_and_type: b },
        8 => Item::MethodRef { class: a, name_and_type: b },
        9 => Item::InterfaceMethodRef { class: a, name_and_type: b },
        10 => Item::NameAndType { name: a, desc: b },
        11 => Item::MethodHandle { kind: KINDS[(b % 9) as usize].clone(), index: a },
        12 => Item::MethodType(a),
        13 => Item::InvokeDynamic { bootstrap_method_attribute: a, name_and_type: b },
        14 => Item::Module(a),
        _ => Item::Package(a),
    }
}
const NKINDS: usize = 16;

fn wide(v: &V) -> bool {
    matches!(v.tag(), "Long" | "Double")
}

const STRINGS: &[&str] = &["", "a", "b", "Code", "\0", "é", "\u{1F600}", "ab", "A"];
const VALUES: &[u64] = &[
    0,
    1,
    2,
    0x1_0000,
    0x1_0001,
    0x8000_0000,
    0x7FC0_0000,
    0x7FC0_0001,
    0xFFC0_0000,
    0x7F80_0000,
    0x8000_0000_0000_0000,
    0x7FF8_0000_0000_0000,
    0x7FF8_0000_0000_0001,
    0xFFF8_0000_0000_0000,
    0x7FF0_0000_0000_0001,
    0xFFFF,
    0xFFFF_FFFF,
    u64::MAX,
    0x3F80_0000,
    0x3FF0_0000_0000_0000,
    // signalling and quiet, both signs; halves that look like one another
    0x7F80_0001,
    0xFF80_0001,
    0xFFC0_0001,
    0x7FA0_0000,
    0x7FF4_0000_0000_0000,
    0xFFF0_0000_0000_0001,
    0xFFF8_0000_0000_0001,
    0x7FF0_0000_0000_0000,
    0xFFF0_0000_0000_0000,
    0x8000_0001,
    0x8000_0000_0000_0001,
    0x0000_0001_0000_0002,
    0x0000_0002_0000_0001,
    0x8000_0000_8000_0000,
];

/// A fixed set of pairwise different items with many near repeats.
fn universe() -> &'static Vec<(Item2, V)> {
    static U: std::sync::OnceLock<Vec<(Item2, V)>> = std::sync::OnceLock::new();
    U.get_or_init(|| {
        let mut v: Vec<(Item2, V)> = vec![];
        for k in 0..NKINDS {
            let n = if k == 0 { STRINGS.len() } else { VALUES.len() };
            for i in 0..n {
                let (x, s) = if k == 0 { (0, STRINGS[i]) } else { (VALUES[i], "") };
                let o = obs::item(&item(k, x, s));
                if !v.iter().any(|y| y.1 == o) {
                    v.push((Item2(k, x, s), o));
                }
            }
        }
        v
    })
}
/// Recipe of an item (items of the library need not be shareable between threads).
#[derive(Clone)]
pub struct Item2(usize, u64, &'static str);
impl Item2 {
    fn make(&self) -> Item {
        item(self.0, self.1, self.2)
    }
}

fn any_item(s: &mut Src) -> Item {
    let k = s.below(NKINDS as u64) as usize;
    if k == 0 {
        let x = crate::gen::text(s);
        return item(0, 0, &x);
    }
    let x = match s.below(3) {
        0 => *s.pick(VALUES),
        1 => s.u64any(),
        _ => u64::from(s.u16any()) | u64::from(s.u16any()) << 16,
    };
    item(k, x, "")
}

/// Mostly from the universe.
fn some_item(s: &mut Src, span: u64) -> Item {
    if s.chance(1, 8) {
        return any_item(s);
    }
    let u = universe();
    // a window of the universe makes repeats likely
    u[s.below(span.min(u.len() as u64)) as usize * 7 % u.len()].0.make()
}

// ---- model ----------------------------------------------------------------------------------

#[derive(Default, Clone)]
struct Model {
    /// slot i is index i + 1
    slots: Vec<Option<V>>,
    where_: HashMap<String, Vec<u16>>,
}
impl Model {
    fn len(&self) -> usize {
        self.slots.len() + 1
    }
    fn add(&mut self, v: V) {
        let i = self.len() as u16;
        self.where_.entry(key(&v)).or_default().push(i);
        let w = wide(&v);
        self.slots.push(Some(v));
        if w {
            self.slots.push(None);
        }
    }
    fn at(&self, i: u16) -> Option<&V> {
        if i == 0 {
            return None;
        }
        self.slots.get(i as usize - 1).and_then(|x| x.as_ref())
    }
}
fn key(v: &V) -> String {
    format!("{:?}", Full(v))
}
/// Like Debug, never shortened.
struct Full<'a>(&'a V);
impl<'a> std::fmt::Debug for Full<'a> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self.0 {
            V::B(b) => write!(f, "{}", hex(b)),
            V::L(v) | V::T(_, v) => {
                write!(f, "{}(", self.0.tag())?;
                for x in v {
                    write!(f, "{:?},", Full(x))?;
                }
                write!(f, ")")
            }
            x => write!(f, "{:?}", x),
        }
    }
}

struct World {
    pool: Pool,
    model: Model,
    log: String,
}

fn start(cx: &mut Cx) -> Result<World, Fail> {
    let log;
    let mut model = Model::default();
    let pool = match cx.src.below(5) {
        0 => {
            cx.label("new pool");
            log = "new".to_string();
            cx.sut(0, "Pool::new", Pool::new)?
        }
        1 => {
            cx.label("preallocated pool");
            let new = crate::dict::dict().sizes(65535);
            let c = if cx.src.chance(1, 50) {
                *cx.src.pick(&[65535u16, 65534, 32768])
            } else if !new.is_empty() && cx.src.chance(1, 20) {
                *cx.src.pick(&new) as u16
            } else {
                cx.src.below(200) as u16
            };
            log = format!("with_capacity({})", c);
            cx.sut(0, "Pool::with_capacity", || Pool::with_capacity(c))?
        }
        2 => {
            cx.label("default pool");
            log = "default".to_string();
            cx.sut(0, "Pool::default", Pool::default)?
        }
        _ => {
            cx.label("parsed pool");
            let mut g = Gen::new(&mut cx.src, &SMALL);
            let k = g.s.below(20);
            let u = universe();
            for _ in 0..k {
                if g.s.below(2) == 0 {
                    let kinds = crate::spec::CONSTS;
                    let c = kinds[g.s.below(kinds.len() as u64) as usize];
                    g.cp.of_kind(g.s, c);
                } else {
                    // constants equal to those pushed later
                    let i = g.s.below(u.len() as u64) as usize;
                    encode(&mut g, &u[i].1);
                }
            }
            let g = g.empty();
            selfcheck(&g);
            log = format!("parsed {:?}", g.pool);
            let (p, _) = accept(cx, &g.bytes)?;
            let mut skip = false;
            for v in g.pool.kids()[1].kids() {
                if skip {
                    skip = false;
                    continue;
                }
                skip = wide(v);
                model.add(v.clone());
            }
            p
        }
    };
    Ok(World { pool, model, log })
}

/// The bytes of a constant.
fn constant(v: &V) -> Vec<u8> {
    let one = |v: &V| v.num() as u64;
    let ops = v.kids();
    let (tag, _, fmt) = *crate::spec::CONSTS.iter().find(|c| c.1 == v.tag()).unwrap();
    let mut b = vec![tag];
    match tag {
        1 => {
            if let V::S(s) = &ops[0] {
                let x = crate::refdec::mutf8_encode(s);
                b.extend((x.len() as u16).to_be_bytes());
                b.extend(x);
            }
        }
        3 | 4 => b.extend((one(&ops[0]) as u32).to_be_bytes()),
        5 | 6 => b.extend(one(&ops[0]).to_be_bytes()),
        15 => {
            b.push(crate::spec::REF_KINDS.iter().position(|k| *k == ops[0].tag()).unwrap() as u8);
            b.extend((one(&ops[1]) as u16).to_be_bytes());
        }
        _ => {
            for (_, x) in fmt.chars().zip(ops) {
                b.extend((one(x) as u16).to_be_bytes());
            }
        }
    }
    b
}

/// Adds exactly this constant to the generated pool.
fn encode(g: &mut Gen, v: &V) {
    if let V::T("Utf8", x) = v {
        if let V::S(s) = &x[0] {
            let s = s.clone();
            g.cp.utf8(&s);
        }
        return;
    }
    g.cp.out.extend(constant(v));
    g.cp.slots.push(v.clone());
    if wide(v) {
        g.cp.slots.push(t("none", vec![]));
    }
}

fn err_of(e: &jbcrs::Error) -> String {
    format!("{:?}", obs::error(e))
}

fn check_get(cx: &mut Cx, w: &World, i: u16) -> Res {
    let got = cx.sut(0, "Pool::get", || w.pool.get(i).map(obs::item).map_err(|e| err_of(&e)))?;
    let want = match w.model.at(i) {
        Some(v) => Ok(v.clone()),
        None => Err(format!("InvalidCPItem({})", i)),
    };
    if got != want {
        return fail("lookup", format!("get({}) gave {:?}, expected {:?}; history: {}", i, got, want, clip(w.log.clone(), 1500)));
    }
    Ok(())
}

fn check_len(cx: &mut Cx, w: &World) -> Res {
    let (l, e) = cx.sut(0, "Pool::len", || (w.pool.len(), w.pool.is_empty()))?;
    if l as usize != w.model.len() || e != (w.model.len() == 1) {
        return fail(
            "length",
            format!("len() = {} and is_empty() = {}, expected {}; history: {}", l, e, w.model.len(), clip(w.log.clone(), 1500)),
        );
    }
    Ok(())
}

/// One push against the model. Returns whether it was refused.
fn push(cx: &mut Cx, w: &mut World, it: Item) -> Result<bool, Fail> {
    let v = obs::item(&it);
    if w.log.len() < 4000 {
        w.log.push_str(&format!("; push {}", clip(format!("{:?}", v), 60)));
    }
    let r = {
        let p = &mut w.pool;
        cx.sut(64, "Pool::push", || p.push(it).map_err(|e| err_of(&e)))
    };
    let r = match r {
        Ok(r) => r,
        Err(f) => return Err(Fail { msg: format!("{}; history: {}", f.msg, clip(w.log.clone(), 1500)), ..f }),
    };
    let have = w.model.where_.get(&key(&v)).cloned().unwrap_or_default();
    let need = if wide(&v) { 2 } else { 1 };
    let full = w.model.len() + need > 65535;
    match r {
        Ok(i) if !have.is_empty() => {
            cx.label("repeated push");
            if !have.contains(&i) {
                return fail(
                    "repeat",
                    format!("pushing a present item gave {}, it is at {:?}; history: {}", i, have, clip(w.log.clone(), 1500)),
                );
            }
        }
        Ok(i) => {
            if full {
                return fail(
                    "overfull",
                    format!("a push at length {} gave {}; history: {}", w.model.len(), i, clip(w.log.clone(), 1500)),
                );
            }
            if i as usize != w.model.len() {
                return fail(
                    "index",
                    format!("a new item got index {}, expected {}; history: {}", i, w.model.len(), clip(w.log.clone(), 1500)),
                );
            }
            w.model.add(v);
        }
        Err(e) => {
            if !have.is_empty() || !full || e != "CPTooLarge" {
                return fail(
                    "refused",
                    format!(
                        "push at length {} (item present: {}) failed with {}; history: {}",
                        w.model.len(),
                        !have.is_empty(),
                        e,
                        clip(w.log.clone(), 1500)
                    ),
                );
            }
            cx.label("refused push");
            check_len(cx, w)?;
            return Ok(true);
        }
    }
    check_len(cx, w)?;
    Ok(false)
}

/// Every lookup and the iteration against the model.
fn check_all(cx: &mut Cx, w: &World, indices: &[u16]) -> Res {
    let model = &w.model;
    let wrong = cx.sut(1 << 20, "Pool lookups", || {
        for &i in indices {
            let got = w.pool.get(i).map(obs::item).map_err(|e| err_of(&e));
            let ok = match (&got, model.at(i)) {
                (Ok(a), Some(b)) => a == b,
                (Err(e), None) => *e == format!("InvalidCPItem({})", i),
                _ => false,
            };
            if !ok {
                return Some((i, format!("{:?}", got)));
            }
        }
        None
    });
    let wrong = match wrong {
        Ok(x) => x,
        Err(f) => return Err(Fail { msg: format!("{}; history: {}", f.msg, clip(w.log.clone(), 1500)), ..f }),
    };
    if let Some((i, g)) = wrong {
        return fail(
            "lookup",
            format!("get({}) gave {}, expected {:?}; history: {}", i, g, model.at(i), clip(w.log.clone(), 1500)),
        );
    }
    Ok(())
}

fn around(len: usize) -> Vec<u16> {
    let mut v: Vec<u16> = (0..(len + 3).min(65536)).map(|x| x as u16).collect();
    v.extend([32767, 32768, 65534, 65535]);
    v
}

fn check_iter(cx: &mut Cx, w: &World) -> Res {
    let got: Vec<(u16, V)> = {
        let p = &w.pool;
        let cap = w.model.slots.len() + 10;
        let r = cx.sut(1 << 20, "Pool::iter", || p.iter().take(cap).map(|(i, x)| (i, obs::item(x))).collect());
        match r {
            Ok(x) => x,
            Err(f) => return Err(Fail { msg: format!("{}; history: {}", f.msg, clip(w.log.clone(), 1500)), ..f }),
        }
    };
    let want: Vec<(u16, V)> =
        w.model.slots.iter().enumerate().filter_map(|(i, v)| v.clone().map(|v| ((i + 1) as u16, v))).collect();
    if got != want {
        let k = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        return fail(
            "iteration",
            format!(
                "iteration differs at its element {}: got {:?}, expected {:?} ({} and {} in all); history: {}",
                k,
                got.get(k),
                want.get(k),
                got.len(),
                want.len(),
                clip(w.log.clone(), 1500)
            ),
        );
    }
    Ok(())
}

fn history(cx: &mut Cx, w: &mut World, ops: usize, span: u64) -> Res {
    for _ in 0..ops {
        match cx.src.below(8) {
            k @ 0..=5 => {
                let l = w.model.slots.len() as u64;
                let it = if k >= 4 && l > 0 {
                    // close to one that is there
                    let i = cx.src.below(l) as usize;
                    match w.model.slots[i].clone() {
                        Some(v) => near(&mut cx.src, &v),
                        None => some_item(&mut cx.src, span),
                    }
                } else {
                    some_item(&mut cx.src, span)
                };
                push(cx, w, it)?;
            }
            6 => {
                let i = if cx.src.below(3) == 0 { cx.src.u16any() } else { cx.src.below(w.model.len() as u64 + 2) as u16 };
                w.log.push_str(&format!("; get {}", i));
                check_get(cx, w, i)?;
            }
            _ => {
                // a clone of an item taken from the pool is a present item
                if w.model.len() > 1 {
                    let i = cx.src.range(1, w.model.len() as u64 - 1) as u16;
                    let p = &w.pool;
                    if let Ok(it) = cx.sut(0, "Pool::get", || p.get(i).map(|x| x.clone()))? {
                        w.log.push_str(&format!("; push clone of {}", i));
                        push(cx, w, it)?;
                    }
                }
            }
        }
    }
    Ok(())
}

// ---- C19 ------------------------------------------------------------------------------------

fn histories(cx: &mut Cx) -> Res {
    let mut w = start(cx)?;
    check_len(cx, &w)?;
    let ops = 1 + cx.src.count(60);
    let span = *cx.src.pick(&[4, 12, 40, 400]);
    history(cx, &mut w, ops, span)?;
    let all = around(w.model.len());
    check_all(cx, &w, &all)?;
    cx.nontrivial(w.model.where_.values().any(|v| v.len() > 1) || w.model.slots.iter().any(|s| s.is_none()) || w.log.contains("clone"));
    cx.identity(&w.log);
    cx.sample(|| w.log.clone());
    Ok(())
}

/// Every ordered pair of universe items pushed one after the other, then both again.
fn pairs(cx: &mut Cx) -> Res {
    let u = universe();
    let k = u.len() as u64;
    let (a, b) = (&u[(cx.index / k) as usize], &u[(cx.index % k) as usize]);
    let mut w = World { pool: Pool::new(), model: Model::default(), log: "new".into() };
    for x in [a, b, a, b] {
        push(cx, &mut w, x.0.make())?;
    }
    check_all(cx, &w, &[0, 1, 2, 3, 4, 5, 6])?;
    cx.nontrivial(true);
    cx.identity(&cx.index.to_string());
    cx.sample(|| w.log.clone());
    Ok(())
}

fn long_histories(cx: &mut Cx) -> Res {
    let mut w = start(cx)?;
    let n = cx.src.range(500, 6000);
    let stride = *cx.src.pick(&[1u64, 3, 0x1_0000, 0x1_0001, 0x1000_0000]);
    let kinds: Vec<usize> = (0..1 + cx.src.count(6)).map(|_| cx.src.below(NKINDS as u64) as usize).collect();
    w.log.push_str(&format!("; {} pushes of kinds {:?} stride {:#x}", n, kinds, stride));
    for i in 0..n {
        let k = kinds[(i % kinds.len() as u64) as usize];
        let x = (i / 2).wrapping_mul(stride);
        let it = if k == 0 { item(0, 0, &format!("s{}", x)) } else { item(k, x, "") };
        push(cx, &mut w, it)?;
    }
    let all = around(w.model.len());
    check_all(cx, &w, &all)?;
    check_iter(cx, &w)?;
    cx.nontrivial(true);
    cx.identity(&w.log);
    cx.sample(|| w.log.clone());
    Ok(())
}

/// A pool of any size; every item of it pushed again; some more; every index.
fn large(cx: &mut Cx) -> Res {
    let way = cx.src.below(WAYS);
    let sizes = crate::dict::dict().sizes(65535);
    let len = match cx.src.below(4) {
        0 if !sizes.is_empty() => *cx.src.pick(&sizes),
        1 => (1usize << cx.src.range(1, 16)) + cx.src.below(5) as usize - 2,
        2 => cx.src.range(300, 9000) as usize,
        _ => cx.src.range(1, 65535) as usize,
    };
    let (mut w, present) = filled(cx, way, len.clamp(1, 65535))?;
    check_len(cx, &w)?;
    let again: Vec<(usize, u64)> = if cx.src.below(2) == 0 { present.clone() } else { present.iter().rev().copied().collect() };
    let (pool, model) = (&mut w.pool, &w.model);
    let wrong = cx.sut(1 << 22, "Pool::push of every item again", || {
        for &(k, x) in &again {
            let it = recipe(k, x);
            let v = obs::item(&it);
            let have = model.where_.get(&key(&v));
            match pool.push(it) {
                Ok(i) if have.map_or(false, |h| h.contains(&i)) => {}
                r => return Some((v, have.cloned(), r.map_err(|e| err_of(&e)))),
            }
        }
        None
    })?;
    if let Some((v, have, r)) = wrong {
        return fail("repeat", format!("pushing {:?} again gave {:?}, it is at {:?}; history: {}", v, r, have, w.log));
    }
    check_len(cx, &w)?;
    for _ in 0..cx.src.below(20) {
        let it = if cx.src.below(2) == 0 { any_item(&mut cx.src) } else { some_item(&mut cx.src, 400) };
        push(cx, &mut w, it)?;
    }
    let all: Vec<u16> = (0..=65535).collect();
    check_all(cx, &w, &all)?;
    check_iter(cx, &w)?;
    cx.label(if len > 4096 { "large pool" } else { "pool" });
    cx.nontrivial(len > 1);
    cx.identity(&w.log);
    cx.sample(|| w.log.clone());
    Ok(())
}

// ---- C20 ------------------------------------------------------------------------------------

/// What a pool is filled with.
const MIXES: &[(&str, &[usize])] = &[
    ("ints", &[1]),
    ("ints and eight-byte constants", &[1, 1, 3, 1, 1, 4]),
    ("longs", &[3]),
    ("longs and doubles", &[4, 3]),
    ("strings", &[0]),
    ("strings and doubles", &[0, 4]),
    ("classes, references and floats", &[5, 6, 7, 8, 9, 10, 2]),
    ("every kind", &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15]),
];
/// By pushing, by parsing, by parsing with repeats.
const WAYS: u64 = 3 * 8;

fn recipe(k: usize, x: u64) -> Item {
    item(k, x, &if k == 0 { format!("n{}", x) } else { String::new() })
}

/// A pool of the given length, and what it was made of. Kinds of a sixteen-bit payload give no more different items
/// than payloads; where they run out, integers take their place.
fn filled(cx: &mut Cx, way: u64, len: usize) -> Result<(World, Vec<(usize, u64)>), Fail> {
    let (what, kinds) = MIXES[way as usize % MIXES.len()];
    let how = way as usize / MIXES.len();
    let mut items: Vec<(usize, u64)> = vec![];
    let mut l = 1;
    let mut x = 0u64;
    // in turn, or in any order
    let mut any = match cx.src.below(3) {
        0 => None,
        _ => Some(Rng::new(&[cx.src.raw(0)])),
    };
    while l < len {
        x += 1;
        let k = match &mut any {
            None => kinds[x as usize % kinds.len()],
            Some(r) => kinds[r.below(kinds.len())],
        };
        let w = if k == 3 || k == 4 { 2 } else { 1 };
        let k = if l + w > len { 1 } else { k };
        // repeats only in parsed pools, where the file decides the indices
        let r = if how == 2 && x % 5 == 0 { 7 } else { x };
        // bit patterns of floating point numbers are spread out, and others wide where they can be
        let r = match k {
            3 | 4 => r.wrapping_mul(0x0001_0001_0000_0001),
            7..=10 | 13 => r | (r % 97) << 16,
            11 => r | (r % 9) << 16,
            _ => r,
        };
        items.push((k, r));
        l += if k == 3 || k == 4 { 2 } else { 1 };
    }
    let mut model = Model::default();
    for &(k, x) in &items {
        model.add(obs::item(&recipe(k, x)));
    }
    assert_eq!(model.len(), len);
    let mut log = format!("a pool of length {} full of {}, made by {}", len, what, ["pushes", "parsing", "parsing, with repeats"][how]);
    let mut room = None;
    if how == 0 && cx.src.below(3) > 0 {
        // preallocated: for all, for less, for a number of items the library mentions newly
        let new = crate::dict::dict().sizes(65535);
        let c = match cx.src.below(4) {
            0 => len as u16,
            1 => cx.src.below(len as u64 + 1) as u16,
            2 if !new.is_empty() => *cx.src.pick(&new) as u16,
            2 => (1u64 << cx.src.below(16)) as u16,
            _ => len.saturating_sub(cx.src.below(5) as usize) as u16,
        };
        log.push_str(&format!(" after with_capacity({})", c));
        room = Some(c);
    }
    let pool = if how == 0 {
        let r = cx.sut(1 << 22, "Pool::push", || {
            let mut p = room.map_or_else(Pool::new, Pool::with_capacity);
            for &(k, x) in &items {
                if let Err(e) = p.push(recipe(k, x)) {
                    return Err(err_of(&e));
                }
            }
            Ok(p)
        })?;
        match r {
            Ok(p) => p,
            Err(e) => return fail("refused", format!("filling {} failed: {}", log, e)),
        }
    } else {
        let mut out = vec![];
        for v in model.slots.iter().flatten() {
            out.extend(constant(v));
        }
        let mut b = head(len, &out);
        b.extend(EMPTY_BODY);
        accept(cx, &b).map_err(|mut f| {
            f.input = None;
            f.msg = format!("{} ({})", f.msg, log);
            f
        })?
        .0
    };
    Ok((World { pool, model, log }, items))
}

fn finish_limit(cx: &mut Cx, w: &mut World, present: &[(usize, u64)], ops: usize) -> Res {
    check_len(cx, w)?;
    let mut refused = false;
    for k in 0..ops {
        let it = match cx.src.below(9) {
            0 | 1 => item(3 + cx.src.below(2) as usize, 1 << 40 | cx.src.below(6), ""),
            2 | 3 => item(1, 1 << 30 | cx.src.below(40), ""),
            4 => item(0, 0, &format!("s{}", cx.src.below(20))),
            5 | 6 => {
                // one that is there already: an early one, a late one, any
                let (n, m) = (present.len(), cx.src.below(4));
                let k = cx.src.below(if m == 0 { n as u64 } else { n.min(8) as u64 }) as usize;
                let (k, x) = present[if m == 1 { n - 1 - k } else { k }];
                recipe(k, x)
            }
            _ => any_item(&mut cx.src),
        };
        refused |= push(cx, w, it)?;
        if k % 8 == 7 {
            let i = cx.src.below(65536) as u16;
            check_get(cx, w, i)?;
        }
    }
    let all: Vec<u16> = (0..=65535).collect();
    check_all(cx, w, &all)?;
    check_iter(cx, w)?;
    cx.nontrivial(refused);
    cx.identity(&w.log);
    cx.sample(|| w.log.clone());
    Ok(())
}

fn near_limit(cx: &mut Cx) -> Res {
    let way = cx.src.below(WAYS);
    let len = 65535 - cx.src.below(30) as usize;
    let (mut w, present) = filled(cx, way, len)?;
    let ops = cx.src.range(1, 60) as usize;
    finish_limit(cx, &mut w, &present, ops)
}

fn every_start(cx: &mut Cx) -> Res {
    let i = cx.index;
    cx.src.seed_if_empty(i);
    let way = i % WAYS;
    let len = 65535 - (i / WAYS % 40) as usize;
    let (mut w, present) = filled(cx, way, len)?;
    finish_limit(cx, &mut w, &present, 70)
}

// ---- C21 ------------------------------------------------------------------------------------

fn grown(cx: &mut Cx) -> Result<World, Fail> {
    let mut w = start(cx)?;
    let ops = cx.src.count(60);
    let span = *cx.src.pick(&[12, 400]);
    history(cx, &mut w, ops, span)?;
    Ok(w)
}

fn iterate(cx: &mut Cx) -> Res {
    let w = grown(cx)?;
    check_iter(cx, &w)?;
    // interleaved with lookups; what it lists is what lookups find, over all indices
    let seed = cx.src.raw(0);
    let p = &w.pool;
    let wrong = cx.sut(1 << 20, "Pool::iter with lookups", || {
        let mut r = Rng::new(&[seed]);
        let mut listed: Vec<(u16, V)> = vec![];
        let mut it = p.iter();
        let limit = w.model.slots.len() + 3;
        while let Some((i, x)) = it.next() {
            let v = obs::item(x);
            let _ = p.get(r.next() as u16).is_ok();
            let _ = p.len();
            match p.get(i) {
                Ok(y) if obs::item(y) == v => {}
                y => return Some(format!("iteration gives ({}, {:?}), lookup {:?}", i, v, y.map(obs::item).map_err(|e| err_of(&e)))),
            }
            listed.push((i, v));
            if listed.len() > limit {
                return Some("iteration does not end".to_string());
            }
        }
        let found: Vec<u16> = (0..=65535u16).filter(|&i| p.get(i).is_ok()).collect();
        let idx: Vec<u16> = listed.iter().map(|x| x.0).collect();
        if found != idx {
            return Some(format!("iteration lists indices {:?}, lookups succeed at {:?}", idx, found));
        }
        let again: Vec<(u16, V)> = p.iter().take(limit).map(|(i, x)| (i, obs::item(x))).collect();
        if again != listed {
            return Some("a second iteration differs".to_string());
        }
        None
    });
    let wrong = match wrong {
        Ok(x) => x,
        Err(f) => return Err(Fail { msg: format!("{}; history: {}", f.msg, clip(w.log.clone(), 1500)), ..f }),
    };
    if let Some(m) = wrong {
        return fail("iteration", format!("{}; history: {}", clip(m, 1000), clip(w.log.clone(), 1500)));
    }
    check_len(cx, &w)?;
    let items = w.model.slots.iter().flatten().count();
    cx.nontrivial(items >= 3 && items < w.model.slots.len());
    cx.identity(&w.log);
    cx.sample(|| w.log.clone());
    Ok(())
}

/// Every way the standard library offers to go through an iterator, against going through a list of the same items.
fn steps(cx: &mut Cx) -> Res {
    let w = grown(cx)?;
    let want: Vec<(u16, V)> =
        w.model.slots.iter().enumerate().filter_map(|(i, v)| v.clone().map(|v| ((i + 1) as u16, v))).collect();
    let ops: Vec<(u64, usize)> = (0..1 + cx.src.below(8)).map(|_| (cx.src.below(12), cx.src.count(400))).collect();
    let (last, arg) = (cx.src.below(14), cx.src.count(400));
    let cap = want.len() + 2;
    let p = &w.pool;
    let wrong = cx.sut(1 << 22, "Pool::iter and iterator methods", || {
        let own = |x: Option<(u16, &jbcrs::basic::Item)>| x.map(|(i, x)| (i, obs::item(x)));
        let mut it = p.iter();
        let mut at = 0;
        let mut said = vec![];
        for &(op, k) in &ops {
            let from = at;
            let left = want.len() - at;
            let (lo, hi) = it.size_hint();
            if lo > left || hi.map_or(false, |h| h < left) {
                return Some(format!("size_hint ({}, {:?}) with {} items left", lo, hi, left));
            }
            let (name, got, expect): (&str, Vec<(u16, V)>, Vec<(u16, V)>) = match op {
                0..=3 => {
                    at = (at + 1).min(want.len());
                    ("next", own(it.next()).into_iter().collect(), want.get(from).cloned().into_iter().collect())
                }
                4 | 5 => {
                    at = (at + k + 1).min(want.len());
                    ("nth", own(it.nth(k)).into_iter().collect(), want.get(from + k).cloned().into_iter().collect())
                }
                6 => {
                    at = (at + k).min(want.len());
                    ("take", it.by_ref().take(k).map(|x| own(Some(x)).unwrap()).collect(), want[from..at].to_vec())
                }
                7 => {
                    // one item beyond the taken ones is used up
                    let v = it.by_ref().take_while(|x| usize::from(x.0) <= k).map(|x| own(Some(x)).unwrap()).collect();
                    let n = want[from..].iter().take_while(|x| usize::from(x.0) <= k).count();
                    at = (from + n + 1).min(want.len());
                    ("take_while", v, want[from..from + n].to_vec())
                }
                8 => {
                    let v = own(it.find(|x| usize::from(x.0) >= k));
                    let e = want[from..].iter().position(|x| usize::from(x.0) >= k);
                    at = e.map_or(want.len(), |e| from + e + 1);
                    ("find", v.into_iter().collect(), e.map(|e| want[from + e].clone()).into_iter().collect())
                }
                9 => {
                    let v = it.by_ref().skip(k).next();
                    at = (at + k + 1).min(want.len());
                    ("skip", own(v).into_iter().collect(), want.get(from + k).cloned().into_iter().collect())
                }
                10 => {
                    let any = it.any(|x| usize::from(x.0) == k);
                    let e = want[from..].iter().position(|x| usize::from(x.0) == k);
                    at = e.map_or(want.len(), |e| from + e + 1);
                    if any != e.is_some() {
                        return Some(format!("any gave {} for index {} after {:?}", any, k, said));
                    }
                    ("any", vec![], vec![])
                }
                _ => {
                    let v = it.position(|x| usize::from(x.0) == k);
                    let e = want[from..].iter().position(|x| usize::from(x.0) == k);
                    at = e.map_or(want.len(), |e| from + e + 1);
                    if v != e {
                        return Some(format!("position gave {:?}, expected {:?} after {:?}", v, e, said));
                    }
                    ("position", vec![], vec![])
                }
            };
            said.push((name, k));
            if got != expect {
                return Some(format!("{:?} gave {:?}, expected {:?}", said, got, expect));
            }
        }
        let rest = want[at..].to_vec();
        let all = |v: Vec<(u16, &jbcrs::basic::Item)>| -> Vec<(u16, V)> { v.into_iter().map(|(i, x)| (i, obs::item(x))).collect() };
        let (name, got, expect): (&str, Vec<(u16, V)>, Vec<(u16, V)>) = match last {
            0 => {
                let n = it.count();
                if n != rest.len() {
                    return Some(format!("count gave {}, {} items are left after {:?}", n, rest.len(), said));
                }
                return None;
            }
            1 => ("last", own(it.last()).into_iter().collect(), rest.last().cloned().into_iter().collect()),
            2 => ("fold", it.fold(vec![], |mut v, x| {
                if v.len() < cap {
                    v.push((x.0, obs::item(x.1)));
                }
                v
            }), rest),
            3 => ("step_by", all(it.step_by(arg + 1).take(cap).collect()), rest.into_iter().step_by(arg + 1).collect()),
            4 => ("skip", all(it.skip(arg).take(cap).collect()), rest.into_iter().skip(arg).collect()),
            5 => ("for_each", {
                let mut v = vec![];
                it.for_each(|x| v.push((x.0, obs::item(x.1))));
                v
            }, rest),
            6 => ("max_by_key", own(it.max_by_key(|x| x.0)).into_iter().collect(), rest.last().cloned().into_iter().collect()),
            7 => ("min_by_key", own(it.min_by_key(|x| x.0)).into_iter().collect(), rest.first().cloned().into_iter().collect()),
            8 => ("fuse and peekable", {
                let mut it = it.fuse().peekable();
                let mut v = vec![];
                while let Some(&(i, x)) = it.peek() {
                    if v.len() > cap {
                        break;
                    }
                    v.push((i, obs::item(x)));
                    it.next();
                }
                v
            }, rest),
            9 => ("zip", all(it.zip(0..cap).map(|x| x.0).collect()), rest),
            10 => ("chain", all(it.chain(p.iter()).take(2 * cap).collect()), rest.into_iter().chain(want.iter().cloned()).collect()),
            11 => ("partition", {
                let (mut a, b): (Vec<_>, Vec<_>) = it.partition(|x| x.0 % 2 == 0);
                a.extend(b);
                a.sort_by_key(|x| x.0);
                all(a)
            }, rest),
            12 => ("skip_while", all(it.skip_while(|x| usize::from(x.0) < arg).take(cap).collect()), rest.into_iter().skip_while(|x| usize::from(x.0) < arg).collect()),
            _ => ("collect", all(it.collect()), rest),
        };
        if got != expect {
            return Some(format!("after {:?}: {} gave {:?}, expected {:?}", said, name, got, expect));
        }
        None
    });
    let wrong = match wrong {
        Ok(x) => x,
        Err(f) => return Err(Fail { msg: format!("{}; history: {}", f.msg, clip(w.log.clone(), 1500)), ..f }),
    };
    if let Some(m) = wrong {
        return fail("iteration", format!("{}; history: {}", clip(m, 1000), clip(w.log.clone(), 1500)));
    }
    cx.nontrivial(want.len() >= 2);
    cx.identity(&(&w.log, &ops, last, arg));
    cx.sample(|| format!("{:?} then {} on {}", ops, last, w.log));
    Ok(())
}

fn past_the_end(cx: &mut Cx) -> Res {
    let w = grown(cx)?;
    let extra = *cx.src.pick(&[1usize, 2, 300, 65536, 70_000]);
    let p = &w.pool;
    let items = w.model.slots.iter().flatten().count();
    let r = cx.sut(1 << 20, "next() on an ended iterator", || {
        let mut it = p.iter();
        let mut k = 0;
        while it.next().is_some() && k <= items {
            k += 1;
        }
        (k, (0..extra).filter(|_| it.next().is_some()).count())
    });
    let (k, more) = match r {
        Ok(x) => x,
        Err(f) => {
            return Err(Fail { msg: format!("{} ({} calls after the end); history: {}", f.msg, extra, clip(w.log.clone(), 1500)), ..f })
        }
    };
    if k != items || more != 0 {
        return fail(
            "iteration",
            format!("{} items listed, expected {}; {} more of {} calls after the end gave an item; history: {}", k, items, more, extra, w.log),
        );
    }
    cx.nontrivial(items >= 1);
    cx.identity(&(&w.log, extra));
    cx.sample(|| format!("{} calls past the end of {}", extra, w.log));
    Ok(())
}

fn iterate_full(cx: &mut Cx) -> Res {
    let way = cx.src.below(WAYS);
    let len = 65535 - cx.src.below(12) as usize;
    let (mut w, _) = filled(cx, way, len)?;
    for _ in 0..cx.src.below(20) {
        let it = some_item(&mut cx.src, 400);
        push(cx, &mut w, it)?;
    }
    check_iter(cx, &w)?;
    let p = &w.pool;
    let more = cx.sut(1 << 20, "next() on an ended iterator", || {
        let mut it = p.iter();
        for _ in 0..65536 {
            it.next();
        }
        (0..70_000).filter(|_| it.next().is_some()).count()
    })?;
    if more != 0 {
        return fail("iteration", format!("an ended iterator gave {} items; {}", more, w.log));
    }
    cx.nontrivial(true);
    cx.identity(&w.log);
    cx.sample(|| w.log.clone());
    Ok(())
}

// ---- C22 ------------------------------------------------------------------------------------

fn check_names(cx: &mut Cx, w: &World) -> Res {
    let (p, m) = (&w.pool, &w.model);
    let text = |i: u16| match m.at(i) {
        Some(V::T("Utf8", x)) => match &x[0] {
            V::S(s) => Some(s.clone()),
            _ => None,
        },
        _ => None,
    };
    let class = |i: u16| match m.at(i) {
        Some(V::T("Class", x)) => Some(x[0].num() as u16),
        _ => None,
    };
    fn bad<T>(i: u16) -> Result<T, u16> {
        Err(i)
    }
    fn view<T>(r: jbcrs::Result<T>) -> Result<T, u16> {
        r.map_err(|e| match e {
            jbcrs::Error::InvalidCPItem(i) => i,
            e => panic!("another error kind: {:?}", e),
        })
    }
    let wrong = cx.sut(1 << 22, "Pool name lookups", || {
        for i in 0..=65535u16 {
            let (a, b, c) = (view(p.get_utf8(i)), view(p.get_class_name(i)), view(p.get_class_name_opt(i)));
            let wa = text(i).map(Ok).unwrap_or_else(|| bad(i));
            let (wb, wc) = match class(i) {
                None => (bad(i), bad(i)),
                Some(u) => {
                    let t = text(u).map(Ok).unwrap_or_else(|| bad(u));
                    (t.clone(), if u == 0 { Ok(None) } else { t.map(Some) })
                }
            };
            if a != wa {
                return Some(format!("get_utf8({}) gave {:?}, expected {:?}", i, a, wa));
            }
            if b != wb {
                return Some(format!("get_class_name({}) gave {:?}, expected {:?}", i, b, wb));
            }
            if c != wc {
                return Some(format!("get_class_name_opt({}) gave {:?}, expected {:?}", i, c, wc));
            }
        }
        None
    });
    let wrong = match wrong {
        Ok(x) => x,
        Err(f) => return Err(Fail { msg: format!("{}; history: {}", f.msg, clip(w.log.clone(), 1500)), ..f }),
    };
    if let Some(m) = wrong {
        return fail("names", format!("{}; history: {}", clip(m, 600), clip(w.log.clone(), 1500)));
    }
    Ok(())
}

fn lookups(cx: &mut Cx) -> Res {
    let mut w = start(cx)?;
    let mut classes = 0;
    for _ in 0..cx.src.range(1, 40) {
        let it = match cx.src.below(4) {
            0 => {
                classes += 1;
                let target = match cx.src.below(6) {
                    0 => 0,
                    1 => cx.src.u16any(),
                    2 => w.model.len() as u16,
                    _ => cx.src.below(w.model.len() as u64 + 2) as u16,
                };
                Item::Class(target)
            }
            1 => {
                let x = crate::gen::text(&mut cx.src);
                Item::UTF8(x)
            }
            _ => {
                // kinds whose first operand could be mistaken for a name index
                let i = cx.src.below(w.model.len() as u64 + 1);
                let k = cx.src.below(NKINDS as u64) as usize;
                item(k, i | i << 16, "x")
            }
        };
        push(cx, &mut w, it)?;
    }
    check_names(cx, &w)?;
    cx.nontrivial(classes > 0);
    cx.identity(&w.log);
    cx.sample(|| w.log.clone());
    Ok(())
}

fn lookups_full(cx: &mut Cx) -> Res {
    let way = cx.src.below(WAYS);
    let len = 65535 - cx.src.range(0, 20) as usize;
    let (mut w, _) = filled(cx, way, len)?;
    for k in 0..20 {
        let it = if k % 2 == 0 { Item::UTF8(format!("n{}", k)) } else { Item::Class(w.model.len() as u16 - 1) };
        push(cx, &mut w, it)?;
    }
    check_names(cx, &w)?;
    cx.nontrivial(true);
    cx.identity(&w.log);
    cx.sample(|| w.log.clone());
    Ok(())
}

// ---- C23 ------------------------------------------------------------------------------------

/// A hasher that keeps everything it is given.
#[derive(Default)]
struct Keep(Vec<u8>);
impl Hasher for Keep {
    fn write(&mut self, b: &[u8]) {
        self.0.extend(b);
    }
    fn finish(&self) -> u64 {
        self.0.iter().fold(7, |h, b| h * 31 + u64::from(*b))
    }
}

fn hashes(i: &Item) -> (u64, Vec<u8>) {
    let mut a = std::collections::hash_map::DefaultHasher::new();
    i.hash(&mut a);
    let mut k = Keep::default();
    i.hash(&mut k);
    (a.finish(), k.0)
}

fn check_pair(cx: &mut Cx, a: &Item, b: &Item) -> Res {
    let (va, vb) = (obs::item(a), obs::item(b));
    let same = va == vb;
    let (e1, e2, n1, ha, hb, ca) = cx.sut(64, "Item equality and hashing", || (a == b, b == a, a != b, hashes(a), hashes(b), a.clone()))?;
    if e1 != same || e2 != same || n1 == same {
        return fail("equality", format!("{:?} == {:?} gave {} and {} (!= {}), expected {}", va, vb, e1, e2, n1, same));
    }
    if same && ha != hb {
        return fail("hash", format!("equal items {:?} hash differently", va));
    }
    let (refl, hc) = cx.sut(64, "Item equality and hashing", || (&ca == a && a == &ca && a == a, hashes(&ca)))?;
    if !refl || obs::item(&ca) != va || hc != ha {
        return fail("clone", format!("{:?} differs from itself or its clone {:?}", va, obs::item(&ca)));
    }
    cx.label(if same { "equal pair" } else if va.tag() == vb.tag() { "same kind, different bits" } else { "different kinds" });
    Ok(())
}

fn payload(v: &V) -> u64 {
    match v {
        V::T("MethodHandle", x) => x[1].num() as u64 | (KINDS.iter().position(|k| format!("{:?}", k) == x[0].tag()).unwrap_or(0) as u64) << 16,
        V::T(_, x) => x.iter().enumerate().fold(0, |a, (i, y)| match y {
            V::N(n) if x.len() == 1 => *n as u64,
            V::N(n) => a | (*n as u64) << (16 * i),
            _ => a,
        }),
        _ => 0,
    }
}

/// An item that differs little from the given one, or not at all.
fn near(s: &mut Src, va: &V) -> Item {
    let (k, x) = (NAMES.iter().position(|x| *x == va.tag()).unwrap(), payload(va));
    let text = match &va.kids()[0] {
        V::S(s) => s.clone(),
        _ => String::new(),
    };
    let bits = [0, 32, 32, 64, 64, 16, 16, 32, 32, 32, 32, 20, 16, 32, 16, 16][k];
    match s.below(10) {
        0 | 1 => item(k, x, &text),
        2 | 3 => {
            // one bit
            if k == 0 {
                let mut t = text.clone();
                match s.below(6) {
                    0 => t.push('\0'),
                    1 => {
                        t.pop();
                    }
                    2 => t = t.to_uppercase(),
                    3 => t.push(' '),
                    4 => t = t.chars().rev().collect(),
                    _ => {
                        let mut c: Vec<char> = t.chars().collect();
                        if !c.is_empty() {
                            let i = s.below(c.len() as u64) as usize;
                            c[i] = char::from_u32(c[i] as u32 ^ 1).unwrap_or('x');
                        }
                        t = c.into_iter().collect();
                    }
                }
                item(0, 0, &t)
            } else {
                item(k, x ^ 1 << s.below(bits), "")
            }
        }
        4 | 5 => {
            // same bits, other kind
            let other = s.below(NKINDS as u64) as usize;
            item(other, x, &text)
        }
        6 if k > 0 && s.below(2) == 0 => {
            // one part another
            let low = s.below(2) == 0;
            let y = u64::from(s.u16any());
            item(k, if low { x & !0xFFFF | y } else { x & !(0xFFFF << 16) | y << 16 }, "")
        }
        6 if k > 0 => {
            // halves exchanged
            item(k, (x & 0xFFFF) << 16 | (x >> 16 & 0xFFFF), "")
        }
        7 if k > 0 => item(k, x.rotate_left(32), ""),
        8 if k > 0 => item(k, [x.wrapping_add(1), x.wrapping_sub(1), x.wrapping_neg(), !x][s.below(4) as usize], ""),
        9 if k == 2 => item(2, x ^ [0x8000_0000, 0x40_0000, 0x7F80_0000][s.below(3) as usize], ""),
        9 if k == 4 => item(4, x ^ [1u64 << 63, 1 << 51, 0x7FF0_0000_0000_0000][s.below(3) as usize], ""),
        _ => any_item(s),
    }
}

fn item_pairs(cx: &mut Cx) -> Res {
    let a = any_item(&mut cx.src);
    let va = obs::item(&a);
    let b = near(&mut cx.src, &va);
    check_pair(cx, &a, &b)?;
    cx.nontrivial(true);
    cx.identity(&key(&va));
    cx.identity(&(1, key(&obs::item(&b))));
    cx.sample(|| format!("{:?} and {:?}", va, obs::item(&b)));
    Ok(())
}
const NAMES: [&str; NKINDS] = [
    "Utf8",
    "Integer",
    "Float",
    "Long",
    "Double",
    "Class",
    "String",
    "FieldRef",
    "MethodRef",
    "InterfaceMethodRef",
    "NameAndType",
    "MethodHandle",
    "MethodType",
    "InvokeDynamic",
    "Module",
    "Package",
];

fn universe_pairs(cx: &mut Cx) -> Res {
    let u = universe();
    let k = u.len() as u64;
    let (a, b) = (u[(cx.index / k) as usize].0.make(), u[(cx.index % k) as usize].0.make());
    check_pair(cx, &a, &b)?;
    cx.nontrivial(true);
    cx.identity(&cx.index.to_string());
    cx.sample(|| format!("{:?} and {:?}", obs::item(&a), obs::item(&b)));
    Ok(())
}

fn maps(cx: &mut Cx) -> Res {
    let span = *cx.src.pick(&[6, 30, 400]);
    let mut items: Vec<Item> = vec![];
    for _ in 0..cx.src.range(2, 80) {
        let it = if !items.is_empty() && cx.src.below(3) == 2 {
            let v = obs::item(cx.src.pick(&items));
            near(&mut cx.src, &v)
        } else {
            some_item(&mut cx.src, span)
        };
        items.push(it);
    }
    let keys: Vec<String> = items.iter().map(|i| key(&obs::item(i))).collect();
    let r = cx.sut(1 << 12, "maps and sets of items", || {
        let mut m: HashMap<Item, usize> = HashMap::new();
        let mut set: HashSet<Item> = HashSet::new();
        let mut model: HashMap<&str, usize> = HashMap::new();
        for (i, it) in items.iter().enumerate() {
            let fresh = !model.contains_key(keys[i].as_str());
            if set.insert(it.clone()) != fresh {
                return Some(format!("set insertion of {:?} disagrees", obs::item(it)));
            }
            if m.insert(it.clone(), i) != model.insert(&keys[i], i) {
                return Some(format!("map insertion of {:?} disagrees", obs::item(it)));
            }
        }
        for (i, it) in items.iter().enumerate() {
            if m.get(it) != model.get(keys[i].as_str()) {
                return Some(format!("map lookup of {:?} disagrees", obs::item(it)));
            }
        }
        if m.len() != model.len() || set.len() != model.len() {
            return Some("sizes disagree".to_string());
        }
        for (i, it) in items.iter().enumerate() {
            if set.remove(it) != model.remove(keys[i].as_str()).is_some() {
                return Some(format!("set removal of {:?} disagrees", obs::item(it)));
            }
        }
        // transitivity over all triples of a few
        let few = &items[..items.len().min(8)];
        for a in few {
            for b in few {
                for c in few {
                    if a == b && b == c && a != c {
                        return Some("equality is not transitive".to_string());
                    }
                }
            }
        }
        None
    })?;
    if let Some(m) = r {
        return fail("container", m);
    }
    cx.nontrivial(true);
    cx.identity(&keys);
    cx.sample(|| clip(keys.join(" "), 300));
    Ok(())
}
