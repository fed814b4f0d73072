//! C15-C18: unknown attributes, length mismatches, truncation, undefined tags.
use super::*;
use crate::engine::Kind::*;
use crate::gen::{At, Cfg, GenClass, Sp, ANY, SMALL, UNKNOWN};
use crate::spec;

const AS: &[&str] = &["the format tables in harness/src/spec.rs (written from JVMS SE 9 chapters 4 and 6) are right; generator and reference decoder are compared on every case"];

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C15",
            rule: "Random files of all attribute kinds are edited: unknown attributes (names near known ones included) inserted, removed, replaced, or their bytes changed at random lists of every level, with names at any index of the pool; the result must be the reference tree and, with unknown attributes left out, the tree of the file before the edit. Non-trivial: at least one edit; distinct by edited bytes.",
            assumptions: AS,
            corpus: false,
            phases: |th| {
                vec![
                    phase("edits", Random(amount(th, 120_000, 3_000_000), edits)),
                    phase("names", All(|t| UNKNOWN.len() as u64 * if t { 2000 } else { 100 }, names)),
                    phase("alike", Random(amount(th, 60_000, 1_500_000), alike)),
                    phase("sizes", All(|_| SIZES.len() as u64 * 4, sizes)),
                    phase("far names", Random(amount(th, 400, 20_000), far_names)),
                ]
            },
        },
        Check {
            id: "C16",
            rule: "In random files of all attribute kinds, the declared length of a known attribute at any nesting level is changed by small and large amounts, alone or together with added or removed content bytes (enclosing lengths kept consistent); parsing must fail. Also every truncated or extended content of every attribute kind on its own. Non-trivial: every case with an altered length; distinct by file bytes.",
            assumptions: &["which error is reported is not fixed; a debug extension or unknown attribute has no length of its own and is left out"],
            corpus: false,
            phases: |th| {
                vec![
                    phase("lengths", Random(amount(th, 80_000, 3_000_000), lengths)),
                    phase("each kind", Random(amount(th, 120_000, 3_000_000), each_kind)),
                ]
            },
        },
        Check {
            id: "C17",
            rule: "Every strict prefix of random well-formed files (all lengths for files up to 1500 bytes, otherwise 600 of them), every one-byte and two-byte change of the magic, and random bytes without it. Non-trivial: prefixes of at least 5 bytes and files of at least 4; distinct by file bytes.",
            assumptions: &["files shorter than the magic may give any error"],
            corpus: false,
            phases: |th| {
                vec![
                    phase("prefixes", Random(amount(th, 24_000, 800_000), prefixes)),
                    phase("magic bytes", All(|_| 4 * 256, magic_bytes)),
                    phase("two magic bytes", All(|_| 6 * 256, two_magic)),
                    phase("not classes", Random(amount(th, 300_000, 4_000_000), not_classes)),
                ]
            },
        },
        Check {
            id: "C18",
            rule: "In random well-formed files, one tag (constant, method handle kind, element value, target, path kind, frame, verification type, array type, opcode, wide opcode) is replaced by an undefined value, or one attribute name index by one that is no string; the exact error is required. Non-trivial: every such replacement; distinct by file bytes.",
            assumptions: &["for an undefined opcode after wide the error may carry either opcode"],
            corpus: false,
            phases: |th| {
                vec![
                    phase("tags", Random(amount(th, 80_000, 2_000_000), tags)),
                    phase("constant tags", All(|t| 256 * if t { 400 } else { 40 }, const_tags)),
                    phase("handle kinds", All(|t| 256 * if t { 400 } else { 40 }, handle_kinds)),
                    phase("far opcodes", All(|t| (bad_ops().len() * PLACES.len()) as u64 * if t { 20 } else { 1 }, far_opcodes)),
                    phase("far constants", All(|t| (PLACES.len() * (256 - spec::CONSTS.len() + 246)) as u64 * if t { 8 } else { 1 }, far_constants)),
                ]
            },
        },
    ]
}

const MIXED: Cfg = Cfg { big: false, attrs: 3, unknown: 3, ..ANY };

/// Copies of the tree without unknown attributes.
fn strip(v: &V) -> V {
    match v {
        V::L(l) => V::L(l.iter().filter(|x| x.tag() != "Unknown").map(strip).collect()),
        V::T(x, l) => V::T(x, l.iter().map(strip).collect()),
        x => x.clone(),
    }
}

/// Enclosing attributes of a list, innermost first.
fn owners(g: &GenClass, list: usize) -> Vec<usize> {
    let mut v = vec![];
    let mut l = list;
    while let Some(a) = g.lists[l].parent {
        v.push(a);
        l = g.attrs[a].list;
    }
    v
}
fn add_len(b: &mut [u8], g: &GenClass, attr: usize, d: i64) {
    let o = g.attrs[attr].start + 2;
    let l = i64::from(u32::from_be_bytes([b[o], b[o + 1], b[o + 2], b[o + 3]])) + d;
    b[o..o + 4].copy_from_slice(&(l as u32).to_be_bytes());
}

pub enum Edit {
    Insert { list: usize, pos: usize, bytes: Vec<u8> },
    Remove { attr: usize },
    Content { attr: usize, bytes: Vec<u8> },
}

pub fn apply(g: &GenClass, mut e: Vec<Edit>) -> Vec<u8> {
    let at = |x: &Edit| match x {
        // from the back; at one place, what is there is edited before anything is put in front of it
        Edit::Insert { pos, .. } => (*pos, 0),
        Edit::Remove { attr } => (g.attrs[*attr].start, 1),
        Edit::Content { attr, .. } => (g.attrs[*attr].start, 1),
    };
    e.sort_by_key(|x| std::cmp::Reverse(at(x)));
    let mut b = g.bytes.clone();
    for x in e {
        let (list, d) = match x {
            Edit::Insert { list, pos, bytes } => {
                let d = bytes.len() as i64;
                b.splice(pos..pos, bytes);
                let c = g.lists[list].count_off;
                let k = u16::from_be_bytes([b[c], b[c + 1]]) + 1;
                b[c..c + 2].copy_from_slice(&k.to_be_bytes());
                (list, d)
            }
            Edit::Remove { attr } => {
                let a = &g.attrs[attr];
                b.drain(a.start..a.end);
                let c = g.lists[a.list].count_off;
                let k = u16::from_be_bytes([b[c], b[c + 1]]) - 1;
                b[c..c + 2].copy_from_slice(&k.to_be_bytes());
                (a.list, -((a.end - a.start) as i64))
            }
            Edit::Content { attr, bytes } => {
                let a = &g.attrs[attr];
                let d = bytes.len() as i64 - (a.end - a.content) as i64;
                add_len(&mut b, g, attr, d);
                b.splice(a.content..a.end, bytes);
                (a.list, d)
            }
        };
        for o in owners(g, list) {
            add_len(&mut b, g, o, d);
        }
    }
    b
}

pub fn strings(g: &GenClass) -> Vec<(u16, String)> {
    g.pool.kids()[1]
        .kids()
        .iter()
        .enumerate()
        .filter_map(|(i, v)| match v {
            V::T("Utf8", x) => match &x[0] {
                V::S(s) => Some((i as u16 + 1, s.clone())),
                _ => None,
            },
            _ => None,
        })
        .collect()
}

fn unknown_bytes(cx: &mut Cx, idx: u16, size: Option<usize>) -> Vec<u8> {
    let mut b = vec![];
    be2(&mut b, idx as usize);
    if size.is_none() && cx.src.chance(1, 10) {
        // holds something like itself: an attribute, a list of them, or just the head of one
        let k = cx.src.count(20);
        let lead = *cx.src.pick(&[0, 0, 2, 4]);
        let inner = cx.src.bytes(k);
        let mut c = vec![0; lead];
        if lead > 0 {
            c[lead - 1] = 1;
        }
        be2(&mut c, idx as usize);
        be4(&mut c, inner.len() as u32);
        c.extend(inner);
        be4(&mut b, c.len() as u32);
        b.extend(c);
        return b;
    }
    let k = size.unwrap_or_else(|| cx.src.count(70_000));
    be4(&mut b, k as u32);
    b.extend(if k > 32 { cx.src.fill(k) } else { cx.src.bytes(k) });
    b
}

fn edited(cx: &mut Cx, g: &GenClass, b: &[u8]) -> Res {
    cx.nontrivial(b != &g.bytes[..]);
    cx.identity(b);
    let d = match refdec::decode(b) {
        Ok(d) => d,
        Err(e) => panic!("oracle: edited file refused by the reference decoder: {:?} {}", e, hex(b)),
    };
    cx.sample(|| format!("{} => {:?}", clip(hex(b), 160), d.class));
    let (p, c) = accept(cx, b)?;
    let got = obs::class(&c);
    if let Some(x) = diff(&d.class, &got) {
        return fail("differs", x).with_input(b);
    }
    if let Some(x) = diff(&strip(&g.class), &strip(&got)) {
        return fail("disturbed", format!("an edit of unknown attributes changed something else: {}", x)).with_input(b);
    }
    let pv = pool_view(cx, &p).with_input(b)?;
    if let Some(x) = diff(&g.pool, &pv) {
        return fail("disturbed", format!("an edit of unknown attributes changed the constants: {}", x)).with_input(b);
    }
    Ok(())
}

fn with_name(cx: &mut Cx, cfg: &Cfg, name: &str) -> (GenClass, u16) {
    let mut gg = crate::gen::Gen::new(&mut cx.src, cfg);
    let idx = gg.cp.utf8(name);
    let g = gg.class();
    selfcheck(&g);
    (g, idx)
}

fn edits(cx: &mut Cx) -> Res {
    let name = crate::gen::unknown_name(&mut cx.src);
    let (g, _) = with_name(cx, &MIXED, &name);
    let names: Vec<(u16, String)> = strings(&g).into_iter().filter(|x| !crate::gen::known(&x.1)).collect();
    let unknown: Vec<usize> = (0..g.attrs.len()).filter(|&i| !crate::gen::known(&g.attrs[i].name)).collect();
    let mut e = vec![];
    let mut used = std::collections::HashSet::new();
    for _ in 0..cx.src.range(1, 4) {
        match cx.src.below(4) {
            0 | 1 => {
                let list = cx.src.below(g.lists.len() as u64) as usize;
                // before any attribute of the list, or at its end
                let mut places: Vec<usize> = g.attrs.iter().filter(|a| a.list == list).map(|a| a.start).collect();
                places.push(g.lists[list].end);
                let pos = *cx.src.pick(&places);
                let idx = cx.src.pick(&names).0;
                let bytes = unknown_bytes(cx, idx, None);
                cx.label(if owners(&g, list).is_empty() { "insert in a class or member" } else { "insert in a body" });
                e.push(Edit::Insert { list, pos, bytes });
            }
            k if !unknown.is_empty() => {
                let attr = *cx.src.pick(&unknown);
                if used.insert(attr) {
                    if k == 2 {
                        cx.label("remove");
                        e.push(Edit::Remove { attr });
                    } else {
                        cx.label("change");
                        let bytes = unknown_bytes(cx, 0, None)[6..].to_vec();
                        e.push(Edit::Content { attr, bytes });
                    }
                }
            }
            _ => {}
        }
    }
    // edits are applied from the back; an insertion exactly at the end of a list that ends an attribute
    // must not be confused with one after that attribute, hence the explicit owner chain
    let mut pos: Vec<usize> = e
        .iter()
        .filter_map(|x| match x {
            Edit::Insert { pos, .. } => Some(*pos),
            _ => None,
        })
        .collect();
    pos.sort_unstable();
    if pos.windows(2).any(|w| w[0] == w[1]) {
        // equal places with different owners need an order; keep only one
        let mut seen = std::collections::HashSet::new();
        e.retain(|x| match x {
            Edit::Insert { pos, .. } => seen.insert(*pos),
            _ => true,
        });
    }
    let b = apply(&g, e);
    edited(cx, &g, &b)
}

/// Several unknown attributes next to one another or in different lists, with contents and names that are much alike.
fn alike(cx: &mut Cx) -> Res {
    let name = crate::gen::unknown_name(&mut cx.src);
    let cfg = Cfg { unknown: cx.src.below(3), attrs: 2, ..SMALL };
    let mut gg = crate::gen::Gen::new(&mut cx.src, &cfg);
    gg.cp.utf8(&name);
    // the same text again, and another
    gg.cp.utf8(&name);
    gg.cp.utf8(&format!("{}X", name));
    let g = gg.class();
    selfcheck(&g);
    let names: Vec<(u16, String)> = strings(&g).into_iter().filter(|x| !crate::gen::known(&x.1)).collect();
    let base = match cx.src.below(4) {
        0 if !g.attrs.is_empty() => {
            // what some attribute of the file holds
            let a = &g.attrs[cx.src.below(g.attrs.len() as u64) as usize];
            g.bytes[a.content..a.end].to_vec()
        }
        1 => vec![cx.src.below(256) as u8; cx.src.count(300)],
        _ => {
            let k = cx.src.count(300);
            cx.src.fill(k)
        }
    };
    let mut e = vec![];
    let lists = if cx.src.chance(2, 3) { 1 } else { 2 };
    for _ in 0..lists {
        let list = cx.src.below(g.lists.len() as u64) as usize;
        let mut places: Vec<usize> = g.attrs.iter().filter(|a| a.list == list).map(|a| a.start).collect();
        places.push(g.lists[list].end);
        let pos = *cx.src.pick(&places);
        if e.iter().any(|x| matches!(x, Edit::Insert { pos: p, .. } if *p == pos)) {
            continue;
        }
        let mut idx = cx.src.pick(&names).0;
        for _ in 0..cx.src.range(2, 5) {
            if cx.src.below(3) == 0 {
                idx = cx.src.pick(&names).0;
            }
            let mut c = base.clone();
            match cx.src.below(6) {
                0 | 1 if !c.is_empty() => {
                    let k = cx.src.below(c.len() as u64) as usize;
                    c[k] = c[k].wrapping_add(1 + cx.src.below(255) as u8);
                }
                2 => {
                    let k = cx.src.below(c.len() as u64 + 1) as usize;
                    c.truncate(k);
                }
                3 => {
                    let k = 1 + cx.src.below(8) as usize;
                    c.extend(cx.src.fill(k));
                }
                4 => {
                    // only the first bytes agree
                    let k = cx.src.below(c.len().min(16) as u64 + 1) as usize;
                    let r = c.len() - k;
                    c.truncate(k);
                    c.extend(cx.src.fill(r));
                }
                _ => {}
            }
            let mut bytes = vec![];
            be2(&mut bytes, idx as usize);
            be4(&mut bytes, c.len() as u32);
            bytes.extend(c);
            e.push(Edit::Insert { list, pos, bytes });
        }
    }
    cx.label("several alike");
    let b = apply(&g, e);
    edited(cx, &g, &b)
}

/// Every near-miss name, with content that would fit the known attribute.
fn names(cx: &mut Cx) -> Res {
    let i = cx.index;
    cx.src.seed_if_empty(i);
    let name = if cx.index as usize / UNKNOWN.len() % 4 == 3 {
        crate::gen::unknown_name(&mut cx.src)
    } else {
        UNKNOWN[cx.index as usize % UNKNOWN.len()].to_string()
    };
    let (g, idx) = with_name(cx, &Cfg { attrs: 1, ..SMALL }, &name);
    let list = cx.src.below(g.lists.len() as u64) as usize;
    let pos = g.lists[list].end;
    let donor: Vec<Vec<u8>> = g.attrs.iter().map(|a| g.bytes[a.content..a.end].to_vec()).collect();
    let mut bytes = unknown_bytes(cx, idx, None);
    if !donor.is_empty() && cx.src.below(2) == 0 {
        let c = cx.src.pick(&donor).clone();
        bytes.truncate(2);
        be4(&mut bytes, c.len() as u32);
        bytes.extend(c);
    }
    cx.label("near-miss names");
    let b = apply(&g, vec![Edit::Insert { list, pos, bytes }]);
    edited(cx, &g, &b)
}

const SIZES: &[usize] = &[
    0, 1, 2, 127, 128, 255, 256, 257, 4095, 4096, 32767, 32768, 65534, 65535, 65536, 65537, 100_000, 1 << 20,
    131_071, 131_072, (1 << 20) - 1, (1 << 20) + 1, (1 << 24) - 1, 1 << 24, (1 << 24) + 1, (1 << 24) + 255, (1 << 25) + 1,
];

fn sizes(cx: &mut Cx) -> Res {
    let i = cx.index;
    cx.src.seed_if_empty(i);
    let size = SIZES[cx.index as usize / 4];
    let (g, idx) = with_name(cx, &Cfg { unknown: 0, ..SMALL }, "Custom");
    let list = cx.index as usize * 7 % g.lists.len();
    let pos = g.lists[list].end;
    let bytes = unknown_bytes(cx, idx, Some(size));
    cx.label("large contents");
    let b = apply(&g, vec![Edit::Insert { list, pos, bytes }]);
    edited(cx, &g, &b)
}

/// The name is a constant far into the pool.
fn far_names(cx: &mut Cx) -> Res {
    let name = crate::gen::unknown_name(&mut cx.src);
    let cfg = Cfg { unknown: cx.src.below(2), attrs: 2, ..SMALL };
    let mut gg = crate::gen::Gen::new(&mut cx.src, &cfg);
    gg.far();
    let idx = gg.cp.utf8(&name);
    let g = gg.class();
    selfcheck(&g);
    let mut e = vec![];
    let first = cx.src.below(g.lists.len() as u64) as usize;
    let mut lists = vec![first];
    // a list of every level
    for i in 0..g.lists.len() {
        if i != first && cx.src.chance(1, 3) {
            lists.push(i);
        }
    }
    let mut at = vec![];
    for list in lists {
        let mut places: Vec<usize> = g.attrs.iter().filter(|a| a.list == list).map(|a| a.start).collect();
        places.push(g.lists[list].end);
        let pos = *cx.src.pick(&places);
        if at.contains(&pos) {
            continue;
        }
        at.push(pos);
        let bytes = unknown_bytes(cx, idx, None);
        e.push(Edit::Insert { list, pos, bytes });
    }
    cx.label("a far name");
    let b = apply(&g, e);
    edited(cx, &g, &b)
}

// ---- C16 ------------------------------------------------------------------------------------

fn closed(name: &str) -> bool {
    crate::gen::known(name) && name != "SourceDebugExtension"
}

fn alter(cx: &mut Cx, g: &GenClass, i: usize) -> Option<Vec<u8>> {
    let a = &g.attrs[i];
    let len = (a.end - a.content) as i64;
    let k = match cx.src.below(6) {
        0..=2 => cx.src.range(1, 3),
        3 => cx.src.range(1, 16),
        4 => cx.src.range(1, 300),
        _ => cx.src.range(1, 70_000),
    } as i64;
    let mut b = g.bytes.clone();
    match cx.src.below(5) {
        0 => {
            cx.label("length larger, bytes unchanged");
            add_len(&mut b, g, i, k);
        }
        1 => {
            if len == 0 {
                return None;
            }
            cx.label("length smaller, bytes unchanged");
            add_len(&mut b, g, i, -(k.min(len)));
        }
        2 => {
            let k = k.min(2000);
            cx.label("surplus content");
            let whole = &g.bytes[a.content..a.end];
            let extra = match cx.src.below(5) {
                0 | 1 => vec![0; k as usize],
                2 if whole.len() > 1 => {
                    // the end of the content once more
                    let k = (*cx.src.pick(&[2, 4, 6, 8, 10, k as usize])).min(whole.len());
                    whole[whole.len() - k..].to_vec()
                }
                _ => cx.src.fill(k as usize),
            };
            let k = extra.len() as i64;
            add_len(&mut b, g, i, k);
            b.splice(a.end..a.end, extra);
            for o in owners(g, a.list) {
                add_len(&mut b, g, o, k);
            }
        }
        3 => {
            if len == 0 {
                return None;
            }
            let k = k.min(len);
            cx.label("content cut short");
            add_len(&mut b, g, i, -k);
            b.drain(a.end - k as usize..a.end);
            for o in owners(g, a.list) {
                add_len(&mut b, g, o, -k);
            }
        }
        _ => {
            let x = *cx.src.pick(&[0u32, 1, 0xFFFF_FFFF, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF, 0x1_0000, 0xFFFF_FFF0]);
            // the same low half: a length read at the wrong width would fit
            let x = if cx.src.below(2) == 0 { x } else { (len as u32).wrapping_add(1 << cx.src.range(8, 31)) };
            if i64::from(x) == len {
                return None;
            }
            cx.label("arbitrary length");
            b[a.start + 2..a.start + 6].copy_from_slice(&x.to_be_bytes());
            if x > len as u32 && cx.src.below(3) == 0 {
                // plenty of bytes follow
                b.extend(vec![0; 70_000]);
            }
        }
    }
    Some(b)
}

fn must_reject(cx: &mut Cx, g: &GenClass, i: usize) -> Res {
    let Some(b) = alter(cx, g, i) else { return Ok(()) };
    cx.nontrivial(true);
    cx.identity(&b);
    cx.label(spec::attr_fmt(&g.attrs[i].name).unwrap().0);
    cx.sample(|| format!("{} length altered in {}", g.attrs[i].name, clip(hex(&b), 240)));
    assert!(
        matches!(refdec::decode(&b), Err(_)),
        "oracle: altered length accepted by the reference decoder: {}",
        hex(&b)
    );
    reject(cx, &b, &format!("length of {} disagrees with its content", g.attrs[i].name)).map(|_| ())
}

fn lengths(cx: &mut Cx) -> Res {
    let g = make(cx, &Cfg { big: cx.index % 8 == 0, ..MIXED });
    let c: Vec<usize> = (0..g.attrs.len()).filter(|&i| closed(&g.attrs[i].name)).collect();
    for _ in 0..3 {
        if !c.is_empty() {
            let i = *cx.src.pick(&c);
            must_reject(cx, &g, i)?;
        }
    }
    Ok(())
}

fn each_kind(cx: &mut Cx) -> Res {
    use crate::gen::{At, Gen};
    let name = cx.src.pick(spec::ATTRS).0;
    if !closed(name) {
        return Ok(());
    }
    let at = *cx.src.pick(&[At::Class, At::Field, At::Method, At::Code]);
    let g = Gen::new(&mut cx.src, &SMALL).single(at, name, |g, idx| g.content(name, idx));
    selfcheck(&g);
    // the attribute itself: the one most recently opened at the place asked for
    let i = if at == At::Code { 1 } else { 0 };
    must_reject(cx, &g, i)
}

// ---- C17 ------------------------------------------------------------------------------------

fn prefixes(cx: &mut Cx) -> Res {
    let g = make(cx, &Cfg { big: cx.index % 16 == 0, ..SMALL });
    let len = g.bytes.len();
    let points: Vec<usize> = if len <= 1500 {
        (0..len).collect()
    } else {
        let mut v: Vec<usize> = (0..200).chain(len - 200..len).collect();
        for _ in 0..200 {
            v.push(cx.src.below(len as u64) as usize);
        }
        v
    };
    cx.nontrivial(true);
    cx.identity(&g.bytes);
    cx.label(if len <= 1500 { "every prefix" } else { "600 prefixes" });
    cx.sample(|| format!("{} prefixes of {}", points.len(), show(&g)));
    for p in points {
        let b = &g.bytes[..p];
        let e = reject(cx, b, "strict prefix of a well-formed file")?;
        if p >= 5 && e.tag() != "LimitExceeded" {
            return fail("error", format!("prefix of {} of {} bytes gives {:?}", p, len, e)).with_input(b);
        }
    }
    class_equal(cx, &g).map(|_| ())
}

fn magic_bytes(cx: &mut Cx) -> Res {
    let (at, x) = (cx.index as usize / 256, (cx.index % 256) as u8);
    let i = cx.index;
    cx.src.seed_if_empty(i);
    let g = make(cx, &SMALL);
    let mut b = g.bytes.clone();
    if b[at] == x {
        return class_equal(cx, &g).map(|_| ());
    }
    b[at] = x;
    cx.nontrivial(true);
    cx.identity(&b);
    cx.sample(|| clip(hex(&b), 80));
    for end in [b.len(), 4, 8, 10] {
        let e = reject(cx, &b[..end], "wrong magic")?;
        if e.tag() != "NotAClass" {
            return fail("error", format!("wrong magic gives {:?}", e)).with_input(&b[..end]);
        }
    }
    Ok(())
}

/// Every change of two bytes of the magic of a small file.
fn two_magic(cx: &mut Cx) -> Res {
    const PAIRS: [(usize, usize); 6] = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)];
    let (i, j) = PAIRS[cx.index as usize / 256];
    let x = (cx.index % 256) as u8;
    let mut b = head(1, &[]);
    b.extend(EMPTY_BODY);
    let whole = b.clone();
    if b[i] == x {
        return Ok(());
    }
    b[i] = x;
    cx.nontrivial(true);
    cx.identity(&(i, j, x));
    cx.sample(|| format!("magic byte {} is {:#x}, byte {} anything but its own", i, x, j));
    let wrong = cx.sut(256 * b.len(), "parse", || {
        for y in (0..=255u8).filter(|y| *y != whole[j]) {
            b[j] = y;
            match jbcrs::basic::parse(&b) {
                Err(jbcrs::Error::NotAClass) => {}
                Err(e) => return Some((b.clone(), format!("{:?}", obs::error(&e)))),
                Ok(_) => return Some((b.clone(), "a class".to_string())),
            }
        }
        None
    })?;
    match wrong {
        Some((b, e)) => fail("magic", format!("wrong magic {} gives {}", hex(&b[..4]), e)).with_input(&b),
        None => Ok(()),
    }
}

fn not_classes(cx: &mut Cx) -> Res {
    let b = match cx.src.below(5) {
        0 => {
            let k = cx.src.below(64) as usize;
            cx.src.bytes(k)
        }
        1 => {
            let mut g = make(cx, &SMALL).bytes;
            let m = match cx.src.below(6) {
                0 => [0xBE, 0xBA, 0xFE, 0xCA],
                1 => *b"PK\x03\x04",
                2 => [0xCA, 0xFE, 0xD0, 0x0D],
                3 => [0xFE, 0xCA, 0xBE, 0xBA],
                4 => [0, 0, 0, 0],
                _ => (cx.src.u32any()).to_be_bytes(),
            };
            g[..4].copy_from_slice(&m);
            g
        }
        2 => {
            // a class after some other bytes
            let k = cx.src.range(1, 8) as usize;
            let mut v = cx.src.bytes(k);
            v.extend(make(cx, &SMALL).bytes);
            v
        }
        3 => {
            let mut g = make(cx, &SMALL).bytes;
            let i = cx.src.below(4) as usize;
            g[i] ^= 1 << cx.src.below(8);
            g
        }
        _ => {
            let k = cx.src.below(4) as usize;
            let m = [0xCA, 0xFE, 0xBA, 0xBE];
            let mut v = m[..k].to_vec();
            let j = cx.src.below(6) as usize;
            v.extend(cx.src.bytes(j));
            v
        }
    };
    if b.len() >= 4 && b[..4] == [0xCA, 0xFE, 0xBA, 0xBE] {
        return Ok(());
    }
    cx.nontrivial(b.len() >= 4);
    cx.identity(&b);
    cx.sample(|| clip(hex(&b), 80));
    let e = reject(cx, &b, "not a class file")?;
    if b.len() >= 4 && e.tag() != "NotAClass" {
        return fail("error", format!("no magic gives {:?}", e)).with_input(&b);
    }
    Ok(())
}

// ---- C18 ------------------------------------------------------------------------------------

fn tags(cx: &mut Cx) -> Res {
    let g = make(cx, &Cfg { big: cx.index % 16 == 0, attrs: 3, ..SMALL });
    let kinds = [
        Sp::CpTag,
        Sp::RefKind,
        Sp::AttrName,
        Sp::ElemTag,
        Sp::Target,
        Sp::PathKind,
        Sp::FrameTag,
        Sp::VerifTag,
        Sp::ArrayTy,
        Sp::Opcode,
        Sp::WideOp,
    ];
    let here: Vec<Sp> = kinds.iter().copied().filter(|k| g.spans.iter().any(|s| s.kind == *k)).collect();
    if here.is_empty() {
        return Ok(());
    }
    for _ in 0..4 {
        let kind = *cx.src.pick(&here);
        let all: Vec<_> = g.spans.iter().filter(|s| s.kind == kind).collect();
        let sp = **cx.src.pick(&all);
        one_tag(cx, &g, sp)?;
    }
    Ok(())
}

/// One attribute of the given kinds, often a long one, at any place; undefined tags at some places in it.
pub fn undefined_in(cx: &mut Cx, names: &[&'static str], kinds: &[Sp]) -> Res {
    let g = tagged(cx, names);
    let all: Vec<_> = g.spans.iter().filter(|s| kinds.contains(&s.kind)).copied().collect();
    if all.is_empty() {
        return Ok(());
    }
    for _ in 0..4 {
        let sp = *cx.src.pick(&all);
        one_tag(cx, &g, sp)?;
    }
    Ok(())
}

pub fn tagged(cx: &mut Cx, names: &[&'static str]) -> GenClass {
    let at = *cx.src.pick(&[At::Class, At::Field, At::Method, At::Code]);
    let name = *cx.src.pick(names);
    let cfg = Cfg { big: cx.src.below(6) == 0, filler: 2, attrs: 1, ..SMALL };
    let g = crate::gen::Gen::new(&mut cx.src, &cfg).single(at, name, |g, idx| g.content(name, idx));
    selfcheck(&g);
    g
}

fn one_tag(cx: &mut Cx, g: &GenClass, sp: crate::gen::Span) -> Res {
    let mut b = g.bytes.clone();
    let any = |cx: &mut Cx, ok: &dyn Fn(u8) -> bool| {
        for _ in 0..64 {
            let x = if cx.src.below(3) == 0 { b[sp.off].wrapping_add(*cx.src.pick(&[1u8, 255, 128, 64, 32, 16])) } else { cx.src.below(256) as u8 };
            if !ok(x) {
                return x;
            }
        }
        (0..=255u8).find(|y| !ok(*y)).unwrap()
    };
    let (x, want): (u8, Vec<V>) = match sp.kind {
        Sp::CpTag => {
            let x = any(cx, &|x| spec::CONSTS.iter().any(|c| c.0 == x));
            (x, vec![t("InvalidCPItem", vec![n(sp.aux as u16)])])
        }
        Sp::RefKind => {
            let x = any(cx, &|x| (1..=9).contains(&x));
            (x, vec![t("InvalidCPItem", vec![n(sp.aux as u16)])])
        }
        Sp::ElemTag => {
            let x = any(cx, &|x| spec::ELEM_SIMPLE.iter().any(|e| e.0 == x) || b"e@[".contains(&x));
            (x, vec![t("InvalidElementValue", vec![n(x)])])
        }
        Sp::Target => {
            let x = any(cx, &|x| spec::TARGETS.iter().any(|e| e.0 == x));
            (x, vec![t("InvalidTargetType", vec![])])
        }
        Sp::PathKind => (any(cx, &|x| x < 4), vec![t("InvalidTypePath", vec![])]),
        Sp::FrameTag => {
            let x = any(cx, &|x| !(128..247).contains(&x));
            (x, vec![t("ReservedStackMapFrame", vec![n(x)])])
        }
        Sp::VerifTag => {
            let x = any(cx, &|x| x < 9);
            (x, vec![t("InvalidVerificationType", vec![n(x)])])
        }
        Sp::ArrayTy => {
            let x = any(cx, &|x| (4..=11).contains(&x));
            (x, vec![t("InvalidInstruction", vec![n(0xBC), n(sp.aux as u32)])])
        }
        Sp::Opcode => {
            let x = any(cx, &|x| spec::ops()[x as usize].is_some());
            (x, vec![t("InvalidInstruction", vec![n(x), n(sp.aux as u32)])])
        }
        Sp::WideOp => {
            let x = any(cx, &|x| spec::WIDE.contains(&x));
            (
                x,
                vec![
                    t("InvalidInstruction", vec![n(0xC4), n(sp.aux as u32)]),
                    t("InvalidInstruction", vec![n(x), n(sp.aux as u32)]),
                ],
            )
        }
        Sp::AttrName => {
            let items = g.pool.kids()[1].kids();
            let len = items.len() as u64 + 1;
            let x = match cx.src.below(4) {
                0 => 0,
                1 => cx.src.range(len.min(65535), 65535) as u16,
                2 => len.min(65535) as u16,
                _ => cx.src.below(len) as u16,
            };
            if x > 0 && u64::from(x) < len && items[x as usize - 1].tag() == "Utf8" {
                return Ok(());
            }
            if u64::from(x) >= len {
                cx.label("name index beyond the pool");
            } else if x > 0 && items[x as usize - 1].tag() == "none" {
                cx.label("name index on a second half");
            } else if x > 0 {
                cx.label("name index on another constant");
            } else {
                cx.label("name index 0");
            }
            b[sp.off] = (x >> 8) as u8;
            b[sp.off + 1] = x as u8;
            (x as u8, vec![t("InvalidCPItem", vec![n(x)])])
        }
        _ => return Ok(()),
    };
    if sp.kind != Sp::AttrName {
        b[sp.off] = x;
    }
    cx.label(match sp.kind {
        Sp::CpTag => "constant tag",
        Sp::RefKind => "method handle kind",
        Sp::ElemTag => "element value tag",
        Sp::Target => "target type",
        Sp::PathKind => "path kind",
        Sp::FrameTag => "frame tag",
        Sp::VerifTag => "verification type",
        Sp::ArrayTy => "array type",
        Sp::Opcode => "opcode",
        Sp::WideOp => "wide opcode",
        _ => "attribute name",
    });
    cx.nontrivial(true);
    cx.identity(&b);
    cx.sample(|| format!("{:?} at byte {} replaced by {:#x}: expects {:?}", sp.kind, sp.off, x, want));
    let e = reject(cx, &b, &format!("undefined {:?} {:#x}", sp.kind, x))?;
    if !want.contains(&e) {
        return fail("error", format!("undefined {:?} {:#x} gives {:?}, expected {:?}", sp.kind, x, e, want[0])).with_input(&b);
    }
    Ok(())
}

/// All 256 constant tags at a random place of a random pool.
fn const_tags(cx: &mut Cx) -> Res {
    let i = cx.index;
    cx.src.seed_if_empty(i);
    let tag = (cx.index % 256) as u8;
    let g = make(cx, &Cfg { filler: 30, fields: 0, methods: 0, attrs: 0, ..SMALL });
    let all: Vec<_> = g.spans.iter().filter(|s| s.kind == Sp::CpTag).collect();
    if all.is_empty() || spec::CONSTS.iter().any(|c| c.0 == tag) {
        return Ok(());
    }
    let sp = **cx.src.pick(&all);
    let mut b = g.bytes.clone();
    b[sp.off] = tag;
    cx.nontrivial(true);
    cx.identity(&b);
    cx.sample(|| format!("constant {} has tag {}", sp.aux, tag));
    let e = reject(cx, &b, "undefined constant tag")?;
    if e != t("InvalidCPItem", vec![n(sp.aux as u16)]) {
        return fail("error", format!("constant {} with tag {} gives {:?}", sp.aux, tag, e)).with_input(&b);
    }
    Ok(())
}

/// What must be refused as an instruction, with the opcodes the error may carry.
fn bad_ops() -> &'static Vec<(Vec<u8>, Vec<u8>)> {
    static B: std::sync::OnceLock<Vec<(Vec<u8>, Vec<u8>)>> = std::sync::OnceLock::new();
    B.get_or_init(|| {
        let mut v = vec![];
        for x in 0..=255u8 {
            if spec::ops()[x as usize].is_none() {
                v.push((vec![x], vec![x]));
            }
            if !spec::WIDE.contains(&x) {
                v.push((vec![0xC4, x], vec![0xC4, x]));
            }
            if !(4..=11).contains(&x) {
                v.push((vec![0xBC, x], vec![0xBC]));
            }
        }
        v
    })
}

/// Offsets and indices where something undefined is put.
const PLACES: &[usize] = &[0, 1, 2, 3, 127, 128, 254, 255, 256, 257, 4095, 32766, 32767, 32768, 65279, 65280, 65520, 65528];

fn far_opcodes(cx: &mut Cx) -> Res {
    let i = cx.index;
    cx.src.seed_if_empty(i);
    let i = i as usize;
    let (bytes, ops) = &bad_ops()[i % bad_ops().len()];
    let mut place = PLACES[i / bad_ops().len() % PLACES.len()];
    if cx.src.below(3) == 0 {
        place = cx.src.below(65530) as usize;
    }
    // what stands before it: nothing that matters, or two-byte instructions at last
    let fill = *cx.src.pick(&[0x00u8, 0x57, 0xB1, 0x03, 0x60]);
    let mut code = vec![fill; place];
    let mut k = place;
    for _ in 0..cx.src.below(4) {
        if k >= 2 {
            k -= 2;
            code[k] = *cx.src.pick(&[0x10u8, 0x15, 0x12, 0x19, 0x36]);
            code[k + 1] = *cx.src.pick(&[0u8, 0xC4, 0xBC, 0xFF, 0xCB, 1]);
        }
    }
    code.extend(bytes);
    let rest = cx.src.below(6) as usize;
    code.extend(std::iter::repeat(fill).take(rest.min(65535 - code.len())));
    let b = one_attr("Code", &body_of(&code, &[0, 0, 0, 0]));
    cx.nontrivial(true);
    cx.identity(&b);
    cx.sample(|| format!("{} at {} of {} bytes of code", hex(bytes), place, code.len()));
    let e = reject(cx, &b, "undefined opcode")?;
    if !ops.iter().any(|o| e == t("InvalidInstruction", vec![n(*o), n(place as u32)])) {
        return fail("error", format!("{} at {} gives {:?}", hex(bytes), place, e)).with_input(&b);
    }
    Ok(())
}

/// An undefined constant tag or method handle kind after many other constants.
fn far_constants(cx: &mut Cx) -> Res {
    let i = cx.index;
    cx.src.seed_if_empty(i);
    let i = i as usize;
    let tags: Vec<u8> = (0..=255u8).filter(|x| !spec::CONSTS.iter().any(|c| c.0 == *x)).collect();
    let kinds: Vec<u8> = (0..=255u8).filter(|x| !(1..=9).contains(x)).collect();
    let what = i % (tags.len() + kinds.len());
    let bad = if what < tags.len() { vec![tags[what]] } else { vec![15, kinds[what - tags.len()], 0, 1] };
    let mut at = PLACES[i / (tags.len() + kinds.len()) % PLACES.len()].max(1);
    if cx.src.below(3) == 0 {
        at = 1 + cx.src.below(65533) as usize;
    }
    let unit: &[u8] = *cx.src.pick(&[&[1u8, 0, 0][..], &[7, 0, 1], &[16, 0, 2], &[5, 0, 0, 0, 0, 0, 0, 0, 1]]);
    let mut c = vec![];
    let mut k = 1;
    if unit[0] == 5 {
        while k + 2 <= at {
            c.extend(unit);
            k += 2;
        }
    }
    while k < at {
        c.extend([7, 0, 1]);
        k += 1;
        if unit[0] != 5 {
            let l = c.len();
            c.truncate(l - 3);
            c.extend(unit);
        }
    }
    c.extend(&bad);
    let count = at + 1 + cx.src.below(65535 - at as u64) as usize;
    let mut b = head(count, &c);
    for _ in at + 1..count {
        b.extend([7, 0, 1]);
    }
    b.extend(EMPTY_BODY);
    cx.nontrivial(true);
    cx.identity(&b);
    cx.sample(|| format!("constant {} of {} is {}", at, count - 1, hex(&bad)));
    let e = reject(cx, &b, "undefined constant")?;
    if e != t("InvalidCPItem", vec![n(at as u16)]) {
        return fail("error", format!("constant {} being {} gives {:?}", at, hex(&bad), e)).with_input(&b);
    }
    Ok(())
}

fn handle_kinds(cx: &mut Cx) -> Res {
    let i = cx.index;
    cx.src.seed_if_empty(i);
    let kind = (cx.index % 256) as u8;
    let mut gg = crate::gen::Gen::new(&mut cx.src, &Cfg { filler: 12, ..SMALL });
    let at = gg.cp.of_kind(gg.s, *spec::CONSTS.iter().find(|c| c.0 == 15).unwrap());
    let g = gg.empty();
    let sp = *g.spans.iter().filter(|s| s.kind == Sp::RefKind).last().unwrap();
    let mut b = g.bytes.clone();
    b[sp.off] = kind;
    cx.nontrivial(true);
    cx.identity(&b);
    cx.sample(|| format!("constant {} is a method handle of kind {}", at, kind));
    if (1..=9).contains(&kind) {
        let (p, _) = accept(cx, &b)?;
        let d = refdec::decode(&b).unwrap_or_else(|_| panic!("oracle: valid handle refused"));
        let v = pool_view(cx, &p).with_input(&b)?;
        return match diff(&d.pool, &v) {
            Some(x) => fail("differs", x).with_input(&b),
            None => Ok(()),
        };
    }
    let e = reject(cx, &b, "undefined method handle kind")?;
    if e != t("InvalidCPItem", vec![n(at)]) {
        return fail("error", format!("method handle {} of kind {} gives {:?}", at, kind, e)).with_input(&b);
    }
    Ok(())
}
