//! C29, C30: agreement with the reference decoder on compiled classes and on arbitrary bytes.
use super::*;
use crate::engine::Kind::*;
use crate::engine::{mutate_bytes, Src};
use crate::gen::{corrupt, Cfg, Gen, Sp, ANY, SMALL};
use crate::spec;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C29",
            rule: "Classes of the JDK's run-time image (a seeded sample, all of them in the thorough tier) and classes compiled by javac from sources generated for the seed (switches, lambdas, records, annotations of all sorts, long and double constants, inner classes, exceptions, wide locals, modules; with and without -g and -parameters): each must parse and equal the reference decoder's tree in every constant, member, instruction and attribute. Non-trivial: every class inside the supported format; distinct by bytes.",
            assumptions: &["classes with constants the library does not support (dynamic constants) or text with unpaired surrogates are outside the property and only counted", "the reference decoder reads JVMS SE 9 correctly"],
            corpus: true,
            phases: |_| vec![phase("compiled classes", Saved(corpus, compiled))],
        },
        Check {
            id: "C30",
            rule: "Generated files with random structural fields changed, cut, extended, spliced and mutated, coverage-guided evolution of generator tapes and of bytes: the library must accept exactly what the reference decoder accepts and give the same class and constants. Points the specification or the documentation leave open (bytes after the class, duplicate or unsorted switch keys, nonzero padding, overlong characters, nesting beyond 16, constant count 0, an 8-byte constant in the last index, code beyond 65535) carry no verdict on acceptance. Non-trivial: files that pass the constant pool in the reference or are well-formed; distinct by bytes.",
            assumptions: &["the reference decoder (harness/src/refdec.rs, spec.rs) reads JVMS SE 9 correctly; it is compared with the generator on every generated file and with the classes of the JDK"],
            corpus: false,
            phases: |th| {
                vec![
                    phase("saved", Saved(regress, judge)),
                    phase("one field", Random(amount(th, 250_000, 6_000_000), |cx| field_changes(cx, 1))),
                    phase("several fields", Random(amount(th, 60_000, 2_000_000), |cx| {
                        let k = cx.src.range(2, 4);
                        field_changes(cx, k)
                    })),
                    phase("one tag", Random(amount(th, 100_000, 3_000_000), any_tag)),
                    phase("cut and extended", Random(amount(th, 60_000, 2_000_000), shifted)),
                    phase("evolution", Evolve(amount(th, 12_000, 600_000), |cx| {
                        let k = cx.src.below(3);
                        field_changes(cx, k)
                    })),
                    phase("guided mutation", Fuzz(amount(th, 40_000, 2_500_000), seeds, judge)),
                ]
            },
        },
    ]
}

// ---- C29 ------------------------------------------------------------------------------------

fn corpus() -> Vec<Vec<u8>> {
    let Ok(path) = std::env::var("JV_CORPUS") else { return vec![] };
    let data = std::fs::read(&path).expect("corpus");
    let mut v = vec![];
    let mut i = 0;
    while i + 4 <= data.len() {
        let k = u32::from_be_bytes([data[i], data[i + 1], data[i + 2], data[i + 3]]) as usize;
        v.push(data[i + 4..i + 4 + k].to_vec());
        i += 4 + k;
    }
    assert!(v.len() > 500, "the corpus holds only {} classes", v.len());
    v
}

fn compiled(cx: &mut Cx, b: &[u8]) -> Res {
    let d = match refdec::decode(b) {
        Ok(d) => d,
        Err(_) if cx.shrinking => return Ok(()),
        Err(e) => {
            cx.label(match e {
                refdec::RErr::Bad("constant tag") => "outside: unsupported constant",
                refdec::RErr::Bad("unpaired surrogate") => "outside: unpaired surrogate",
                _ => panic!("oracle: reference decoder refuses a compiled class: {:?} {}", e, clip(hex(b), 4000)),
            });
            // still must not be taken for something else
            return reject(cx, b, "unsupported").map(|_| ());
        }
    };
    if cx.shrinking && d.grey & !refdec::G_DEEP != 0 {
        return Ok(());
    }
    assert!(d.grey & !refdec::G_DEEP == 0, "oracle: a compiled class is grey: {}", d.grey);
    cx.nontrivial(true);
    cx.identity(b);
    for a in spec::ATTRS {
        if has_tag(&d.class, a.0) {
            cx.label(a.0);
        }
    }
    for x in ["tableswitch", "lookupswitch", "invokedynamic", "Unknown", "Long", "Double", "MethodHandle", "Module", "Package"] {
        if has_tag(&d.class, x) || has_tag(&d.pool, x) {
            cx.label(x);
        }
    }
    cx.sample(|| format!("{} bytes => {:?}", b.len(), d.class));
    same(cx, b, &d)
}

fn same(cx: &mut Cx, b: &[u8], d: &refdec::Decoded) -> Res {
    let (p, c) = accept(cx, b)?;
    equal(cx, b, d, &p, &c)
}

fn equal(cx: &mut Cx, b: &[u8], d: &refdec::Decoded, p: &Pool, c: &Class) -> Res {
    if d.grey & refdec::G_DUPKEY == 0 {
        if let Some(x) = diff(&d.class, &obs::class(c)) {
            return fail("differs", x).with_input(b);
        }
    }
    if d.grey & (refdec::G_LONGEND | refdec::G_CPZERO) == 0 {
        let v = pool_view(cx, p).with_input(b)?;
        if let Some(x) = diff(&d.pool, &v) {
            return fail("constants differ", x).with_input(b);
        }
    }
    Ok(())
}

// ---- C30 ------------------------------------------------------------------------------------

fn judge(cx: &mut Cx, b: &[u8]) -> Res {
    let r = refdec::decode(b);
    cx.identity(b);
    cx.sample(|| match &r {
        Ok(d) => format!("{} bytes {} => grey {} {:?}", b.len(), clip(hex(b), 100), d.grey, d.class),
        Err(e) => format!("{} bytes {} => {:?}", b.len(), clip(hex(b), 100), e),
    });
    match r {
        Err(refdec::RErr::Open) => {
            cx.label("no verdict (nesting)");
            cx.parse(b).map(|_| ())
        }
        Err(e) => {
            cx.label(match e {
                refdec::RErr::Bad(x) => x,
                _ => "ends early",
            });
            cx.nontrivial(b.len() > 24);
            reject(cx, b, &format!("not well-formed: {:?}", e)).map(|_| ())
        }
        Ok(d) if d.grey == 0 => {
            cx.label("well-formed");
            cx.nontrivial(true);
            same(cx, b, &d)
        }
        Ok(d) => {
            cx.label("open point");
            cx.nontrivial(true);
            match cx.parse(b)? {
                Ok((p, c)) => {
                    cx.label("open point, accepted");
                    equal(cx, b, &d, &p, &c)
                }
                Err(_) => Ok(()),
            }
        }
    }
}

fn profile(cx: &mut Cx) -> Cfg {
    match cx.src.below(6) {
        0 => Cfg { big: false, ..ANY },
        1 => Cfg { attrs: 1, filler: 2, code: 3, fields: 1, methods: 1, ..SMALL },
        _ => SMALL,
    }
}

fn field_changes(cx: &mut Cx, k: u64) -> Res {
    let cfg = profile(cx);
    let g = crate::gen::class(&mut cx.src, &cfg);
    let mut b = g.bytes.clone();
    for _ in 0..k {
        corrupt(&mut cx.src, &g, &mut b);
    }
    judge(cx, &b)
}

/// One tag in an attribute (often a long one) replaced by another byte: like ones of a kind may have the same layout.
fn any_tag(cx: &mut Cx) -> Res {
    let names: Vec<&'static str> = vec![
        "StackMapTable",
        "StackMapTable",
        "RuntimeVisibleAnnotations",
        "RuntimeInvisibleTypeAnnotations",
        "AnnotationDefault",
        "RuntimeVisibleParameterAnnotations",
        "Code",
    ];
    let g = reject::tagged(cx, &names);
    let is = |s: &Sp| {
        matches!(
            s,
            Sp::CpTag | Sp::RefKind | Sp::ElemTag | Sp::Target | Sp::PathKind | Sp::FrameTag | Sp::VerifTag | Sp::ArrayTy | Sp::Opcode | Sp::WideOp
        )
    };
    let all: Vec<_> = g.spans.iter().filter(|s| is(&s.kind)).copied().collect();
    let kinds: std::collections::BTreeSet<u8> = all.iter().map(|s| s.kind as u8).collect();
    if kinds.is_empty() {
        return Ok(());
    }
    let kinds: Vec<u8> = kinds.into_iter().collect();
    for _ in 0..3 {
        let kind = *cx.src.pick(&kinds);
        let of: Vec<_> = all.iter().filter(|s| s.kind as u8 == kind).collect();
        let sp = **cx.src.pick(&of);
        let mut b = g.bytes.clone();
        let x = match cx.src.below(3) {
            0 => b[sp.off].wrapping_add(cx.src.range(1, 6) as u8),
            1 => b[sp.off].wrapping_sub(cx.src.range(1, 6) as u8),
            _ => cx.src.u8any(),
        };
        b[sp.off] = x;
        judge(cx, &b)?;
    }
    Ok(())
}

/// Bytes removed, inserted, doubled, exchanged, with or without keeping the lengths around them right.
fn shifted(cx: &mut Cx) -> Res {
    let cfg = profile(cx);
    let g = crate::gen::class(&mut cx.src, &cfg);
    let mut b = g.bytes.clone();
    match cx.src.below(5) {
        0 => {
            let k = cx.src.below(b.len() as u64) as usize;
            b.truncate(k);
        }
        1 => {
            let k = cx.src.range(1, 20) as usize;
            let x = cx.src.fill(k);
            b.extend(x);
        }
        2 if !g.attrs.is_empty() => {
            // an attribute's content replaced by another's
            let (x, y) = (cx.src.pick(&g.attrs).clone(), cx.src.pick(&g.attrs).clone());
            let part = g.bytes[y.content..y.end].to_vec();
            let d = part.len() as i64 - (x.end - x.content) as i64;
            let mut l = x.list;
            let mut fix = vec![x.start + 2];
            while let Some(p) = g.lists[l].parent {
                fix.push(g.attrs[p].start + 2);
                l = g.attrs[p].list;
            }
            for o in fix {
                let v = i64::from(u32::from_be_bytes([b[o], b[o + 1], b[o + 2], b[o + 3]])) + d;
                b[o..o + 4].copy_from_slice(&(v as u32).to_be_bytes());
            }
            b.splice(x.content..x.end, part);
        }
        3 if !g.attrs.is_empty() => {
            // two attribute names exchanged
            let (x, y) = (cx.src.pick(&g.attrs).clone(), cx.src.pick(&g.attrs).clone());
            for i in 0..2 {
                b.swap(x.start + i, y.start + i);
            }
        }
        _ => {
            let mut r = Rng::new(&[cx.src.raw(1 << 32)]);
            for _ in 0..1 + r.below(4) {
                mutate_bytes(&mut b, &mut r, &[g.bytes.clone()]);
            }
        }
    }
    judge(cx, &b)
}

fn seeds() -> Vec<Vec<u8>> {
    let mut v = vec![];
    let names: Vec<&'static str> = spec::ATTRS.iter().map(|a| a.0).collect();
    for k in 0..78u64 {
        let mut s = Src::seeded(5000 + k);
        let name = names[k as usize % names.len()];
        let g = Gen::new(&mut s, &Cfg { filler: 1, ..SMALL }).single(crate::gen::At::Class, name, |g, idx| g.content(name, idx));
        if g.bytes.len() < 1500 {
            v.push(g.bytes);
        }
    }
    for k in 0..32u64 {
        let mut s = Src::seeded(6000 + k);
        let g = crate::gen::class(&mut s, &SMALL);
        if g.bytes.len() < 3000 {
            v.push(g.bytes);
        }
    }
    v.extend(regress().into_iter().filter(|b| b.len() < 3000));
    v
}
