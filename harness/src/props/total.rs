//! C01, C02, C27, C28: totality, resources, access flags, purity.
use super::*;
use crate::engine::Kind::*;
use crate::engine::{mutate_bytes, Src};
use crate::gen::{corrupt, Gen, Sp, ANY, SMALL};
use crate::spec;
use jbcrs::basic::{AccessFlags, Attribute};

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C01",
            rule: "Byte strings of five sorts are parsed on a 2 MiB stack: random bytes behind a valid head; generated files with fields corrupted, cut, spliced and mutated; files with extreme counts and lengths; constant pools filled up to and across the last index; nesting of annotation values and method bodies up to 300000 levels; coverage-guided mutation. Returning a class or a formattable error passes; a panic, crash, stack overflow, or more than 50 million + 20000 per byte executed edges fails. Non-trivial: files of at least 10 bytes that begin with the magic; distinct by bytes.",
            assumptions: &["the library is built with overflow checks and debug assertions, at optimisation level 2; an ordinary thread has Rust's default stack of 2 MiB"],
            corpus: false,
            phases: |th| {
                vec![
                    phase("saved", Saved(regress, |cx, b| total(cx, b))),
                    phase("nesting", All(|_| (NEST_KINDS * NEST_DEPTHS.len() * 3) as u64, nesting)),
                    phase("full pools", All(|t| (FULL * if t { 12 } else { 1 }) as u64, full_pools)),
                    phase("extreme counts", Random(amount(th, 120_000, 3_000_000), extreme)),
                    phase("corrupted files", Random(amount(th, 150_000, 4_000_000), corrupted)),
                    phase("random bytes", Random(amount(th, 400_000, 10_000_000), random_bytes)),
                    phase("guided mutation", Fuzz(amount(th, 60_000, 3_000_000), seeds, |cx, b| total(cx, b))),
                ]
            },
        },
        Check {
            id: "C02",
            rule: "Files built to amplify (every list repeated up to 65535 times with minimal entries, every count raised to its maximum with little behind it, nested structures that each claim the maximum, values in values and bodies in bodies up to 66 deep with others beside them, switches that claim the whole integer range, long names used often) in sizes up to 1 MiB, pools of up to 65534 constants of each kind in 8 styles of likeness, generated files, and mutants; during the parse, peak heap must stay below 32 MiB + 2048 bytes per input byte, all allocations together below 256 MiB + 16384 per byte, executed edges in the library below 500000 + 400 per byte (about five and fifteen times what is seen), and the thread's CPU time below 300 ms + 1 us per byte (the least of up to eight runs); after repeated parses with the results dropped, no more heap is in use than before. Non-trivial: files whose declared counts exceed what follows or that hold at least 1000 entries; distinct by bytes.",
            assumptions: &["work is measured as executed control-flow edges of the instrumented library, heap as live bytes requested from the allocator"],
            corpus: false,
            phases: |th| {
                vec![
                    phase("amplifiers", All(|t| (AMPS * AMP_SIZES.len() * if t { 40 } else { 2 }) as u64, amplifiers)),
                    phase("many constants", All(|_| (17 * CONST_STYLES * 2) as u64, many_constants)),
                    phase("claims", Random(amount(th, 120_000, 3_000_000), claims)),
                    phase("nested claims", All(|_| (NEST_KINDS * NEST_DEPTHS.len() * 3) as u64, nested_claims)),
                    phase("deep values", Random(amount(th, 30_000, 600_000), deep_values)),
                    phase("saved", Saved(regress, |cx, b| linear(cx, b))),
                    phase("generated", Random(amount(th, 60_000, 2_000_000), generated_cost)),
                    phase("released", Random(amount(th, 8_000, 300_000), released)),
                    phase("guided mutation", Fuzz(amount(th, 30_000, 2_000_000), seeds, |cx, b| linear(cx, b))),
                ]
            },
        },
        Check {
            id: "C27",
            rule: "Every one of the 65536 flag values at every site that stores flags (class, field, method, inner class, method parameter, module, requires, exports, opens), each site with another value of the same file; bits must be equal and each named flag must test as its specified bit. Non-trivial: every value; distinct by value.",
            assumptions: &["bits of the named flags are those of JVMS SE 9 tables 4.1-B, 4.5-A, 4.6-A, 4.7.6-A, 4.7.24, 4.7.25"],
            corpus: false,
            phases: |th| {
                vec![
                    phase("all values", All(|_| 65536, all_flags)),
                    phase("named flags", All(|_| 65536, named_flags)),
                    phase("random files", Random(amount(th, 60_000, 1_000_000), |cx| {
                        let g = make(cx, &crate::gen::Cfg { focus: FLAGGED, attrs: 4, ..ANY });
                        cx.nontrivial(g.spans.iter().filter(|s| s.kind == Sp::Flags).count() > 3);
                        cx.identity(&g.bytes);
                        cx.sample(|| show(&g));
                        class_equal(cx, &g).map(|_| ())
                    })),
                ]
            },
        },
        Check {
            id: "C28",
            rule: "The outcome (class and constants, or error) of a file is computed once and again: after parsing other files and failing ones, at other offsets of larger buffers, on four threads at once with other files, with other environment variables and directories and on named threads, after other work with descriptors and pools, after the buffer is gone, after up to 5200 parses of failing and other files on the same thread, between files that differ from it in one place, in both orders, and with added constants that bring items of the file to round offsets (where the class must be the same); and one attribute's bytes are put into a class, field, method and body with the same constants, where all four outcomes must be the same. Files are generated, corrupted, or mutated. Non-trivial: files that parse or fail after the constants; distinct by bytes.",
            assumptions: &[],
            corpus: false,
            phases: |th| {
                vec![
                    phase("repeats", Random(amount(th, 40_000, 1_000_000), repeats)),
                    phase("relatives", Random(amount(th, 15_000, 600_000), relatives)),
                    phase("threads", Random(amount(th, 4_000, 100_000), threads)),
                    phase("surroundings", Random(amount(th, 8_000, 200_000), surroundings)),
                    phase("places", Random(amount(th, 80_000, 2_000_000), places)),
                    phase("long histories", Random(amount(th, 480, 20_000), histories)),
                    phase("offsets", Random(amount(th, 3_200, 100_000), offsets)),
                ]
            },
        },
    ]
}

// ---- C01 ------------------------------------------------------------------------------------

fn total(cx: &mut Cx, b: &[u8]) -> Res {
    let r = cx
        .sut(b.len(), "parse (or formatting its error)", || match jbcrs::basic::parse(b) {
            Ok(_) => None,
            Err(e) => {
                let mut s = format!("{:?} {}", e, e);
                let mut c: Option<&dyn std::error::Error> = Some(&e);
                let mut k = 0;
                while let Some(x) = c {
                    s.push_str(&x.to_string());
                    #[allow(deprecated)]
                    {
                        c = x.cause();
                    }
                    k += 1;
                    if k > 100 {
                        break;
                    }
                }
                Some((obs::error(&e).tag(), s.len()))
            }
        })
        .with_input(b)?;
    cx.label(match r {
        None => "class",
        Some((tag, _)) => tag,
    });
    cx.nontrivial(b.len() >= 10 && b.starts_with(&[0xCA, 0xFE, 0xBA, 0xBE]));
    cx.identity(b);
    cx.sample(|| format!("{} bytes {} => {:?}", b.len(), clip(hex(b), 200), r));
    Ok(())
}

fn random_bytes(cx: &mut Cx) -> Res {
    let k = cx.src.below(300) as usize;
    let mut b = vec![];
    match cx.src.below(5) {
        0 => {}
        1 => b.extend([0xCA, 0xFE, 0xBA, 0xBE]),
        2 => b.extend([0xCA, 0xFE, 0xBA, 0xBE, 0, 0, 0, 52, 0, 1]),
        3 => {
            b.extend([0xCA, 0xFE, 0xBA, 0xBE, 0, 0, 0, 52]);
            be2(&mut b, cx.src.below(12) as usize);
        }
        _ => {
            // one attribute of a random kind with random content
            let name = cx.src.pick(spec::ATTRS).0;
            b = head(2, &utf8(name.as_bytes()));
            b.extend([0, 0x21, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 1]);
            be4(&mut b, k as u32);
        }
    }
    // small values are likelier to be tags and counts that go on
    let style = cx.src.below(3);
    let bytes = cx.src.fill(k);
    b.extend(bytes.into_iter().map(|x| match style {
        0 => x,
        1 => x & 3,
        _ => {
            if x < 128 {
                x & 7
            } else {
                x
            }
        }
    }));
    total(cx, &b)
}

fn mangled(cx: &mut Cx) -> Vec<u8> {
    let cfg = if cx.src.below(8) == 0 { ANY } else { SMALL };
    let g = crate::gen::class(&mut cx.src, &cfg);
    let mut b = g.bytes.clone();
    for _ in 0..cx.src.range(1, 4) {
        corrupt(&mut cx.src, &g, &mut b);
    }
    if cx.src.below(3) == 0 {
        let mut r = Rng::new(&[cx.src.raw(1 << 32)]);
        for _ in 0..1 + r.below(4) {
            mutate_bytes(&mut b, &mut r, &[g.bytes.clone()]);
        }
    }
    if cx.src.below(8) == 0 {
        let k = cx.src.below(b.len() as u64 + 1) as usize;
        b.truncate(k);
    }
    b
}

fn corrupted(cx: &mut Cx) -> Res {
    let b = mangled(cx);
    total(cx, &b)
}

fn extreme_file(cx: &mut Cx) -> Vec<u8> {
    let g = crate::gen::class(&mut cx.src, &SMALL);
    let mut b = g.bytes.clone();
    let wide: Vec<_> = g
        .spans
        .iter()
        .filter(|s| {
            matches!(
                s.kind,
                Sp::CpCount
                    | Sp::Utf8Len
                    | Sp::AttrLen
                    | Sp::AttrCount
                    | Sp::Count
                    | Sp::CodeLen
                    | Sp::PathLen
                    | Sp::Low
                    | Sp::High
                    | Sp::NPairs
            )
        })
        .collect();
    for _ in 0..cx.src.range(1, 3) {
        let s = **cx.src.pick(&wide);
        let v: u32 = *cx.src.pick(&[
            0xFFFF_FFFF,
            0x7FFF_FFFF,
            0x8000_0000,
            0xFFFF_FFFE,
            0x8000_0001,
            0,
            0x0001_0000,
            0x4000_0000,
            0x2000_0001,
            0xFFFF,
        ]);
        for i in 0..s.len {
            b[s.off + i] = (v >> (8 * (s.len - 1 - i))) as u8;
        }
        if cx.src.below(4) == 0 {
            let k = s.off + s.len + cx.src.below(64) as usize;
            b.truncate(k);
            break;
        }
    }
    b
}

fn extreme(cx: &mut Cx) -> Res {
    let b = extreme_file(cx);
    total(cx, &b)
}

const FULL: usize = 5 * 6 * 5;

/// Constant pools that reach the last index, with one- and two-index constants there.
fn full_pools(cx: &mut Cx) -> Res {
    let i = cx.index as usize;
    let (filler, i) = (i % 5, i / 5);
    let (count, i) = ([65535usize, 65534, 65533, 65532, 32768, 2][i % 6], i / 6);
    let (tail, round) = (i % 5, i / 5);
    let mut r = Rng::new(&[cx.index, round as u64]);
    let mut consts = vec![];
    let mut at = 1;
    let stop = count.saturating_sub([1, 2, 1, 2, 3][tail]);
    while at < stop {
        let wide = match filler {
            0 | 1 => false,
            2 => at + 2 <= stop,
            3 => at + 2 <= stop && r.below(2) == 0,
            _ => at + 2 <= stop && r.below(50) == 0,
        };
        if wide {
            consts.push(5 + r.below(2) as u8);
            consts.extend(if filler == 4 { 7u64 } else { r.next() }.to_be_bytes());
            at += 2;
        } else if filler == 4 {
            consts.extend([1, 0, 0]);
            at += 1;
        } else {
            consts.push(3);
            consts.extend(if filler == 0 { at as u32 } else { r.below(9) as u32 }.to_be_bytes());
            at += 1;
        }
    }
    let last: &[u8] = match tail {
        0 | 1 => &[5, 0, 0, 0, 0, 0, 0, 0, 9],
        2 | 3 => &[3, 0, 0, 0, 9],
        _ => &[6, 0, 0, 0, 0, 0, 0, 1, 9],
    };
    for _ in 0..1 + round % 3 {
        consts.extend(last);
    }
    let mut b = head(count, &consts);
    if round % 4 < 3 {
        b.extend(EMPTY_BODY);
    }
    total(cx, &b)
}

const NEST_KINDS: usize = 9;
const NEST_DEPTHS: &[usize] = &[
    1, 2, 8, 15, 16, 17, 31, 32, 33, 62, 63, 64, 65, 66, 100, 126, 127, 128, 129, 200, 254, 255, 256, 257, 400, 511, 512, 1000, 1500, 2000,
    3000, 4000, 6000, 8000, 10_000, 20_000, 50_000, 100_000, 300_000,
];

/// A file with `depth` levels of nesting; `claim` is the count each level declares; complete files have
/// everything the innermost level needs.
fn nest(kind: usize, depth: usize, claim: u16, complete: bool) -> Vec<u8> {
    let c = claim.to_be_bytes();
    let mut v: Vec<u8> = vec![];
    let name = match kind {
        0..=2 => "AnnotationDefault",
        3 => "RuntimeVisibleAnnotations",
        4 => "RuntimeInvisibleTypeAnnotations",
        5 => "RuntimeVisibleParameterAnnotations",
        _ => "Code",
    };
    match kind {
        3 => v.extend([0, 1, 0, 9, 0, 1, 0, 9]),
        4 => v.extend([0, 1, 0x13, 0, 0, 9, 0, 1, 0, 9]),
        5 => v.extend([1, 0, 1, 0, 9, 0, 1, 0, 9]),
        _ => {}
    }
    let array = |v: &mut Vec<u8>| {
        v.push(b'[');
        v.extend(c);
    };
    let anno = |v: &mut Vec<u8>| {
        v.extend([b'@', 0, 7]);
        v.extend(c);
        v.extend([0, 8]);
    };
    if kind < 6 {
        for i in 0..depth {
            if kind == 0 || (kind >= 2 && i % 2 == 0) {
                array(&mut v);
            } else {
                anno(&mut v);
            }
        }
        if complete {
            v.extend([b'B', 0, 1]);
        }
    } else {
        // bodies in bodies; the innermost holds nothing, or nested values (kind 7), or claims (kind 8)
        let mut inner: Vec<u8> = vec![];
        let mut levels: Vec<Vec<u8>> = vec![];
        for i in 0..depth {
            let mut b = vec![0, 1, 0, 1, 0, 0, 0, 1, 0xB1];
            if kind == 8 && claim > 1 {
                b.extend([0, 0]);
                b.extend(c);
            } else {
                b.extend([0, 0]);
                b.extend(if i + 1 < depth { c } else { [0, (kind == 7) as u8] });
            }
            levels.push(b);
        }
        if kind == 7 {
            inner.extend([0, 2]);
            let mut x = vec![];
            for _ in 0..depth.min(40_000) {
                x.push(b'[');
                x.extend(c);
            }
            if complete {
                x.extend([b'B', 0, 1]);
            }
            be4(&mut inner, x.len() as u32);
            inner.extend(x);
        }
        // lengths from the inside out
        let mut lens = vec![0usize; depth];
        let mut len = inner.len();
        for i in (0..depth).rev() {
            lens[i] = levels[i].len() + len;
            len = lens[i] + 6;
        }
        for i in 0..depth {
            if i > 0 {
                v.extend([0, 1]);
                be4(&mut v, lens[i] as u32);
            }
            v.extend(&levels[i]);
        }
        v.extend(inner);
    }
    let mut b = head(3, &[utf8(name.as_bytes()), utf8(b"AnnotationDefault")].concat());
    b.extend([0, 0x21, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 1]);
    be4(&mut b, v.len() as u32);
    b.extend(v);
    b
}

fn nesting(cx: &mut Cx) -> Res {
    let i = cx.index as usize;
    let (kind, i) = (i % NEST_KINDS, i / NEST_KINDS);
    let (variant, depth) = (i % 3, NEST_DEPTHS[i / 3]);
    let b = nest(kind, depth, if variant == 2 { 3 } else { 1 }, variant != 1);
    cx.label(if depth > 1000 { "deeper than 1000" } else { "at most 1000 deep" });
    if variant == 0 && depth <= 16 / if kind == 7 { 2 } else { 1 } {
        // no deeper than compilers nest: must be accepted
        accept(cx, &b)?;
    }
    total(cx, &b)
}

fn seeds() -> Vec<Vec<u8>> {
    let mut v = vec![];
    for k in 0..96u64 {
        let mut s = Src::seeded(1000 + k);
        let names: Vec<&'static str> = spec::ATTRS.iter().map(|a| a.0).collect();
        let cfg = crate::gen::Cfg { filler: 3, ..SMALL };
        let at = [crate::gen::At::Class, crate::gen::At::Method, crate::gen::At::Field, crate::gen::At::Code][k as usize % 4];
        let name = names[k as usize % names.len()];
        let g = Gen::new(&mut s, &cfg).single(at, name, |g, idx| g.content(name, idx));
        if g.bytes.len() < 4000 {
            v.push(g.bytes);
        }
    }
    for k in 0..32u64 {
        let mut s = Src::seeded(2000 + k);
        let g = crate::gen::class(&mut s, &SMALL);
        if g.bytes.len() < 4000 {
            v.push(g.bytes);
        }
    }
    v.extend(regress().into_iter().filter(|b| b.len() < 4000));
    v
}

// ---- C02 ------------------------------------------------------------------------------------

fn linear(cx: &mut Cx, b: &[u8]) -> Res {
    let ok = cx.sut(b.len(), "parse", || jbcrs::basic::parse(b).is_ok()).with_input(b)?;
    let (len, c) = (b.len() as i64, cx.cost);
    let (mem, work) = ((32 << 20) + 2048 * len, 500_000 + 400 * len);
    if c.peak > mem {
        return fail("memory", format!("{} bytes of input made the parser hold {} bytes of heap (allowed {})", len, c.peak, mem))
            .with_input(b);
    }
    if c.edges > work {
        return fail("work", format!("{} bytes of input made the parser execute {} edges (allowed {})", len, c.edges, work)).with_input(b);
    }
    let total = (256 << 20) + 16_384 * len;
    if c.total > total {
        return fail("allocation", format!("{} bytes of input made the parser allocate {} bytes over time (allowed {})", len, c.total, total))
            .with_input(b);
    }
    // work hidden in library calls (moving memory about) shows only as processor time: far beyond any linear amount,
    // every time of several
    let mut time = c.nanos;
    let limit = 300_000_000 + 1_000 * len;
    let mut tries = 0;
    while time > limit && tries < 7 {
        cx.sut(b.len(), "parse", || jbcrs::basic::parse(b).is_ok()).with_input(b)?;
        time = time.min(cx.cost.nanos);
        tries += 1;
    }
    if time > limit {
        return fail("time", format!("{} bytes of input took the parser {} ms of processor time (allowed {})", len, time / 1_000_000, limit / 1_000_000))
            .with_input(b);
    }
    cx.max("microseconds of processor time", (time / 1000) as u64);
    cx.label(match c.peak / (len + 1) {
        0..=63 => "heap below 64 per byte",
        64..=511 => "heap 64 to 511 per byte",
        512..=4095 => "heap 512 to 4095 per byte",
        _ => "heap above 4095 per byte",
    });
    if len >= 1000 {
        cx.max("heap per byte", (c.peak / len) as u64);
        cx.max("edges per byte", (c.edges / len) as u64);
        cx.max("bytes allocated over time per byte", (c.total / len) as u64);
    } else {
        cx.max("heap of a file below 1000 bytes", c.peak as u64);
        cx.max("edges of a file below 1000 bytes", c.edges as u64);
    }
    cx.label(if ok { "parsed" } else { "refused" });
    cx.nontrivial(len > 1000 || !ok);
    cx.identity(b);
    cx.sample(|| format!("{} bytes {} => {} heap bytes, {} edges", len, clip(hex(b), 80), c.peak, c.edges));
    Ok(())
}

const AMP_SIZES: &[usize] = &[100, 1000, 4000, 16000, 40000, 65535];
const AMPS: usize = 44 + AMPS_EXTRA + crate::spec::ATTRS.len();
const AMPS_EXTRA: usize = 27;

fn amplifiers(cx: &mut Cx) -> Res {
    let i = cx.index;
    cx.src.seed_if_empty(i);
    let i = i as usize;
    let (amp, i) = (i % AMPS, i / AMPS);
    let (size, round) = (AMP_SIZES[i % AMP_SIZES.len()], i / AMP_SIZES.len());
    // later rounds: other sizes, and files cut short
    let n = if round == 0 { size } else { 1 + cx.src.below(size as u64) as usize };
    let n8 = n.min(255);
    let u1s = |count: usize, unit: &[u8]| {
        let mut v = vec![count as u8];
        for _ in 0..count {
            v.extend(unit);
        }
        v
    };
    let mut b = match amp {
        0 => one_attr("BootstrapMethods", &repeat(n, &[0, 1, 0, 0])),
        1 => one_attr("BootstrapMethods", &repeat(n, &[0, 1, 0, 1, 0, 2])),
        2 => one_attr("BootstrapMethods", &repeat(n, &[0, 1, 0xFF, 0xFF])),
        3 => one_attr("InnerClasses", &repeat(n, &[0, 1, 0, 1, 0, 1, 0, 1])),
        4 => one_attr("RuntimeVisibleAnnotations", &repeat(n, &[0, 1, 0, 0])),
        5 => one_attr("RuntimeVisibleAnnotations", &repeat(n, &[0, 1, 0xFF, 0xFF, 0, 1, b'B', 0, 1])),
        6 => one_attr("RuntimeInvisibleParameterAnnotations", &u1s(n8, &[0, 0])),
        7 => one_attr("RuntimeInvisibleParameterAnnotations", &u1s(n8, &repeat(n / 256 + 1, &[0, 1, 0, 0]))),
        8 => one_attr("RuntimeVisibleTypeAnnotations", &repeat(n, &[0x13, 0, 0, 1, 0, 0])),
        9 => one_attr("RuntimeVisibleTypeAnnotations", &repeat(n, &[0x40, 0, 0, 0, 0, 1, 0, 0])),
        10 => one_attr("RuntimeVisibleTypeAnnotations", &repeat(n, &[0x40, 0xFF, 0xFF, 0, 0, 1, 0, 0])),
        11 => one_attr("AnnotationDefault", &[&[b'['][..], &repeat(n, &[b'[', 0, 0])].concat()),
        12 => one_attr("AnnotationDefault", &[&[b'['][..], &repeat(n, &[b'@', 0, 1, 0, 0])].concat()),
        13 => one_attr("AnnotationDefault", &[&[b'['][..], &repeat(n, &[b'[', 0, 1, b'[', 0, 0])].concat()),
        14 => one_attr("AnnotationDefault", &[&[b'['][..], &repeat(n, &[b'[', 0xFF, 0xFF])].concat()),
        15 => one_attr("Exceptions", &repeat(n, &[0, 1])),
        16 => one_attr("LineNumberTable", &repeat(n, &[0, 1, 0, 1])),
        17 => one_attr("LocalVariableTable", &repeat(n, &[0; 10])),
        18 => one_attr("LocalVariableTypeTable", &repeat(n, &[0; 10])),
        19 => one_attr("MethodParameters", &u1s(n8, &[0, 0, 0, 0])),
        20 => one_attr("StackMapTable", &repeat(n, &[0])),
        21 => one_attr("StackMapTable", &repeat(n, &[255, 0, 0, 0, 0, 0, 0])),
        22 => one_attr("StackMapTable", &repeat(n, &[255, 0, 0, 0xFF, 0xFF, 0])),
        23 => one_attr("StackMapTable", &repeat(n, &[254, 0, 0, 0, 1, 2])),
        24 => one_attr("ModulePackages", &repeat(n, &[0, 1])),
        25 | 26 | 27 => {
            let which = amp - 25;
            let mut c = vec![0, 1, 0, 0, 0, 0, 0, 0];
            for k in 0..3 {
                c.extend(if k == which {
                    match k {
                        0 => repeat(n, &[0, 1, 0, 0, 0, 0]),
                        1 => repeat(n, &[0, 1, 0, 0, 0, 0]),
                        _ => repeat(n, &[0, 1]),
                    }
                } else {
                    vec![0, 0]
                });
            }
            c.extend(repeat(n, &[0, 1, 0, 0]));
            one_attr("Module", &c)
        }
        28 => {
            // long names used often
            let mut b = one_attr("Custom", &[]);
            b.truncate(b.len() - 8);
            b.extend(repeat(n / 16 + 1, &[0, 4, 0, 0, 0, 0]));
            b
        }
        29 => {
            let mut b = one_attr("Custom", &[]);
            b.truncate(b.len() - 8);
            b.extend(repeat(n, &[0, 3, 0, 0, 0, 0]));
            b
        }
        30 => one_attr("Code", &body_of(&vec![0; n], &[0, 0, 0, 0])),
        31 => one_attr("Code", &body_of(&[0xB1], &[&repeat(n, &[0; 8])[..], &[0, 0]].concat())),
        32 => one_attr("Code", &body_of(&[0xB1], &[&[0, 0][..], &repeat(n, &[0, 3, 0, 0, 0, 0])].concat())),
        33 => {
            // smallest tableswitches
            let unit = [&[0xAA, 0, 0, 0][..], &[0; 12], &[0; 4], &[0; 4]].concat();
            one_attr("Code", &body_of(&unit.repeat(n / 24 + 1), &[0, 0, 0, 0]))
        }
        34 => {
            // a switch that claims everything
            let mut c = vec![0xAA, 0, 0, 0, 0, 0, 0, 0];
            let (lo, hi) = *cx.src.pick(&[
                (0i32, i32::MAX),
                (i32::MIN, i32::MAX),
                (i32::MIN, -1),
                (0, i32::MAX - 1),
                (0, 0x0FFF_FFFF),
                (0, 0x3FFF_FFFF),
                (1, i32::MAX),
                (i32::MIN, i32::MIN + 100_000_000),
            ]);
            c.extend(lo.to_be_bytes());
            c.extend(hi.to_be_bytes());
            c.resize(16 + n / 4 * 4, 0);
            one_attr("Code", &body_of(&c, &[0, 0, 0, 0]))
        }
        35 => {
            let mut c = vec![0xAB, 0, 0, 0, 0, 0, 0, 0];
            c.extend(cx.src.pick(&[0x7FFF_FFFFu32, 0xFFFF_FFFF, 0x8000_0000, 0x0FFF_FFFF, 0x1000_0000, 0x2000_0000, 0x00FF_FFFF]).to_be_bytes());
            c.resize(12 + n / 8 * 8, 0);
            one_attr("Code", &body_of(&c, &[0, 0, 0, 0]))
        }
        36 => {
            // one lookupswitch with many keys
            let mut c = vec![0xAB, 0, 0, 0, 0, 0, 0, 0];
            let k = n / 8;
            c.extend((k as u32).to_be_bytes());
            for x in 0..k {
                c.extend((x as u32).wrapping_mul(if n % 2 == 0 { 1 } else { 0x1_0000 }).to_be_bytes());
                c.extend([0; 4]);
            }
            one_attr("Code", &body_of(&c, &[0, 0, 0, 0]))
        }
        37 => {
            // constants of one kind
            let unit: &[u8] = *cx.src.pick(&[&[3u8, 0, 0, 0, 0][..], &[7, 0, 0], &[1, 0, 0], &[5, 0, 0, 0, 0, 0, 0, 0, 0], &[10, 0, 0, 0, 0]]);
            let distinct = cx.src.below(2) == 0;
            let count = n.min(32000);
            let mut c = vec![];
            for k in 0..count {
                let s = c.len();
                c.extend(unit);
                if distinct && unit.len() >= 3 && unit[0] != 1 {
                    c[s + 1] = (k >> 8) as u8;
                    c[s + 2] = k as u8;
                }
            }
            let mut b = head(1 + count * if unit[0] == 5 { 2 } else { 1 }, &c);
            b.extend(EMPTY_BODY);
            b
        }
        38 => {
            // long strings
            let s = [utf8(&vec![b'a'; 65535.min(n * 4)]), utf8(&"\u{800}".repeat(n.min(21845)).into_bytes())].concat();
            let mut b = head(3, &s);
            b.extend(EMPTY_BODY);
            b
        }
        39 | 40 => {
            // members
            let m = repeat(n, &[0, 0, 0, 0, 0, 0, 0, 0]);
            let mut b = head(2, &utf8(b"Deprecated"));
            b.extend([0, 0x21, 0, 1, 0, 0, 0, 0]);
            if amp == 39 {
                b.extend(m);
                b.extend([0, 0, 0, 0]);
            } else {
                b.extend([0, 0]);
                b.extend(m);
                b.extend([0, 0]);
            }
            b
        }
        41 => {
            // methods with a small body each
            let body = body_of(&[0xB1], &[0, 0, 0, 0]);
            let mut unit = vec![0, 0, 0, 0, 0, 0, 0, 1, 0, 1];
            be4(&mut unit, body.len() as u32);
            unit.extend(body);
            let mut b = head(2, &utf8(b"Code"));
            b.extend([0, 0x21, 0, 1, 0, 0, 0, 0, 0, 0]);
            b.extend(repeat(n.min(40000), &unit));
            b.extend([0, 0]);
            b
        }
        42 => one_attr("SourceDebugExtension", &vec![b'a'; n * 8]),
        44.. => more_amplifiers(cx, amp - 44, n),
        _ => {
            let mut b = head(1, &[]);
            b.extend([0, 0x21, 0, 1, 0, 0]);
            b.extend(repeat(n, &[0, 1]));
            b.extend([0; 6]);
            b
        }
    };
    if round > 0 && cx.src.below(3) == 0 {
        let k = cx.src.below(b.len() as u64) as usize;
        b.truncate(k);
    }
    linear(cx, &b)
}

/// The smallest content of an attribute of the given format.
fn minimal(f: &[crate::spec::F], b: &mut Vec<u8>) {
    use crate::spec::F;
    for x in f {
        match x {
            F::U1 => b.push(0),
            F::U2 | F::Flags => b.extend([0, 0]),
            F::List(w, _) => b.extend(std::iter::repeat(0).take(*w as usize)),
            F::Named('E') => b.extend([b'B', 0, 0]),
            F::Named('C') => b.extend(body_of(&[0xB1], &[0; 4])),
            F::Named(_) => {}
        }
    }
}

/// n records of `width` bytes, all different from their neighbours.
fn distinct(n: usize, width: usize) -> Vec<u8> {
    let mut v = vec![];
    be2(&mut v, n);
    for k in 0..n {
        let s = v.len();
        v.resize(s + width, 0);
        for (j, x) in v[s..].chunks_exact_mut(2).enumerate() {
            let y = (k as u16).wrapping_mul(if j % 2 == 0 { 1 } else { 40503 });
            x.copy_from_slice(&y.to_be_bytes());
        }
    }
    v
}

fn more_amplifiers(cx: &mut Cx, amp: usize, n: usize) -> Vec<u8> {
    if amp >= AMPS_EXTRA {
        // many attributes of one kind in one list
        let (name, f) = &crate::spec::attrs()[amp - AMPS_EXTRA];
        let mut c = vec![];
        minimal(f, &mut c);
        let mut unit = vec![0, 1];
        be4(&mut unit, c.len() as u32);
        unit.extend(c);
        let mut b = one_attr(name, &[]);
        b.truncate(b.len() - 8);
        b.extend(repeat(n, &unit));
        return b;
    }
    let anno = |c: &[u8]| one_attr("RuntimeVisibleTypeAnnotations", c);
    match amp {
        0 | 1 => {
            let mut unit = vec![0, 1];
            be4(&mut unit, amp as u32 * 3);
            unit.extend(&[1, 2, 3][..amp * 3]);
            let mut b = one_attr("Custom", &[]);
            b.truncate(b.len() - 8);
            b.extend(repeat(n, &unit));
            b
        }
        2 => one_attr("BootstrapMethods", &[&[0, 1, 0, 0][..], &distinct(n, 2)].concat()),
        3 => {
            // one annotation with n pairs
            let mut c = vec![0, 1, 0, 0];
            be2(&mut c, n);
            for k in 0..n {
                be2(&mut c, k);
                c.extend([b'I', 0, 1]);
            }
            one_attr("RuntimeVisibleAnnotations", &c)
        }
        4 => anno(&[&[0, 1, 0x40][..], &distinct(n, 6), &[0, 0, 0, 0, 0]].concat()),
        5 => one_attr("Module", &[&[0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0][..], &distinct(n, 2), &[0; 6]].concat()),
        6 => one_attr("Module", &[&[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0][..], &distinct(n, 2), &[0; 4]].concat()),
        7 => one_attr("Module", &[&[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0][..], &[0, 0, 0, 1, 0, 0], &distinct(n, 2)].concat()),
        8 => {
            // one full frame
            let mut c = vec![0, 1, 255, 0, 0];
            for _ in 0..2 {
                be2(&mut c, n);
                c.extend((0..n).flat_map(|k| if k % 3 == 0 { vec![7, (k >> 8) as u8, k as u8] } else { vec![1] }));
            }
            one_attr("StackMapTable", &c)
        }
        9 => one_attr("LineNumberTable", &distinct(n, 4)),
        10 => one_attr("LocalVariableTable", &distinct(n, 10)),
        11 => one_attr("InnerClasses", &distinct(n, 8)),
        12 => one_attr("Exceptions", &distinct(n, 2)),
        13 => one_attr("ModulePackages", &distinct(n, 2)),
        14 => {
            let mut b = head(1, &[]);
            b.extend([0, 0x21, 0, 1, 0, 0]);
            b.extend(distinct(n, 2));
            b.extend([0; 6]);
            b
        }
        15 => one_attr("Code", &body_of(&[0xB1], &[&distinct(n, 8)[..], &[0, 0]].concat())),
        16 => {
            // strings of two-byte, three-byte and surrogate pair characters
            let u: &[u8] = *cx.src.pick(&[&[0xC0, 0x80][..], &[0xC3, 0xA9], &[0xE2, 0x82, 0xAC], &[0xED, 0xA0, 0x81, 0xED, 0xB0, 0x80]]);
            let s = u.repeat(65535 / u.len());
            let c: Vec<u8> = (0..n / 8192 + 1).flat_map(|_| utf8(&s)).collect();
            let mut b = head(n / 8192 + 2, &c);
            b.extend(EMPTY_BODY);
            b
        }
        17 => one_attr("SourceDebugExtension", &[0xE2, 0x82, 0xAC].repeat(n * 3)),
        18 => one_attr("SourceDebugExtension", &[0xED, 0xA0, 0x81, 0xED, 0xB0, 0x80].repeat(n)),
        19 => one_attr("Custom", &vec![7; n * 8]),
        20 | 21 => {
            // members with an attribute each
            let m = repeat(n, &[0, 0, 0, 0, 0, 0, 0, 1, 0, 1, 0, 0, 0, 0]);
            let mut b = head(2, &utf8(if cx.src.below(2) == 0 { b"Deprecated" } else { b"Dep" }));
            b.extend([0, 0x21, 0, 1, 0, 0, 0, 0]);
            if amp == 21 {
                b.extend([0, 0]);
            }
            b.extend(m);
            if amp == 20 {
                b.extend([0, 0]);
            }
            b.extend([0, 0]);
            b
        }
        22 => {
            // one instruction over and over
            let op = 1 + cx.src.below(0xC9) as usize;
            let unit: Vec<u8> = match op {
                0xAA | 0xAB => [&[op as u8, 0, 0, 0][..], &[0; 8]].concat(),
                0xC4 => vec![0xC4, 0x15, 0, 1],
                0xBC => vec![0xBC, 4],
                _ => {
                    let k = crate::spec::ops()[op].as_ref().map_or(0, |o| o.args.chars().map(|c| match c { 's' | 'h' => 2, 'i' => 4, _ => 1 }).sum());
                    let mut v = vec![op as u8];
                    v.resize(1 + k, 0);
                    v
                }
            };
            let m = n / unit.len();
            one_attr("Code", &body_of(&[&unit.repeat(m.max(1))[..], &[0xB1]].concat(), &[0; 4]))
        }
        23 | 24 => {
            // members which all differ
            let mut b = head(2, &utf8(b"Deprecated"));
            b.extend([0, 0x21, 0, 1, 0, 0, 0, 0]);
            if amp == 24 {
                b.extend([0, 0]);
            }
            let m = distinct(n, 6);
            b.extend(&m[..2]);
            for x in m[2..].chunks(6) {
                b.extend(x);
                b.extend([0, 0]);
            }
            if amp == 23 {
                b.extend([0, 0]);
            }
            b.extend([0, 0]);
            b
        }
        25 => {
            // bootstrap methods and annotations which all differ
            let m = distinct(n, 2);
            let mut c = m[..2].to_vec();
            for x in m[2..].chunks(2) {
                c.extend(x);
                c.extend([0, 0]);
            }
            one_attr(*cx.src.pick(&["BootstrapMethods", "RuntimeVisibleAnnotations", "RuntimeInvisibleAnnotations"]), &c)
        }
        _ => {
            // lookupswitches of two keys
            let unit = [&[0xAB, 0, 0, 0][..], &[0; 4], &[0, 0, 0, 2], &[0; 8], &[0, 0, 0, 1], &[0; 4]].concat();
            one_attr("Code", &body_of(&unit.repeat(n / 28 + 1), &[0, 0, 0, 0]))
        }
    }
}

const CONST_STYLES: usize = 8;

/// Tens of thousands of constants of one kind that differ in one place, so that whatever orders or hashes them works hardest.
fn many_constants(cx: &mut Cx) -> Res {
    let i = cx.index as usize;
    let (kind, style, part) = (i % 17, i / 17 % CONST_STYLES, i / 17 / CONST_STYLES);
    let (tag, _, fmt) = crate::spec::CONSTS[kind % crate::spec::CONSTS.len()];
    let wide = tag == 5 || tag == 6;
    let n = if part == 0 { if wide { 32_767 } else { 65_534 } } else { 9_000 };
    let mut c = vec![];
    for k in 0..n {
        let x = match style {
            0 => k,
            1 => k << 8 & 0xFFFF | k >> 8,
            2 => k / 2,
            3 => k * 40_503 & 0xFFFF,
            4 => n - k,
            5 => k / 256,
            6 => k * 32_769 & 0xFFFF,
            _ => k & 0x5555 | (k & 0xFF) << 8,
        } as u64;
        c.push(tag);
        match tag {
            1 => {
                let t = match style {
                    0 => format!("{:06}", x),
                    1 => format!("{:06}{}", x, "a".repeat(if part == 0 { 8 } else { 100 })),
                    2 => format!("{}{:06}", "a".repeat(if part == 0 { 12 } else { 100 }), x),
                    // all of the same sum, and of the same set of characters
                    3 => format!("{:06}{:06}", x, 999_999 - x),
                    4 => format!("{0:06}/{0:06}", x),
                    5 => format!("java/lang/{:x}", x),
                    6 => (0..18).map(|b| if x >> b & 1 == 1 { "ab" } else { "ba" }).collect(),
                    _ => format!("{:0w$}", x, w = 5 + k % 7),
                };
                c.extend((t.len() as u16).to_be_bytes());
                c.extend(t.as_bytes());
            }
            3 | 4 => c.extend(if style % 2 == 0 { (x as u32) << 16 } else { x as u32 }.to_be_bytes()),
            5 | 6 => c.extend((x << [0, 16, 32, 48][style % 4]).to_be_bytes()),
            15 => {
                c.push(1 + (k % 9) as u8);
                c.extend((x as u16).to_be_bytes());
            }
            _ => {
                for j in 0..fmt.len() {
                    let y = match style {
                        0 | 4 if j == 0 => x,
                        1 | 3 if j == fmt.len() - 1 => x,
                        2 => [x, n as u64 - x][j % 2],
                        5 => [x, k as u64 % 256][j % 2],
                        6 | 7 => x,
                        _ => 1,
                    };
                    c.extend((y as u16).to_be_bytes());
                }
            }
        }
    }
    let mut b = head(1 + n * if wide { 2 } else { 1 }, &c);
    b.extend(EMPTY_BODY);
    linear(cx, &b)
}

fn claims(cx: &mut Cx) -> Res {
    let b = extreme_file(cx);
    linear(cx, &b)
}

fn nested_claims(cx: &mut Cx) -> Res {
    let i = cx.index as usize;
    let (kind, i) = (i % NEST_KINDS, i / NEST_KINDS);
    let (claim, complete) = [(0xFFFF, false), (1, false), (1, true)][i % 3];
    let b = nest(kind, NEST_DEPTHS[i / 3], claim, complete);
    linear(cx, &b)
}

/// Values in values or bodies in bodies, with other things before and after at each level: what is
/// looked at twice on each level takes twice as long with each level.
fn deep_values(cx: &mut Cx) -> Res {
    let depth = 1 + cx.src.below(66) as usize;
    let bodies = cx.src.below(4) == 0;
    // in all levels the same, or each its own
    let same = cx.src.below(2) == 0;
    let first = cx.src.u16any();
    let whole = cx.src.below(4) != 0;
    let mut v: Vec<u8> = vec![];
    if bodies {
        // from the inside out
        for d in 0..depth {
            let x = if same { first } else { cx.src.u16any() };
            let (before, after) = (x & 1, x >> 1 & 1);
            let mut b = vec![0, 2, 0, 2, 0, 0, 0, 1, 0xB1, 0, 0, 0, (before + after + (d > 0) as u16) as u8];
            let other = |b: &mut Vec<u8>| b.extend([0, 2, 0, 0, 0, 2, 0, 1]);
            if before == 1 {
                other(&mut b);
            }
            if d > 0 {
                b.extend([0, 1]);
                be4(&mut b, v.len() as u32);
                b.extend(&v);
            }
            if after == 1 {
                other(&mut b);
            }
            v = b;
        }
    } else {
        let mut back = vec![];
        for _ in 0..depth {
            let x = if same { first } else { cx.src.u16any() };
            let (before, after) = (x & 3, x >> 2 & 3);
            let array = x >> 4 & 3 != 0;
            let leaf = |v: &mut Vec<u8>| {
                if !array {
                    v.extend([0, 9]);
                }
                match x >> 6 & 7 {
                    0 => v.extend([b'[', 0, 0]),
                    1 => v.extend([b'@', 0, 1, 0, 0]),
                    2 => v.extend([b'e', 0, 1, 0, 2]),
                    _ => v.extend([b'I', 0, 1]),
                }
            };
            v.extend(if array { vec![b'['] } else { vec![b'@', 0, 7] });
            v.extend((before + after + 1).to_be_bytes());
            for _ in 0..before {
                leaf(&mut v);
            }
            if !array {
                v.extend([0, 8]);
            }
            let mut tail = vec![];
            for _ in 0..after {
                leaf(&mut tail);
            }
            back.push(tail);
        }
        v.extend([b's', 0, 3]);
        for tail in back.iter().rev() {
            v.extend(tail);
        }
    }
    if !whole {
        let n = v.len();
        v.truncate(n - 1 - cx.src.below(n as u64 / 2) as usize);
    }
    // in each of the attributes that hold values
    let way = cx.src.below(5) as usize;
    let (name, mut content): (&[u8], Vec<u8>) = match way {
        _ if bodies => (b"Code", vec![]),
        0 => (b"AnnotationDefault", vec![]),
        1 => (b"RuntimeVisibleAnnotations", vec![0, 1, 0, 7, 0, 1, 0, 8]),
        2 => (b"RuntimeInvisibleAnnotations", vec![0, 1, 0, 7, 0, 1, 0, 8]),
        3 => (b"RuntimeInvisibleParameterAnnotations", vec![1, 0, 1, 0, 7, 0, 1, 0, 8]),
        _ => (b"RuntimeVisibleTypeAnnotations", vec![0, 1, 0x13, 0, 0, 7, 0, 1, 0, 8]),
    };
    content.extend(v);
    let mut a = vec![0, 1];
    be4(&mut a, content.len() as u32);
    a.extend(content);
    let b = place(&head(4, &[utf8(name), utf8(b"Signature"), utf8(b"Code")].concat()), 3, &a, cx.src.below(4) as usize);
    linear(cx, &b)
}

/// Once its result is gone, a parse leaves nothing behind.
fn released(cx: &mut Cx) -> Res {
    let b = if cx.src.below(2) == 0 { crate::gen::class(&mut cx.src, &SMALL).bytes } else { mangled(cx) };
    // what grows by doubling grows at the latest when there have been twice as many parses as ever before
    static BEFORE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let mut kept = vec![];
    let mut ok = false;
    for round in 0..4 {
        let before = BEFORE.load(std::sync::atomic::Ordering::Relaxed);
        let times = if round < 1 { 8 } else { 64 + before + before / 4 };
        ok = cx
            .sut(b.len() * times, "parse", || {
                let mut ok = false;
                for _ in 0..times {
                    ok = jbcrs::basic::parse(&b).is_ok();
                }
                ok
            })
            .with_input(&b)?;
        BEFORE.store(before + times, std::sync::atomic::Ordering::Relaxed);
        kept.push(cx.cost.live);
        if cx.cost.live < 8 {
            break;
        }
    }
    cx.label(if ok { "parsed" } else { "refused" });
    cx.nontrivial(b.len() > 60);
    cx.identity(&b);
    cx.sample(|| format!("{} bytes {}, parsed 8 times or more: {:?} bytes kept", b.len(), clip(hex(&b), 80), kept));
    if kept.len() == 4 && kept[3] >= 8 {
        return fail("kept", format!("parsing {} bytes again and again and dropping the results leaves more heap in use every time: {:?} bytes", b.len(), kept))
            .with_input(&b);
    }
    Ok(())
}

fn generated_cost(cx: &mut Cx) -> Res {
    let b = if cx.src.below(2) == 0 { crate::gen::class(&mut cx.src, &ANY).bytes } else { mangled(cx) };
    linear(cx, &b)
}

// ---- C27 ------------------------------------------------------------------------------------

const FLAGGED: &[&str] = &["InnerClasses", "MethodParameters", "Module"];

fn all_flags(cx: &mut Cx) -> Res {
    let base = cx.index as u16;
    // every site sees every value over the whole phase, and no two sites of a file the same one
    let v = |site: u16| base.wrapping_add(site.wrapping_mul(0x1357));
    let mut b = head(4, &[utf8(b"InnerClasses"), utf8(b"MethodParameters"), utf8(b"Module")].concat());
    let w = |b: &mut Vec<u8>, x: u16| b.extend(x.to_be_bytes());
    w(&mut b, v(0));
    b.extend([0, 1, 0, 0, 0, 0]);
    for site in [1, 2] {
        w(&mut b, 1);
        w(&mut b, v(site));
        b.extend([0, 1, 0, 1]);
        if site == 1 {
            w(&mut b, 0);
        } else {
            w(&mut b, 1);
            b.extend([0, 2, 0, 0, 0, 9, 2, 0, 1]);
            w(&mut b, v(3));
            w(&mut b, 7);
            w(&mut b, v(4));
        }
    }
    w(&mut b, 2);
    b.extend([0, 1, 0, 0, 0, 18, 0, 2, 0, 1, 0, 2, 0, 3]);
    w(&mut b, v(5));
    b.extend([0, 1, 0, 2, 0, 3]);
    w(&mut b, v(6));
    let mut m = vec![0, 5];
    w(&mut m, v(7));
    m.extend([0, 6, 0, 1, 0, 7]);
    w(&mut m, v(8));
    m.extend([0, 8, 0, 2, 0, 9]);
    w(&mut m, v(9));
    m.extend([0, 0, 0, 10]);
    w(&mut m, v(10));
    m.extend([0, 1, 0, 11, 0, 1, 0, 12]);
    w(&mut m, v(11));
    m.extend([0, 1, 0, 13, 0, 0, 0, 0]);
    w(&mut b, 3);
    be4(&mut b, m.len() as u32);
    b.extend(m);
    let (_, c) = accept(cx, &b)?;
    let mut got = vec![c.access_flags.bits(), c.fields[0].access_flags.bits(), c.methods[0].access_flags.bits()];
    if let Some(Attribute::MethodParameters(p)) = c.methods[0].attributes.first() {
        got.extend(p.iter().map(|p| p.access_flags.bits()));
    }
    for a in &c.attributes {
        match a {
            Attribute::InnerClasses(v) => got.extend(v.iter().map(|x| x.inner_class_access_flags.bits())),
            Attribute::Module { flags, requires, exports, opens, .. } => {
                got.push(flags.bits());
                got.extend(requires.iter().map(|x| x.flags.bits()));
                got.extend(exports.iter().map(|x| x.flags.bits()));
                got.extend(opens.iter().map(|x| x.flags.bits()));
            }
            _ => {}
        }
    }
    let want: Vec<u16> = (0..12).map(v).collect();
    cx.nontrivial(true);
    cx.identity(&base);
    cx.sample(|| format!("{:04x?}", want));
    if got != want {
        return fail(
            "bits",
            format!(
                "flags (class, field, method, two parameters, two inner classes, module, requires, two exports, opens): got {:04x?}, in the file {:04x?}",
                got, want
            ),
        )
        .with_input(&b);
    }
    Ok(())
}

fn named() -> Vec<(&'static str, AccessFlags)> {
    macro_rules! list { ($($x:ident)*) => { vec![$((stringify!($x), AccessFlags::$x)),*] } }
    list!(PUBLIC PRIVATE PROTECTED STATIC FINAL SUPER SYNCHRONIZED VOLATILE BRIDGE STATIC_PHASE TRANSIENT VARARGS NATIVE
          INTERFACE ABSTRACT STRICT SYNTHETIC ANNOTATION ENUM MODULE MANDATED)
}

fn named_flags(cx: &mut Cx) -> Res {
    let v = cx.index as u16;
    // through a parsed class, as a user meets them
    let mut b = head(1, &[]);
    b.extend(v.to_be_bytes());
    b.extend([0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
    let (_, c) = accept(cx, &b)?;
    cx.nontrivial(true);
    cx.identity(&v);
    for (name, flag) in named() {
        let bit = spec::FLAGS.iter().find(|f| f.0 == name).unwrap().1;
        if c.access_flags.contains(flag) != (v & bit == bit) {
            return fail("named", format!("flags {:#06x}: {} tests {}, its bit is {:#06x}", v, name, c.access_flags.contains(flag), bit));
        }
    }
    cx.sample(|| format!("{:#06x} => {:?}", v, c.access_flags));
    Ok(())
}

// ---- C28 ------------------------------------------------------------------------------------

/// What parsing gives, as one comparable value.
fn outcome(b: &[u8]) -> Result<(V, V), V> {
    match jbcrs::basic::parse(b) {
        Ok((p, c)) => Ok((obs::pool(&p), obs::class(&c))),
        Err(e) => Err(obs::error(&e)),
    }
}

fn some_file(cx: &mut Cx) -> Vec<u8> {
    match cx.src.below(3) {
        0 => mangled(cx),
        1 => crate::gen::class(&mut cx.src, &SMALL).bytes,
        _ => crate::gen::class(&mut cx.src, &crate::gen::Cfg { big: false, ..ANY }).bytes,
    }
}

fn note_outcome(cx: &mut Cx, b: &[u8], o: &Result<(V, V), V>) {
    cx.label(match o {
        Ok(_) => "class",
        Err(_) => "error",
    });
    cx.nontrivial(o.is_ok() || b.len() > 40);
    cx.identity(b);
    cx.sample(|| format!("{} bytes {} => {}", b.len(), clip(hex(b), 100), clip(format!("{:?}", o), 250)));
}

fn repeats(cx: &mut Cx) -> Res {
    let b = some_file(cx);
    let others: Vec<Vec<u8>> = (0..cx.src.range(1, 4)).map(|_| some_file(cx)).collect();
    let shift = cx.src.range(1, 33) as usize;
    let junk = cx.src.fill(shift + 40);
    let size = b.len() + others.iter().map(|x| x.len()).sum::<usize>();
    let edit: Vec<(usize, u8)> =
        (0..cx.src.range(1, 4)).filter(|_| !b.is_empty()).map(|_| (cx.src.below(b.len() as u64) as usize, 1 + cx.src.below(255) as u8)).collect();
    let (first, wrong) = cx
        .sut(size * 4, "parse", || {
            let first = outcome(&b);
            let mut wrong = None;
            let mut test = |how: &str, x: Result<(V, V), V>| {
                if x != first && wrong.is_none() {
                    wrong = Some(format!("{}: {}", how, clip(format!("{:?}", x), 500)));
                }
            };
            test("again at once", outcome(&b));
            for o in &others {
                let _ = outcome(o);
            }
            test("after parsing other files", outcome(&b));
            let mut big = junk[..shift].to_vec();
            big.extend(&b);
            big.extend(&junk[shift..]);
            test("inside a larger buffer", outcome(&big[shift..shift + b.len()]));
            // the same buffer with other contents, and then with these again
            let here = &mut big[shift..shift + b.len()];
            for &(at, x) in &edit {
                here[at] ^= x;
            }
            let altered = outcome(here);
            let copy = here.to_vec();
            let alone = outcome(&copy);
            for &(at, x) in edit.iter().rev() {
                here[at] ^= x;
            }
            test("after a change in place was undone", outcome(&big[shift..shift + b.len()]));
            let kept = jbcrs::basic::parse(&big[shift..shift + b.len()]);
            big.iter_mut().for_each(|x| *x = !*x);
            drop(big);
            test(
                "after the buffer is gone",
                match &kept {
                    Ok((p, c)) => Ok((obs::pool(p), obs::class(c))),
                    Err(e) => Err(obs::error(e)),
                },
            );
            if altered != alone && wrong.is_none() {
                wrong = Some(format!(
                    "changed in place at {:?}: {}, a copy of that: {}",
                    edit,
                    clip(format!("{:?}", altered), 300),
                    clip(format!("{:?}", alone), 300)
                ));
            }
            (first, wrong)
        })
        .with_input(&b)?;
    note_outcome(cx, &b, &first);
    if let Some(w) = wrong {
        return fail("differs", format!("{} but first {}", w, clip(format!("{:?}", first), 500))).with_input(&b);
    }
    Ok(())
}

/// A file and some that differ from it in one place only, in both orders, each order on a thread of its own.
fn relatives(cx: &mut Cx) -> Res {
    use super::reject::{apply, strings, Edit};
    let g = crate::gen::class(&mut cx.src, &crate::gen::Cfg { attrs: 2, ..SMALL });
    let names = strings(&g);
    let mut files = vec![g.bytes.clone()];
    for _ in 0..cx.src.range(1, 4) {
        let mut b = g.bytes.clone();
        match cx.src.below(6) {
            0 | 1 => {
                // an attribute more: an empty one, or one of the file
                let list = cx.src.below(g.lists.len() as u64) as usize;
                let bytes = if !g.attrs.is_empty() && cx.src.below(2) == 0 {
                    let a = cx.src.pick(&g.attrs);
                    g.bytes[a.start..a.end].to_vec()
                } else if !names.is_empty() {
                    let i = cx.src.pick(&names).0;
                    vec![(i >> 8) as u8, i as u8, 0, 0, 0, 0]
                } else {
                    vec![0; 6]
                };
                b = apply(&g, vec![Edit::Insert { list, pos: g.lists[list].end, bytes }]);
            }
            2 if !g.attrs.is_empty() => {
                let attr = cx.src.below(g.attrs.len() as u64) as usize;
                b = apply(&g, vec![Edit::Remove { attr }]);
            }
            3 => {
                // another text of the same length
                let texts: Vec<usize> =
                    g.spans.iter().filter(|s| s.kind == Sp::CpTag && b[s.off] == 1 && b[s.off + 1..s.off + 3] != [0, 0]).map(|s| s.off).collect();
                if !texts.is_empty() {
                    let at = *cx.src.pick(&texts);
                    let len = usize::from(b[at + 1]) << 8 | usize::from(b[at + 2]);
                    let here = b[at + 3..at + 3 + len].to_vec();
                    let like: Vec<&str> = spec::attrs().iter().map(|a| a.0).filter(|n| n.len() == len && n.as_bytes() != &here[..]).collect();
                    if !like.is_empty() && cx.src.below(2) == 0 {
                        let n = *cx.src.pick(&like);
                        b[at + 3..at + 3 + len].copy_from_slice(n.as_bytes());
                    } else {
                        let k = at + 3 + cx.src.below(len as u64) as usize;
                        b[k] = if b[k] == b'a' { b'b' } else { b'a' };
                    }
                }
            }
            4 => {
                corrupt(&mut cx.src, &g, &mut b);
            }
            _ => {
                let k = cx.src.below(b.len() as u64) as usize;
                b[k] = b[k].wrapping_add(*cx.src.pick(&[1, 255, 128, 16]));
            }
        }
        files.push(b);
    }
    let size = files.iter().map(|b| b.len()).sum::<usize>();
    let (one, two) = cx
        .sut(size * 2, "parse files that are much alike", || {
            let files = &files;
            std::thread::scope(|s| {
                let one = s.spawn(move || files.iter().map(|b| outcome(b)).collect::<Vec<_>>()).join();
                let two = s.spawn(move || files.iter().rev().map(|b| outcome(b)).collect::<Vec<_>>()).join();
                (one, two)
            })
        })
        .with_input(&files[0])?;
    let (one, mut two) = match (one, two) {
        (Ok(a), Ok(b)) => (a, b),
        _ => return fail("panic", "parse panicked on a thread".to_string()).with_input(&files[0]),
    };
    two.reverse();
    note_outcome(cx, &files[1], &one[1]);
    for (i, b) in files.iter().enumerate() {
        if one[i] != two[i] {
            return fail(
                "relatives",
                format!(
                    "file {} of {} gives {} in this order and {} in the reverse one; the first is {}",
                    i,
                    files.len(),
                    clip(format!("{:?}", one[i]), 300),
                    clip(format!("{:?}", two[i]), 300),
                    clip(hex(&files[0]), 400)
                ),
            )
            .with_input(b);
        }
    }
    Ok(())
}

fn threads(cx: &mut Cx) -> Res {
    let files: Vec<Vec<u8>> = (0..4).map(|_| some_file(cx)).collect();
    let size = files.iter().map(|x| x.len()).sum::<usize>();
    let (alone, together) = cx
        .sut(size * 32, "parse on several threads", || {
            let alone: Vec<_> = files.iter().map(|b| outcome(b)).collect();
            let files = &files;
            let together: Vec<Vec<_>> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..4)
                    .map(|k| s.spawn(move || (0..4).map(|i| { let j = (i + k) % 4; (j, outcome(&files[j])) }).collect::<Vec<_>>()))
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            (alone, together)
        })
        .with_input(&files[0])?;
    note_outcome(cx, &files[0], &alone[0]);
    for t in together {
        for (j, o) in t {
            if o != alone[j] {
                return fail(
                    "differs",
                    format!("on another thread {} but alone {}", clip(format!("{:?}", o), 500), clip(format!("{:?}", alone[j]), 500)),
                )
                .with_input(&files[j]);
            }
        }
    }
    Ok(())
}

/// Variables of the environment a library might look at, beside the new texts of its source.
const VARIABLES: &[&str] = &[
    "JBCRS", "JBCRS_STRICT", "JBCRS_LENIENT", "JBCRS_DEBUG", "JBCRS_LIMIT", "DEBUG", "STRICT", "LENIENT", "LANG", "LC_ALL", "TZ",
    "RUST_LOG", "CI", "JAVA_HOME", "HOME", "PATH", "USER", "TMPDIR",
];

/// Other variables, another directory, another thread, and other work with the library in between.
fn surroundings(cx: &mut Cx) -> Res {
    let b = some_file(cx);
    let alone = cx.sut(b.len(), "parse", || outcome(&b)).with_input(&b)?;
    note_outcome(cx, &b, &alone);
    let mut names: Vec<String> = VARIABLES.iter().map(|x| x.to_string()).collect();
    names.extend(crate::dict::dict().fresh_texts.iter().filter(|x| !x.is_empty() && !x.contains(|c| c == '=' || c == '\0')).cloned());
    names.retain(|_| cx.src.below(3) == 0);
    let was: Vec<_> = names.iter().map(|x| std::env::var_os(x)).collect();
    for x in &names {
        match *cx.src.pick(&[Some("1"), Some("0"), Some("true"), Some(""), Some("C"), None]) {
            Some(v) => std::env::set_var(x, v),
            None => std::env::remove_var(x),
        }
    }
    let dir = std::env::current_dir().ok();
    let there = cx.src.below(3);
    if there > 0 {
        let _ = std::env::set_current_dir(if there == 1 { "/" } else { "/usr" });
    }
    let thread = *cx.src.pick(&["", "main", "worker", "a"]);
    let work = cx.src.below(4);
    let seed = cx.src.raw(0);
    let r = cx.sut(b.len() * 4 + 20_000, "parse in other surroundings", || {
        let go = || {
            other_work(work, seed);
            (outcome(&b), outcome(&b))
        };
        if thread.is_empty() {
            go()
        } else {
            std::thread::scope(|s| std::thread::Builder::new().name(thread.into()).spawn_scoped(s, go).unwrap().join().unwrap())
        }
    });
    if let Some(d) = dir {
        let _ = std::env::set_current_dir(d);
    }
    for (x, v) in names.iter().zip(was) {
        match v {
            Some(v) => std::env::set_var(x, v),
            None => std::env::remove_var(x),
        }
    }
    let (first, again) = r.with_input(&b)?;
    for o in [first, again] {
        if o != alone {
            return fail(
                "differs",
                format!(
                    "with variables {:?}, in directory {}, on thread {:?}, after work {}: {} but alone {}",
                    names,
                    there,
                    thread,
                    work,
                    clip(format!("{:?}", o), 500),
                    clip(format!("{:?}", alone), 500)
                ),
            )
            .with_input(&b);
        }
    }
    Ok(())
}

/// What else a program does with the library.
fn other_work(work: u64, seed: u64) {
    use jbcrs::basic::{Item, Pool};
    let mut r = Rng::new(&[seed]);
    if work & 1 != 0 {
        for d in ["I", "[[Ljava/lang/String;", "Q", "", "[V", "L;", "La/b;"] {
            let _ = d.parse::<jbcrs::TypeDescriptor>().map(|x| x.to_string());
            let _ = format!("({})V", d).parse::<jbcrs::MethodDescriptor>().map(|x| x.to_string());
        }
    }
    if work & 2 != 0 {
        let mut p = if r.below(2) == 0 { Pool::new() } else { Pool::with_capacity(40) };
        for i in 0..40u16 {
            let x = r.next();
            let _ = p.push(match x % 6 {
                0 => Item::UTF8(["Code", "Signature", "a", "Deprecated"][x as usize / 8 % 4].to_string()),
                1 => Item::Class(x as u16 / 8 % 50),
                2 => Item::Long(x as i64),
                3 => Item::Integer(i as i32),
                4 => Item::Double(f64::from_bits(x)),
                _ => Item::String(i),
            });
            let _ = (p.get(i).is_ok(), p.get_utf8(i), p.get_class_name(i), p.get_class_name_opt(i));
        }
        let _ = p.iter().count();
    }
}

/// The same constants and the same attribute, in a class, field, method and body.
fn place(constants: &[u8], code: u16, attr: &[u8], at: usize) -> Vec<u8> {
    let mut b = constants.to_vec();
    b.extend([0, 0x21, 0, 1, 0, 0, 0, 0]);
    let mut list = vec![0, 1];
    list.extend(attr);
    match at {
        0 => {
            b.extend([0, 0, 0, 0]);
            b.extend(list);
        }
        1 => {
            b.extend([0, 1, 0, 1, 0, 1, 0, 1]);
            b.extend(list);
            b.extend([0, 0, 0, 0]);
        }
        2 => {
            b.extend([0, 0, 0, 1, 0, 1, 0, 1, 0, 1]);
            b.extend(list);
            b.extend([0, 0]);
        }
        _ => {
            b.extend([0, 0, 0, 1, 0, 1, 0, 1, 0, 1, 0, 1]);
            b.extend(code.to_be_bytes());
            let body = body_of(&[0xB1], &[&[0, 0][..], &list].concat());
            be4(&mut b, body.len() as u32);
            b.extend(body);
            b.extend([0, 0]);
        }
    }
    b
}

fn places(cx: &mut Cx) -> Res {
    let cfg = crate::gen::Cfg { big: false, ..ANY };
    let mut gg = Gen::new(&mut cx.src, &cfg);
    let code = gg.cp.utf8("Code");
    let g = gg.class();
    if g.attrs.is_empty() {
        return Ok(());
    }
    let mut b = g.bytes.clone();
    let a = cx.src.pick(&g.attrs).clone();
    if cx.src.below(3) == 0 {
        for _ in 0..cx.src.range(1, 6) {
            corrupt(&mut cx.src, &g, &mut b);
        }
        // the constants and the attribute's own length stay, or the surroundings would be misread
        b[..g.body].copy_from_slice(&g.bytes[..g.body]);
        b[a.start + 2..a.start + 6].copy_from_slice(&g.bytes[a.start + 2..a.start + 6]);
    }
    let files: Vec<Vec<u8>> = (0..4).map(|k| place(&b[..g.body], code, &b[a.start..a.end], k)).collect();
    let size = files.iter().map(|x| x.len()).sum::<usize>();
    let outs = cx.sut(size, "parse", || files.iter().map(|f| outcome(f)).collect::<Vec<_>>()).with_input(&files[0])?;
    note_outcome(cx, &files[0], &outs[0]);
    let names = ["class", "field", "method", "body"];
    let pick = |k: usize, o: &Result<(V, V), V>| -> Result<(V, V), V> {
        match o {
            Err(e) => Err(e.clone()),
            Ok((p, c)) => {
                let c = c.kids();
                let list = match k {
                    0 => c[8].clone(),
                    1 => c[6].kids()[0].kids()[3].clone(),
                    2 => c[7].kids()[0].kids()[3].clone(),
                    _ => match c[7].kids()[0].kids()[3].kids() {
                        [body] if body.tag() == "Code" => body.kids()[4].clone(),
                        x => V::L(x.to_vec()),
                    },
                };
                Ok((p.clone(), list))
            }
        }
    };
    let first = pick(0, &outs[0]);
    for k in 1..4 {
        let o = pick(k, &outs[k]);
        if o != first {
            return fail(
                "place",
                format!(
                    "the same attribute ({}) in a {}: {}, in a class: {}",
                    a.name,
                    names[k],
                    clip(format!("{:?}", o.map(|x| x.1)), 400),
                    clip(format!("{:?}", first.map(|x| x.1)), 400)
                ),
            )
            .with_input(&files[k]);
        }
    }
    Ok(())
}

/// Thousands of parses on one thread, most of them failing; then everything must still come out as at first.
fn histories(cx: &mut Cx) -> Res {
    let small = crate::gen::Cfg { big: false, ..SMALL };
    let mut files: Vec<Vec<u8>> = vec![];
    let mode = cx.src.below(4);
    let k = if mode == 3 { cx.src.range(2, 6) } else { 1 };
    for _ in 0..k {
        let b = match mode {
            0 => {
                let kind = cx.src.below(NEST_KINDS as u64) as usize;
                let depth = cx.src.range(1, 9) as usize;
                nest(kind, depth, *cx.src.pick(&[1, 2, 0xFFFF]), false)
            }
            1 => crate::gen::class(&mut cx.src, &small).bytes,
            _ => {
                // one that stops somewhere
                let g = crate::gen::class(&mut cx.src, &small);
                let mut b = g.bytes.clone();
                corrupt(&mut cx.src, &g, &mut b);
                if cx.src.below(2) == 0 {
                    let at = g.body + cx.src.below((b.len().max(g.body) - g.body) as u64 + 1) as usize;
                    b.truncate(at);
                }
                b
            }
        };
        files.push(b);
    }
    // the probes: a full file, and deep nesting within any limit
    let full = crate::gen::class(&mut cx.src, &small).bytes;
    let mut probes = vec![full];
    probes.extend((0..NEST_KINDS).map(|kind| nest(kind, 9, 1, true)));
    let each = files.iter().map(|b| b.len()).sum::<usize>() / files.len() + 1;
    let rounds = (2_000_000 / each).min(5200);
    let size = rounds * each + 2 * probes.iter().map(|b| b.len()).sum::<usize>();
    let (first, wrong) = cx
        .sut(size * 2, "parse, thousands of times", || {
            let first: Vec<_> = files.iter().map(|b| outcome(b)).collect();
            let before: Vec<_> = probes.iter().map(|b| outcome(b)).collect();
            for i in 0..rounds {
                let j = i % files.len();
                let o = outcome(&files[j]);
                if o != first[j] {
                    return (first.clone(), Some((files[j].clone(), i, o, first[j].clone())));
                }
            }
            for (b, x) in probes.iter().zip(&before) {
                let o = outcome(b);
                if o != *x {
                    return (first, Some((b.clone(), rounds, o, x.clone())));
                }
            }
            (first, None)
        })
        .with_input(&files[0])?;
    note_outcome(cx, &files[0], &first[0]);
    if let Some((b, i, o, x)) = wrong {
        return fail(
            "history",
            format!(
                "after {} parses (of {} files, the first {}) the file below gives {} but at first {}",
                i,
                files.len(),
                clip(hex(&files[0]), 300),
                clip(format!("{:?}", o), 300),
                clip(format!("{:?}", x), 300)
            ),
        )
        .with_input(&b);
    }
    Ok(())
}

/// Another constant at the end of the pool moves everything behind it; nothing else may change, wherever an item lands.
fn offsets(cx: &mut Cx) -> Res {
    let g = crate::gen::class(&mut cx.src, &crate::gen::Cfg { big: false, ..SMALL });
    let count = u16::from_be_bytes([g.bytes[8], g.bytes[9]]) as usize;
    if g.bytes.len() > 20_000 || count > 60_000 {
        return Ok(());
    }
    let broken = cx.src.below(6) == 0;
    let mut bytes = g.bytes.clone();
    if broken {
        corrupt(&mut cx.src, &g, &mut bytes);
        bytes[..g.body.min(g.bytes.len())].copy_from_slice(&g.bytes[..g.body]);
    }
    let with = |fill: usize| {
        let mut b = bytes[..g.body].to_vec();
        let mut n = count;
        let mut left = fill;
        // each constant takes at least three bytes
        while left > 0 {
            let k = if left > 65538 { (left - 3).min(65538) } else { left };
            b.push(1);
            b.extend(((k - 3) as u16).to_be_bytes());
            b.resize(b.len() + k - 3, b'f');
            left -= k;
            n += 1;
        }
        b[8..10].copy_from_slice(&(n as u16).to_be_bytes());
        b.extend(&bytes[g.body..]);
        b
    };
    // some item of the file at or near a round address
    let spans: Vec<usize> = g.spans.iter().map(|s| s.off).filter(|a| *a >= g.body).collect();
    let mut fills = vec![];
    let base = *cx.src.pick(&[0x100usize, 0x200, 0x400, 0x800, 0x1000, 0x1000, 0x2000, 0x4000, 0x8000, 0x10000, 0x10000, 0x20000, 1000, 10_000]);
    let delta = cx.src.below(3) as usize;
    let step = spans.len() / 60 + 1;
    let from = cx.src.below(step as u64) as usize;
    for at in spans.iter().skip(from).step_by(step) {
        let target = base + delta - 1;
        if target >= at + 3 {
            fills.push(target - at);
        }
    }
    fills.push(3 + cx.src.below(9000) as usize);
    fills.dedup();
    if base >= 0x8000 {
        fills.truncate(24);
    }
    if broken {
        fills.retain(|f| *f <= 65538);
    }
    let size = fills.iter().map(|f| f + bytes.len()).sum::<usize>();
    let (first, wrong) = cx
        .sut(size * 2, "parse", || {
            let class = |o: Result<(V, V), V>| o.map(|x| x.1);
            // one more constant always, as an index of a broken file may meet it
            let first = class(outcome(&with(3)));
            for f in &fills {
                let b = with(*f);
                let o = class(match jbcrs::basic::parse(&b) {
                    Ok((p, c)) => Ok((V::L(vec![]), { drop(p); obs::class(&c) })),
                    Err(e) => Err(obs::error(&e)),
                });
                if o != first {
                    return (first, Some((b, *f, o)));
                }
            }
            (first, None)
        })
        .with_input(&bytes)?;
    note_outcome(cx, &bytes, &first.clone().map(|c| (V::L(vec![]), c)));
    if let Some((b, f, o)) = wrong {
        return fail(
            "offset",
            format!(
                "with {} more bytes of constants: {}, without: {}",
                f,
                clip(format!("{:?}", o), 500),
                clip(format!("{:?}", first), 500)
            ),
        )
        .with_input(&b);
    }
    Ok(())
}
