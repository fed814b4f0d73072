//! C03-C14: what a well-formed file encodes is what the parser reports.
use super::*;
use std::sync::OnceLock;
use crate::engine::{Kind::*, Src};
use crate::gen::{At, Cfg, Gen, Sp, ANY, SMALL};
use crate::spec::{self, F};

const BASE: Cfg = Cfg { unknown: 0, anywhere: 2, filler: 6, attrs: 2, fields: 2, methods: 2, ..ANY };

const AS: &[&str] = &["the format tables in harness/src/spec.rs (written from JVMS SE 9 chapters 4 and 6) are right; generator and reference decoder are compared on every case"];

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C03",
            rule: "Random class skeletons (versions, flags, indices, interfaces, fields, methods, small attribute lists) plus every count field at boundary values up to 65535; the whole class tree is compared. Non-trivial: at least one interface, field, method or attribute; distinct by file bytes.",
            assumptions: AS,
            corpus: false,
            phases: |th| {
                vec![
                    phase("skeleton", Random(amount(th, 250_000, 6_000_000), skeleton)),
                    phase("counts", All(|_| 5 * 2 * counts().len() as u64, skeleton_counts)),
                    phase("values", Random(amount(th, 150_000, 3_000_000), skeleton_values)),
                ]
            },
        },
        Check {
            id: "C04",
            rule: "Random constant pools over all 16 constant kinds with boundary and random values, repeated constants, constants much like earlier ones, 8-byte constants at any place, up to the maximum size; every index below the count and probes beyond it are looked up and compared. Non-trivial: pool holds an 8-byte constant or a repetition, or more than 8 constants, or two alike constants; distinct by file bytes.",
            assumptions: AS,
            corpus: false,
            phases: |th| {
                vec![
                    phase("pools", Random(amount(th, 250_000, 6_000_000), pools)),
                    phase("single constants", All(|_| 16 * 64, single_const)),
                    phase("alike constants", Random(amount(th, 150_000, 4_000_000), alike_consts)),
                    phase("large pools", Random(amount(th, 600, 20_000), large_pools)),
                ]
            },
        },
        Check {
            id: "C05",
            rule: "Every Unicode scalar value on its own (exhaustive), all byte strings of length 1-3 (exhaustive), surrogate-pair encodings over boundary bytes, random texts and random corruptions, as string constants and debug extensions, against a UTF-16 based reference. Non-trivial: contains a byte outside 01-7F; distinct by string bytes.",
            assumptions: &["overlong encodings may be decoded or rejected; texts with unpaired surrogates are not representable in the API and must be rejected"],
            corpus: false,
            phases: |th| {
                vec![
                    phase("scalars", All(|_| 0x110000 / 64, scalars)),
                    phase("short byte strings", All(|_| 256 * 257, short_strings)),
                    phase("surrogate boundaries", All(|_| SURR.len() as u64 * SURR.len() as u64 * 5, surrogates)),
                    phase("long extensions", All(|t| (LONG.len() * 12) as u64 * if t { 10 } else { 1 }, long_extensions)),
                    phase("random texts", Random(amount(th, 150_000, 4_000_000), random_texts)),
                    phase("random bytes", Random(amount(th, 300_000, 8_000_000), random_string_bytes)),
                ]
            },
        },
        Check {
            id: "C06",
            rule: "Every opcode with every 1- and 2-byte operand value (exhaustive, packed into bodies), wide forms likewise, every sequence of three instruction kinds (exhaustive; operands at random or from a few values), and random bodies up to 65535 bytes in random surroundings; offsets and operands are compared with the instruction table. Non-trivial: body with at least 2 instructions; distinct by file bytes.",
            assumptions: AS,
            corpus: false,
            phases: |th| {
                vec![
                    phase("operands", All(|_| 256 * 5, all_operands)),
                    phase("wide operands", All(|_| 12 * 7, wide_operands)),
                    phase("triples", All(|t| (TRIPLE_BODIES * if t { 60 } else { 4 }) as u64, triples)),
                    phase("bodies", Random(amount(th, 80_000, 2_000_000), bodies)),
                    phase("long bodies", Random(amount(th, 400, 20_000), long_bodies)),
                ]
            },
        },
        Check {
            id: "C07",
            rule: "Switches at every alignment and at offsets up to the end of the code, with boundary bounds, counts from 0 to thousands, negative and extreme keys; plus ill-formed bounds and counts that must be rejected. Non-trivial: every case; distinct by file bytes.",
            assumptions: &["which error kind an ill-formed switch produces is not fixed; repeated or unsorted lookupswitch keys and padding bytes other than zero are outside the property"],
            corpus: false,
            phases: |th| {
                vec![
                    phase("bounds", All(|_| 4 * (LOWS.len() * SPANS.len()) as u64 * 3, switch_bounds)),
                    phase("switches", Random(amount(th, 120_000, 3_000_000), switches)),
                    phase("sizes", All(|_| switch_sizes().len() as u64 * 4, sized_switches)),
                    phase("ill-formed", Random(amount(th, 200_000, 4_000_000), bad_switches)),
                    phase("far switches", Random(amount(th, 600, 20_000), far_switches)),
                ]
            },
        },
        Check {
            id: "C08",
            rule: "Random bodies with exception tables and nested attributes are compared whole; then the same body is cut at every instruction and non-instruction boundary, emptied, and given undefined opcodes. Non-trivial: every case (each has a framed body); distinct by file bytes and cut.",
            assumptions: AS,
            corpus: false,
            phases: |th| {
                vec![
                    phase("bodies", Random(amount(th, 60_000, 2_000_000), framed)),
                    phase("cuts", Random(amount(th, 30_000, 1_000_000), cuts)),
                    phase("exception tables", All(|_| counts().len() as u64, exc_counts)),
                    phase("undefined opcodes", All(|_| 256 * 4, undefined_ops)),
                ]
            },
        },
        Check {
            id: "C09",
            rule: "All 256 frame tags with random operands, all 256 verification type tags at every position they can occur, random tables, and entry counts at boundary values; lists of up to 340 attributes of these kinds and others in any order; tables of up to 28000 entries that differ. Non-trivial: at least one frame; distinct by file bytes.",
            assumptions: AS,
            corpus: false,
            phases: |th| {
                vec![
                    phase("frame tags", All(|t| 256 * if t { 4000 } else { 200 }, frame_tags)),
                    phase("verification tags", All(|t| 256 * 6 * if t { 300 } else { 20 }, verif_tags)),
                    phase("tables", Random(amount(th, 120_000, 3_000_000), |cx| focused(cx, &["StackMapTable"]))),
                    phase("counts", All(|_| boundary_total(&["StackMapTable"]), |cx| boundary(cx, &["StackMapTable"]))),
                    phase("one at each place", Random(amount(th, 40_000, 1_000_000), |cx| at_each(cx, &["StackMapTable"]))),
                    phase("long lists", Random(amount(th, 600, 30_000), |cx| long_lists(cx, &["StackMapTable"]))),
                    phase("long tables", Random(amount(th, 600, 20_000), |cx| long_tables(cx, &["StackMapTable"]))),
                    phase("undefined tags in tables", Random(amount(th, 40_000, 1_000_000), |cx| reject::undefined_in(cx, &["StackMapTable"], &[Sp::FrameTag, Sp::VerifTag]))),
                    phase("full frame counts", All(|_| counts().len() as u64 * 2, full_counts)),
                ]
            },
        },
        Check {
            id: "C10",
            rule: "Random files focused on the debug tables, exceptions and method parameters, and every count at boundary values; lists of up to 340 attributes of these kinds and others in any order; tables of up to 28000 entries that differ. Non-trivial: at least one such attribute with an entry; distinct by file bytes.",
            assumptions: AS,
            corpus: false,
            phases: |th| {
                vec![
                    phase("tables", Random(amount(th, 200_000, 5_000_000), |cx| focused(cx, DEBUG))),
                    phase("counts", All(|_| boundary_total(DEBUG), |cx| boundary(cx, DEBUG))),
                    phase("one at each place", Random(amount(th, 100_000, 2_000_000), |cx| at_each(cx, DEBUG))),
                    phase("long lists", Random(amount(th, 1_500, 60_000), |cx| long_lists(cx, DEBUG))),
                    phase("long tables", Random(amount(th, 500, 20_000), |cx| long_tables(cx, DEBUG))),
                ]
            },
        },
        Check {
            id: "C11",
            rule: "Random files focused on the class and field attributes, and every count at boundary values; lists of up to 340 attributes of these kinds and others in any order; tables of up to 28000 entries that differ. Non-trivial: at least one such attribute; distinct by file bytes.",
            assumptions: AS,
            corpus: false,
            phases: |th| {
                vec![
                    phase("attributes", Random(amount(th, 200_000, 5_000_000), |cx| focused(cx, CLASSY))),
                    phase("counts", All(|_| boundary_total(CLASSY), |cx| boundary(cx, CLASSY))),
                    phase("one at each place", Random(amount(th, 100_000, 2_000_000), |cx| at_each(cx, CLASSY))),
                    phase("long lists", Random(amount(th, 1_500, 60_000), |cx| long_lists(cx, CLASSY))),
                    phase("long tables", Random(amount(th, 500, 20_000), |cx| long_tables(cx, CLASSY))),
                ]
            },
        },
        Check {
            id: "C12",
            rule: "Random module, packages and main-class attributes, and every count in them at boundary values; lists of up to 340 attributes of these kinds and others in any order; tables of up to 28000 entries that differ. Non-trivial: at least one such attribute; distinct by file bytes.",
            assumptions: AS,
            corpus: false,
            phases: |th| {
                vec![
                    phase("modules", Random(amount(th, 150_000, 4_000_000), |cx| focused(cx, MODULE))),
                    phase("counts", All(|_| boundary_total(MODULE), |cx| boundary(cx, MODULE))),
                    phase("one at each place", Random(amount(th, 80_000, 2_000_000), |cx| at_each(cx, MODULE))),
                    phase("long lists", Random(amount(th, 1_500, 60_000), |cx| long_lists(cx, MODULE))),
                    phase("long tables", Random(amount(th, 500, 20_000), |cx| long_tables(cx, MODULE))),
                ]
            },
        },
        Check {
            id: "C13",
            rule: "Random annotations with nested annotations and arrays, in all five annotation attributes, all 256 element tags, chains nested up to 16 deep, and every count at boundary values; lists of up to 340 attributes of these kinds and others in any order; tables of up to 28000 entries that differ. Non-trivial: at least one element value; distinct by file bytes.",
            assumptions: &["nesting beyond 16 levels is not asserted here"],
            corpus: false,
            phases: |th| {
                vec![
                    phase("annotations", Random(amount(th, 120_000, 4_000_000), |cx| focused(cx, ANNOS))),
                    phase("element tags", All(|t| 256 * if t { 1000 } else { 50 }, elem_tags)),
                    phase("chains", Random(amount(th, 40_000, 1_000_000), chains)),
                    phase("counts", All(|_| boundary_total(ANNOS), |cx| boundary(cx, ANNOS))),
                    phase("pair and element counts", All(|_| counts().len() as u64 * 6, value_counts)),
                    phase("one at each place", Random(amount(th, 50_000, 1_000_000), |cx| at_each(cx, ANNOS))),
                    phase("long lists", Random(amount(th, 1_500, 60_000), |cx| long_lists(cx, ANNOS))),
                    phase("long tables", Random(amount(th, 500, 20_000), |cx| long_tables(cx, ANNOS))),
                ]
            },
        },
        Check {
            id: "C14",
            rule: "Random type annotations over all targets and paths; all 256 target tags and all 256 path kinds; local variable tables and paths at boundary lengths; lists of up to 340 attributes of these kinds and others in any order; tables of up to 28000 entries that differ. Non-trivial: at least one type annotation; distinct by file bytes.",
            assumptions: AS,
            corpus: false,
            phases: |th| {
                vec![
                    phase("type annotations", Random(amount(th, 150_000, 4_000_000), |cx| focused(cx, TYPEANNOS))),
                    phase("target tags", All(|t| 256 * if t { 2000 } else { 100 }, target_tags)),
                    phase("path kinds", All(|t| 256 * if t { 500 } else { 30 }, path_kinds)),
                    phase("path lengths", All(|_| 256, path_lengths)),
                    phase("variable tables", All(|_| counts().len() as u64 * 2, var_tables)),
                    phase("undefined tags in tables", Random(amount(th, 40_000, 1_000_000), |cx| reject::undefined_in(cx, TYPEANNOS, &[Sp::Target, Sp::PathKind]))),
                    phase("counts", All(|_| boundary_total(TYPEANNOS), |cx| boundary(cx, TYPEANNOS))),
                    phase("one at each place", Random(amount(th, 50_000, 1_000_000), |cx| at_each(cx, TYPEANNOS))),
                    phase("long lists", Random(amount(th, 1_500, 60_000), |cx| long_lists(cx, TYPEANNOS))),
                    phase("long tables", Random(amount(th, 500, 20_000), |cx| long_tables(cx, TYPEANNOS))),
                ]
            },
        },
    ]
}

pub const DEBUG: &[&str] = &["LineNumberTable", "LocalVariableTable", "LocalVariableTypeTable", "Exceptions", "MethodParameters"];
pub const CLASSY: &[&str] = &[
    "InnerClasses",
    "EnclosingMethod",
    "BootstrapMethods",
    "Signature",
    "SourceFile",
    "ConstantValue",
    "SourceDebugExtension",
    "Deprecated",
    "Synthetic",
];
pub const MODULE: &[&str] = &["Module", "ModulePackages", "ModuleMainClass"];
pub const ANNOS: &[&str] = &[
    "RuntimeVisibleAnnotations",
    "RuntimeInvisibleAnnotations",
    "RuntimeVisibleParameterAnnotations",
    "RuntimeInvisibleParameterAnnotations",
    "AnnotationDefault",
];
pub const TYPEANNOS: &[&str] = &["RuntimeVisibleTypeAnnotations", "RuntimeInvisibleTypeAnnotations"];

pub const COUNTS: &[usize] = &[
    0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1000,
    1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 32766, 32767, 32768, 32769,
    40000, 65279, 65280, 65281, 65534, 65535,
];

/// Those, and sizes around the numbers that are new in the library's source.
pub fn counts() -> &'static [usize] {
    static C: std::sync::OnceLock<Vec<usize>> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        let mut v = COUNTS.to_vec();
        v.extend(crate::dict::dict().sizes(65535).into_iter().filter(|x| !COUNTS.contains(x)));
        v
    })
}

/// Cases of an enumeration still need random content: drawn from a tape seeded by the index.
pub fn enumerated(cx: &mut Cx) -> usize {
    let i = cx.index;
    cx.src.seed_if_empty(i);
    i as usize
}

fn judge(cx: &mut Cx, g: &GenClass, interesting: bool) -> Res {
    cx.nontrivial(interesting);
    cx.identity(&g.bytes);
    cx.sample(|| show(g));
    class_equal(cx, g).map(|_| ())
}

/// Well-formed files made of a few kinds of attributes.
fn focused(cx: &mut Cx, focus: &'static [&'static str]) -> Res {
    let cfg = Cfg { focus, code: 3, unknown: cx.src.below(2), ..BASE };
    let g = make(cx, &cfg);
    let k = count_tags(&g.class, &|n| focus.contains(&n));
    if focus != TYPEANNOS && focus != ANNOS && focus[0] != "StackMapTable" {
        label_tags(cx, &g.class, &|n| focus.contains(&n));
    } else {
        label_tags(cx, &g.class, &|n| n != "" && n.as_bytes()[0].is_ascii_uppercase());
    }
    judge(cx, &g, k > 0)
}

/// One attribute at a chosen place, content at random.
fn at_each(cx: &mut Cx, focus: &'static [&'static str]) -> Res {
    let name = *cx.src.pick(focus);
    let at = *cx.src.pick(&[At::Class, At::Field, At::Method, At::Code]);
    let g = Gen::new(&mut cx.src, &BASE).single(at, name, |g, idx| g.content(name, idx));
    selfcheck(&g);
    cx.label(match at {
        At::Class => "on a class",
        At::Field => "on a field",
        At::Method => "on a method",
        At::Code => "on a body",
    });
    judge(cx, &g, true)
}

/// A list of up to some hundred attributes: of the kinds in question and others, in any order, so
/// that each kind is met at each position.
fn long_lists(cx: &mut Cx, focus: &'static [&'static str]) -> Res {
    let at = *cx.src.pick(&[At::Class, At::Field, At::Method, At::Code]);
    let k = match cx.src.below(4) {
        0 => 4 + cx.src.below(16) as usize,
        1 => 20 + cx.src.below(60) as usize,
        2 => 60 + cx.src.below(80) as usize,
        _ => 200 + cx.src.below(140) as usize,
    };
    let others = *cx.src.pick(&[0, 8, 15]);
    let one = if cx.src.below(4) == 0 { Some(*cx.src.pick(focus)) } else { None };
    let cfg = Cfg { big: false, filler: 3, attrs: 0, code: 2, ..BASE };
    let g = Gen::new(&mut cx.src, &cfg).one_list(at, |g| {
        let mut names = vec![];
        for _ in 0..k {
            let known = spec::attrs();
            names.push(match g.s.chance(others, 16) {
                true if g.s.chance(1, 12) => "none".to_string(),
                true => known[g.s.below(known.len() as u64) as usize].0.to_string(),
                false => one.unwrap_or_else(|| *g.s.pick(focus)).to_string(),
            });
        }
        g.attr_list_of(&names)
    });
    selfcheck(&g);
    cx.label(match k {
        0..=19 => "a list of 4 to 19",
        20..=79 => "a list of 20 to 79",
        80..=199 => "a list of 80 to 199",
        _ => "a list of 200 or more",
    });
    judge(cx, &g, true)
}

/// One attribute with long tables whose entries all differ.
fn long_tables(cx: &mut Cx, focus: &'static [&'static str]) -> Res {
    let long = |f: &F| matches!(f, F::List(..));
    let listed: Vec<&'static str> =
        focus.iter().copied().filter(|x| spec::attr_fmt(x).unwrap().1.iter().any(long)).collect();
    let name = *cx.src.pick(&listed);
    let at = *cx.src.pick(&[At::Class, At::Field, At::Method, At::Code]);
    let (tag, f) = spec::attr_fmt(name).unwrap();
    let lists = f.iter().filter(|x| long(x)).count() as u64;
    // one of the lists, or all of them
    let which = cx.src.below(lists + 1);
    let k = match cx.src.below(8) {
        0..=3 => 100 + cx.src.below(400),
        4 | 5 => 500 + cx.src.below(1_500),
        6 => 2_000 + cx.src.below(6_000),
        _ => 8_000 + cx.src.below(20_000),
    };
    let cfg = Cfg { big: false, filler: 3, ..BASE };
    let g = Gen::new(&mut cx.src, &cfg).single(at, name, |g, _| {
        let start = g.out.len();
        let mut out = vec![];
        let mut met = 0;
        for x in f {
            let (w, inner) = match x {
                F::List(w, inner) => (*w, inner),
                _ => {
                    out.extend(g.fmt(std::slice::from_ref(x), 1));
                    continue;
                }
            };
            let k = match which {
                _ if which != met && which < lists => g.s.below(3),
                _ if w == 1 => k.min(255),
                _ => k,
            };
            met += 1;
            let count_at = g.out.len();
            if w == 1 { g.u1(0) } else { g.u2(0) }
            let mut l = vec![];
            while (l.len() as u64) < k && g.out.len() < start + 400_000 {
                let mut v = g.fmt(inner, 1);
                l.push(if v.len() == 1 { v.pop().unwrap() } else { V::L(v) });
            }
            if w == 1 {
                g.out[count_at] = l.len() as u8;
            } else {
                g.out[count_at..count_at + 2].copy_from_slice(&(l.len() as u16).to_be_bytes());
            }
            out.push(V::L(l));
        }
        t(tag, out)
    });
    selfcheck(&g);
    cx.label(name);
    judge(cx, &g, true)
}

// ---- boundary counts ---------------------------------------------------------------------------

/// Numbers the lists of a format, outermost first.
fn lists_in(f: &[F]) -> usize {
    f.iter()
        .map(|x| match x {
            F::List(_, inner) => 1 + lists_in(inner),
            _ => 0,
        })
        .sum()
}
pub fn boundary_total(focus: &[&str]) -> u64 {
    let k: usize = focus.iter().map(|n| lists_in(spec::attr_fmt(n).unwrap().1)).sum();
    (k * counts().len() * 4).max(1) as u64
}

/// One list of one attribute has a boundary count, the others are short.
pub fn boundary(cx: &mut Cx, focus: &[&'static str]) -> Res {
    let i = enumerated(cx);
    let place = i % 4;
    let count = counts()[i / 4 % counts().len()];
    let mut which = i / 4 / counts().len();
    let mut name = focus[0];
    for f in focus {
        let k = lists_in(spec::attr_fmt(f).unwrap().1);
        if which < k {
            name = f;
            break;
        }
        which -= k;
    }
    let at = [At::Class, At::Field, At::Method, At::Code][place];
    let fmt = spec::attr_fmt(name).unwrap();
    let cfg = Cfg { big: false, filler: 3, ..BASE };
    let mut hit = false;
    let g = Gen::new(&mut cx.src, &cfg).single(at, name, |g, _| {
        let mut next = 0;
        let v = forced(g, fmt.1, which, count, &mut next, &mut hit);
        t(fmt.0, v)
    });
    selfcheck(&g);
    cx.label(name);
    judge(cx, &g, hit && count > 0)
}

fn forced(g: &mut Gen, f: &[F], which: usize, count: usize, next: &mut usize, hit: &mut bool) -> Vec<V> {
    let mut out = vec![];
    for x in f {
        match x {
            F::List(w, inner) => {
                let me = *next;
                *next += 1;
                let inner_lists = lists_in(inner);
                let k = if me == which {
                    *hit = true;
                    if *w == 1 {
                        count.min(255)
                    } else {
                        count
                    }
                } else if me < which && which <= me + inner_lists {
                    // the forced list sits inside: two elements, so that what follows it is seen
                    2
                } else {
                    g.s.below(3) as usize
                };
                if *w == 1 {
                    g.u1(k as u8)
                } else {
                    g.u2(k as u16)
                }
                let mut l = vec![];
                for e in 0..k {
                    let mut n2 = *next;
                    // of nested lists only the first element's is forced
                    let w2 = if me < which && e > 0 { usize::MAX } else { which };
                    let mut v = if k > 3 { tiny(g, inner) } else { forced(g, inner, w2, count, &mut n2, hit) };
                    l.push(if v.len() == 1 { v.pop().unwrap() } else { V::L(v) });
                }
                *next += inner_lists;
                out.push(V::L(l));
            }
            _ => out.extend(g.fmt(std::slice::from_ref(x), 2)),
        }
    }
    out
}

/// Smallest content: for the elements of very long lists.
fn tiny(g: &mut Gen, f: &[F]) -> Vec<V> {
    f.iter()
        .map(|x| match x {
            F::List(w, _) => {
                for _ in 0..*w {
                    g.u1(0);
                }
                V::L(vec![])
            }
            F::Named('A') => {
                let x = g.s.u16any();
                g.u2(x);
                g.u2(0);
                t("Anno", vec![n(x), V::L(vec![])])
            }
            F::Named('T') => {
                let x = g.s.u8any();
                g.u1(0x16);
                g.u1(x);
                g.u1(0);
                let y = g.s.u16any();
                g.u2(y);
                g.u2(0);
                t(
                    "TypeAnno",
                    vec![t("FormalParameter", vec![n(x)]), V::L(vec![]), t("Anno", vec![n(y), V::L(vec![])])],
                )
            }
            F::Named('S') => {
                let x = g.s.below(64) as u8;
                g.u1(x);
                t("Same", vec![n(x)])
            }
            _ => g.fmt(std::slice::from_ref(x), 2).pop().unwrap(),
        })
        .collect()
}

// ---- C03 ------------------------------------------------------------------------------------

fn skeleton(cx: &mut Cx) -> Res {
    let cfg = Cfg {
        focus: &["Deprecated", "Synthetic", "Signature", "SourceFile", "ConstantValue"],
        fields: 6,
        methods: 6,
        ifaces: 8,
        anywhere: 12,
        unknown: 2,
        ..BASE
    };
    let g = make(cx, &cfg);
    let k = g.class.kids();
    let yes = (5..9).any(|i| !k[i].kids().is_empty());
    if !k[5].kids().is_empty() {
        cx.label("interfaces");
    }
    if !k[6].kids().is_empty() {
        cx.label("fields");
    }
    if !k[7].kids().is_empty() {
        cx.label("methods");
    }
    judge(cx, &g, yes)
}

/// Plain skeletons with every 16-bit value uniformly random.
fn skeleton_values(cx: &mut Cx) -> Res {
    let mut bits = cx.src.bytes(64);
    let s = &mut cx.src;
    let mut b = head(2, &utf8(b"Deprecated"));
    b[4..8].copy_from_slice(&bits[..4]);
    let mut next = || {
        if bits.len() < 2 {
            bits = s.bytes(64);
        }
        let x = bits.pop().unwrap();
        let y = bits.pop().unwrap();
        u16::from_be_bytes([x, y])
    };
    let mut c = vec![n(u16::from_be_bytes([b[4], b[5]])), n(u16::from_be_bytes([b[6], b[7]]))];
    let mut put = |b: &mut Vec<u8>| {
        let x = next();
        be2(b, x as usize);
        n(x)
    };
    for _ in 0..3 {
        c.push(put(&mut b));
    }
    let mut many = |b: &mut Vec<u8>, k: usize, w: usize| {
        be2(b, k);
        let mut l = vec![];
        for _ in 0..k {
            let mut e: Vec<V> = (0..w).map(|_| put(b)).collect();
            if w == 1 {
                l.push(e.pop().unwrap());
            } else {
                be2(b, 0);
                e.push(V::L(vec![]));
                l.push(V::L(e));
            }
        }
        l
    };
    let (i, f, m) = (cx.index % 4, cx.index / 4 % 4, cx.index / 16 % 4);
    c.push(V::L(many(&mut b, i as usize, 1)));
    for (name, k) in [("Field", f), ("Method", m)] {
        let l = many(&mut b, k as usize, 3)
            .into_iter()
            .map(|v| match v {
                V::L(e) => t(name, e),
                x => x,
            })
            .collect();
        c.push(V::L(l));
    }
    be2(&mut b, 0);
    c.push(V::L(vec![]));
    let class = t("Class", c);
    cx.identity(&b);
    cx.nontrivial(i + f + m > 0);
    cx.sample(|| format!("{} => {:?}", hex(&b), class));
    let (_, o) = accept(cx, &b)?;
    match diff(&class, &obs::class(&o)) {
        Some(d) => fail("differs", d).with_input(&b),
        None => Ok(()),
    }
}

fn skeleton_counts(cx: &mut Cx) -> Res {
    let i = enumerated(cx);
    let site = i % 5;
    let variant = i / 5 % 2;
    let count = counts()[i / 10 % counts().len()];
    let mut r = Rng::new(&[cx.src.raw(0)]);
    let mut b = head(3, &[utf8(b"Deprecated"), utf8(b"Custom")].concat());
    let mut put = |b: &mut Vec<u8>| {
        let x = r.next() as u16;
        be2(b, x as usize);
        n(x)
    };
    fn list(b: &mut Vec<u8>, k: usize, variant: usize) -> V {
        be2(b, k);
        let mut l = vec![];
        for i in 0..k {
            if variant == 0 || i % 7 != 3 {
                be2(b, 1);
                be4(b, 0);
                l.push(t("Deprecated", vec![]));
            } else {
                be2(b, 2);
                be4(b, 1);
                b.push(i as u8);
                l.push(t("Unknown", vec![n(2), V::B(vec![i as u8])]));
            }
        }
        V::L(l)
    }
    let mut c = vec![n(0), n(52), put(&mut b), put(&mut b), put(&mut b)];
    let k = if site == 0 { count } else { variant };
    be2(&mut b, k);
    c.push(V::L((0..k).map(|_| put(&mut b)).collect()));
    for (j, name) in [(1, "Field"), (2, "Method")] {
        let k = if site == j { count } else { 1 + variant };
        be2(&mut b, k);
        let mut l = vec![];
        for m in 0..k {
            let mut e = vec![put(&mut b), put(&mut b), put(&mut b)];
            let attrs = if site == 3 && m == 0 && j == 1 + variant {
                count
            } else if k < 3 || m % 5 == 0 {
                variant
            } else {
                0
            };
            e.push(list(&mut b, attrs, variant));
            l.push(t(name, e));
        }
        c.push(V::L(l));
    }
    c.push(list(&mut b, if site == 4 { count } else { variant }, variant));
    let class = t("Class", c);
    cx.identity(&b);
    cx.nontrivial(true);
    cx.sample(|| format!("{} bytes, {} entries at site {} => {:?}", b.len(), count, site, class));
    let (_, o) = accept(cx, &b)?;
    match diff(&class, &obs::class(&o)) {
        Some(d) => fail("differs", d).with_input(&b),
        None => Ok(()),
    }
}

// ---- C04 ------------------------------------------------------------------------------------

fn check_pool(cx: &mut Cx, want: &V, b: &[u8]) -> Res {
    let (p, _) = accept(cx, b)?;
    let got = pool_view(cx, &p).with_input(b)?;
    if let Some(d) = diff(want, &got) {
        return fail("differs", d).with_input(b);
    }
    let len = want.kids()[0].num() as u64;
    let mut probes = vec![0u16];
    for (i, v) in want.kids()[1].kids().iter().enumerate() {
        if v.tag() == "none" && probes.len() < 40 {
            probes.push(i as u16 + 1);
        }
    }
    for d in 0..4 {
        if len + d < 65536 {
            probes.push((len + d) as u16);
        }
    }
    probes.push(65535.max(len as u16));
    if len < 65535 {
        let x = cx.src.range(len, 65535) as u16;
        probes.push(x);
    }
    for i in probes {
        let ok = u64::from(i) >= len || i == 0 || want.kids()[1].kids()[i as usize - 1].tag() == "none";
        if !ok {
            continue;
        }
        let r = cx
            .sut(0, &format!("get({}) on a pool of length {}", i, len), || {
                p.get(i).map(obs::item).map_err(|e| obs::error(&e))
            })
            .with_input(b)?;
        if r != Err(t("InvalidCPItem", vec![n(i)])) {
            return fail("lookup", format!("get({}) on a pool of length {} gives {:?}", i, len, r)).with_input(b);
        }
    }
    Ok(())
}

fn pools(cx: &mut Cx) -> Res {
    let filler = *cx.src.pick(&[6, 20, 60, 300]);
    let cfg = Cfg { filler, fields: 0, methods: 0, ifaces: 0, attrs: 0, ..BASE };
    let g = make(cx, &cfg);
    let items = g.pool.kids()[1].kids();
    let mut seen = std::collections::HashSet::new();
    let dup = items.iter().any(|v| v.tag() != "none" && !seen.insert(format!("{:?}", v)));
    let wide = items.iter().any(|v| v.tag() == "none");
    if dup {
        cx.label("repeated constants");
    }
    if wide {
        cx.label("8-byte constants");
    }
    label_tags(cx, &g.pool, &|n| spec::CONSTS.iter().any(|c| c.1 == n));
    cx.nontrivial(dup || wide || items.len() > 8);
    cx.identity(&g.bytes);
    cx.sample(|| format!("{:?}", g.pool));
    check_pool(cx, &g.pool, &g.bytes)
}

/// One constant of each kind with systematic operand bytes, between two others.
fn single_const(cx: &mut Cx) -> Res {
    let i = enumerated(cx);
    let c = spec::CONSTS[i % 16];
    let mut g = Gen::new(&mut cx.src, &Cfg { filler: 0, ..SMALL });
    g.cp.utf8("before");
    g.cp.of_kind(g.s, c);
    g.cp.utf8("after");
    let g = g.empty();
    selfcheck(&g);
    cx.nontrivial(true);
    cx.identity(&g.bytes);
    cx.label(c.1);
    cx.sample(|| format!("{:?}", g.pool));
    check_pool(cx, &g.pool, &g.bytes)
}

/// Pools in which nearly every constant is much like one before it.
fn alike_consts(cx: &mut Cx) -> Res {
    let first = cx.src.below(16) as usize;
    let k = match cx.src.below(8) {
        0 => cx.src.range(2, 120),
        _ => cx.src.range(2, 12),
    };
    let mut g = Gen::new(&mut cx.src, &Cfg { filler: 0, ..SMALL });
    let texts = first < 6;
    g.cp.of_kind(g.s, spec::CONSTS[if texts { 0 } else { first }]);
    for _ in 0..k {
        if g.s.chance(1, 12) {
            g.cp.random(g.s);
        } else {
            g.cp.related(g.s);
        }
    }
    let g = g.empty();
    selfcheck(&g);
    cx.label(if texts { "alike texts" } else { "alike constants of other kinds" });
    cx.nontrivial(g.pool.kids()[1].kids().len() > 2);
    cx.identity(&g.bytes);
    cx.sample(|| format!("{:?}", g.pool));
    check_pool(cx, &g.pool, &g.bytes)
}

fn large_pools(cx: &mut Cx) -> Res {
    let target = match cx.src.below(6) {
        0 => 65535,
        1 => 65534,
        2 => cx.src.range(65000, 65535),
        3 => cx.src.range(32760, 32775),
        _ => cx.src.range(200, 65535),
    } as usize;
    let end = cx.src.below(3);
    let mut r = Rng::new(&[cx.src.raw(0)]);
    let dense = cx.src.below(4);
    let mut last = 0u64;
    // encoded directly, values from a small or a large universe
    let mut out = vec![];
    let mut slots = vec![];
    while slots.len() + 1 < target {
        let left = target - 1 - slots.len();
        let mut k = r.below(16);
        if left == 2 && end == 1 {
            k = 3;
        } else if left == 2 && end == 2 {
            k = 4;
        } else if left == 1 && (k == 3 || k == 4) {
            k = 5;
        }
        let (tag, name, fmt) = spec::CONSTS[k];
        out.push(tag);
        let x = match dense {
            0 => r.below(40) as u64,
            1 => r.next(),
            2 => {
                // near the one before
                last = match r.below(8) {
                    0 => r.next(),
                    1 => last ^ 1 << r.below(64),
                    2 => last.wrapping_sub(1),
                    _ => last.wrapping_add(1),
                };
                last
            }
            _ => r.below(5000) as u64,
        };
        let v = match tag {
            1 => {
                let s = format!("s{:x}", x);
                be2(&mut out, s.len());
                out.extend(s.as_bytes());
                vec![V::S(s)]
            }
            3 => {
                be4(&mut out, x as u32);
                vec![n(x as i32)]
            }
            4 => {
                be4(&mut out, x as u32);
                vec![n(x as u32)]
            }
            5 | 6 => {
                out.extend(x.to_be_bytes());
                vec![V::N(x as i64)]
            }
            15 => {
                let k = 1 + (x % 9) as usize;
                out.push(k as u8);
                be2(&mut out, x as usize);
                vec![t(spec::REF_KINDS[k], vec![]), n(x as u16)]
            }
            _ => fmt
                .chars()
                .enumerate()
                .map(|(j, _)| {
                    let y = (x >> (16 * j)) as u16;
                    be2(&mut out, y as usize);
                    n(y)
                })
                .collect(),
        };
        slots.push(t(name, v));
        if tag == 5 || tag == 6 {
            slots.push(t("none", vec![]));
        }
    }
    let count = slots.len() + 1;
    let want = t("Pool", vec![n(count as i64), V::L(slots)]);
    let mut b = head(count, &out);
    b.extend(EMPTY_BODY);
    cx.nontrivial(true);
    cx.identity(&b);
    cx.label(if count == 65535 { "full pool" } else { "large pool" });
    cx.sample(|| format!("{} constants in {} bytes: {:?}", count - 1, b.len(), want));
    check_pool(cx, &want, &b)
}

// ---- C05 ------------------------------------------------------------------------------------

/// Parses the string bytes as the first constant of an empty class (or as a debug extension).
fn check_string(cx: &mut Cx, s: &[u8], debug: bool, buf: &mut Vec<u8>) -> Res {
    buf.clear();
    if debug {
        buf.extend(head(2, &utf8(b"SourceDebugExtension")));
        buf.extend(&EMPTY_BODY[..12]);
        be2(buf, 1);
        be2(buf, 1);
        be4(buf, s.len() as u32);
        buf.extend(s);
    } else {
        buf.extend([0xCA, 0xFE, 0xBA, 0xBE, 0, 0, 0, 52, 0, 3, 1]);
        be2(buf, s.len());
        buf.extend(s);
        // what follows must not be touched
        buf.extend([1, 0, 1, b'x']);
        buf.extend(EMPTY_BODY);
    }
    let want = refdec::mutf8_decode(s);
    let got = match cx.parse(buf)? {
        Ok((p, c)) => {
            if debug {
                match c.attributes.first() {
                    Some(jbcrs::basic::Attribute::SourceDebugExtension(x)) => Ok(x.clone()),
                    x => return fail("differs", format!("debug extension read as {:?}", x.map(obs::attr))).with_input(buf),
                }
            } else {
                if p.get_utf8(2).ok().as_deref() != Some("x") {
                    return fail("differs", "the constant after the string changed").with_input(buf);
                }
                Ok(p.get_utf8(1).unwrap_or_else(|e| format!("<lookup failed: {:?}>", e)))
            }
        }
        Err(e) => Err(obs::error(&e)),
    };
    let ok = match (&want, &got) {
        (Ok((w, _)), Ok(g)) => w == g,
        (Ok((_, over)), Err(e)) => *over && e.tag() == "InvalidUTF8",
        (Err(_), Err(e)) => e.tag() == "InvalidUTF8",
        (Err(_), Ok(_)) => false,
    };
    if !ok {
        return fail(
            "string",
            format!("bytes {} must give {:?}, library gives {:?}", hex(&s[..s.len().min(400)]), want, got),
        )
        .with_input(buf);
    }
    Ok(())
}

fn scalars(cx: &mut Cx) -> Res {
    let i = cx.index as u32;
    cx.nontrivial(true);
    cx.identity(&i);
    let mut buf = vec![];
    for c in (i * 64..i * 64 + 64).filter_map(char::from_u32) {
        let alone = c.to_string();
        check_string(cx, &refdec::mutf8_encode(&alone), false, &mut buf)?;
        check_string(cx, &refdec::mutf8_encode(&format!("a{}{}b", c, c)), c as u32 % 2 == 0, &mut buf)?;
    }
    cx.sample(|| format!("U+{:04X}..U+{:04X} alone and doubled between letters", i * 64, i * 64 + 63));
    Ok(())
}

/// Case i: prefix of zero, one or two bytes, followed by every byte.
fn short_strings(cx: &mut Cx) -> Res {
    let i = cx.index as usize;
    let mut s: Vec<u8> = if i < 65536 {
        vec![(i >> 8) as u8, i as u8, 0]
    } else {
        vec![(i - 65536) as u8, 0]
    };
    cx.nontrivial(true);
    cx.identity(&i);
    let mut buf = vec![];
    if i == 65536 {
        check_string(cx, &[], false, &mut buf)?;
        check_string(cx, &[], true, &mut buf)?;
        for x in 0..=255 {
            check_string(cx, &[x], false, &mut buf)?;
            check_string(cx, &[x], true, &mut buf)?;
        }
    }
    let last = s.len() - 1;
    for x in 0..=255 {
        s[last] = x;
        check_string(cx, &s, false, &mut buf)?;
    }
    cx.sample(|| format!("{} followed by every byte", hex(&s[..last])));
    Ok(())
}

const SURR: &[[u8; 3]] = &[
    [0xED, 0xA0, 0x80],
    [0xED, 0xAF, 0xBF],
    [0xED, 0xAB, 0x95],
    [0xED, 0xB0, 0x80],
    [0xED, 0xBF, 0xBF],
    [0xED, 0xB7, 0xA5],
    [0xED, 0x9F, 0xBF],
    [0xED, 0x80, 0x80],
    [0xEE, 0x80, 0x80],
    [0xEE, 0xB0, 0x80],
    [0xEC, 0xA0, 0x80],
    [0xE0, 0xB0, 0x80],
    [0xE0, 0x80, 0x80],
    [0xEF, 0xBF, 0xBF],
    [0xFD, 0xB0, 0x80],
    [0xED, 0xA0, 0x00],
    [0xED, 0xA0, 0xC0],
    [0xED, 0xA0, 0x40],
    [0xED, 0xB0, 0x00],
    [0xED, 0xB0, 0x40],
    [0xED, 0xB0, 0xC0],
    [0xED, 0x70, 0x80],
    [0xED, 0xF0, 0x80],
    [0xED, 0x30, 0x80],
    [0xED, 0x60, 0x80],
    [0xED, 0xE0, 0x80],
    [0xAD, 0xB0, 0x80],
    [0x6D, 0xB0, 0x80],
    [0xCD, 0xB0, 0x80],
    [b'a', 0xC3, 0xA9],
    [b'a', b'b', b'c'],
    [0xC3, 0xA9, 0x41],
    [0x41, 0xED, 0xA0],
    [0xB0, 0x80, 0xED],
];

fn surrogates(cx: &mut Cx) -> Res {
    let i = cx.index as usize;
    let k = SURR.len();
    let (a, b, m) = (SURR[i % k], SURR[i / k % k], i / k / k);
    let mut s = a.to_vec();
    s.extend(b);
    match m {
        0 => {}
        1 => {
            s.insert(0, b'a');
            s.push(b'z');
        }
        2 => {
            s.pop();
        }
        3 => s.truncate(4),
        _ => s.extend([0xED, 0xB0, 0x80]),
    }
    cx.nontrivial(true);
    cx.identity(&s);
    cx.sample(|| hex(&s));
    let mut buf = vec![];
    check_string(cx, &s, false, &mut buf)?;
    check_string(cx, &s, true, &mut buf)
}

const LONG: &[usize] = &[
    65533, 65534, 65535, 65536, 65537, 65538, 65539, 65540, 131_071, 131_072, 131_073, 196_607, 196_609, (1 << 20) - 1, 1 << 20, (1 << 20) + 1,
    (1 << 24) - 1, 1 << 24, (1 << 24) + 2,
];

/// Debug extensions beyond the length of constants: characters of each width, with something special or wrong
/// near the start, near a power of two, or at the end.
fn long_extensions(cx: &mut Cx) -> Res {
    let i = enumerated(cx);
    let (size, style) = (LONG[i % LONG.len()], i / LONG.len() % 12);
    let unit: &[u8] = match style % 6 {
        0 => b"a",
        1 => &[0xC3, 0xA9],
        2 => &[0xE2, 0x82, 0xAC],
        3 => &[0xED, 0xA0, 0xBD, 0xED, 0xB8, 0x80],
        4 => &[0xC0, 0x80],
        _ => b"line 1\n+ 1#1,2:3\n",
    };
    let mut s = vec![];
    let lead = cx.src.below(unit.len() as u64 + 1) as usize;
    s.resize(lead, b'x');
    while s.len() + unit.len() <= size {
        s.extend(unit);
    }
    s.resize(size, b'z');
    if style >= 6 {
        let at = match cx.src.below(5) {
            0 => cx.src.below(16) as usize,
            1 => size - 1 - cx.src.below(8) as usize,
            2 => cx.src.below(size as u64) as usize,
            _ => ((1usize << cx.src.range(15, 24)).min(size) - 4 + cx.src.below(8) as usize).min(size - 1),
        };
        let new: &[u8] = *cx.src.pick(&[
            &[0xFFu8][..],
            &[0],
            &[0x80],
            &[0xC3],
            &[0xC0, 0x80],
            &[0xED, 0xA0, 0x81, 0xED, 0xB0, 0x80],
            &[0xED, 0xB0, 0x80],
            &[0xF0, 0x9F, 0x98, 0x80],
            &[0xE2, 0x82, 0xAC],
        ]);
        for (k, x) in new.iter().enumerate() {
            if at + k < size {
                s[at + k] = *x;
            }
        }
    }
    cx.nontrivial(true);
    cx.identity(&s);
    cx.label("extension beyond 65532 bytes");
    cx.sample(|| format!("{} bytes {}...", s.len(), hex(&s[..20])));
    check_string(cx, &s, true, &mut vec![]).map_err(|mut f| {
        // the bytes are told by the index
        f.msg = clip(f.msg, 2000);
        f
    })
}

fn random_texts(cx: &mut Cx) -> Res {
    let mut x = gen::text(&mut cx.src);
    if cx.src.chance(1, 40) {
        let k = cx.src.below(3000) as usize;
        x = x.repeat(k);
    }
    let mut e = refdec::mutf8_encode(&x);
    let debug = cx.src.below(4) == 3;
    if !debug && e.len() > 65535 {
        // the longest that fits
        while e.len() > 65535 {
            x.pop();
            e = refdec::mutf8_encode(&x);
            if e.len() > 66000 {
                let keep: String = x.chars().take(x.chars().count() * 65000 / e.len()).collect();
                x = keep;
                e = refdec::mutf8_encode(&x);
            }
        }
    }
    cx.nontrivial(e.iter().any(|b| !(1..0x80).contains(b)));
    cx.identity(&e);
    cx.label(if debug { "debug extension" } else { "constant" });
    if e.len() > 10_000 {
        cx.label("long text");
    }
    cx.sample(|| format!("{:?}", x));
    let mut buf = vec![];
    check_string(cx, &e, debug, &mut buf)
}

fn random_string_bytes(cx: &mut Cx) -> Res {
    let s = if cx.src.below(3) == 0 {
        let k = cx.src.range(1, 12);
        let mut v = vec![];
        for _ in 0..k {
            if cx.src.below(3) == 0 {
                v.push(cx.src.below(256) as u8);
            } else {
                v.push(*cx.src.pick(&[
                    0x41, 0x7F, 0x80, 0x9F, 0xA0, 0xAF, 0xB0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xED, 0xED, 0xEE, 0xEF, 0xF0, 0xFF, 0,
                ]));
            }
        }
        v
    } else {
        let x = gen::text(&mut cx.src);
        let mut e = refdec::mutf8_encode(&x);
        for _ in 0..cx.src.range(1, 3) {
            if e.is_empty() {
                break;
            }
            let i = cx.src.below(e.len() as u64) as usize;
            match cx.src.below(4) {
                0 => e[i] = *cx.src.pick(&[0, 0x80, 0xBF, 0xC0, 0xE0, 0xED, 0xF0, 0xFF, 0x41]),
                1 => e[i] ^= 1 << cx.src.below(8),
                2 => {
                    e.remove(i);
                }
                _ => e.insert(i, cx.src.below(256) as u8),
            }
        }
        e
    };
    cx.nontrivial(s.iter().any(|b| !(1..0x80).contains(b)));
    cx.identity(&s);
    cx.label(match refdec::mutf8_decode(&s) {
        Ok((_, false)) => "valid",
        Ok((_, true)) => "overlong",
        Err(_) => "invalid",
    });
    cx.sample(|| hex(&s));
    let debug = cx.src.below(4) == 3;
    let mut buf = vec![];
    check_string(cx, &s, debug, &mut buf)
}

// ---- C06 to C08: code -------------------------------------------------------------------------

/// A method body holding exactly these code bytes, whose tree is `ins`.
fn body(cx: &mut Cx, code: &[u8], ins: Vec<V>, tail: bool) -> GenClass {
    let cfg = Cfg { big: false, filler: 2, ..BASE };
    let g = Gen::new(&mut cx.src, &cfg).single(At::Method, "Code", |g, _| {
        let (a, b) = (g.s.u16any(), g.s.u16any());
        g.u2(a);
        g.u2(b);
        g.i4(code.len() as i32);
        g.out.extend_from_slice(code);
        let k = if tail { g.s.below(3) } else { 0 };
        g.u2(k as u16);
        let mut exc = vec![];
        for _ in 0..k {
            let mut e = vec![];
            for _ in 0..4 {
                let x = g.s.u16any();
                g.u2(x);
                e.push(n(x));
            }
            exc.push(V::L(e));
        }
        let l = if tail {
            g.list_with("LineNumberTable", |g, i| g.content("LineNumberTable", i))
        } else {
            let l = g.open_list(0);
            g.close_list(l);
            V::L(vec![])
        };
        t("Code", vec![n(a), n(b), V::L(ins), V::L(exc), l])
    });
    g
}

fn at_off(at: usize, v: V) -> V {
    V::L(vec![n(at as i64), v])
}

/// Each opcode; one-byte operands take every value, two-byte operands every value over the case's share.
fn all_operands(cx: &mut Cx) -> Res {
    let i = enumerated(cx);
    let (opcode, part) = ((i % 256) as u8, i / 256);
    let Some(op) = &spec::ops()[opcode as usize] else { return Ok(()) };
    if matches!(op.args, "W" | "T" | "L") {
        return Ok(());
    }
    let width = match op.args {
        "" => 0,
        "b" | "u" | "A" => 1,
        "i" => 4,
        _ => 2,
    };
    if part > 0 && width < 2 {
        return Ok(());
    }
    let values: Vec<u32> = match width {
        0 => vec![0, 0, 0],
        1 => (0..256).collect(),
        2 => (part as u32 * 13108..(part as u32 + 1) * 13108).filter(|x| *x < 65536).collect(),
        _ => (0..8000u32)
            .map(|k| match k % 4 {
                0 => k,
                1 => 0u32.wrapping_sub(k),
                2 => (1u32 << (k / 4 % 32)).wrapping_sub(k / 128 % 3),
                _ => Rng::new(&[k as u64, part as u64]).next() as u32,
            })
            .collect(),
    };
    let mut code = vec![];
    let mut ins = vec![];
    let mut done = vec![];
    for x in values {
        if op.args == "A" && !(4..=11).contains(&x) {
            continue;
        }
        let start = code.len();
        code.push(opcode);
        let mut args = vec![];
        let mut x = x;
        for c in op.args.chars() {
            match c {
                'b' => {
                    code.push(x as u8);
                    args.push(n(x as i8));
                    x = x.wrapping_mul(31);
                }
                'u' => {
                    code.push(x as u8);
                    args.push(n(x as u8));
                    x = x.wrapping_mul(31);
                }
                's' => {
                    be2(&mut code, x as usize);
                    args.push(n(x as i16));
                }
                'h' => {
                    be2(&mut code, x as usize);
                    args.push(n(x as u16));
                    x = x.wrapping_mul(31) ^ x >> 8;
                }
                'i' => {
                    be4(&mut code, x);
                    args.push(n(x as i32));
                }
                'z' => code.push(0),
                _ => {
                    code.push(x as u8);
                    args.push(t(spec::ARRAY_TYPES.iter().find(|a| u32::from(a.0) == x).unwrap().1, vec![]));
                }
            }
        }
        ins.push(at_off(start, t(op.kind, args)));
        if code.len() > 65_500 {
            done.push((std::mem::take(&mut code), std::mem::take(&mut ins)));
        }
    }
    if !code.is_empty() {
        done.push((code, ins));
    }
    cx.nontrivial(true);
    cx.identity(&i);
    cx.label(op.name);
    for (code, ins) in done {
        let g = body(cx, &code, ins, true);
        selfcheck(&g);
        cx.sample(|| show(&g));
        class_equal(cx, &g)?;
    }
    // sole instruction of the body, followed by things it must not swallow
    let first = |g: &mut Gen| {
        let at = g.out.len();
        let v = g.instr_of(opcode, 0);
        let code = g.out.split_off(at);
        (code, v)
    };
    let mut gg = Gen::new(&mut cx.src, &SMALL);
    let (code, v) = first(&mut gg);
    let g = body(cx, &code, vec![at_off(0, v)], false);
    selfcheck(&g);
    class_equal(cx, &g).map(|_| ())
}

fn wide_operands(cx: &mut Cx) -> Res {
    let i = enumerated(cx);
    let (k, part) = (spec::WIDE[i % 12], i / 12);
    let name = spec::ops()[k as usize].as_ref().unwrap().name;
    let mut code = vec![];
    let mut ins = vec![];
    let per = 10_000u32;
    for x in part as u32 * per..((part as u32 + 1) * per).min(65536) {
        ins.push(at_off(code.len(), {
            code.extend([0xC4, k]);
            be2(&mut code, x as usize);
            let mut a = vec![n(x as u16)];
            if k == 0x84 {
                let y = x.wrapping_mul(40503) ^ x;
                be2(&mut code, y as usize);
                a.push(n(y as u16 as i16));
            }
            t(name, a)
        }));
    }
    cx.nontrivial(true);
    cx.identity(&i);
    cx.label(name);
    let g = body(cx, &code, ins, true);
    selfcheck(&g);
    judge(cx, &g, true)
}

/// Everything with operands of a fixed size: (wide, opcode).
fn shapes() -> &'static Vec<(bool, u8)> {
    static S: OnceLock<Vec<(bool, u8)>> = OnceLock::new();
    S.get_or_init(|| {
        let plain = (0..=255u8).filter(|o| matches!(&spec::ops()[*o as usize], Some(op) if !matches!(op.args, "W" | "T" | "L")));
        plain.map(|o| (false, o)).chain(spec::WIDE.iter().map(|o| (true, *o))).collect()
    })
}

/// A sequence over the k symbols in which every three of them follow each other somewhere (and no three twice).
fn de_bruijn(k: usize) -> Vec<u8> {
    fn go(t: usize, p: usize, k: usize, a: &mut [usize; 4], out: &mut Vec<u8>) {
        if t > 3 {
            if 3 % p == 0 {
                out.extend(a[1..=p].iter().map(|x| *x as u8));
            }
            return;
        }
        a[t] = a[t - p];
        go(t + 1, p, k, a, out);
        for j in a[t - p] + 1..k {
            a[t] = j;
            go(t + 1, t, k, a, out);
        }
    }
    let mut out = vec![];
    go(1, 1, k, &mut [0; 4], &mut out);
    let (a, b) = (out[0], out[1]);
    out.extend([a, b]);
    out
}

/// Appends an instruction; operands come from `draw`.
fn put(code: &mut Vec<u8>, ins: &mut Vec<V>, shape: (bool, u8), draw: &mut dyn FnMut() -> u64) {
    let start = code.len();
    let (wide, opcode) = shape;
    let op = spec::ops()[opcode as usize].as_ref().unwrap();
    let mut args = vec![];
    if wide {
        code.extend([0xC4, opcode]);
        let x = draw();
        be2(code, x as usize);
        args.push(n(x as u16));
        if opcode == 0x84 {
            let y = draw();
            be2(code, y as usize);
            args.push(n(y as u16 as i16));
        }
        ins.push(at_off(start, t(op.name, args)));
        return;
    }
    code.push(opcode);
    for c in op.args.chars() {
        if c == 'z' {
            code.push(0);
            continue;
        }
        let x = draw();
        match c {
            'b' => {
                code.push(x as u8);
                args.push(n(x as i8));
            }
            'u' => {
                code.push(x as u8);
                args.push(n(x as u8));
            }
            's' => {
                be2(code, x as usize);
                args.push(n(x as i16));
            }
            'h' => {
                be2(code, x as usize);
                args.push(n(x as u16));
            }
            'i' => {
                be4(code, x as u32);
                args.push(n(x as i32));
            }
            _ => {
                let a = spec::ARRAY_TYPES[x as usize % spec::ARRAY_TYPES.len()];
                code.push(a.0);
                args.push(t(a.1, vec![]));
            }
        }
    }
    ins.push(at_off(start, t(op.kind, args)));
}

const TRIPLE_BODIES: usize = 500;

/// A share of all sequences of three instruction kinds.
fn triples(cx: &mut Cx) -> Res {
    let i = enumerated(cx);
    static SEQ: OnceLock<Vec<u8>> = OnceLock::new();
    let seq = SEQ.get_or_init(|| de_bruijn(shapes().len()));
    let per = seq.len() / TRIPLE_BODIES + 1;
    let from = i % TRIPLE_BODIES * per;
    let part = &seq[from..(from + per + 2).min(seq.len())];
    let mut r = Rng::new(&[cx.src.raw(0)]);
    // the operands of a body: anything, a few values, or one value and its neighbours
    let style = r.below(3);
    let few: Vec<u64> = (0..4).map(|_| if r.below(2) == 0 { r.next() % 8 } else { r.next() }).collect();
    let mut draw = move || match style {
        0 => r.next(),
        1 => few[r.below(4)],
        _ => few[0].wrapping_add(r.next() % 4).wrapping_sub(1),
    };
    let (mut code, mut ins) = (vec![], vec![]);
    for s in part {
        put(&mut code, &mut ins, shapes()[*s as usize], &mut draw);
    }
    if code.len() > 65535 {
        return fail("oracle", format!("body of {} bytes", code.len()));
    }
    let g = body(cx, &code, ins, true);
    selfcheck(&g);
    judge(cx, &g, true)
}

fn bodies(cx: &mut Cx) -> Res {
    let cfg = Cfg { focus: &["Code"], code: 40, anywhere: 0, methods: 3, fields: 0, attrs: 1, ..BASE };
    let g = make(cx, &cfg);
    label_tags(cx, &g.class, &|n| n != "" && n.as_bytes()[0].is_ascii_lowercase());
    let k = count_tags(&g.class, &|n| n != "" && n.as_bytes()[0].is_ascii_lowercase());
    judge(cx, &g, k >= 2)
}

/// Bodies filled with random instructions up to 65535 bytes.
fn long_body(cx: &mut Cx, limit: usize, f: &mut dyn FnMut(&mut Gen, usize) -> Option<V>) -> GenClass {
    let mut r = Rng::new(&[cx.src.raw(0)]);
    let cfg = Cfg { big: false, ..BASE };
    let seed = cx.src.raw(0);
    let mut inner = Src::seeded(seed);
    let mut gg = Gen::new(&mut inner, &cfg);
    let base = gg.out.len();
    let mut ins = vec![];
    loop {
        let at = gg.out.len() - base;
        let keep = gg.out.len();
        let v = match f(&mut gg, at) {
            Some(v) => v,
            None => {
                let op = loop {
                    let o = r.below(0xCB) as u8;
                    if spec::ops()[o as usize].is_some() && o != 0xAA && o != 0xAB {
                        break o;
                    }
                };
                gg.instr_of(op, at)
            }
        };
        if gg.out.len() - base > limit {
            gg.out.truncate(keep);
            while gg.out.len() - base < limit {
                ins.push(at_off(gg.out.len() - base, t("nop", vec![])));
                gg.out.push(0);
            }
            break;
        }
        ins.push(at_off(at, v));
        if gg.out.len() - base == limit {
            break;
        }
    }
    let code = gg.out.split_off(base);
    let g = body(cx, &code, ins, true);
    selfcheck(&g);
    g
}

fn long_bodies(cx: &mut Cx) -> Res {
    let limit = match cx.src.below(4) {
        0 => 65535,
        1 => cx.src.range(65500, 65535),
        2 => cx.src.range(32700, 32800),
        _ => cx.src.range(1000, 65535),
    } as usize;
    let g = long_body(cx, limit, &mut |_, _| None);
    cx.label(if limit == 65535 { "full length" } else { "long" });
    judge(cx, &g, true)
}

const LOWS: &[i64] = &[-0x8000_0000, -0x7FFF_FFFF, -70000, -32769, -256, -2, -1, 0, 1, 2, 127, 255, 65535, 0x7FFF_FFF0, 0x7FFF_FFFE, 0x7FFF_FFFF];
const SPANS: &[i64] = &[0, 1, 2, 3, 5, 15, 127, 128, 254, 255, 256, 1023, 4095, 16000];

fn push_switch(code: &mut Vec<u8>, low: i64, k: i64, r: &mut Rng) -> V {
    code.push(0xAA);
    while code.len() % 4 != 0 {
        code.push(0);
    }
    let d = r.next() as i32;
    be4(code, d as u32);
    be4(code, low as u32);
    be4(code, (low + k) as u32);
    let mut l = vec![];
    // unrelated targets, or ones that relate to the default or to each other
    let way = r.below(6);
    for i in 0..=k {
        let x = match way {
            0 => d,
            1 if r.below(4) != 0 => d,
            2 => d.wrapping_add(8 * i as i32),
            _ => r.next() as i32,
        };
        be4(code, x as u32);
        l.push(n(x));
    }
    t("tableswitch", vec![n(d), V::N(low), V::N(low + k), V::L(l)])
}

fn switch_bounds(cx: &mut Cx) -> Res {
    let i = enumerated(cx);
    let (align, i) = (i % 4, i / 4);
    let (low, i) = (LOWS[i % LOWS.len()], i / LOWS.len());
    let (span, kind) = (SPANS[i % SPANS.len()], i / SPANS.len());
    let mut r = Rng::new(&[cx.src.raw(0)]);
    let mut code = vec![0; align];
    let mut ins: Vec<V> = (0..align).map(|k| at_off(k, t("nop", vec![]))).collect();
    if kind == 0 {
        if low + span > i32::MAX as i64 {
            return Ok(());
        }
        let v = push_switch(&mut code, low, span, &mut r);
        ins.push(at_off(align, v));
    } else {
        code.push(0xAB);
        while code.len() % 4 != 0 {
            code.push(0);
        }
        let d = r.next() as i32;
        be4(&mut code, d as u32);
        let step = if kind == 1 { 1 } else { 65537 };
        let keys: Vec<i64> = (0..span).map(|k| low + k * step).filter(|k| *k <= i32::MAX as i64).collect();
        be4(&mut code, keys.len() as u32);
        let mut l = vec![];
        let way = r.below(4);
        for k in keys {
            let x = match way {
                0 => d,
                1 => k as i32,
                _ => r.next() as i32,
            };
            be4(&mut code, k as u32);
            be4(&mut code, x as u32);
            l.push(V::L(vec![V::N(k), n(x)]));
        }
        ins.push(at_off(align, t("lookupswitch", vec![n(d), V::L(l)])));
    }
    ins.push(at_off(code.len(), t("ireturn", vec![])));
    code.push(0xAC);
    if code.len() > 65535 {
        return Ok(());
    }
    cx.label(if kind == 0 { "tableswitch" } else { "lookupswitch" });
    let g = body(cx, &code, ins, true);
    selfcheck(&g);
    judge(cx, &g, true)
}

fn switch_sizes() -> &'static [usize] {
    static C: std::sync::OnceLock<Vec<usize>> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        let mut v: Vec<usize> = counts().to_vec();
        v.extend((0..16_380).step_by(251));
        v.extend(8_180..=8_192);
        v.extend(16_370..=16_380);
        v.retain(|k| *k <= 16_380);
        v.sort();
        v.dedup();
        v
    })
}

/// Switches of every size up to what a body can hold, with and without something before and behind.
fn sized_switches(cx: &mut Cx) -> Res {
    let i = enumerated(cx);
    let size = switch_sizes()[i / 4];
    let (table, full) = (i % 2 == 0, i / 2 % 2 == 1);
    let mut r = Rng::new(&[cx.src.raw(0)]);
    let fixed = 4 + if table { 12 } else { 8 };
    let unit = if table { 4 } else { 8 };
    if size * unit + fixed > 65_535 || (table && size == 0) {
        return Ok(());
    }
    // at a random place, or with the rest of the body filled in front
    let rest = 65_535 - size * unit - fixed;
    let before = if full { rest.saturating_sub(3) } else { (cx.src.below(9) as usize).min(rest / 2) };
    let mut code = vec![0; before];
    let mut ins: Vec<V> = (0..before).map(|k| at_off(k, t("nop", vec![]))).collect();
    let v = if table {
        let low = match cx.src.below(4) {
            0 => i64::from(i32::MIN),
            1 => i64::from(i32::MAX) - size as i64 + 1,
            2 => -(size as i64 / 2),
            _ => i64::from(cx.src.u32any() as i32).min(i64::from(i32::MAX) - size as i64 + 1),
        };
        push_switch(&mut code, low, size as i64 - 1, &mut r)
    } else {
        code.push(0xAB);
        while code.len() % 4 != 0 {
            code.push(0);
        }
        let d = r.next() as i32;
        be4(&mut code, d as u32);
        be4(&mut code, size as u32);
        let step = *cx.src.pick(&[1i64, 2, 1000, 1 << 18]);
        let mut key = if cx.src.below(2) == 0 { i64::from(i32::MIN) } else { -(size as i64 * step / 2) };
        let mut l = vec![];
        for _ in 0..size {
            let x = r.next() as i32;
            be4(&mut code, key as u32);
            be4(&mut code, x as u32);
            l.push(V::L(vec![V::N(key), n(x)]));
            key += 1 + (r.next() % step as u64) as i64;
        }
        t("lookupswitch", vec![n(d), V::L(l)])
    };
    ins.push(at_off(before, v));
    while code.len() < 65_535 && ins.len() < before + 3 {
        ins.push(at_off(code.len(), t("return", vec![])));
        code.push(0xB1);
    }
    if code.len() > 65_535 {
        return Ok(());
    }
    cx.label(if table { "tableswitch" } else { "lookupswitch" });
    let g = body(cx, &code, ins, true);
    selfcheck(&g);
    judge(cx, &g, true)
}

fn switches(cx: &mut Cx) -> Res {
    let cfg = Cfg { focus: &["Code"], ops: &[0xAA, 0xAB], code: 12, anywhere: 0, methods: 2, fields: 0, attrs: 1, ..BASE };
    let g = make(cx, &cfg);
    let k = count_tags(&g.class, &|n| n.ends_with("switch"));
    label_tags(cx, &g.class, &|n| n.ends_with("switch"));
    judge(cx, &g, k > 0)
}

fn far_switches(cx: &mut Cx) -> Res {
    let limit = cx.src.range(60000, 65535) as usize;
    let mut k = 0u64;
    let every = cx.src.range(1, 400);
    let g = long_body(cx, limit, &mut |g, at| {
        k += 1;
        if k % every == 0 {
            let op = *g.s.pick(&[0xAA, 0xAB]);
            Some(g.instr_of(op, at))
        } else {
            None
        }
    });
    judge(cx, &g, true)
}

/// Bounds out of order, or more entries than the code holds.
fn bad_switches(cx: &mut Cx) -> Res {
    let align = cx.src.below(8) as usize;
    let mut code = vec![0; align];
    let table = cx.src.below(2) == 0;
    code.push(if table { 0xAA } else { 0xAB });
    while code.len() % 4 != 0 {
        code.push(0);
    }
    be4(&mut code, cx.src.u32any());
    let room = cx.src.below(12) as usize;
    if table {
        let a = cx.src.u32any() as i32;
        let b = match cx.src.below(4) {
            0 => cx.src.u32any() as i32,
            1 => a.wrapping_add(room as i32 + cx.src.below(4) as i32),
            2 => a.wrapping_sub(1 + cx.src.below(3) as i32),
            _ => a.wrapping_add(cx.src.u32any() as i32),
        };
        be4(&mut code, a as u32);
        be4(&mut code, b as u32);
        code.extend(cx.src.fill(4 * room));
        cx.label(if a > b { "low above high" } else { "table" });
    } else {
        let k = match cx.src.below(3) {
            0 => cx.src.u32any() as i32,
            1 => room as i32 + cx.src.below(4) as i32,
            _ => -(cx.src.u16any() as i32),
        };
        be4(&mut code, k as u32);
        for j in 0..room {
            be4(&mut code, j as u32);
            be4(&mut code, cx.src.u32any());
        }
        cx.label(if k < 0 { "negative count" } else { "pairs" });
    }
    // whatever follows the entries is operand-free instructions
    let cut = cx.src.below(4) as usize;
    if cut == 3 {
        let k = code.len().saturating_sub(1 + cx.src.below(6) as usize).max(1);
        code.truncate(k);
    }
    let g = body(cx, &code, vec![], cx.index % 2 == 0);
    cx.identity(&g.bytes);
    differential(cx, &g.bytes)
}

/// Acceptance and value as the reference decoder says.
fn differential(cx: &mut Cx, b: &[u8]) -> Res {
    cx.nontrivial(true);
    cx.sample(|| format!("{} => {:?}", clip(hex(b), 200), refdec::decode(b).map(|d| d.class)));
    match refdec::decode(b) {
        Ok(d) => {
            cx.label("well-formed");
            match cx.parse(b)? {
                Ok((_, c)) => {
                    if d.grey & refdec::G_VALUE_OPEN == 0 {
                        if let Some(x) = diff(&d.class, &obs::class(&c)) {
                            return fail("differs", x).with_input(b);
                        }
                    }
                    Ok(())
                }
                Err(e) if d.grey == 0 => {
                    fail("rejected", format!("a well-formed file is rejected: {:?}", obs::error(&e))).with_input(b)
                }
                Err(_) => Ok(()),
            }
        }
        Err(refdec::RErr::Open) => Ok(()),
        Err(e) => {
            cx.label("ill-formed");
            reject(cx, b, &format!("{:?}", e)).map(|_| ())
        }
    }
}

fn framed(cx: &mut Cx) -> Res {
    let cfg = Cfg {
        focus: &["Code", "LineNumberTable", "StackMapTable", "LocalVariableTable"],
        code: 10,
        methods: 3,
        fields: 0,
        attrs: 3,
        unknown: 2,
        ..BASE
    };
    let g = make(cx, &cfg);
    label_tags(cx, &g.class, &|n| matches!(n, "Code" | "LineNumberTable" | "StackMapTable" | "LocalVariableTable" | "Unknown"));
    judge(cx, &g, has_tag(&g.class, "Code"))
}

/// The same body, with the code cut at every byte.
fn cuts(cx: &mut Cx) -> Res {
    let seed = cx.src.raw(0);
    let mut inner = Src::seeded(seed);
    let mut gg = Gen::new(&mut inner, &Cfg { big: false, ..BASE });
    let want = cx.src.range(1, 12);
    let mut starts = vec![];
    let mut ins = vec![];
    for _ in 0..want {
        let at = gg.out.len();
        starts.push(at);
        let v = gg.instr(at);
        ins.push(v);
    }
    let code = std::mem::take(&mut gg.out);
    starts.push(code.len());
    let tail = cx.src.below(2) == 0;
    let step = 1 + code.len() / 120;
    let mut cut = 0;
    cx.nontrivial(true);
    cx.identity(&code);
    cx.sample(|| format!("{} cut at every byte", hex(&code)));
    while cut <= code.len() {
        let whole = starts.iter().position(|s| *s == cut).filter(|_| cut > 0);
        match whole {
            Some(k) => {
                let l = (0..k).map(|j| at_off(starts[j], ins[j].clone())).collect();
                let g = body(cx, &code[..cut], l, tail);
                class_equal(cx, &g)?;
            }
            None => {
                let g = body(cx, &code[..cut], vec![], tail);
                reject(cx, &g.bytes, "code cut inside an instruction")?;
            }
        }
        cut += if starts.contains(&(cut + 1)) { 1 } else { step };
    }
    // declared longer or shorter than the instructions, same bytes
    let g = body(cx, &code, vec![], tail);
    let at = g.bytes.windows(code.len() + 4).position(|w| w[..4] == (code.len() as u32).to_be_bytes() && w[4..] == code[..]);
    if let Some(at) = at {
        for d in [-1i64, 1, 2, 3, 5] {
            let len = code.len() as i64 + d;
            let mut b = g.bytes.clone();
            b[at..at + 4].copy_from_slice(&(len as u32).to_be_bytes());
            differential(cx, &b)?;
        }
    }
    Ok(())
}

fn exc_counts(cx: &mut Cx) -> Res {
    let i = enumerated(cx);
    let count = counts()[i];
    let mut r = Rng::new(&[cx.src.raw(0)]);
    let g = Gen::new(&mut cx.src, &Cfg { big: false, ..BASE }).single(At::Method, "Code", |g, _| {
        g.u2(1);
        g.u2(2);
        g.i4(1);
        g.u1(0xB1);
        g.u2(count as u16);
        let mut exc = vec![];
        for _ in 0..count {
            let mut e = vec![];
            for _ in 0..4 {
                let x = r.next() as u16;
                g.u2(x);
                e.push(n(x));
            }
            exc.push(V::L(e));
        }
        let l = g.list_with("LineNumberTable", |g, i| g.content("LineNumberTable", i));
        t("Code", vec![n(1), n(2), V::L(vec![at_off(0, t("return", vec![]))]), V::L(exc), l])
    });
    selfcheck(&g);
    judge(cx, &g, true)
}

fn undefined_ops(cx: &mut Cx) -> Res {
    let i = enumerated(cx);
    let (op, place) = ((i % 256) as u8, i / 256);
    let mut code = vec![0x03, 0x57, 0x10, 0x05];
    let at = match place {
        0 => 0,
        1 => 1,
        2 => 2,
        _ => 4,
    };
    if place == 3 {
        code.push(op);
    } else {
        code[at] = op;
    }
    code.push(0xB1);
    let g = body(cx, &code, vec![], true);
    cx.identity(&g.bytes);
    if spec::ops()[op as usize].is_none() {
        cx.nontrivial(true);
        cx.label("undefined opcode");
        let e = reject(cx, &g.bytes, "undefined opcode")?;
        if e != t("InvalidInstruction", vec![n(op), n(at as u32)]) {
            return fail("error", format!("undefined opcode {:#x} at {} gives {:?}", op, at, e)).with_input(&g.bytes);
        }
        return Ok(());
    }
    differential(cx, &g.bytes)
}

// ---- C09 ------------------------------------------------------------------------------------

fn stack_map(cx: &mut Cx, count: usize, f: impl FnOnce(&mut Gen) -> Vec<V>) -> GenClass {
    let at = *cx.src.pick(&[At::Code, At::Code, At::Method, At::Class]);
    Gen::new(&mut cx.src, &Cfg { big: false, filler: 2, ..BASE }).single(at, "StackMapTable", |g, _| {
        g.u2(count as u16);
        let v = f(g);
        t("StackMapTable", vec![V::L(v)])
    })
}

fn expect_error(cx: &mut Cx, b: &[u8], why: &str, want: V) -> Res {
    let e = reject(cx, b, why)?;
    if e != want {
        return fail("error", format!("{}: expected {:?}, got {:?}", why, want, e)).with_input(b);
    }
    Ok(())
}

fn frame_tags(cx: &mut Cx) -> Res {
    let i = enumerated(cx);
    let tag = (i % 256) as u8;
    let before = cx.src.below(2) as usize;
    let g = stack_map(cx, before + 2, |g| {
        let mut l: Vec<V> = (0..before).map(|_| g.frame()).collect();
        l.push(g.frame_of(tag));
        l.push(g.frame());
        l
    });
    cx.nontrivial(true);
    cx.identity(&g.bytes);
    if (128..247).contains(&tag) {
        cx.label("reserved tag");
        return expect_error(cx, &g.bytes, "reserved frame tag", t("ReservedStackMapFrame", vec![n(tag)]));
    }
    cx.label("defined tag");
    selfcheck(&g);
    judge(cx, &g, true)
}

fn verif_tags(cx: &mut Cx) -> Res {
    let i = enumerated(cx);
    let (tag, place) = ((i % 256) as u8, i / 256 % 6);
    let k = cx.src.below(3) as usize;
    let g = stack_map(cx, 2, |g| {
        let d = g.s.u16any();
        let v = match place {
            0 => {
                let k = g.s.range(64, 127) as u8;
                g.u1(k);
                t("Same1", vec![n(k - 64), g.verif_of(tag)])
            }
            1 => {
                g.u1(247);
                g.u2(d);
                t("Same1", vec![n(d), g.verif_of(tag)])
            }
            2 | 3 => {
                let c = 1 + k;
                g.u1(251 + c as u8);
                g.u2(d);
                let hot = if place == 2 { 0 } else { c - 1 };
                let l = (0..c).map(|j| if j == hot { g.verif_of(tag) } else { g.verif() }).collect();
                t("Append", vec![n(d), V::L(l)])
            }
            _ => {
                g.u1(255);
                g.u2(d);
                let mut parts = vec![n(d)];
                for p in 4..6 {
                    let c = k + (p == place) as usize;
                    g.u2(c as u16);
                    let l = (0..c).map(|j| if p == place && j == k { g.verif_of(tag) } else { g.verif() }).collect();
                    parts.push(V::L(l));
                }
                t("Full", parts)
            }
        };
        vec![v, g.frame()]
    });
    cx.nontrivial(true);
    cx.identity(&g.bytes);
    if tag >= 9 {
        cx.label("undefined tag");
        return expect_error(cx, &g.bytes, "undefined verification type", t("InvalidVerificationType", vec![n(tag)]));
    }
    cx.label("defined tag");
    selfcheck(&g);
    judge(cx, &g, true)
}

fn full_counts(cx: &mut Cx) -> Res {
    let i = enumerated(cx);
    let (count, which) = (counts()[i / 2], i % 2);
    let g = stack_map(cx, 2, |g| {
        let d = g.s.u16any();
        g.u1(255);
        g.u2(d);
        let mut parts = vec![n(d)];
        for p in 0..2 {
            let c = if p == which { count } else { 1 };
            g.u2(c as u16);
            let l = (0..c).map(|_| g.verif()).collect();
            parts.push(V::L(l));
        }
        vec![t("Full", parts), g.frame()]
    });
    selfcheck(&g);
    judge(cx, &g, true)
}

// ---- C13, C14 -------------------------------------------------------------------------------

fn elem_tags(cx: &mut Cx) -> Res {
    let i = enumerated(cx);
    let tag = (i % 256) as u8;
    let place = cx.src.below(4);
    let mut hit = None;
    let name = *cx.src.pick(ANNOS);
    let at = *cx.src.pick(&[At::Class, At::Field, At::Method]);
    let g = Gen::new(&mut cx.src, &Cfg { big: false, filler: 2, ..BASE }).single(at, name, |g, _| {
        // one value with this tag inside an array, an annotation, or on its own
        let mut value = |g: &mut Gen| {
            hit = Some(g.out.len());
            g.elem_of(tag, 2)
        };
        let mut elem = |g: &mut Gen| match place {
            0 => value(g),
            1 => {
                g.u1(b'[');
                g.u2(3);
                let l = vec![g.elem(3), value(g), g.elem(3)];
                t("Array", vec![V::L(l)])
            }
            2 => {
                g.u1(b'@');
                let ty = g.idx();
                g.u2(ty);
                g.u2(2);
                let mut l = vec![];
                for j in 0..2 {
                    let k = g.idx();
                    g.u2(k);
                    l.push(V::L(vec![n(k), if j == 1 { value(g) } else { g.elem(3) }]));
                }
                t("Annotation", vec![t("Anno", vec![n(ty), V::L(l)])])
            }
            _ => {
                g.u1(b'[');
                g.u2(1);
                g.u1(b'[');
                g.u2(1);
                let v = value(g);
                t("Array", vec![V::L(vec![t("Array", vec![V::L(vec![v])])])])
            }
        };
        let v = if name == "AnnotationDefault" {
            vec![elem(g)]
        } else {
            let mut list = |g: &mut Gen| {
                g.u2(1);
                let ty = g.idx();
                g.u2(ty);
                g.u2(1);
                let k = g.idx();
                g.u2(k);
                let e = elem(g);
                V::L(vec![t("Anno", vec![n(ty), V::L(vec![V::L(vec![n(k), e])])])])
            };
            if name.contains("Parameter") {
                g.u1(1);
                vec![V::L(vec![list(g)])]
            } else {
                vec![list(g)]
            }
        };
        t(spec::attr_fmt(name).unwrap().0, v)
    });
    cx.nontrivial(true);
    cx.identity(&g.bytes);
    let defined = spec::ELEM_SIMPLE.iter().any(|e| e.0 == tag) || matches!(tag, b'e' | b'@' | b'[');
    if !defined {
        cx.label("undefined tag");
        return expect_error(cx, &g.bytes, "undefined element value tag", t("InvalidElementValue", vec![n(tag)]));
    }
    cx.label("defined tag");
    selfcheck(&g);
    judge(cx, &g, true)
}

/// Annotations with many pairs and arrays with many elements, at the top and inside one another.
fn value_counts(cx: &mut Cx) -> Res {
    let i = enumerated(cx);
    let count = counts()[i / 6];
    let (pairs, depth) = (i % 2 == 0, i / 2 % 3);
    let at = *cx.src.pick(&[At::Class, At::Field, At::Method]);
    let seed = cx.src.raw(0);
    let g = Gen::new(&mut cx.src, &Cfg { big: false, filler: 2, ..BASE }).single(at, "AnnotationDefault", |g, _| {
        let mut r = Rng::new(&[seed]);
        for d in 0..depth {
            // alternately an array of two and an annotation with a pair
            if d % 2 == 0 {
                g.u1(b'[');
                g.u2(2);
            } else {
                g.u1(b'@');
                g.u2(3);
                g.u2(1);
                g.u2(4);
            }
        }
        g.u1(if pairs { b'@' } else { b'[' });
        if pairs {
            g.u2(7);
        }
        g.u2(count as u16);
        let mut l = vec![];
        for _ in 0..count {
            let name = r.next() as u16;
            if pairs {
                g.u2(name);
            }
            let (tag, kind) = spec::ELEM_SIMPLE[r.below(spec::ELEM_SIMPLE.len())];
            let x = r.next() as u16;
            g.u1(tag);
            g.u2(x);
            let e = t(kind, vec![n(x)]);
            l.push(if pairs { V::L(vec![n(name), e]) } else { e });
        }
        let mut v = if pairs {
            t("Annotation", vec![t("Anno", vec![n(7), V::L(l)])])
        } else {
            t("Array", vec![V::L(l)])
        };
        for d in (0..depth).rev() {
            v = if d % 2 == 0 {
                let last = g.elem_simple();
                t("Array", vec![V::L(vec![v, last])])
            } else {
                t("Annotation", vec![t("Anno", vec![n(3), V::L(vec![V::L(vec![n(4), v])])])])
            };
        }
        t("AnnotationDefault", vec![v])
    });
    selfcheck(&g);
    judge(cx, &g, true)
}

/// Chains of nested annotations and arrays.
fn chains(cx: &mut Cx) -> Res {
    let depth = cx.src.range(1, 16);
    let name = *cx.src.pick(&["AnnotationDefault", "RuntimeVisibleAnnotations", "RuntimeInvisibleParameterAnnotations"]);
    fn go(g: &mut Gen, left: u64) -> V {
        if left == 0 {
            return g.elem_simple();
        }
        if g.s.below(2) == 0 {
            g.u1(b'[');
            let pos = g.s.below(3);
            let extra = g.s.below(2);
            g.u2((pos + 1 + extra) as u16);
            let mut l: Vec<V> = (0..pos).map(|_| g.elem_simple()).collect();
            l.push(go(g, left - 1));
            l.extend((0..extra).map(|_| g.elem_simple()));
            t("Array", vec![V::L(l)])
        } else {
            g.u1(b'@');
            t("Annotation", vec![anno(g, left)])
        }
    }
    fn anno(g: &mut Gen, left: u64) -> V {
        let ty = g.idx();
        g.u2(ty);
        let extra = g.s.below(2);
        g.u2(1 + extra as u16);
        let mut l = vec![];
        for j in 0..=extra {
            let k = g.idx();
            g.u2(k);
            let e = if j == 0 { go(g, left - 1) } else { g.elem_simple() };
            l.push(V::L(vec![n(k), e]));
        }
        t("Anno", vec![n(ty), V::L(l)])
    }
    let at = *cx.src.pick(&[At::Class, At::Field, At::Method]);
    let g = Gen::new(&mut cx.src, &Cfg { big: false, filler: 2, ..BASE }).single(at, name, |g, _| match name {
        "AnnotationDefault" => t("AnnotationDefault", vec![go(g, depth)]),
        "RuntimeVisibleAnnotations" => {
            g.u2(1);
            t("RuntimeVisibleAnnotations", vec![V::L(vec![anno(g, depth)])])
        }
        _ => {
            g.u1(2);
            g.u2(0);
            g.u2(1);
            t(
                "RuntimeInvisibleParameterAnnotations",
                vec![V::L(vec![V::L(vec![]), V::L(vec![anno(g, depth)])])],
            )
        }
    });
    selfcheck(&g);
    cx.label(if depth > 8 { "deeper than 8" } else { "up to 8" });
    judge(cx, &g, true)
}

fn type_annos(cx: &mut Cx, f: impl FnOnce(&mut Gen) -> V) -> GenClass {
    let at = *cx.src.pick(&[At::Class, At::Field, At::Method, At::Code]);
    let name = *cx.src.pick(TYPEANNOS);
    Gen::new(&mut cx.src, &Cfg { big: false, filler: 2, ..BASE }).single(at, name, |g, _| {
        g.u2(2);
        let a = f(g);
        let b = g.type_anno();
        t(spec::attr_fmt(name).unwrap().0, vec![V::L(vec![a, b])])
    })
}

fn path_of(g: &mut Gen, k: usize, bad: Option<(usize, u8)>) -> V {
    g.u1(k as u8);
    let mut path = vec![];
    for j in 0..k {
        let mut p = g.s.below(4) as u8;
        if let Some((at, kind)) = bad {
            if at == j {
                p = kind;
            }
        }
        g.u1(p);
        let a = g.s.u8any();
        g.u1(a);
        path.push(V::L(vec![t(spec::PATHS.get(p as usize).copied().unwrap_or("?"), vec![]), n(a)]));
    }
    V::L(path)
}

fn target_tags(cx: &mut Cx) -> Res {
    let i = enumerated(cx);
    let tag = (i % 256) as u8;
    let g = type_annos(cx, |g| g.type_anno_of(tag));
    cx.nontrivial(true);
    cx.identity(&g.bytes);
    if !spec::TARGETS.iter().any(|x| x.0 == tag) {
        cx.label("undefined target");
        return expect_error(cx, &g.bytes, "undefined target type", t("InvalidTargetType", vec![]));
    }
    cx.label("defined target");
    selfcheck(&g);
    judge(cx, &g, true)
}

fn path_kinds(cx: &mut Cx) -> Res {
    let i = enumerated(cx);
    let kind = (i % 256) as u8;
    let len = cx.src.range(1, 5) as usize;
    let at = cx.src.below(len as u64) as usize;
    let g = type_annos(cx, |g| {
        g.u1(0x13);
        let p = path_of(g, len, Some((at, kind)));
        t("TypeAnno", vec![t("Field", vec![]), p, g.anno(3)])
    });
    cx.nontrivial(true);
    cx.identity(&g.bytes);
    if kind > 3 {
        cx.label("undefined kind");
        return expect_error(cx, &g.bytes, "undefined path kind", t("InvalidTypePath", vec![]));
    }
    cx.label("defined kind");
    selfcheck(&g);
    judge(cx, &g, true)
}

fn path_lengths(cx: &mut Cx) -> Res {
    let i = enumerated(cx);
    let g = type_annos(cx, |g| {
        g.u1(0x14);
        let p = path_of(g, i, None);
        t("TypeAnno", vec![t("Return", vec![]), p, g.anno(3)])
    });
    selfcheck(&g);
    judge(cx, &g, true)
}

fn var_tables(cx: &mut Cx) -> Res {
    let i = enumerated(cx);
    let (count, kind) = (counts()[i / 2], i % 2);
    let g = type_annos(cx, |g| {
        g.u1(0x40 + kind as u8);
        g.u2(count as u16);
        let mut l = vec![];
        for _ in 0..count {
            let mut e = vec![];
            for _ in 0..3 {
                let x = g.s.u16any();
                g.u2(x);
                e.push(n(x));
            }
            l.push(V::L(e));
        }
        let p = path_of(g, 1, None);
        t(
            "TypeAnno",
            vec![t(["LocalVariable", "ResourceVariable"][kind], vec![V::L(l)]), p, g.anno(3)],
        )
    });
    selfcheck(&g);
    judge(cx, &g, true)
}
