//! Generator of well-formed class files. It writes the bytes, builds the tree a correct parser must report,
//! and remembers where every tag, count, length and attribute lies, for the checks that corrupt them.
use crate::engine::Src;
use crate::refdec::mutf8_encode;
use crate::spec::{self, F};
use crate::val::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sp {
    CpCount,
    CpTag,
    RefKind,
    Utf8Len,
    Utf8Body,
    AttrName,
    AttrLen,
    AttrCount,
    Count,
    CodeLen,
    Opcode,
    WideOp,
    ArrayTy,
    ElemTag,
    Target,
    PathLen,
    PathKind,
    FrameTag,
    VerifTag,
    Low,
    High,
    NPairs,
    Flags,
    Data,
}

#[derive(Clone, Copy, Debug)]
pub struct Span {
    pub off: usize,
    pub len: usize,
    pub kind: Sp,
    /// constant index, code offset of the instruction, or attribute number
    pub aux: usize,
}

#[derive(Clone, Debug)]
pub struct AttrRec {
    pub name: String,
    /// of the name index
    pub start: usize,
    pub content: usize,
    pub end: usize,
    pub list: usize,
}

#[derive(Clone, Debug)]
pub struct ListRec {
    pub count_off: usize,
    pub end: usize,
    pub parent: Option<usize>,
    pub count: usize,
}

pub struct GenClass {
    pub bytes: Vec<u8>,
    /// Where the part after the constants begins.
    pub body: usize,
    pub pool: V,
    pub class: V,
    pub spans: Vec<Span>,
    pub attrs: Vec<AttrRec>,
    pub lists: Vec<ListRec>,
}

#[derive(Clone)]
pub struct Cfg {
    /// Attributes to generate; empty = all.
    pub focus: &'static [&'static str],
    /// Up to this many random constants before the needed ones.
    pub filler: u64,
    pub ifaces: u64,
    pub fields: u64,
    pub methods: u64,
    /// Attributes per list.
    pub attrs: u64,
    /// Allow now and then large tables and bodies.
    pub big: bool,
    /// Probability (of 16) to place any attribute at any point.
    pub anywhere: u64,
    /// Probability (of 16) of an unknown attribute.
    pub unknown: u64,
    /// Maximum number of instructions in ordinary bodies.
    pub code: u64,
    /// Only these opcodes (empty = all).
    pub ops: &'static [u8],
}

pub const ANY: Cfg = Cfg {
    focus: &[],
    filler: 12,
    ifaces: 4,
    fields: 3,
    methods: 3,
    attrs: 3,
    big: true,
    anywhere: 2,
    unknown: 2,
    code: 24,
    ops: &[],
};

/// A smaller profile, for checks that try many corruptions per file.
pub const SMALL: Cfg = Cfg {
    filler: 4,
    ifaces: 2,
    fields: 2,
    methods: 2,
    attrs: 2,
    big: false,
    code: 8,
    ..ANY
};

const IN_CLASS: &[&str] = &[
    "SourceFile",
    "InnerClasses",
    "EnclosingMethod",
    "SourceDebugExtension",
    "BootstrapMethods",
    "Module",
    "ModulePackages",
    "ModuleMainClass",
    "Synthetic",
    "Deprecated",
    "Signature",
    "RuntimeVisibleAnnotations",
    "RuntimeInvisibleAnnotations",
    "RuntimeVisibleTypeAnnotations",
    "RuntimeInvisibleTypeAnnotations",
];
const IN_FIELD: &[&str] = &[
    "ConstantValue",
    "Synthetic",
    "Deprecated",
    "Signature",
    "RuntimeVisibleAnnotations",
    "RuntimeInvisibleAnnotations",
    "RuntimeVisibleTypeAnnotations",
    "RuntimeInvisibleTypeAnnotations",
];
const IN_METHOD: &[&str] = &[
    "Code",
    "Code",
    "Exceptions",
    "MethodParameters",
    "AnnotationDefault",
    "Synthetic",
    "Deprecated",
    "Signature",
    "RuntimeVisibleParameterAnnotations",
    "RuntimeInvisibleParameterAnnotations",
    "RuntimeVisibleAnnotations",
    "RuntimeInvisibleAnnotations",
    "RuntimeVisibleTypeAnnotations",
    "RuntimeInvisibleTypeAnnotations",
];
const IN_CODE: &[&str] = &[
    "LineNumberTable",
    "LocalVariableTable",
    "LocalVariableTypeTable",
    "StackMapTable",
    "RuntimeVisibleTypeAnnotations",
    "RuntimeInvisibleTypeAnnotations",
];

pub const UNKNOWN: &[&str] = &[
    "Custom",
    "NestHost",
    "NestMembers",
    "Record",
    "PermittedSubclasses",
    "",
    "code",
    "Cod",
    "Code ",
    "CODE",
    "StackMap",
    "EnclosingMethods",
    "InnerClass",
    "Exception",
    "Synthetics",
    "deprecated",
    "LineNumberTables",
    "RuntimeVisibleAnnotation",
    "RuntimeInvisibleTypeAnnotation",
    "MethodParameter",
    "ModuleHashes",
    "ModuleTarget",
    "org.example.Attr",
    "Sign\u{0}ature",
    "Código",
    "\u{1F600}",
];

pub fn known(name: &str) -> bool {
    spec::attr_fmt(name).is_some()
}

/// A name no attribute of the format has.
pub fn unknown_name(s: &mut Src) -> String {
    let x = match s.below(8) {
        4 => text(s),
        5 | 6 | 7 => {
            // a known name and more around it
            let base = spec::ATTRS[s.below(spec::ATTRS.len() as u64) as usize].0;
            s.near_text(base)
        }
        3 => s.known_text(),
        _ => String::from("Code"),
    };
    if !known(&x) && x.len() < 4000 {
        return x;
    }
    (*s.pick(UNKNOWN)).to_string()
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum At {
    Class,
    Field,
    Method,
    Code,
}

pub fn text(s: &mut Src) -> String {
    if s.chance(1, 12) {
        return s.known_text();
    }
    let k = match s.below(12) {
        0 => 0,
        1..=8 => s.range(1, 8),
        9 => s.count(6000) as u64,
        10 => s.below(40),
        _ => s.below(200),
    };
    let style = s.below(6);
    let mut out = String::new();
    for _ in 0..k {
        let c = match if style == 5 { s.below(5) } else { style } {
            0 | 1 => *s.pick(&['a', 'b', 'I', 'L', '/', ';', '(', ')', 'V', '[', '$', '<', '>', '\u{1}', '\u{7F}']),
            2 => char::from_u32(s.range(0x80, 0x7FF) as u32).unwrap(),
            3 => {
                let x = s.range(0x800, 0xFFFF - 0x800) as u32;
                char::from_u32(if x >= 0xD800 { x + 0x800 } else { x }).unwrap()
            }
            _ => match s.below(4) {
                0 => '\u{0}',
                1 => *s.pick(&[
                    '\u{80}',
                    '\u{7FF}',
                    '\u{800}',
                    '\u{FFFF}',
                    '\u{D7FF}',
                    '\u{E000}',
                    '\u{10000}',
                    '\u{10FFFF}',
                ]),
                _ => char::from_u32(s.range(0x10000, 0x10FFFF) as u32).unwrap(),
            },
        };
        out.push(c);
    }
    out
}

/// A constant pool under construction.
#[derive(Default)]
pub struct Cp {
    pub out: Vec<u8>,
    pub slots: Vec<V>,
    pub spans: Vec<Span>,
    /// (start, end) of items in out
    items: Vec<(usize, usize, V)>,
    names: BTreeMap<String, Vec<u16>>,
}

impl Cp {
    pub fn next_index(&self) -> usize {
        self.slots.len() + 1
    }
    fn add(&mut self, start: usize, v: V, wide: bool) -> u16 {
        let i = self.next_index() as u16;
        self.items.push((start, self.out.len(), v.clone()));
        self.slots.push(v);
        if wide {
            self.slots.push(t("none", vec![]));
        }
        i
    }
    fn span(&mut self, off: usize, len: usize, kind: Sp) {
        let aux = self.next_index();
        self.spans.push(Span { off, len, kind, aux });
    }
    pub fn utf8(&mut self, text: &str) -> u16 {
        let start = self.out.len();
        let enc = mutf8_encode(text);
        assert!(enc.len() < 65536);
        self.span(start, 1, Sp::CpTag);
        self.out.push(1);
        self.span(start + 1, 2, Sp::Utf8Len);
        self.out.extend((enc.len() as u16).to_be_bytes());
        self.span(start + 3, enc.len(), Sp::Utf8Body);
        self.out.extend(&enc);
        let i = self.add(start, t("Utf8", vec![V::S(text.to_string())]), false);
        self.names.entry(text.to_string()).or_default().push(i);
        i
    }
    /// A random constant; sometimes a repetition of an earlier one.
    pub fn random(&mut self, s: &mut Src) -> u16 {
        if !self.items.is_empty() && s.chance(1, 8) {
            return self.related(s);
        }
        if !self.items.is_empty() && s.chance(1, 6) {
            let k = s.below(self.items.len() as u64) as usize;
            let (a, b, v) = self.items[k].clone();
            if let V::T("Utf8", x) = &v {
                if let V::S(x) = &x[0] {
                    let x = x.clone();
                    return self.utf8(&x);
                }
            }
            let start = self.out.len();
            self.span(start, 1, Sp::CpTag);
            let part = self.out[a..b].to_vec();
            self.out.extend(part);
            let wide = matches!(v.tag(), "Long" | "Double");
            return self.add(start, v, wide);
        }
        let c = spec::CONSTS[s.below(spec::CONSTS.len() as u64) as usize];
        self.of_kind(s, c)
    }
    /// A constant much like an earlier one, most often the last: the same text with a character more, less or
    /// changed, the same bytes under another tag, other bytes under the same tag.
    pub fn related(&mut self, s: &mut Src) -> u16 {
        let have = self.items.len() as u64;
        if have == 0 {
            return self.random(s);
        }
        let back = match s.below(4) {
            0 | 1 => 1,
            2 => s.range(1, have.min(4)),
            _ => s.range(1, have),
        };
        let (a, b, v) = self.items[(have - back) as usize].clone();
        if let V::T("Utf8", x) = &v {
            if let V::S(x) = &x[0] {
                if s.chance(1, 8) {
                    let k = s.below(spec::CONSTS.len() as u64) as usize;
                    return self.of_kind(s, spec::CONSTS[k]);
                }
                let x = if s.chance(1, 8) {
                    x.chars().rev().collect()
                } else {
                    s.near_text(x)
                };
                return if x.len() < 20000 { self.utf8(&x) } else { self.random(s) };
            }
        }
        let mut tag = self.out[a];
        let mut bytes = self.out[a + 1..b].to_vec();
        if s.chance(1, 3) {
            let alike: &[u8] = match bytes.len() {
                2 => &[7, 8, 16, 19, 20],
                4 => &[3, 4, 9, 10, 11, 12, 18],
                8 => &[5, 6],
                _ => &[15],
            };
            tag = *s.pick(alike);
        }
        let l = bytes.len();
        let i = s.below(l as u64) as usize;
        match s.below(6) {
            0 => bytes[i] = bytes[i].wrapping_add(1),
            1 => bytes[i] = bytes[i].wrapping_sub(1),
            2 => bytes[i] ^= 1 << s.below(8),
            3 => bytes[i] = bytes[s.below(l as u64) as usize],
            4 if l > 3 => bytes.rotate_left(l / 2),
            _ => {}
        }
        if tag == 15 {
            bytes[0] = 1 + (bytes[0].wrapping_sub(1)) % 9;
        }
        self.of_bytes(tag, &bytes)
    }
    fn of_bytes(&mut self, tag: u8, bytes: &[u8]) -> u16 {
        let (_, name, fmt) = *spec::CONSTS.iter().find(|c| c.0 == tag).unwrap();
        let start = self.out.len();
        self.span(start, 1, Sp::CpTag);
        self.out.push(tag);
        if tag == 15 {
            self.span(start + 1, 1, Sp::RefKind);
        }
        self.out.extend(bytes);
        let u = |a: usize, b: usize| bytes[a..b].iter().fold(0u64, |x, y| x << 8 | u64::from(*y));
        let v = match tag {
            3 => vec![n(u(0, 4) as u32 as i32)],
            4 => vec![n(u(0, 4) as u32)],
            5 | 6 => vec![V::N(u(0, 8) as i64)],
            15 => vec![t(spec::REF_KINDS[bytes[0] as usize], vec![]), n(u(1, 3) as u16)],
            _ => (0..fmt.len()).map(|k| n(u(2 * k, 2 * k + 2) as u16)).collect(),
        };
        self.add(start, t(name, v), tag == 5 || tag == 6)
    }
    pub fn of_kind(&mut self, s: &mut Src, (tag, name, fmt): (u8, &'static str, &'static str)) -> u16 {
        if tag == 1 {
            let x = text(s);
            return self.utf8(&x);
        }
        let start = self.out.len();
        self.span(start, 1, Sp::CpTag);
        self.out.push(tag);
        let mut wide = false;
        let v = match tag {
            3 | 4 => {
                let x = s.u32any();
                self.out.extend(x.to_be_bytes());
                vec![if tag == 3 { n(x as i32) } else { n(x) }]
            }
            5 | 6 => {
                wide = true;
                let x = s.u64any();
                self.out.extend(x.to_be_bytes());
                vec![V::N(x as i64)]
            }
            15 => {
                let k = s.range(1, 9) as usize;
                self.span(start + 1, 1, Sp::RefKind);
                self.out.push(k as u8);
                let x = s.u16any();
                self.out.extend(x.to_be_bytes());
                vec![t(spec::REF_KINDS[k], vec![]), n(x)]
            }
            _ => {
                let mut v = vec![];
                for _ in fmt.chars() {
                    let x = if s.chance(1, 6) {
                        // this one or one beside it
                        (self.next_index() as u64 + s.below(5)).saturating_sub(2) as u16
                    } else {
                        s.u16any()
                    };
                    self.out.extend(x.to_be_bytes());
                    v.push(n(x));
                }
                v
            }
        };
        self.add(start, t(name, v), wide)
    }
}

pub struct Gen<'a> {
    pub s: &'a mut Src,
    pub cfg: Cfg,
    pub cp: Cp,
    pub out: Vec<u8>,
    spans: Vec<Span>,
    attrs: Vec<AttrRec>,
    lists: Vec<ListRec>,
    open: Vec<usize>,
    /// remaining attributes, to bound nesting products
    fuel: u32,
    /// Fields of the current element agree with each other and with their surroundings.
    close: bool,
    /// Values that mean something here: ends and starts of instructions, sizes.
    marks: Vec<u16>,
    /// The last values written.
    seen: [u16; 4],
    /// Lists and elements written before, by the shape of their format.
    past: Vec<(u64, Vec<u8>, V)>,
    /// The elements of short lists written before.
    runs: Vec<(u64, Vec<(Vec<u8>, V)>)>,
}

fn depth(v: &V) -> usize {
    match v {
        V::L(l) | V::T(_, l) => 1 + l.iter().map(depth).max().unwrap_or(0),
        _ => 0,
    }
}

fn shape(f: &[F]) -> u64 {
    f.iter().fold(7, |h: u64, x| {
        let k = match x {
            F::U1 => 1,
            F::U2 => 2,
            F::Flags => 3,
            F::List(w, inner) => shape(inner).wrapping_mul(16).wrapping_add(4 + u64::from(*w)),
            F::Named(c) => 1000 + *c as u64,
        };
        h.wrapping_mul(1_000_003).wrapping_add(k)
    })
}

impl<'a> Gen<'a> {
    pub fn new(s: &'a mut Src, cfg: &Cfg) -> Gen<'a> {
        let mut g = Gen {
            s,
            cfg: cfg.clone(),
            cp: Cp::default(),
            out: vec![],
            spans: vec![],
            attrs: vec![],
            lists: vec![],
            open: vec![],
            fuel: 60,
            close: false,
            marks: vec![],
            seen: [0; 4],
            past: vec![],
            runs: vec![],
        };
        if g.cfg.big && g.cfg.filler > 0 && g.s.chance(1, 1500) {
            g.far();
        }
        let k = g.s.below(g.cfg.filler + 1);
        for _ in 0..k {
            g.cp.random(g.s);
        }
        g
    }

    /// Many constants first, so that those in use are far away.
    pub fn far(&mut self) {
        let k = match self.s.below(5) {
            0 => self.s.range(250, 260),
            1 => self.s.range(32_700, 32_800),
            2 => self.s.range(60_000, 64_500),
            _ => self.s.range(200, 60_000),
        };
        let kind = self.s.below(3);
        for i in 0..k {
            let start = self.cp.out.len();
            let (tag, name) = [(7, "Class"), (3, "Integer"), (20, "Package")][kind as usize];
            self.cp.out.push(tag);
            if tag == 3 {
                self.cp.out.extend((i as u32).to_be_bytes());
            } else {
                self.cp.out.extend((i as u16).to_be_bytes());
            }
            self.cp.add(start, t(name, vec![n(i as u16)]), false);
        }
    }

    pub fn span(&mut self, len: usize, kind: Sp, aux: usize) {
        self.spans.push(Span { off: self.out.len(), len, kind, aux });
    }
    pub fn u1(&mut self, x: u8) {
        self.out.push(x);
    }
    pub fn u2(&mut self, x: u16) {
        self.seen = [x, self.seen[0], self.seen[1], self.seen[2]];
        self.out.extend(x.to_be_bytes());
    }
    /// Decides for the next element; returns what was in force before.
    fn element(&mut self, q: u64) -> bool {
        let was = self.close;
        self.close = self.s.chance(1, q);
        was
    }
    /// A value that agrees with others, in an element of such values.
    fn agreeing(&mut self) -> Option<u16> {
        if !self.close {
            return None;
        }
        let mark = |g: &mut Gen| {
            let l = g.marks.len() as u64 + 1;
            let i = g.s.below(l) as usize;
            g.marks.get(i).copied().unwrap_or(g.cp.next_index() as u16)
        };
        Some(match self.s.below(8) {
            0 => 0,
            1 | 2 => mark(self),
            3 | 4 => {
                let i = self.s.below(4) as usize;
                self.seen[i]
            }
            5 => mark(self).wrapping_sub(self.seen[0]),
            6 => self.seen[self.s.below(2) as usize].wrapping_add(1),
            _ => return None,
        })
    }
    pub fn val(&mut self) -> u16 {
        match self.agreeing() {
            Some(x) => x,
            None => self.s.u16any(),
        }
    }
    pub fn byte(&mut self) -> u8 {
        match self.agreeing() {
            Some(x) => x as u8,
            None => self.s.u8any(),
        }
    }
    pub fn i4(&mut self, x: i32) {
        self.out.extend(x.to_be_bytes());
    }

    /// An index operand: near the pool or anything at all.
    pub fn idx(&mut self) -> u16 {
        if let Some(x) = self.agreeing() {
            return x;
        }
        if self.s.below(4) == 0 {
            let k = self.cp.next_index() as u64;
            self.s.below((k + 3).min(65536)) as u16
        } else {
            self.s.u16any()
        }
    }

    pub fn len(&mut self, max: u64) -> usize {
        if self.cfg.big && self.s.chance(1, 150) {
            return match self.s.below(5) {
                4 => (self.s.u16any() as usize).min(3000).min(max as usize),
                0 => self.s.range(200, 300).min(max) as usize,
                1 => *self.s.pick(&[255, 256, 127, 128]).min(&max) as usize,
                2 => self.s.below(2000).min(max) as usize,
                _ => self.s.below(600).min(max) as usize,
            };
        }
        self.s.count(max)
    }

    pub fn name(&mut self, text: &str) -> u16 {
        let have = self.cp.names.get(text).cloned().unwrap_or_default();
        if !have.is_empty() && self.s.below(8) != 7 {
            return *self.s.pick(&have);
        }
        while self.s.chance(1, 4) && self.cp.next_index() < 60000 {
            self.cp.random(self.s);
        }
        self.cp.utf8(text)
    }

    pub fn fmt(&mut self, f: &[F], nest: u32) -> Vec<V> {
        let mut v = vec![];
        for x in f {
            v.push(match x {
                F::U1 => {
                    let x = self.byte();
                    self.span(1, Sp::Data, 0);
                    self.u1(x);
                    n(x)
                }
                F::U2 => {
                    let x = self.idx();
                    self.span(2, Sp::Data, 0);
                    self.u2(x);
                    n(x)
                }
                F::Flags => {
                    let x = self.val();
                    self.span(2, Sp::Flags, 0);
                    self.u2(x);
                    n(x)
                }
                F::List(w, inner) => {
                    let whole = shape(std::slice::from_ref(x));
                    if let Some(l) = self.as_before(whole) {
                        v.push(l);
                        continue;
                    }
                    let from = self.out.len();
                    let k = self.len(if *w == 1 { 255 } else { 65535 });
                    // nested structures stay small
                    let k = if matches!(inner[0], F::Named(_)) && k > 40 { k % 41 } else { k };
                    let kind = shape(inner).wrapping_add(u64::from(*w));
                    let (k, mut l, mut starts) = self.begin(kind, k, u16::from(*w), Sp::Count, inner);
                    while l.len() < k {
                        if self.again(10, k, &mut starts, &mut l, inner) {
                            continue;
                        }
                        let nested = inner.len() > 1 && k < 12;
                        let part = if nested { shape(inner) } else { 0 };
                        if nested {
                            let at = self.out.len();
                            if let Some(mut e) = self.as_before(part) {
                                self.vary(at, &mut e, inner);
                                l.push(e);
                                continue;
                            }
                        }
                        let was = self.element(6);
                        let start = self.out.len();
                        let mut e = self.fmt(inner, nest);
                        self.close = was;
                        l.push(if e.len() == 1 { e.pop().unwrap() } else { V::L(e) });
                        if nested {
                            self.keep(part, start, &l[l.len() - 1]);
                        }
                    }
                    self.done(kind, &starts, &l);
                    let l = V::L(l);
                    if k > 0 {
                        self.keep(whole, from, &l);
                    }
                    l
                }
                F::Named('A') => self.anno(nest),
                F::Named('E') => self.elem(nest),
                F::Named('T') => self.type_anno(),
                F::Named('S') => self.frame(),
                F::Named(c) => panic!("no structure {}", c),
            });
        }
        v
    }

    /// What was written since `start` may come again.
    fn keep(&mut self, shape: u64, start: usize, v: &V) {
        if self.out.len() - start > 200 {
            return;
        }
        let bytes = self.out[start..].to_vec();
        if self.past.len() < 12 {
            self.past.push((shape, bytes, v.clone()));
        } else {
            let i = (start + bytes.len()) % 12;
            self.past[i] = (shape, bytes, v.clone());
        }
    }

    /// Now and then writes the same as before in another place.
    fn as_before(&mut self, shape: u64) -> Option<V> {
        let l = self.past.iter().filter(|p| p.0 == shape).count() as u64;
        if l == 0 || !self.s.chance(1, 12) {
            return None;
        }
        let i = self.s.below(l) as usize;
        let (_, bytes, v) = self.past.iter().filter(|p| p.0 == shape).nth(i).unwrap().clone();
        self.out.extend(bytes);
        Some(v)
    }

    /// Begins a list of `k` elements: writes the count, and now and then elements of
    /// a similar list before it. Returns the count, what is there already, and where.
    fn begin(&mut self, shape: u64, k: usize, width: u16, kind: Sp, inner: &[F]) -> (usize, Vec<V>, Vec<usize>) {
        let mut k = k;
        let mut run = vec![];
        let have = self.runs.iter().filter(|p| p.0 == shape).count() as u64;
        if have > 0 && self.s.chance(1, 10) {
            let pick = |g: &mut Gen| {
                let i = g.s.below(have) as usize;
                g.runs.iter().filter(|p| p.0 == shape).nth(i).unwrap().1.clone()
            };
            run = pick(self);
            let len = run.len();
            let mut more = 0;
            match self.s.below(10) {
                0 => run.truncate(self.s.below(len as u64) as usize),
                1 => {
                    let i = if self.s.below(2) == 0 { 0 } else { self.s.below(len as u64) as usize };
                    run.remove(i);
                }
                2 => run.reverse(),
                3 => run.extend_from_within(..),
                4 => {
                    let (i, j) = (self.s.below(len as u64) as usize, self.s.below(len as u64) as usize);
                    run.swap(i, j);
                }
                5 => {
                    let other = pick(self);
                    run.extend(other);
                }
                6 => run.rotate_left(1),
                7 => {}
                _ => more = self.s.range(1, 3) as usize,
            }
            k = run.len() + more;
        }
        self.span(width as usize, kind, 0);
        if width == 1 {
            self.u1(k as u8);
        } else {
            self.u2(k as u16);
        }
        let mut starts = vec![];
        let mut l = vec![];
        let odd = self.s.below(2 * run.len().max(1) as u64) as usize;
        for (i, (b, mut v)) in run.into_iter().enumerate() {
            let at = self.out.len();
            starts.push(at);
            self.out.extend(b);
            if i == odd {
                self.vary(at, &mut v, inner);
            }
            l.push(v);
        }
        (k, l, starts)
    }

    /// The list may come again, or another like it.
    fn done(&mut self, shape: u64, starts: &[usize], l: &[V]) {
        if l.is_empty() || l.len() > 12 || self.out.len() - starts[0] > 300 || l.iter().any(|v| depth(v) > 4) {
            return;
        }
        let run = (0..l.len())
            .map(|i| (self.out[starts[i]..starts.get(i + 1).copied().unwrap_or(self.out.len())].to_vec(), l[i].clone()))
            .collect();
        let i = if self.runs.len() < 16 { self.runs.len() } else { (starts[0] + l.len()) % 16 };
        if i == self.runs.len() {
            self.runs.push((shape, run));
        } else {
            self.runs[i] = (shape, run);
        }
    }

    /// Now and then repeats an element of the list, mostly the last one,
    /// as it is or (when it is flat) with one field changed.
    /// `starts` holds where the elements begin, and is extended for the next one.
    fn again(&mut self, p: u64, k: usize, starts: &mut Vec<usize>, l: &mut Vec<V>, inner: &[F]) -> bool {
        let start = self.out.len();
        if l.is_empty() || start > 300_000 || !self.s.chance(1, p) {
            starts.push(start);
            return false;
        }
        if l.len() > 1 && l.len() + 2 <= k && self.s.chance(1, 4) {
            // the last few
            let m = self.s.range(2, (l.len().min(k - l.len()).min(4)) as u64) as usize;
            let first = l.len() - m;
            for j in first..first + m {
                let end = starts.get(j + 1).copied().unwrap_or(start);
                let to = self.out.len();
                self.out.extend_from_within(starts[j]..end);
                starts.push(to);
                l.push(l[j].clone());
            }
            return true;
        }
        let j = match self.s.below(3) {
            2 => self.s.below(l.len() as u64) as usize,
            1 if l.len() > 1 => l.len() - 2,
            _ => l.len() - 1,
        };
        let end = starts.get(j + 1).copied().unwrap_or(start);
        self.out.extend_from_within(starts[j]..end);
        starts.push(start);
        let mut v = l[j].clone();
        self.vary(start, &mut v, inner);
        l.push(v);
        true
    }

    /// One field of a flat element at `start` becomes another, now and then.
    fn vary(&mut self, start: usize, v: &mut V, inner: &[F]) {
        let flat = inner.iter().all(|f| matches!(f, F::U1 | F::U2 | F::Flags));
        if flat && !inner.is_empty() && self.s.chance(1, 2) {
            let k = self.s.below(inner.len() as u64) as usize;
            let off: usize = inner[..k].iter().map(|f| if matches!(f, F::U1) { 1 } else { 2 }).sum();
            let new = if matches!(inner[k], F::U1) {
                let x = self.s.u8any();
                self.out[start + off] = x;
                n(x)
            } else {
                // anything, or the sum or the place of fields of the repeated element
                let others: Vec<u16> = {
                    let mut o = start;
                    let mut v = vec![];
                    for f in inner {
                        if !matches!(f, F::U1) {
                            v.push(u16::from_be_bytes([self.out[o], self.out[o + 1]]));
                        }
                        o += if matches!(f, F::U1) { 1 } else { 2 };
                    }
                    v
                };
                let x = match self.s.below(4) {
                    0 | 1 => self.s.u16any(),
                    m => {
                        let a = *self.s.pick(&others);
                        let b = if m == 2 { *self.s.pick(&others) } else { 0 };
                        a.wrapping_add(b).wrapping_add(self.s.below(3) as u16).wrapping_sub(1)
                    }
                };
                self.out[start + off..start + off + 2].copy_from_slice(&x.to_be_bytes());
                n(x)
            };
            match v {
                V::L(l) => l[k] = new,
                other => *other = new,
            }
        }
    }

    pub fn anno(&mut self, nest: u32) -> V {
        let ty = self.idx();
        self.u2(ty);
        let mut k = self.s.count(if nest == 0 && self.cfg.big { 3000 } else { 8 });
        if nest == 0 && self.cfg.big && self.s.chance(1, 200) {
            k = self.s.below(400) as usize;
        } else if nest > 2 {
            k = k.min(2);
        }
        let (k, mut l, mut starts) = self.begin(1, k, 2, Sp::Count, &[]);
        while l.len() < k {
            if self.again(12, k, &mut starts, &mut l, &[F::Named('A')]) {
                continue;
            }
            let name = self.idx();
            self.u2(name);
            // long lists hold simple values
            l.push(V::L(vec![n(name), self.elem(if k > 8 { 12 } else { nest })]));
        }
        self.done(1, &starts, &l);
        t("Anno", vec![n(ty), V::L(l)])
    }

    pub fn elem(&mut self, nest: u32) -> V {
        let k = spec::ELEM_SIMPLE.len() as u64;
        let top = if nest < 12 && (nest < 3 || self.s.chance(1, 2)) { k + 5 } else { k + 1 };
        let tag = match self.s.below(top) {
            i if i < k => spec::ELEM_SIMPLE[i as usize].0,
            i if i == k => b'e',
            i if i <= k + 2 => b'@',
            _ => b'[',
        };
        self.elem_of(tag, nest)
    }

    pub fn elem_simple(&mut self) -> V {
        let tag = match self.s.below(11) {
            10 => b'e',
            i => spec::ELEM_SIMPLE[i as usize].0,
        };
        self.elem_of(tag, 0)
    }

    /// A value with the given tag (undefined ones included, with an index as content).
    pub fn elem_of(&mut self, tag: u8, nest: u32) -> V {
        self.span(1, Sp::ElemTag, 0);
        self.u1(tag);
        match tag {
            b'e' => {
                let (a, b) = (self.idx(), self.idx());
                self.u2(a);
                self.u2(b);
                t("Enum", vec![n(a), n(b)])
            }
            b'@' => t("Annotation", vec![self.anno(nest + 1)]),
            b'[' => {
                let mut c = self.s.count(if nest == 0 && self.cfg.big { 3000 } else { 6 });
                if nest == 0 && self.cfg.big && self.s.chance(1, 100) {
                    c = self.s.below(700) as usize;
                } else if nest > 2 {
                    c = c.min(2);
                }
                let (c, mut l, mut starts) = self.begin(2, c, 2, Sp::Count, &[]);
                while l.len() < c {
                    if self.again(12, c, &mut starts, &mut l, &[F::Named('E')]) {
                        continue;
                    }
                    // long arrays hold simple values
                    l.push(self.elem(if c > 6 { 12 } else { nest + 1 }));
                }
                self.done(2, &starts, &l);
                t("Array", vec![V::L(l)])
            }
            _ => {
                let x = self.idx();
                self.u2(x);
                let name = spec::ELEM_SIMPLE.iter().find(|e| e.0 == tag).map_or("?", |e| e.1);
                t(name, vec![n(x)])
            }
        }
    }

    pub fn type_anno(&mut self) -> V {
        let tag = self.s.pick(spec::TARGETS).0;
        let was = self.element(5);
        let v = self.type_anno_of(tag);
        self.close = was;
        v
    }

    pub fn type_anno_of(&mut self, tag: u8) -> V {
        let (_, name, fmt) = spec::TARGETS.iter().copied().find(|x| x.0 == tag).unwrap_or((tag, "?", "H"));
        self.span(1, Sp::Target, 0);
        self.u1(tag);
        let mut ops = vec![];
        for c in fmt.chars() {
            ops.push(match c {
                'B' => {
                    let x = self.byte();
                    self.u1(x);
                    n(x)
                }
                'H' => {
                    let x = self.val();
                    self.u2(x);
                    n(x)
                }
                _ => {
                    let k = self.len(4000);
                    let (k, mut l, mut starts) = self.begin(3, k, 2, Sp::Count, &[F::U2, F::U2, F::U2]);
                    while l.len() < k {
                        if self.again(12, k, &mut starts, &mut l, &[F::U2, F::U2, F::U2]) {
                            continue;
                        }
                        let was = self.element(4);
                        let a = self.val();
                        self.u2(a);
                        let b = self.val();
                        self.u2(b);
                        let c = self.val();
                        self.u2(c);
                        self.close = was;
                        l.push(V::L(vec![n(a), n(b), n(c)]));
                    }
                    self.done(3, &starts, &l);
                    V::L(l)
                }
            });
        }
        let k = self.len(255);
        let (k, mut path, mut starts) = self.begin(4, k, 1, Sp::PathLen, &[]);
        while path.len() < k {
            if self.again(12, k, &mut starts, &mut path, &[F::Named('P')]) {
                continue;
            }
            let p = self.s.below(4);
            self.span(1, Sp::PathKind, 0);
            self.u1(p as u8);
            let a = self.byte();
            self.u1(a);
            path.push(V::L(vec![t(spec::PATHS[p as usize], vec![]), n(a)]));
        }
        self.done(4, &starts, &path);
        let anno = self.anno(3);
        t("TypeAnno", vec![t(name, ops), V::L(path), anno])
    }

    pub fn verif(&mut self) -> V {
        let tag = self.s.below(9) as u8;
        self.verif_of(tag)
    }

    pub fn verif_of(&mut self, tag: u8) -> V {
        self.span(1, Sp::VerifTag, 0);
        self.u1(tag);
        let v = if tag >= 7 {
            let x = self.val();
            self.u2(x);
            vec![n(x)]
        } else {
            vec![]
        };
        t(spec::VERIF.get(tag as usize).copied().unwrap_or("?"), v)
    }

    fn verifs(&mut self, k: usize, counted: bool) -> V {
        let (k, mut l, mut starts) = if counted { self.begin(5, k, 2, Sp::Count, &[]) } else { (k, vec![], vec![]) };
        while l.len() < k {
            if self.again(12, k, &mut starts, &mut l, &[F::Named('V')]) {
                continue;
            }
            l.push(self.verif());
        }
        self.done(5, &starts, &l);
        V::L(l)
    }

    pub fn frame(&mut self) -> V {
        let tag = match self.s.below(6) {
            0 => self.s.below(64),
            1 => self.s.range(64, 127),
            2 => *self.s.pick(&[0, 63, 64, 127]),
            _ => self.s.range(247, 255),
        } as u8;
        self.frame_of(tag)
    }

    /// A frame of the given tag (reserved ones included, with plausible content).
    pub fn frame_of(&mut self, tag: u8) -> V {
        self.span(1, Sp::FrameTag, 0);
        self.u1(tag);
        if tag < 64 {
            return t("Same", vec![n(tag)]);
        }
        if tag < 128 {
            let v = self.verif();
            return t("Same1", vec![n(tag - 64), v]);
        }
        let d = self.val();
        self.u2(d);
        match tag {
            247 => {
                let v = self.verif();
                t("Same1", vec![n(d), v])
            }
            248..=250 => t("Chop", vec![n(d), n(251 - tag)]),
            251 => t("Same", vec![n(d)]),
            252..=254 => {
                let l = self.verifs(tag as usize - 251, false);
                t("Append", vec![n(d), l])
            }
            _ => {
                let mut p = vec![n(d)];
                for _ in 0..2 {
                    let k = self.len(2000);
                    p.push(self.verifs(k, true));
                }
                t("Full", p)
            }
        }
    }

    /// One instruction at code offset `at`; returns its tree.
    pub fn instr(&mut self, at: usize) -> V {
        let opcode = if !self.cfg.ops.is_empty() && self.s.below(4) != 3 {
            *self.s.pick(self.cfg.ops)
        } else {
            match self.s.below(12) {
                0 => 0xC4,
                1 => *self.s.pick(&[0xAA, 0xAB]),
                2 => *self.s.pick(&[0xFE, 0xFF, 0xCA, 0xB9, 0xBA, 0xBC, 0xC5, 0xC8, 0xC9, 0x84]),
                _ => self.s.below(0xCB) as u8,
            }
        };
        let was = self.element(6);
        let v = self.instr_of(opcode, at);
        self.close = was;
        v
    }

    pub fn instr_of(&mut self, opcode: u8, at: usize) -> V {
        let start = self.out.len();
        let op = spec::ops()[opcode as usize].as_ref().unwrap();
        self.span(1, Sp::Opcode, at);
        self.u1(opcode);
        let mut args = vec![];
        for c in op.args.chars() {
            match c {
                'b' => {
                    let x = self.byte();
                    self.u1(x);
                    args.push(n(x as i8));
                }
                'u' => {
                    let x = self.byte();
                    self.u1(x);
                    args.push(n(x));
                }
                's' => {
                    let x = self.val();
                    self.u2(x);
                    args.push(n(x as i16));
                }
                'h' => {
                    let x = self.idx();
                    self.u2(x);
                    args.push(n(x));
                }
                'i' => {
                    let x = match self.agreeing() {
                        Some(x) => i32::from(x as i16),
                        None => self.s.u32any() as i32,
                    };
                    self.i4(x);
                    args.push(n(x));
                }
                'z' => self.u1(0),
                'A' => {
                    let (k, name) = *self.s.pick(spec::ARRAY_TYPES);
                    self.span(1, Sp::ArrayTy, at);
                    self.u1(k);
                    args.push(t(name, vec![]));
                }
                'W' => {
                    let k = *self.s.pick(spec::WIDE);
                    self.span(1, Sp::WideOp, at);
                    self.u1(k);
                    let x = self.val();
                    self.u2(x);
                    let mut v = vec![n(x)];
                    let name = spec::ops()[k as usize].as_ref().unwrap().name;
                    if name == "iinc" {
                        let x = self.val();
                        self.u2(x);
                        v.push(n(x as i16));
                    }
                    return t(name, v);
                }
                'T' | 'L' => {
                    while (at + self.out.len() - start) % 4 != 0 {
                        self.u1(0);
                    }
                    let mut k = (1 + self.len(2500)) as i64;
                    let mut keys = BTreeSet::new();
                    if c == 'L' {
                        for _ in 0..k - 1 {
                            keys.insert(self.s.u32any() as i32);
                        }
                        k = keys.len() as i64;
                    }
                    let size = (self.out.len() - start) as i64 + if c == 'T' { 12 + 4 * k } else { 8 + 8 * k };
                    let d = match self.agreeing() {
                        _ if self.s.chance(1, 10) => size as i32,
                        Some(x) => i32::from(x as i16),
                        None => self.s.u32any() as i32,
                    };
                    self.i4(d);
                    args.push(n(d));
                    let mut l = vec![];
                    if c == 'T' {
                        let low = match self.s.below(5) {
                            0 => i32::MIN,
                            1 => (i32::MAX as i64 - (k - 1)) as i32,
                            2 => -((k / 2) as i32),
                            3 => self.s.below(10) as i32,
                            _ => (self.s.u32any() as i32 as i64).min(i32::MAX as i64 - (k - 1)) as i32,
                        };
                        let high = (low as i64 + k - 1) as i32;
                        self.span(4, Sp::Low, at);
                        self.i4(low);
                        self.span(4, Sp::High, at);
                        self.i4(high);
                        args.push(n(low));
                        args.push(n(high));
                        let mut targets = Targets::new(&mut self.s, d);
                        for i in 0..k {
                            let x = targets.next(&mut self.s, (low as i64 + i) as i32);
                            self.i4(x);
                            l.push(n(x));
                        }
                    } else {
                        self.span(4, Sp::NPairs, at);
                        self.i4(keys.len() as i32);
                        let mut targets = Targets::new(&mut self.s, d);
                        for k in keys {
                            let x = targets.next(&mut self.s, k);
                            self.i4(k);
                            self.i4(x);
                            l.push(V::L(vec![n(k), n(x)]));
                        }
                    }
                    args.push(V::L(l));
                }
                _ => unreachable!(),
            }
        }
        t(op.kind, args)
    }

    pub fn code(&mut self) -> Vec<V> {
        let outer = std::mem::take(&mut self.marks);
        let was = self.element(6);
        let a = self.val();
        self.u2(a);
        let b = self.val();
        self.u2(b);
        self.close = was;
        self.span(4, Sp::CodeLen, 0);
        let len_at = self.out.len();
        self.i4(0);
        let start = self.out.len();
        let mut ins = vec![];
        let mut want = 1 + self.s.below(self.cfg.code.max(1)) as usize;
        if self.cfg.big && self.s.chance(1, 60) {
            want = 1 + self.s.below(400) as usize;
        } else if self.s.chance(1, 12) {
            want = 1 + self.s.count(5000);
        }
        for _ in 0..want {
            let at = self.out.len() - start;
            if at > 40_000 {
                break;
            }
            // the same instruction again (switches depend on their place)
            if !ins.is_empty() && self.s.chance(1, 12) {
                let j = if self.s.below(2) == 0 { ins.len() - 1 } else { self.s.below(ins.len() as u64) as usize };
                let place = |v: &V| if let V::L(p) = v { p[0].num() as usize } else { 0 };
                let from = place(&ins[j]);
                let to = ins.get(j + 1).map_or(at, place);
                let v = if let V::L(p) = &ins[j] { p[1].clone() } else { unreachable!() };
                if !matches!(v.tag(), "tableswitch" | "lookupswitch") {
                    self.span(1, Sp::Opcode, at);
                    self.out.extend_from_within(start + from..start + to);
                    ins.push(V::L(vec![n(at as i64), v]));
                    continue;
                }
            }
            // jumps to where instructions begin
            self.marks.clear();
            self.marks.push((at as u16).wrapping_neg());
            if let Some(V::L(p)) = ins.last() {
                self.marks.push((p[0].num() as u16).wrapping_sub(at as u16));
            }
            if !ins.is_empty() {
                let i = self.s.below(ins.len() as u64) as usize;
                if let V::L(p) = &ins[i] {
                    self.marks.push((p[0].num() as u16).wrapping_sub(at as u16));
                }
                self.marks.push(3);
            }
            let v = self.instr(at);
            ins.push(V::L(vec![n(at as i64), v]));
        }
        if self.cfg.big && self.s.chance(1, 300) {
            // a long stretch of operand-free instructions, up to the format's limit
            let to = if self.s.below(2) == 0 { 65535 } else { self.s.below(65536) as usize };
            let room = to.saturating_sub(self.out.len() - start);
            for b in self.s.fill(room) {
                let at = self.out.len() - start;
                let op = b % 16;
                self.out.push(op);
                ins.push(V::L(vec![n(at as i64), t(spec::ops()[op as usize].as_ref().unwrap().kind, vec![])]));
            }
        }
        let len = (self.out.len() - start) as u32;
        self.out[len_at..len_at + 4].copy_from_slice(&len.to_be_bytes());
        self.marks.clear();
        self.marks.push(len as u16);
        self.marks.push((len as u16).wrapping_sub(1));
        let mid = self.s.below(ins.len() as u64) as usize;
        for i in [ins.len() - 1, 1, mid, mid + 1] {
            if let Some(V::L(p)) = ins.get(i) {
                self.marks.push(p[0].num() as u16);
            }
        }
        let k = self.len(3000);
        let (k, mut exc, mut starts) = self.begin(6, k, 2, Sp::Count, &[F::U2, F::U2, F::U2, F::U2]);
        while exc.len() < k {
            if self.again(12, k, &mut starts, &mut exc, &[F::U2, F::U2, F::U2, F::U2]) {
                continue;
            }
            let mut e = vec![];
            let was = self.element(3);
            for _ in 0..4 {
                let x = self.val();
                self.u2(x);
                e.push(n(x));
            }
            self.close = was;
            exc.push(V::L(e));
        }
        self.done(6, &starts, &exc);
        let attrs = self.attr_list(At::Code);
        self.marks = outer;
        vec![n(a), n(b), V::L(ins), V::L(exc), attrs]
    }

    fn choose(&mut self, at: At) -> Option<&'static str> {
        let allowed = match at {
            At::Class => IN_CLASS,
            At::Field => IN_FIELD,
            At::Method => IN_METHOD,
            At::Code => IN_CODE,
        };
        let focus = self.cfg.focus;
        if self.s.chance(self.cfg.anywhere, 16) {
            if focus.is_empty() {
                return Some(self.s.pick(spec::ATTRS).0);
            }
            return Some(*self.s.pick(focus));
        }
        if focus.is_empty() {
            return Some(*self.s.pick(allowed));
        }
        let mut c: Vec<&'static str> = allowed.iter().copied().filter(|a| focus.contains(a)).collect();
        if at == At::Method && !c.contains(&"Code") && IN_CODE.iter().any(|a| focus.contains(a)) {
            c.push("Code");
        }
        if c.is_empty() {
            return None;
        }
        Some(*self.s.pick(&c))
    }

    pub fn attr_list(&mut self, at: At) -> V {
        let mut k = self.s.below(self.cfg.attrs + 1) as usize;
        if self.cfg.big && self.fuel > 30 && self.s.chance(1, 100) {
            k = self.s.below(30) as usize;
        }
        let mut names = vec![];
        for _ in 0..k {
            if self.fuel == 0 {
                break;
            }
            self.fuel -= 1;
            if self.s.chance(self.cfg.unknown, 16) {
                names.push(unknown_name(self.s));
            } else if let Some(x) = self.choose(at) {
                if x == "Code" && self.open.len() >= 5 {
                    continue;
                }
                names.push(x.to_string());
            }
        }
        self.attr_list_of(&names)
    }

    pub fn attr_list_of(&mut self, names: &[String]) -> V {
        let list = self.open_list(names.len());
        let mut l: Vec<V> = vec![];
        let mut recs: Vec<usize> = vec![];
        for x in names {
            let me = self.attrs.len();
            if !recs.is_empty() && self.out.len() < 300_000 && self.s.chance(1, 12) {
                // an attribute of the list once more
                let j = if self.s.below(2) == 0 { recs.len() - 1 } else { self.s.below(recs.len() as u64) as usize };
                let p = self.attrs[recs[j]].clone();
                let start = self.out.len();
                self.span(2, Sp::AttrName, me);
                self.spans.push(Span { off: start + 2, len: 4, kind: Sp::AttrLen, aux: me });
                self.out.extend_from_within(p.start..p.end);
                self.attrs.push(AttrRec { name: p.name, start, content: start + 6, end: self.out.len(), list });
                recs.push(me);
                let v = l[j].clone();
                l.push(v);
                continue;
            }
            recs.push(me);
            let v = self.attr(x, list);
            l.push(v);
        }
        self.close_list(list);
        V::L(l)
    }

    pub fn attr(&mut self, name: &str, list: usize) -> V {
        let owned = name.to_string();
        self.attr_with(name, list, |g, idx| g.content(&owned, idx))
    }

    /// One attribute whose content and tree f makes.
    pub fn attr_with(&mut self, name: &str, list: usize, f: impl FnOnce(&mut Gen, u16) -> V) -> V {
        let me = self.attrs.len();
        let start = self.out.len();
        self.attrs.push(AttrRec { name: name.to_string(), start, content: start + 6, end: 0, list });
        let idx = self.name(name);
        self.span(2, Sp::AttrName, me);
        self.u2(idx);
        self.span(4, Sp::AttrLen, me);
        self.i4(0);
        self.open.push(me);
        let v = f(self, idx);
        self.open.pop();
        let end = self.out.len();
        let len = (end - start - 6) as u32;
        self.out[start + 2..start + 6].copy_from_slice(&len.to_be_bytes());
        self.attrs[me].end = end;
        v
    }

    pub fn content(&mut self, name: &str, idx: u16) -> V {
        match spec::attr_fmt(name) {
            None => {
                let k = if self.cfg.big && self.s.chance(1, 100) {
                    self.s.below(70_000) as usize
                } else {
                    self.len(70_000)
                };
                let b = if k > 64 { self.s.fill(k) } else { self.s.bytes(k) };
                self.out.extend(&b);
                t("Unknown", vec![n(idx), V::B(b)])
            }
            Some((kind, f)) => {
                let v = match f {
                    [F::Named('C')] => self.code(),
                    [F::Named('U')] => {
                        let mut x = text(self.s);
                        if self.cfg.big && self.s.chance(1, 60) {
                            x = x.repeat((self.s.below(2000) as usize).min(200_000 / (x.len() + 1)));
                        }
                        let enc = mutf8_encode(&x);
                        self.span(enc.len(), Sp::Utf8Body, usize::MAX);
                        self.out.extend(enc);
                        vec![V::S(x)]
                    }
                    _ => self.fmt(f, 0),
                };
                t(kind, v)
            }
        }
    }

    /// Starts an attribute list of one and returns its number.
    pub fn open_list(&mut self, count: usize) -> usize {
        let list = self.lists.len();
        self.lists.push(ListRec {
            count_off: self.out.len(),
            end: 0,
            parent: self.open.last().copied(),
            count,
        });
        self.span(2, Sp::AttrCount, list);
        self.u2(count as u16);
        list
    }
    pub fn close_list(&mut self, list: usize) {
        self.lists[list].end = self.out.len();
    }

    /// A list with one attribute whose content and tree f makes.
    pub fn list_with(&mut self, name: &str, f: impl FnOnce(&mut Gen, u16) -> V) -> V {
        let l = self.open_list(1);
        let v = self.attr_with(name, l, f);
        self.close_list(l);
        V::L(vec![v])
    }

    /// A class with one attribute, at the given place, whose content and tree f makes.
    pub fn single(self, at: At, name: &str, f: impl FnOnce(&mut Gen, u16) -> V) -> GenClass {
        self.one_list(at, |g| g.list_with(name, f))
    }

    /// A class with one list of attributes, at the given place, which f makes.
    pub fn one_list(mut self, at: At, f: impl FnOnce(&mut Gen) -> V) -> GenClass {
        let (minor, major) = (self.s.u16any(), self.s.u16any());
        let mut head = vec![n(minor), n(major)];
        for _ in 0..3 {
            let x = self.s.u16any();
            self.u2(x);
            head.push(n(x));
        }
        self.u2(0);
        head.push(V::L(vec![]));
        for (kind, here) in [("Field", At::Field), ("Method", At::Method)] {
            if at == here || (at == At::Code && here == At::Method) {
                break;
            }
            self.u2(0);
            head.push(V::L(vec![]));
            let _ = kind;
        }
        match at {
            At::Class => {}
            _ => {
                self.span(2, Sp::Count, 0);
                self.u2(1);
                let mut m = vec![];
                for _ in 0..3 {
                    let x = self.s.u16any();
                    self.u2(x);
                    m.push(n(x));
                }
                if at == At::Code {
                    let inner = self.open_list(1);
                    let v = self.attr_with("Code", inner, |g, _| {
                        let (a, b) = (g.s.u16any(), g.s.u16any());
                        g.u2(a);
                        g.u2(b);
                        g.i4(1);
                        g.u1(0xB1);
                        g.u2(0);
                        let l = f(g);
                        t("Code", vec![
                            n(a),
                            n(b),
                            V::L(vec![V::L(vec![n(0), t("return", vec![])])]),
                            V::L(vec![]),
                            l,
                        ])
                    });
                    self.close_list(inner);
                    m.push(V::L(vec![v]));
                } else {
                    m.push(f(&mut self));
                }
                head.push(V::L(vec![t(if at == At::Field { "Field" } else { "Method" }, m)]));
                if at == At::Field {
                    self.u2(0);
                    head.push(V::L(vec![]));
                }
                let l = self.open_list(0);
                self.close_list(l);
                head.push(V::L(vec![]));
                return self.finish(minor, major, t("Class", head));
            }
        }
        let l = f(&mut self);
        head.push(l);
        self.finish(minor, major, t("Class", head))
    }

    fn members(&mut self, kind: &'static str, max: u64, at: At) -> V {
        let mut k = self.s.below(max + 1);
        if self.cfg.big && self.s.chance(1, 40) {
            k = self.s.count(500) as u64;
        }
        self.span(2, Sp::Count, 0);
        self.u2(k as u16);
        let mut l = vec![];
        let mut starts = vec![];
        while l.len() < k as usize {
            if self.again(10, k as usize, &mut starts, &mut l, &[F::Named('M')]) {
                continue;
            }
            let was = self.element(8);
            let f = self.val();
            self.span(2, Sp::Flags, 0);
            self.u2(f);
            let a = self.idx();
            self.u2(a);
            let b = self.idx();
            self.u2(b);
            self.close = was;
            let attrs = self.attr_list(at);
            l.push(t(kind, vec![n(f), n(a), n(b), attrs]));
        }
        V::L(l)
    }

    /// A class without interfaces, members or attributes.
    pub fn empty(mut self) -> GenClass {
        let mut c = vec![n(0), n(52)];
        for _ in 0..3 {
            let x = self.s.u16any();
            self.u2(x);
            c.push(n(x));
        }
        for _ in 0..4 {
            self.u2(0);
            c.push(V::L(vec![]));
        }
        self.finish(0, 52, t("Class", c))
    }

    /// The whole class.
    pub fn class(mut self) -> GenClass {
        let (minor, major) = (self.s.u16any(), self.s.u16any());
        let was = self.element(8);
        self.span(2, Sp::Flags, 0);
        let flags = self.val();
        self.u2(flags);
        let this = self.idx();
        self.u2(this);
        let sup = self.idx();
        self.u2(sup);
        let mut k = self.s.below(self.cfg.ifaces + 1);
        if self.cfg.big && self.s.chance(1, 100) {
            k = self.s.below(700);
        } else if self.s.chance(1, 20) {
            k = self.s.count(3000) as u64;
        }
        self.span(2, Sp::Count, 0);
        self.u2(k as u16);
        let mut ifs = vec![];
        for _ in 0..k {
            let x = self.idx();
            self.u2(x);
            ifs.push(n(x));
        }
        self.close = was;
        let fields = self.members("Field", self.cfg.fields, At::Field);
        let methods = self.members("Method", self.cfg.methods, At::Method);
        let attrs = self.attr_list(At::Class);
        let class = t(
            "Class",
            vec![n(minor), n(major), n(flags), n(this), n(sup), V::L(ifs), fields, methods, attrs],
        );
        // trailing constants that nothing needs
        while self.s.chance(1, 4) && self.cp.next_index() < 65000 {
            self.cp.random(self.s);
        }
        self.finish(minor, major, class)
    }

    pub fn finish(self, minor: u16, major: u16, class: V) -> GenClass {
        let mut bytes = vec![0xCA, 0xFE, 0xBA, 0xBE];
        bytes.extend(minor.to_be_bytes());
        bytes.extend(major.to_be_bytes());
        let count = self.cp.next_index();
        assert!(count < 65536);
        let mut spans = vec![Span { off: bytes.len(), len: 2, kind: Sp::CpCount, aux: 0 }];
        bytes.extend((count as u16).to_be_bytes());
        let base = bytes.len();
        spans.extend(self.cp.spans.iter().map(|s| Span { off: s.off + base, ..*s }));
        bytes.extend(&self.cp.out);
        let base = bytes.len();
        let body = base;
        spans.extend(self.spans.iter().map(|s| Span { off: s.off + base, ..*s }));
        bytes.extend(&self.out);
        let mut attrs = self.attrs;
        for a in &mut attrs {
            a.start += base;
            a.content += base;
            a.end += base;
        }
        let mut lists = self.lists;
        for l in &mut lists {
            l.count_off += base;
            l.end += base;
        }
        GenClass {
            bytes,
            body,
            pool: t("Pool", vec![n(count as i64), V::L(self.cp.slots)]),
            class,
            spans,
            attrs,
            lists,
        }
    }
}

pub fn class(s: &mut Src, cfg: &Cfg) -> GenClass {
    Gen::new(s, cfg).class()
}

/// Field-aware corruption of a generated file: changes one field to another value.
pub fn corrupt(s: &mut Src, g: &GenClass, b: &mut [u8]) -> Option<Span> {
    if g.spans.is_empty() {
        return None;
    }
    // structural fields first: data fields are many and cannot make a file ill-formed
    let hot: Vec<&Span> = g.spans.iter().filter(|x| !matches!(x.kind, Sp::Data | Sp::Flags) && x.len > 0).collect();
    let sp = if hot.is_empty() || s.below(12) == 11 { *s.pick(&g.spans) } else { **s.pick(&hot) };
    if sp.len == 0 {
        return None;
    }
    if sp.kind == Sp::Utf8Body {
        let i = s.below(sp.len as u64) as usize;
        b[sp.off + i] = *s.pick(&[0, 0x80, 0xC0, 0xC1, 0xE0, 0xED, 0xF0, 0xFF, 0xA0, 0xB0, 0x7F, 0xBF]);
        return Some(sp);
    }
    let w = sp.len.min(4);
    let old = b[sp.off..sp.off + w].iter().fold(0u64, |a, &x| a << 8 | u64::from(x));
    let max = if w == 4 { u64::from(u32::MAX) } else { (1u64 << (8 * w)) - 1 };
    let new = match s.below(8) {
        0 => old.wrapping_add(1) & max,
        1 => old.wrapping_sub(1) & max,
        2 => old.wrapping_add(s.range(2, 16)) & max,
        3 => old.wrapping_sub(s.range(2, 16)) & max,
        4 => *s.pick(&[0, max, max >> 1, (max >> 1) + 1, 1]),
        5 => old ^ (1 << s.below(8 * w as u64)),
        _ => s.below(max + 1),
    };
    for i in 0..w {
        b[sp.off + i] = (new >> (8 * (w - 1 - i))) as u8;
    }
    Some(sp)
}

/// The targets of one switch: unrelated ones, or ones that relate to each
/// other, to the default or to their keys.
struct Targets {
    way: u64,
    default: i32,
    last: i32,
    step: i32,
}

impl Targets {
    fn new(s: &mut Src, default: i32) -> Targets {
        let way = s.below(10);
        let step = match s.below(3) {
            0 => 1,
            1 => -3,
            _ => s.below(60) as i32 - 30,
        };
        Targets { way, default, last: default, step }
    }

    fn next(&mut self, s: &mut Src, key: i32) -> i32 {
        self.last = match self.way {
            // nothing but the default
            5 => self.default,
            // mostly the default, or mostly the one before
            6 if !s.chance(1, 4) => self.default,
            7 if !s.chance(1, 4) => self.last,
            // in steps
            8 => self.last.wrapping_add(self.step),
            // as far as the key
            9 if !s.chance(1, 8) => key,
            _ => s.u32any() as i32,
        };
        self.last
    }
}
