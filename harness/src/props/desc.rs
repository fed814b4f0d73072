//! C24-C26: descriptors.
use super::*;
use crate::engine::{Kind::*, Src};
use jbcrs::{Error, MethodDescriptor, Type, TypeDescriptor};

pub fn checks() -> Vec<Check> {
    let names: &[&str] = &["class names containing '.', '[' or empty parts are outside the grammar but not asserted to be rejected"];
    vec![
        Check {
            id: "C24",
            rule: "All strings up to length 6 over a descriptor alphabet (exhaustive), random descriptors with up to 255 dimensions, and one- or two-edit neighbours of them, against a grammar written from JVMS 4.3.2. Non-trivial: string not empty; distinct by string.",
            assumptions: names,
            corpus: false,
            phases: |th| {
                vec![
                    phase("short strings", All(|t| if t { 11u64.pow(7) } else { 11u64.pow(6) } / 11 * 12, short_types)),
                    phase("dimensions", All(|_| 520 * 12, dims)),
                    phase("descriptors", Random(amount(th, 400_000, 10_000_000), types)),
                    phase("every character", All(|_| 0x110000 / 16, chars)),
                    phase("long names", All(|_| LENGTHS * 20, long_types)),
                    phase("every length", All(|_| every_length().len() as u64, type_lengths)),
                    phase("dimensions and length", All(|_| 256, dims_and_length)),
                    phase("parts", All(|_| 330, parts_types)),
                ]
            },
        },
        Check {
            id: "C25",
            rule: "All strings up to length 7 over a descriptor alphabet behind an opening bracket (exhaustive), random method descriptors with up to 255 parameters, parameter counts 0-400 of every type, all sequences of up to 5 of 8 types, alike parameters, and one- or two-edit neighbours, against a grammar written from JVMS 4.3.3. Non-trivial: string has at least 2 characters; distinct by string.",
            assumptions: &["class names containing '.', '[' or empty parts are not asserted to be rejected", "long and double parameters count twice toward the limit of 255 in the JVM; between 128 and 255 parameters with such types either verdict is accepted"],
            corpus: false,
            phases: |th| {
                vec![
                    phase("short strings", All(|t| if t { 10u64.pow(7) } else { 10u64.pow(6) }, short_methods)),
                    phase("parameter counts", All(|_| 400 * 10, param_counts)),
                    phase("dimensions", All(|_| 520 * 3 * 2, method_dims)),
                    phase("long names", All(|_| LENGTHS * 20, long_methods)),
                    phase("every length", All(|_| every_length().len() as u64, method_lengths)),
                    phase("few types", All(|_| FEW_SEQUENCES, few_params)),
                    phase("dimensions and position", All(|_| 256, dims_and_position)),
                    phase("parts", All(|_| 330, parts_methods)),
                    phase("every character", All(|_| 0x110000 / 16, method_chars)),
                    phase("descriptors", Random(amount(th, 300_000, 8_000_000), methods)),
                ]
            },
        },
        Check {
            id: "C26",
            rule: "Random descriptor values (built directly, not by parsing) are printed, compared with an independent rendering, parsed back and compared; values of up to 65537 parameters are printed; pairs of related values are compared for equality against equality of their printed forms. Non-trivial: array, class type or at least one parameter; distinct by printed form.",
            assumptions: &["values hold valid class names; those of more than 255 parameters are only printed"],
            corpus: false,
            phases: |th| {
                vec![
                    phase("types", Random(amount(th, 300_000, 8_000_000), print_types)),
                    phase("methods", Random(amount(th, 200_000, 6_000_000), print_methods)),
                    phase("all dimensions", All(|_| 256 * 9, print_dims)),
                    phase("long names", All(|_| LENGTHS * 20, print_long)),
                    phase("dimensions and length", All(|_| 256, print_dims_and_length)),
                    phase("dimensions and position", All(|_| 256, print_dims_and_position)),
                    phase("parts", All(|_| 330, print_parts)),
                    phase("parameter counts", All(|_| print_counts().len() as u64 * 4, print_many)),
                    phase("neighbours", Random(amount(th, 60_000, 2_000_000), print_neighbours)),
                    phase("parsed", Random(amount(th, 200_000, 6_000_000), print_parsed)),
                ]
            },
        },
    ]
}

// ---- the grammar ----------------------------------------------------------------------------

#[derive(Debug, PartialEq)]
enum Verdict {
    Yes(V),
    No,
    /// not asserted; if accepted, this value
    Open(V),
}

fn field_type(c: &[char], i: &mut usize, open: &mut bool) -> Option<V> {
    let mut d = 0u32;
    while c.get(*i) == Some(&'[') {
        d += 1;
        *i += 1;
    }
    if d > 255 {
        return None;
    }
    let base = match c.get(*i)? {
        'Z' => t("Z", vec![]),
        'B' => t("B", vec![]),
        'S' => t("S", vec![]),
        'I' => t("I", vec![]),
        'J' => t("J", vec![]),
        'F' => t("F", vec![]),
        'D' => t("D", vec![]),
        'C' => t("C", vec![]),
        'L' => {
            let mut name = String::new();
            loop {
                *i += 1;
                match c.get(*i)? {
                    ';' => break,
                    x => name.push(*x),
                }
            }
            if name.is_empty() {
                return None;
            }
            if name.contains(['.', '[']) || name.split('/').any(|p| p.is_empty()) {
                *open = true;
            }
            t("L", vec![V::S(name)])
        }
        _ => return None,
    };
    *i += 1;
    Some(t("Type", vec![n(d), base]))
}

fn ref_type(s: &str) -> Verdict {
    let c: Vec<char> = s.chars().collect();
    let (mut i, mut open) = (0, false);
    match field_type(&c, &mut i, &mut open) {
        Some(v) if i == c.len() => {
            if open {
                Verdict::Open(v)
            } else {
                Verdict::Yes(v)
            }
        }
        _ => Verdict::No,
    }
}

fn ref_method(s: &str) -> Verdict {
    let c: Vec<char> = s.chars().collect();
    let (mut i, mut open) = (1, false);
    if c.first() != Some(&'(') {
        return Verdict::No;
    }
    let mut params = vec![];
    let mut units = 0;
    while c.get(i) != Some(&')') {
        match field_type(&c, &mut i, &mut open) {
            Some(v) => {
                let k = v.kids();
                units += if k[0] == n(0) && matches!(k[1].tag(), "J" | "D") { 2 } else { 1 };
                params.push(v);
            }
            None => return Verdict::No,
        }
    }
    i += 1;
    let ret = if c.get(i) == Some(&'V') {
        i += 1;
        t("V", vec![])
    } else {
        match field_type(&c, &mut i, &mut open) {
            Some(v) => v,
            None => return Verdict::No,
        }
    };
    if i != c.len() || params.len() > 255 {
        return Verdict::No;
    }
    let v = t("MethodType", vec![V::L(params), ret]);
    if open || units > 255 {
        Verdict::Open(v)
    } else {
        Verdict::Yes(v)
    }
}

fn check(cx: &mut Cx, s: &str, want: Verdict, got: Result<V, Error>) -> Res {
    let short = || clip(format!("{:?}", s), 700);
    cx.label(match want {
        Verdict::Yes(_) => "in the grammar",
        Verdict::No => "outside the grammar",
        Verdict::Open(_) => "not asserted",
    });
    match (want, got) {
        (Verdict::Yes(v), Ok(w)) | (Verdict::Open(v), Ok(w)) => match diff(&v, &w) {
            None => Ok(()),
            Some(d) => fail("differs", format!("{} parses wrongly: {}", short(), d)),
        },
        (Verdict::Yes(_), Err(e)) => fail("rejected", format!("{} is rejected: {:?}", short(), obs::error(&e))),
        (Verdict::No, Ok(w)) => fail(
            "accepted",
            format!("{} is accepted as {}", short(), clip(format!("{:?}", w), 300)),
        ),
        (_, Err(e)) => match e {
            Error::InvalidDescriptor { ref desc, at } if desc == s && at <= s.len() => Ok(()),
            e => fail(
                "error",
                format!("{} is rejected with {}", short(), clip(format!("{:?}", obs::error(&e)), 300)),
            ),
        },
    }
}

fn check_type(cx: &mut Cx, s: &str) -> Res {
    let r = cx.sut(s.len(), &clip(format!("TypeDescriptor from {:?}", s), 700), || s.parse::<TypeDescriptor>())?;
    check(cx, s, ref_type(s), r.map(|d| obs::type_desc(&d)))
}
fn check_method(cx: &mut Cx, s: &str) -> Res {
    let r = cx.sut(s.len(), &clip(format!("MethodDescriptor from {:?}", s), 700), || s.parse::<MethodDescriptor>())?;
    check(cx, s, ref_method(s), r.map(|d| obs::method_desc(&d)))
}

// ---- exhaustive short strings ---------------------------------------------------------------

/// Each case fixes all but the last character of one string and tries every last character, and the string without it.
fn short_types(cx: &mut Cx) -> Res {
    const A: &[char] = &['[', 'L', ';', 'I', 'J', 'V', 'a', '/', '(', ')', 'é'];
    let mut i = cx.index as usize;
    let mut s = String::new();
    // index in base 12, digit 0 ends the string
    while i > 0 {
        let d = i % 12;
        if d == 0 {
            return Ok(());
        }
        s.push(A[d - 1]);
        i /= 12;
    }
    cx.nontrivial(!s.is_empty());
    cx.identity(&s);
    check_type(cx, &s)?;
    for c in A {
        let x = format!("{}{}", s, c);
        check_type(cx, &x)?;
    }
    cx.sample(|| format!("{:?} and it followed by each of {:?}", s, A));
    Ok(())
}

fn short_methods(cx: &mut Cx) -> Res {
    const A: &[char] = &['(', ')', '[', 'L', ';', 'I', 'D', 'V', 'x'];
    let mut i = cx.index as usize;
    let mut s = String::from("(");
    while i > 0 {
        let d = i % 10;
        if d == 0 {
            return Ok(());
        }
        s.push(A[d - 1]);
        i /= 10;
    }
    cx.nontrivial(true);
    cx.identity(&s);
    check_method(cx, &s)?;
    check_method(cx, &s[1..])?;
    for c in A {
        let x = format!("{}{}", s, c);
        check_method(cx, &x)?;
    }
    cx.sample(|| format!("{:?} and it followed by each of {:?}", s, A));
    Ok(())
}

const BASES: &[&str] = &["Z", "B", "S", "I", "J", "F", "D", "C", "La;", "Ljava/lang/String;", "V", ""];

fn dims(cx: &mut Cx) -> Res {
    let i = cx.index as usize;
    let s = format!("{}{}", "[".repeat(i / 12), BASES[i % 12]);
    cx.nontrivial(true);
    cx.identity(&s);
    cx.sample(|| format!("{} dimensions of {:?}", i / 12, BASES[i % 12]));
    check_type(cx, &s)
}

fn method_dims(cx: &mut Cx) -> Res {
    let i = cx.index as usize;
    let ty = format!("{}{}", "[".repeat(i / 6), ["I", "Lx/Y;", ""][i % 3]);
    let s = if i / 3 % 2 == 0 { format!("(I{}J)V", ty) } else { format!("(I){}", ty) };
    cx.nontrivial(true);
    cx.identity(&s);
    check_method(cx, &s)
}

const RETURNS: &[&str] = &[
    "V", "Z", "B", "S", "I", "J", "F", "D", "C", "La;", "Ljava/lang/String;", "[J", "[[D", "[La;", "[I", "", ")", "VV", "[V", "(", ";",
];

fn param_counts(cx: &mut Cx) -> Res {
    let i = cx.index as usize;
    let (k, kind) = (i / 10, i % 10);
    let p = match kind {
        8 => "La;",
        9 => "[J",
        _ => BASES[kind],
    };
    cx.nontrivial(true);
    for ret in RETURNS {
        let s = format!("({}){}", p.repeat(k), ret);
        cx.identity(&s);
        check_method(cx, &s)?;
        if *ret == "V" {
            // a mixture with the same number of parameters
            let mut m = String::from("(");
            for j in 0..k {
                m.push_str(BASES[(j * 7 + kind) % 10]);
            }
            m.push_str(")V");
            check_method(cx, &m)?;
        }
    }
    cx.sample(|| format!("{} parameters {}", k, p));
    Ok(())
}

/// Every character as tag, in a class name, after a complete descriptor.
fn chars(cx: &mut Cx) -> Res {
    let i = cx.index as u32;
    cx.nontrivial(true);
    cx.identity(&i);
    cx.sample(|| format!("U+{:04X}..", i * 16));
    for c in (i * 16..i * 16 + 16).filter_map(char::from_u32) {
        for s in [
            c.to_string(),
            format!("[{}", c),
            format!("L{};", c),
            format!("La{}b;", c),
            format!("La/b{};", c),
            format!("I{}", c),
            format!("La;{}", c),
            format!("{}I", c),
        ] {
            check_type(cx, &s)?;
        }
    }
    Ok(())
}

fn method_chars(cx: &mut Cx) -> Res {
    let i = cx.index as u32;
    cx.nontrivial(true);
    cx.identity(&i);
    cx.sample(|| format!("U+{:04X}..", i * 16));
    for c in (i * 16..i * 16 + 16).filter_map(char::from_u32) {
        for s in [
            format!("({})V", c),
            format!("(){}", c),
            format!("(L{};)V", c),
            format!("()La{};", c),
            format!("(I[L{}a/{};J)[L{};", c, c, c),
            format!("(){}V", c),
            format!("(I{}J)V", c),
            format!("()V{}", c),
            format!("{}()V", c),
        ] {
            check_method(cx, &s)?;
        }
    }
    Ok(())
}

/// Every number of dimensions with every short length of name.
fn dims_and_length(cx: &mut Cx) -> Res {
    let d = cx.index as usize;
    cx.nontrivial(true);
    cx.identity(&d);
    cx.sample(|| format!("{} dimensions, names of 1 to 320 bytes", d));
    for k in 1..=320 {
        check_type(cx, &format!("{}L{};", "[".repeat(d), long_name(k, k % 20)))?;
    }
    Ok(())
}

/// Every number of dimensions at every place among the parameters, and as the result after that many.
fn dims_and_position(cx: &mut Cx) -> Res {
    let d = cx.index as usize;
    cx.nontrivial(true);
    cx.identity(&d);
    cx.sample(|| format!("{} dimensions after 0 to 255 parameters", d));
    let dims = "[".repeat(d);
    for k in 0..=255usize {
        let p = ["I", "[J", "La;", "Z"][(k + d) % 4].repeat(k);
        let b = ["Z", "B", "S", "I", "J", "F", "D", "C", "La;", "Lb/c;"][(k * 3 + d) % 10];
        check_method(cx, &format!("({}{}{})V", p, dims, b))?;
        check_method(cx, &format!("({}){}{}", p, dims, b))?;
    }
    Ok(())
}

/// Names of so many parts.
fn parts(k: usize) -> Vec<String> {
    let mut v = vec![vec!["a"; k].join("/"), vec!["ab"; k].join("/")];
    v.push((0..k).map(|i| ["x", "yz", "\u{e9}"][i % 3].repeat(1 + i % 4)).collect::<Vec<_>>().join("/"));
    v.push((0..k).map(|i| format!("p{}", i)).collect::<Vec<_>>().join("/"));
    v.push(vec!["a"; k].join("$"));
    v
}

fn parts_types(cx: &mut Cx) -> Res {
    let k = cx.index as usize + 1;
    cx.nontrivial(true);
    cx.identity(&k);
    cx.sample(|| format!("names of {} parts", k));
    for x in parts(k) {
        for d in [0, 1, 3, 255] {
            check_type(cx, &format!("{}L{};", "[".repeat(d), x))?;
        }
        check_type(cx, &format!("L{}/;", x))?;
        check_type(cx, &format!("L{}", x))?;
    }
    Ok(())
}

fn parts_methods(cx: &mut Cx) -> Res {
    let k = cx.index as usize + 1;
    cx.nontrivial(true);
    cx.identity(&k);
    cx.sample(|| format!("names of {} parts", k));
    for x in parts(k) {
        for s in [format!("(L{};)V", x), format!("()L{};", x), format!("(I[L{};L{};)[[L{};", x, x, x), format!("(L{})V", x)] {
            check_method(cx, &s)?;
        }
    }
    Ok(())
}

// ---- long names -----------------------------------------------------------------------------

/// Lengths of names: every one near a power of two up to 2^17, and a few more.
const LENGTHS: u64 = 11 * 5 + 9;

fn length(i: usize) -> usize {
    match i {
        0..=54 => (1usize << (7 + i / 5)) + i % 5 - 2,
        x => [100, 1000, 10_000, 30_000, 50_000, 60_000, 65_530, 100_000, 200_000][x - 55],
    }
}

/// A name of that many bytes (or slightly fewer), of one kind of character, as one part or several.
fn long_name(len: usize, kind: usize) -> String {
    let c = ["a", "\u{e9}", "\u{6F22}", "\u{1F600}", "L"][kind % 5];
    let mut s = String::with_capacity(len);
    while s.len() + c.len() <= len {
        let parts = match kind / 5 {
            0 => 0,
            1 => 2,
            2 => 16,
            _ => 1000,
        };
        // a separator is never first, last or next to another
        if parts != 0 && s.len() % parts == parts - 1 && !s.ends_with('/') && s.len() + 1 + c.len() <= len && !s.is_empty() {
            s.push('/');
        }
        s.push_str(c);
    }
    while s.len() < len {
        s.push('x');
    }
    s
}

/// Lengths of whole descriptors: all up to 1300, and those near powers of two and near numbers the library mentions newly.
fn every_length() -> &'static Vec<usize> {
    static E: std::sync::OnceLock<Vec<usize>> = std::sync::OnceLock::new();
    E.get_or_init(|| {
        let mut v: Vec<usize> = (1..=1300).collect();
        v.extend((0..LENGTHS as usize).map(length));
        for n in crate::dict::dict().sizes(65536) {
            v.extend([n, n + 1, n + 2, n + 3, n + 4]);
        }
        v.sort_unstable();
        v.dedup();
        v
    })
}

fn type_lengths(cx: &mut Cx) -> Res {
    let k = every_length()[cx.index as usize];
    cx.nontrivial(true);
    cx.identity(&k);
    cx.sample(|| format!("type descriptors of {} bytes", k));
    for d in [0, 1, 2, 16, 127, 128, 254, 255, 256] {
        if d + 3 > k {
            break;
        }
        for kind in [0, 1, 5, 8, 10] {
            let s = format!("{}L{};", "[".repeat(d), long_name(k - d - 2, kind));
            check_type(cx, &s)?;
        }
        check_type(cx, &format!("{}L{}", "[".repeat(d), long_name(k - d - 1, 0)))?;
        check_type(cx, &format!("{}I{}", "[".repeat(d), long_name(k - d - 1, 5)))?;
    }
    Ok(())
}

fn method_lengths(cx: &mut Cx) -> Res {
    let k = every_length()[cx.index as usize];
    cx.nontrivial(true);
    cx.identity(&k);
    cx.sample(|| format!("method descriptors of {} bytes", k));
    if k < 6 {
        return Ok(());
    }
    for kind in [0, 1, 5, 10] {
        let m = long_name(k - 5, kind);
        for s in [format!("(L{};)V", m), format!("()L{}x;", m), format!("(L{}x;)", m), format!("(L{}x)V", m)] {
            check_method(cx, &s)?;
        }
        if k > 30 {
            let m = long_name(k - 20, kind);
            for s in [format!("(IL{};[JLa/b;)[[D", m), format!("([[ILa;JL{};)[I", m), format!("(JZ[La/bc;I)[[L{};", m)] {
                check_method(cx, &s)?;
            }
        }
    }
    // of many parameters
    for p in ["I", "[J", "La;", "[[D", "Ljava/lang/String;", "D"] {
        let c = (k - 3) / p.len();
        let rest = "Z".repeat((k - 3) % p.len());
        for r in [1, 2] {
            let ret = if r == 1 { "V" } else { "J" };
            check_method(cx, &format!("({}{}){}", p.repeat(c), rest, ret))?;
        }
    }
    Ok(())
}

fn print_dims_and_length(cx: &mut Cx) -> Res {
    let d = cx.index as usize;
    cx.nontrivial(d <= 255);
    cx.identity(&d);
    cx.sample(|| format!("{} dimensions, names of 1 to 320 bytes", d));
    for k in 1..=320 {
        let x = long_name(k, k % 20);
        let text = format!("{}L{};", "[".repeat(d), x);
        type_round(cx, &TypeDescriptor::new(d as u8, Type::Reference(x)), &text)?;
    }
    Ok(())
}

fn print_dims_and_position(cx: &mut Cx) -> Res {
    let d = cx.index as usize;
    cx.nontrivial(d <= 255);
    cx.identity(&d);
    cx.sample(|| format!("{} dimensions after 0 to 254 parameters", d));
    let dims = "[".repeat(d);
    let ty = |k: usize, d: usize| {
        let t = match k % 6 {
            0 => Type::Int,
            1 => Type::Long,
            2 => Type::Reference("La".to_string()),
            3 => Type::Boolean,
            4 => Type::Double,
            _ => Type::Char,
        };
        TypeDescriptor::new(d as u8, t)
    };
    let one = |k: usize| ["I", "J", "LLa;", "Z", "D", "C"][k % 6];
    // three counts for each number of dimensions; all of them over all numbers
    for k in [d, 254 - d.min(254), d * 7 % 255, 1, 127, 128] {
        let k = k.min(254);
        let p = one(k + d).repeat(k);
        let many = || (0..k).map(|_| ty(k + d, 0)).collect::<Vec<_>>();
        for j in 0..6 {
            let mut params = many();
            params.push(ty(j, d));
            method_round(cx, &MethodDescriptor::new(params, None), &format!("({}{}{})V", p, dims, one(j)))?;
            method_round(cx, &MethodDescriptor::new(many(), Some(ty(j, d))), &format!("({}){}{}", p, dims, one(j)))?;
        }
    }
    Ok(())
}

fn print_parts(cx: &mut Cx) -> Res {
    let k = cx.index as usize + 1;
    cx.nontrivial(true);
    cx.identity(&k);
    cx.sample(|| format!("names of {} parts", k));
    for x in parts(k) {
        for d in [0, 1, 255] {
            let text = format!("{}L{};", "[".repeat(d), x);
            let ty = TypeDescriptor::new(d as u8, Type::Reference(x.clone()));
            type_round(cx, &ty, &text)?;
            method_round(cx, &MethodDescriptor::new(vec![copy_type(&ty), TypeDescriptor::new(0, Type::Int)], Some(ty)), &format!("({}I){}", text, text))?;
        }
    }
    Ok(())
}

fn long_types(cx: &mut Cx) -> Res {
    let (i, kind) = (cx.index as usize / 20, cx.index as usize % 20);
    let x = long_name(length(i), kind);
    cx.nontrivial(true);
    cx.identity(&x);
    cx.sample(|| format!("a name of {} bytes, kind {}", x.len(), kind));
    for s in [format!("L{};", x), format!("[[L{};", x), format!("L{}", x), format!("L{};;", x), format!("L{};I", x), x.clone()] {
        check_type(cx, &s)?;
    }
    Ok(())
}

fn long_methods(cx: &mut Cx) -> Res {
    let (i, kind) = (cx.index as usize / 20, cx.index as usize % 20);
    let x = long_name(length(i), kind);
    cx.nontrivial(true);
    cx.identity(&x);
    cx.sample(|| format!("a name of {} bytes, kind {}", x.len(), kind));
    for s in [
        format!("(L{};)V", x),
        format!("()L{};", x),
        format!("(I[L{};J)[L{};", x, x),
        format!("(L{})V", x),
        format!("(){}", x),
        format!("()L{};V", x),
        format!("(L{};", x),
    ] {
        check_method(cx, &s)?;
    }
    // the same length as many parameters
    let k = 255;
    let each = x.len() / k;
    if each > 0 {
        let p = format!("L{};", "ab".repeat(each)[..each].to_string());
        check_method(cx, &format!("({}){}", p.repeat(k), p))?;
        check_method(cx, &format!("({})V", p.repeat(k + 1)))?;
    }
    Ok(())
}

fn print_long(cx: &mut Cx) -> Res {
    let (i, kind) = (cx.index as usize / 20, cx.index as usize % 20);
    let x = long_name(length(i), kind);
    cx.nontrivial(true);
    cx.identity(&x);
    cx.sample(|| format!("a name of {} bytes, kind {}", x.len(), kind));
    let ty = |d: u8, x: &str| (TypeDescriptor::new(d, Type::Reference(x.to_string())), format!("{}L{};", "[".repeat(d as usize), x));
    let mut y = x.clone();
    y.pop();
    y.push('y');
    let mut last = vec![];
    for (d, text) in [ty(0, &x), ty(2, &x), ty(0, &y)] {
        type_round(cx, &d, &text)?;
        let m = format!("(I{})V", text);
        method_round(cx, &MethodDescriptor::new(vec![TypeDescriptor::new(0, Type::Int), copy_type(&d)], None), &m)?;
        let m = format!("(){}", text);
        method_round(cx, &MethodDescriptor::new(vec![], Some(copy_type(&d))), &m)?;
        last.push((d, text));
    }
    for (a, ta) in &last {
        for (b, tb) in &last {
            let eq = cx.sut(0, "comparing type descriptors", || a == b)?;
            if eq != (ta == tb) {
                return fail("equality", format!("names of {} bytes, kind {}: equality gives {} for {}", x.len(), kind, eq, if eq { "different descriptors" } else { "equal ones" }));
            }
        }
    }
    Ok(())
}

// ---- random ---------------------------------------------------------------------------------

fn class_name(s: &mut Src) -> String {
    let mut parts = s.range(1, 4);
    match s.below(60) {
        57 => parts = 1 + s.count(2000) as u64,
        58 => parts = s.range(5, 40),
        59 => {
            let x: String = s.known_text().chars().filter(|c| !matches!(c, ';' | '[' | '.')).collect();
            if !x.is_empty() && x.split('/').all(|p| !p.is_empty()) {
                return x;
            }
        }
        _ => {}
    }
    let mut out = String::new();
    for k in 0..parts {
        if k > 0 {
            out.push('/');
        }
        let len = match s.below(30) {
            28 => 1 + s.count(4000) as u64,
            29 => s.range(1, 300),
            _ => s.range(1, 7),
        };
        for _ in 0..len {
            out.push(match s.below(10) {
                0..=5 => *s.pick(&['a', 'L', 'V', 'I', 'x', '$', 'J', 'Z', '_', '0']),
                6 => *s.pick(&['(', ')', '<', '>', '-', ' ', ':', '\u{0}', '+']),
                7 => *s.pick(&['é', 'ß', '漢', '\u{7FF}', '\u{800}', '\u{FFFF}']),
                8 => *s.pick(&['\u{1F600}', '\u{10000}', '\u{10FFFF}']),
                _ => char::from_u32(s.range(0x3C, 0x5A) as u32).filter(|c| *c != ';').unwrap_or('Q'),
            });
        }
    }
    out
}

fn some_type(s: &mut Src) -> (TypeDescriptor, String) {
    let d = match s.below(8) {
        0..=3 => 0,
        4..=5 => s.range(1, 3),
        6 => s.below(256),
        _ => *s.pick(&[127, 128, 254, 255, 63, 64]),
    } as u8;
    let (b, text) = match s.below(11) {
        0 => (Type::Boolean, "Z".to_string()),
        1 => (Type::Byte, "B".into()),
        2 => (Type::Short, "S".into()),
        3 => (Type::Int, "I".into()),
        4 => (Type::Long, "J".into()),
        5 => (Type::Float, "F".into()),
        6 => (Type::Double, "D".into()),
        7 => (Type::Char, "C".into()),
        _ => {
            let x = class_name(s);
            let text = format!("L{};", x);
            (Type::Reference(x), text)
        }
    };
    (TypeDescriptor::new(d, b), format!("{}{}", "[".repeat(d as usize), text))
}

fn type_text(d: &TypeDescriptor) -> String {
    let base = match &d.base_type {
        Type::Boolean => "Z".to_string(),
        Type::Char => "C".into(),
        Type::Float => "F".into(),
        Type::Double => "D".into(),
        Type::Byte => "B".into(),
        Type::Short => "S".into(),
        Type::Int => "I".into(),
        Type::Long => "J".into(),
        Type::Reference(x) => format!("L{};", x),
    };
    format!("{}{}", "[".repeat(d.dimensions as usize), base)
}

const FEW: [&str; 8] = ["I", "J", "La;", "Lb;", "[I", "[La;", "[[Z", "[[La;"];
/// Sequences of up to five of those, each with five return types.
const FEW_SEQUENCES: u64 = (1 + 8 + 64 + 512 + 4096 + 32_768) * 5;

fn few(i: u64) -> String {
    let (ret, mut i) = (["V", "I", "D", "La;", "[[La;"][(i % 5) as usize], i / 5);
    let mut k = 0;
    while i >= 8u64.pow(k) {
        i -= 8u64.pow(k);
        k += 1;
    }
    let mut s = String::from("(");
    for _ in 0..k {
        s.push_str(FEW[(i % 8) as usize]);
        i /= 8;
    }
    format!("{}){}", s, ret)
}

/// All short sequences of few parameter types: alike ones, and each beside each.
fn few_params(cx: &mut Cx) -> Res {
    let s = few(cx.index);
    cx.nontrivial(true);
    cx.identity(&s);
    cx.sample(|| s.clone());
    check_method(cx, &s)
}

fn some_method(s: &mut Src) -> (MethodDescriptor, String) {
    let k = match s.below(20) {
        0 => 0,
        1..=15 => s.below(6),
        16 => s.below(40),
        17 => s.count(255) as u64,
        18 => *s.pick(&[127, 128, 254, 255]),
        _ => s.below(256),
    };
    // unrelated types, or ones that were met before, as they are or with other dimensions
    let alike = s.below(4);
    let another = |s: &mut Src, met: &[TypeDescriptor]| {
        if met.is_empty() || alike < 2 || s.below(3) == 0 {
            return some_type(s);
        }
        let old = &met[if alike == 2 { met.len() - 1 } else { s.below(met.len() as u64) as usize }];
        let mut d = copy_type(old);
        match s.below(8) {
            0 => d.dimensions = s.below(4) as u8,
            1 => d.dimensions = d.dimensions.saturating_add(1),
            _ => {}
        }
        let x = type_text(&d);
        (d, x)
    };
    let mut text = String::from("(");
    let mut params: Vec<TypeDescriptor> = vec![];
    let mut units = 0;
    for _ in 0..k {
        let (d, x) = another(s, &params);
        units += if x == "J" || x == "D" { 2 } else { 1 };
        if units > 255 {
            break;
        }
        params.push(d);
        text.push_str(&x);
    }
    text.push(')');
    let ret = if s.below(3) == 0 {
        text.push('V');
        None
    } else {
        let (d, x) = another(s, &params);
        text.push_str(&x);
        Some(d)
    };
    (MethodDescriptor::new(params, ret), text)
}

fn neighbour(s: &mut Src, x: &str) -> String {
    let mut c: Vec<char> = x.chars().collect();
    for _ in 0..s.range(1, 2) {
        let i = s.below(c.len() as u64 + 1) as usize;
        let new = *s.pick(&['[', 'L', ';', 'I', 'V', '(', ')', 'Z', 'J', 'a', '/', ' ', '\u{0}', 'é', 'l', 'i', '.', '\u{1F600}']);
        match s.below(5) {
            0 => c.insert(i, new),
            1 if i < c.len() => c[i] = new,
            2 if i < c.len() => {
                c.remove(i);
            }
            3 => c.truncate(i),
            _ if i < c.len() => {
                let j = s.below(c.len() as u64) as usize;
                c.swap(i, j);
            }
            _ => c.push(new),
        }
    }
    c.into_iter().collect()
}

fn types(cx: &mut Cx) -> Res {
    let (_, x) = some_type(&mut cx.src);
    let s = match cx.src.below(4) {
        0 => x,
        1 => {
            let (_, y) = some_type(&mut cx.src);
            format!("{}{}", x, y)
        }
        _ => neighbour(&mut cx.src, &x),
    };
    cx.nontrivial(!s.is_empty());
    cx.identity(&s);
    cx.sample(|| format!("{:?}", s));
    check_type(cx, &s)
}

fn methods(cx: &mut Cx) -> Res {
    let (_, x) = some_method(&mut cx.src);
    let s = if cx.src.below(3) == 0 { x } else { neighbour(&mut cx.src, &x) };
    cx.nontrivial(s.chars().count() > 1);
    cx.identity(&s);
    cx.sample(|| format!("{:?}", s));
    check_method(cx, &s)
}

// ---- printing -------------------------------------------------------------------------------

fn same_text(what: &str, got: &str, want: &str) -> Res {
    if got != want {
        return fail(
            "printed",
            format!("{} prints as {}, expected {}", what, clip(format!("{:?}", got), 300), clip(format!("{:?}", want), 300)),
        );
    }
    Ok(())
}

fn type_round(cx: &mut Cx, d: &TypeDescriptor, text: &str) -> Res {
    let p = cx.sut(text.len(), "printing a type descriptor", || d.to_string())?;
    same_text("type descriptor", &p, text)?;
    // formatted into other text, nothing more than the descriptor appears
    let q = cx.sut(text.len(), "printing a type descriptor", || format!("<{}>{}", d, d))?;
    same_text("type descriptor in text", &q, &format!("<{}>{}", text, text))?;
    let back = cx.sut(text.len(), "re-parsing a type descriptor", || p.parse::<TypeDescriptor>())?;
    match back {
        Ok(b) => {
            if obs::type_desc(&b) != obs::type_desc(d) || b != *d {
                return fail("round trip", format!("{:?} comes back as {:?}", d, b));
            }
            Ok(())
        }
        Err(e) => fail("round trip", format!("printed form {:?} is rejected: {:?}", p, obs::error(&e))),
    }
}

fn method_round(cx: &mut Cx, d: &MethodDescriptor, text: &str) -> Res {
    let p = cx.sut(text.len(), "printing a method descriptor", || d.to_string())?;
    same_text("method descriptor", &p, text)?;
    let back = cx.sut(text.len(), "re-parsing a method descriptor", || p.parse::<MethodDescriptor>())?;
    match back {
        Ok(b) => {
            if obs::method_desc(&b) != obs::method_desc(d) || b != *d {
                return fail("round trip", clip(format!("{:?} comes back as {:?}", d, b), 900));
            }
            Ok(())
        }
        Err(e) => fail("round trip", clip(format!("printed form {:?} is rejected: {:?}", p, obs::error(&e)), 900)),
    }
}

fn copy_type(d: &TypeDescriptor) -> TypeDescriptor {
    TypeDescriptor::new(
        d.dimensions,
        match &d.base_type {
            Type::Boolean => Type::Boolean,
            Type::Byte => Type::Byte,
            Type::Short => Type::Short,
            Type::Int => Type::Int,
            Type::Long => Type::Long,
            Type::Float => Type::Float,
            Type::Double => Type::Double,
            Type::Char => Type::Char,
            Type::Reference(s) => Type::Reference(s.clone()),
        },
    )
}

/// Numbers of parameters to print: more than can be parsed, too.
fn print_counts() -> &'static Vec<usize> {
    static E: std::sync::OnceLock<Vec<usize>> = std::sync::OnceLock::new();
    E.get_or_init(|| {
        let mut v: Vec<usize> = (0..=520).collect();
        for k in 10..=16 {
            v.extend([(1 << k) - 1, 1 << k, (1 << k) + 1]);
        }
        v.extend(crate::dict::dict().sizes(65536));
        v.sort_unstable();
        v.dedup();
        v
    })
}

fn print_many(cx: &mut Cx) -> Res {
    let i = decode::enumerated(cx);
    let k = print_counts()[i / 4];
    let mut params = vec![];
    let mut text = String::from("(");
    let (fixed, _) = some_type(&mut cx.src);
    for _ in 0..k {
        let d = match i % 4 {
            0 => TypeDescriptor::new(0, Type::Int),
            1 => copy_type(&fixed),
            _ => TypeDescriptor::new(cx.src.below(4) as u8 / 2, if cx.src.below(2) == 0 { Type::Byte } else { Type::Reference("a".into()) }),
        };
        let s = type_text(&d);
        if text.len() + s.len() > 3_000_000 {
            break;
        }
        text.push_str(&s);
        params.push(d);
    }
    text.push(')');
    let ret = if i % 4 == 3 { Some(some_type(&mut cx.src).0) } else { None };
    text.push_str(&ret.as_ref().map_or("V".to_string(), type_text));
    let d = MethodDescriptor::new(params, ret);
    cx.nontrivial(true);
    cx.identity(&text);
    cx.sample(|| clip(text.clone(), 300));
    if d.params.iter().map(|p| if p.dimensions == 0 && matches!(p.base_type, Type::Long | Type::Double) { 2 } else { 1 }).sum::<usize>() < 255 {
        return method_round(cx, &d, &text);
    }
    let p = cx.sut(text.len(), "printing a method descriptor", || d.to_string())?;
    same_text("method descriptor", &p, &text)
}

fn print_types(cx: &mut Cx) -> Res {
    let (d, text) = some_type(&mut cx.src);
    cx.nontrivial(text.len() > 1);
    cx.identity(&text);
    cx.sample(|| format!("{:?}", text));
    type_round(cx, &d, &text)?;
    // a relative of it
    let (e, other) = match cx.src.below(4) {
        0 => (copy_type(&d), text.clone()),
        1 => {
            let k = d.dimensions.wrapping_add(1);
            let mut e = copy_type(&d);
            e.dimensions = k;
            let rest = text.trim_start_matches('[');
            (e, format!("{}{}", "[".repeat(k as usize), rest))
        }
        2 => {
            let mut e = copy_type(&d);
            let x = class_name(&mut cx.src);
            let text = format!("{}L{};", "[".repeat(d.dimensions as usize), x);
            e.base_type = Type::Reference(x);
            (e, text)
        }
        _ => some_type(&mut cx.src),
    };
    type_round(cx, &e, &other)?;
    let eq = cx.sut(0, "comparing type descriptors", || (d == e, e == d, d == d))?;
    let same = text == other;
    cx.label(if same { "equal pair" } else { "different pair" });
    if eq != (same, same, true) {
        return fail("equality", clip(format!("{:?} and {:?}: equality gives {:?}", text, other, eq), 900));
    }
    Ok(())
}

fn print_methods(cx: &mut Cx) -> Res {
    let (d, text) = some_method(&mut cx.src);
    cx.nontrivial(text.len() > 3);
    cx.identity(&text);
    cx.sample(|| format!("{:?}", text));
    method_round(cx, &d, &text)?;
    let copy = |d: &MethodDescriptor| {
        MethodDescriptor::new(d.params.iter().map(copy_type).collect(), d.return_type.as_ref().map(copy_type))
    };
    let mut e = copy(&d);
    match cx.src.below(6) {
        0 => {}
        1 => {
            e.params.pop();
        }
        2 => e.return_type = None,
        3 if !e.params.is_empty() => {
            let i = cx.src.below(e.params.len() as u64) as usize;
            e.params[i] = some_type(&mut cx.src).0;
        }
        4 => e.params.reverse(),
        _ => {
            let i = cx.src.below(e.params.len() as u64 + 1) as usize;
            if e.params.len() < 120 {
                e.params.insert(i, TypeDescriptor::new(0, Type::Int));
            }
        }
    }
    // rendered from the parts by our own rules
    let other = format!(
        "({}){}",
        e.params.iter().map(render).collect::<String>(),
        e.return_type.as_ref().map_or("V".to_string(), render)
    );
    let k: usize = e.params.iter().map(|p| if p.dimensions == 0 && matches!(p.base_type, Type::Long | Type::Double) { 2 } else { 1 }).sum();
    if k <= 255 {
        method_round(cx, &e, &other)?;
    }
    let eq = cx.sut(0, "comparing method descriptors", || (d == e, e == d, d == d))?;
    let same = text == other;
    cx.label(if same { "equal pair" } else { "different pair" });
    if eq != (same, same, true) {
        return fail("equality", clip(format!("{:?} and {:?}: equality gives {:?}", text, other, eq), 900));
    }
    Ok(())
}

/// Descriptors that differ in exactly one place are different, wherever it is and however many parameters there are.
fn print_neighbours(cx: &mut Cx) -> Res {
    let k = match cx.src.below(4) {
        0 => cx.src.below(12),
        1 => *cx.src.pick(&[0, 1, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 254, 255]),
        _ => cx.src.below(256),
    };
    let plain = cx.src.below(2) == 0;
    let one = |s: &mut Src| -> TypeDescriptor {
        if plain {
            let d = if s.below(4) == 0 { s.range(1, 3) as u8 } else { 0 };
            let b = match s.below(7) {
                0 => Type::Boolean,
                1 => Type::Byte,
                2 => Type::Short,
                3 => Type::Char,
                4 => Type::Float,
                5 => Type::Reference("A".into()),
                _ => Type::Int,
            };
            TypeDescriptor::new(d, b)
        } else {
            let (d, _) = some_type(s);
            if d.dimensions == 0 && matches!(d.base_type, Type::Long | Type::Double) {
                return TypeDescriptor::new(1, d.base_type);
            }
            d
        }
    };
    let params: Vec<_> = (0..k).map(|_| one(&mut cx.src)).collect();
    let ret = if cx.src.below(4) == 0 { None } else { Some(one(&mut cx.src)) };
    let d = MethodDescriptor::new(params, ret);
    let mut e = MethodDescriptor::new(d.params.iter().map(copy_type).collect(), d.return_type.as_ref().map(copy_type));
    // one place changes
    let at = cx.src.below(k + 1) as usize;
    let change = cx.src.below(4);
    let other = one(&mut cx.src);
    let slot = if at < k as usize { Some(&mut e.params[at]) } else { e.return_type.as_mut() };
    match (slot, change) {
        (Some(x), 0) => x.dimensions = x.dimensions.wrapping_add(1),
        (Some(x), 1) => {
            if let Type::Reference(ref mut n) = x.base_type {
                n.push('x');
            } else {
                x.base_type = Type::Reference("B".into());
            }
        }
        (Some(x), 2) => {
            x.base_type = match x.base_type {
                Type::Int => Type::Byte,
                Type::Float => Type::Boolean,
                _ => Type::Int,
            }
        }
        (Some(x), _) => *x = other,
        (None, 0) => {}
        (None, _) => e.return_type = Some(other),
    }
    if change == 3 && at as u64 == k && e.return_type.is_some() && d.return_type.is_some() {
        e.return_type = None;
    }
    let text = |d: &MethodDescriptor| {
        format!("({}){}", d.params.iter().map(render).collect::<String>(), d.return_type.as_ref().map_or("V".to_string(), render))
    };
    let (a, b) = (text(&d), text(&e));
    cx.nontrivial(k > 0);
    cx.identity(&(&a, &b));
    cx.label(if a == b { "equal pair" } else { "different pair" });
    cx.sample(|| format!("{:?} and {:?}", clip(a.clone(), 200), clip(b.clone(), 200)));
    let eq = cx.sut(a.len(), "comparing method descriptors", || (d == e, e == d, d != e, d == d, e == e))?;
    let same = a == b;
    if eq != (same, same, !same, true, true) {
        return fail("equality", clip(format!("{:?} and {:?}: equality gives {:?}", a, b, eq), 1500));
    }
    method_round(cx, &d, &a)?;
    method_round(cx, &e, &b)
}

fn render(d: &TypeDescriptor) -> String {
    let b = match &d.base_type {
        Type::Boolean => "Z".to_string(),
        Type::Byte => "B".into(),
        Type::Short => "S".into(),
        Type::Int => "I".into(),
        Type::Long => "J".into(),
        Type::Float => "F".into(),
        Type::Double => "D".into(),
        Type::Char => "C".into(),
        Type::Reference(s) => ["L", s, ";"].concat(),
    };
    "[".repeat(d.dimensions as usize) + &b
}

fn print_dims(cx: &mut Cx) -> Res {
    let i = cx.index as usize;
    let text = format!("{}{}", "[".repeat(i / 9), BASES[i % 9]);
    cx.nontrivial(true);
    cx.identity(&text);
    let d = cx.sut(0, "parsing", || text.parse::<TypeDescriptor>())?;
    match d {
        Ok(d) => type_round(cx, &d, &text),
        Err(e) => fail("rejected", format!("{:?} rejected: {:?}", text, obs::error(&e))),
    }
}

/// Whatever the parser accepts prints back as the original.
fn print_parsed(cx: &mut Cx) -> Res {
    let method = cx.src.below(2) == 0;
    let x = if method { some_method(&mut cx.src).1 } else { some_type(&mut cx.src).1 };
    let s = if cx.src.below(2) == 0 { x } else { neighbour(&mut cx.src, &x) };
    cx.identity(&s);
    cx.sample(|| format!("{:?}", s));
    if method {
        let r = cx.sut(s.len(), "parsing", || s.parse::<MethodDescriptor>())?;
        if let Ok(d) = r {
            cx.nontrivial(true);
            cx.label("accepted");
            return method_round(cx, &d, &s);
        }
    } else {
        let r = cx.sut(s.len(), "parsing", || s.parse::<TypeDescriptor>())?;
        if let Ok(d) = r {
            cx.nontrivial(true);
            cx.label("accepted");
            return type_round(cx, &d, &s);
        }
    }
    cx.label("rejected");
    Ok(())
}
