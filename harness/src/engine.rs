//! Generated-input search: every case is a tape of bounded random draws (or a byte string), so cases replay,
//! shrink and evolve under coverage guidance in one way. All randomness comes from VERIF_SEED.
use crate::rt::{self, Cost};
use jbcrs::basic::{Class, Pool};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};

// ---- random draws ---------------------------------------------------------------------------

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(parts: &[u64]) -> Rng {
        let mut s = 0x9E37_79B9_7F4A_7C15u64;
        for &p in parts {
            s = (s ^ p).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            s ^= s >> 29;
            s = s.wrapping_mul(0x94D0_49BB_1331_11EB);
            s ^= s >> 32;
        }
        Rng(s)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
}

/// Source of draws: first the given tape, then the generator's rng (or zeros when there is none).
pub struct Src {
    prefix: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
    /// The last values drawn, to be met again.
    recent: [u64; RECENT],
    recent_at: usize,
    /// How many elements of unusually long lists are left.
    room: u64,
}

const RECENT: usize = 6;

/// Bit patterns of floats that are easily confused: infinities, quiet and signalling NaNs, zeros, denormals.
fn float_like(r: &mut Rng, bits: u32) -> u64 {
    let frac = if bits == 32 { 23 } else { 52 };
    let exp = ((1u64 << (bits - 1 - frac)) - 1) << frac;
    let quiet = 1u64 << (frac - 1);
    let sign = if r.below(2) == 0 { 0 } else { 1u64 << (bits - 1) };
    let payload = match r.below(4) {
        0 => 0,
        1 => 1,
        2 => 1u64 << r.below(frac as usize),
        _ => r.next() & ((1u64 << frac) - 1),
    };
    sign | match r.below(5) {
        0 => exp,
        1 => exp | quiet,
        2 => exp | payload,
        3 => payload,
        _ => exp | quiet | payload,
    }
}

fn likely(r: &mut Rng, bits: u32, recent: &[u64; RECENT]) -> u64 {
    let w = match bits {
        8 => 0,
        16 => 1,
        32 => 2,
        _ => 3,
    };
    match r.below(32) {
        0..=3 => r.below(8) as u64,
        4 => r.below(64) as u64,
        5 | 6 => {
            let top = u64::MAX >> (64 - bits);
            let at = 1u64 << [7, 8, 15, 16, 31, 32, 63][r.below(7)].min(bits - 1);
            [top, top - 1, top >> 1, (top >> 1) + 1, at, at - 1, at + 1, top - 255][r.below(8)]
        }
        7 => {
            let x = 1u64 << r.below(bits as usize);
            [x, x - 1, !x, x.wrapping_neg(), x | 1][r.below(5)]
        }
        8 | 9 => {
            // met before, or nearly
            let x = recent[r.below(RECENT)];
            match r.below(6) {
                0 => x.wrapping_add(1),
                1 => x.wrapping_sub(1),
                2 => x ^ (1u64 << r.below(bits as usize)),
                3 => x.rotate_right(bits / 2) | x.wrapping_shl(bits / 2),
                _ => x,
            }
        }
        10 | 11 => {
            let d = crate::dict::dict();
            let l = if d.fresh[w].is_empty() || r.below(4) == 0 { &d.nums[w] } else { &d.fresh[w] };
            if l.is_empty() {
                return 0;
            }
            let x = l[r.below(l.len())];
            match r.below(8) {
                0 => x.wrapping_add(1),
                1 => x.wrapping_sub(1),
                2 => x.wrapping_neg(),
                3 => x << 8,
                _ => x,
            }
        }
        12 | 13 if bits >= 32 => float_like(r, bits),
        _ => r.next(),
    }
}

impl Src {
    fn new(prefix: Vec<u64>, pos: usize, rng: Option<Rng>) -> Src {
        Src { prefix, pos, rng, recent: [0; RECENT], recent_at: 0, room: 6000 }
    }
    /// Draws from a generator of its own; not recorded.
    pub fn seeded(seed: u64) -> Src {
        Src::new(vec![], usize::MAX / 2, Some(Rng::new(&[seed])))
    }
    /// Enumerated cases have no generator: their further content comes from one seeded by the index.
    pub fn seed_if_empty(&mut self, index: u64) {
        if self.rng.is_none() && self.prefix.is_empty() {
            self.rng = Some(Rng::new(&[index, 99]));
        }
    }
    /// A draw in 0..bound (0 = any u64). 0 is always the simplest choice.
    pub fn raw(&mut self, bound: u64) -> u64 {
        let v = if self.pos < self.prefix.len() {
            self.prefix[self.pos]
        } else if let Some(r) = &mut self.rng {
            r.next()
        } else {
            0
        };
        let v = if bound == 0 { v } else { v % bound };
        rt::rec().put(self.pos, v);
        self.pos += 1;
        v
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        self.raw(n)
    }
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    /// True with probability p/q; false is the simple choice.
    pub fn chance(&mut self, p: u64, q: u64) -> bool {
        self.below(q) >= q - p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    /// Index into weights.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let mut x = self.below(w.iter().sum());
        for (i, &k) in w.iter().enumerate() {
            if x < k {
                return i;
            }
            x -= k;
        }
        w.len() - 1
    }
    /// A value of the given width in one draw: uniform, or one that code is likely to treat in a special way. Lower
    /// values are simpler.
    fn value(&mut self, bits: u32) -> u64 {
        let mask = u64::MAX >> (64 - bits);
        let v = if self.pos < self.prefix.len() {
            self.prefix[self.pos]
        } else if let Some(r) = &mut self.rng {
            let v = likely(r, bits, &self.recent);
            if v > 2 {
                self.recent[self.recent_at] = v & mask;
                self.recent_at = (self.recent_at + 1) % RECENT;
            }
            v
        } else {
            0
        } & mask;
        rt::rec().put(self.pos, v);
        self.pos += 1;
        v
    }
    pub fn u64any(&mut self) -> u64 {
        self.value(64)
    }
    pub fn u8any(&mut self) -> u8 {
        self.value(8) as u8
    }
    pub fn u16any(&mut self) -> u16 {
        self.value(16) as u16
    }
    pub fn u32any(&mut self) -> u32 {
        self.value(32) as u32
    }
    /// Small counts mostly, now and then larger, at most max.
    pub fn count(&mut self, max: u64) -> usize {
        let mut c = if self.pos < self.prefix.len() {
            self.prefix[self.pos]
        } else if let Some(r) = &mut self.rng {
            match r.below(16) {
                0..=4 => r.below(2) as u64,
                5..=11 => r.below(4) as u64,
                12..=14 => r.below(12) as u64,
                _ => {
                    let l = &crate::dict::dict().fresh[1];
                    if !l.is_empty() && r.below(3) == 0 {
                        l[r.below(l.len())] + r.below(3) as u64 - 1
                    } else {
                        r.below(48) as u64
                    }
                }
            }
        } else {
            0
        };
        if c >= 48 {
            if c <= self.room {
                self.room -= c;
            } else {
                c %= 48;
            }
        }
        let c = c.min(max);
        rt::rec().put(self.pos, c);
        self.pos += 1;
        c as usize
    }
    /// One of the library's own texts (new ones first), possibly with more before or behind, spelled out in the tape.
    pub fn known_text(&mut self) -> String {
        let mut base = "";
        if self.pos >= self.prefix.len() {
            if let Some(r) = &mut self.rng {
                let d = crate::dict::dict();
                let l = if d.fresh_texts.is_empty() || r.below(4) == 0 { &d.texts } else { &d.fresh_texts };
                if !l.is_empty() {
                    base = &l[r.below(l.len())];
                }
            }
        }
        self.near_text(base)
    }
    /// The text, or one a few characters away from it, spelled out in the tape.
    pub fn near_text(&mut self, base: &str) -> String {
        let mut chars: Vec<char> = base.chars().collect();
        if self.pos >= self.prefix.len() {
            if let Some(r) = &mut self.rng {
                {
                    let extra = |r: &mut Rng| match r.below(3) {
                        0 => ['\0', ' ', '\t', '\n', '.', '/', '_', '-', 's', 'S', '0', '1', ';', '$', '\u{E9}', '\u{20AC}', '\u{1F600}', '\u{A0}', '\u{FEFF}'][r.below(19)],
                        1 => (b'A' + r.below(26) as u8) as char,
                        _ => (b'a' + r.below(26) as u8) as char,
                    };
                    match r.below(9) {
                        4 => {
                            let i = r.below(chars.len() + 1);
                            chars.insert(i, extra(r));
                        }
                        5 if !chars.is_empty() => {
                            let i = r.below(chars.len());
                            chars[i] = if r.below(2) == 0 {
                                extra(r)
                            } else if chars[i].is_ascii_lowercase() {
                                chars[i].to_ascii_uppercase()
                            } else {
                                chars[i].to_ascii_lowercase()
                            };
                        }
                        6 => {
                            let up = r.below(2) == 0;
                            for c in &mut chars {
                                *c = if up { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
                            }
                        }
                        0 => chars.push(extra(r)),
                        1 => chars.insert(0, extra(r)),
                        2 => {
                            chars.pop();
                        }
                        3 => {
                            for _ in 0..r.below(12) {
                                chars.push(extra(r));
                            }
                        }
                        _ => {}
                    }
                }
            }
        }
        let k = self.given(chars.len() as u64).min(4096);
        (0..k)
            .map(|i| {
                let c = self.given(chars.get(i as usize).map_or(u64::from('a'), |c| u64::from(*c as u32)));
                char::from_u32(c as u32).unwrap_or('a')
            })
            .collect()
    }
    /// A draw that is v unless the tape says otherwise.
    fn given(&mut self, v: u64) -> u64 {
        let v = if self.pos < self.prefix.len() {
            self.prefix[self.pos]
        } else if self.rng.is_some() {
            v
        } else {
            0
        };
        rt::rec().put(self.pos, v);
        self.pos += 1;
        v
    }
    /// k bytes from k/8 draws.
    pub fn bytes(&mut self, k: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(k + 8);
        while v.len() < k {
            v.extend(self.raw(0).to_le_bytes());
        }
        v.truncate(k);
        v
    }
    /// k pseudo-random bytes from one draw.
    pub fn fill(&mut self, k: usize) -> Vec<u8> {
        let mut r = Rng::new(&[self.raw(1 << 32), 77]);
        let mut v = Vec::with_capacity(k + 8);
        while v.len() < k {
            v.extend(r.next().to_le_bytes());
        }
        v.truncate(k);
        v
    }
}

// ---- cases and phases -----------------------------------------------------------------------

#[derive(Clone)]
pub enum Case {
    Tape(Vec<u64>),
    Bytes(Vec<u8>),
}

pub struct Fail {
    /// Stable name of the kind of failure (known findings are keyed on it).
    pub sig: &'static str,
    pub msg: String,
    /// The bytes that show it, if the case is about bytes.
    pub input: Option<Vec<u8>>,
}
pub type Res = Result<(), Fail>;

pub fn fail<T>(sig: &'static str, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig, msg: msg.into(), input: None })
}

pub trait WithInput<T> {
    fn with_input(self, b: &[u8]) -> Result<T, Fail>;
}
impl<T> WithInput<T> for Result<T, Fail> {
    fn with_input(self, b: &[u8]) -> Result<T, Fail> {
        self.map_err(|mut f| {
            if f.input.is_none() {
                f.input = Some(b.to_vec());
            }
            f
        })
    }
}

pub struct Cx {
    /// The case is a reduced form of a failing one (it need not be of the kind the generator makes).
    pub shrinking: bool,
    pub src: Src,
    pub index: u64,
    pub thorough: bool,
    labels: Vec<&'static str>,
    maxima: Vec<(&'static str, u64)>,
    nontrivial: bool,
    hash: u64,
    sample: Option<String>,
    pub cost: Cost,
}

impl Cx {
    /// Counts the case under a class (reported as a histogram).
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    /// Reports the largest value seen.
    pub fn max(&mut self, l: &'static str, v: u64) {
        self.maxima.push((l, v));
    }
    pub fn nontrivial(&mut self, yes: bool) {
        self.nontrivial |= yes;
    }
    /// Identity of the case, for counting distinct ones.
    pub fn identity<H: Hash + ?Sized>(&mut self, h: &H) {
        let mut s = std::collections::hash_map::DefaultHasher::new();
        h.hash(&mut s);
        self.hash ^= s.finish().rotate_left(1);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.sample.is_none() && self.want_sample() {
            self.sample = Some(crate::val::clip(f(), 400));
        }
    }
    fn want_sample(&self) -> bool {
        self.index < 4 || self.index.is_power_of_two()
    }
    /// Runs library code with generous limits on work and heap; a panic is a failure.
    pub fn sut<T>(&mut self, size: usize, what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
        let (r, cost) = rt::measured(
            50_000_000 + 20_000 * size as i64,
            (1 << 30) + 8192 * size as i64,
            f,
        );
        self.cost = cost;
        r.or_else(|p| fail("panic", format!("{} panicked: {}", what, p)))
    }
    pub fn parse(&mut self, b: &[u8]) -> Result<jbcrs::Result<(Pool, Class)>, Fail> {
        self.sut(b.len(), "parse", || jbcrs::basic::parse(b)).with_input(b)
    }
}

pub type PFn = fn(&mut Cx) -> Res;
pub type BFn = fn(&mut Cx, &[u8]) -> Res;

pub enum Kind {
    /// n independent random cases.
    Random(u64, PFn),
    /// Every index below n (the function reads cx.index).
    All(fn(bool) -> u64, PFn),
    /// Coverage-guided evolution of tapes: executions per worker.
    Evolve(u64, PFn),
    /// Coverage-guided mutation of byte strings: executions per worker.
    Fuzz(u64, fn() -> Vec<Vec<u8>>, BFn),
    /// Saved inputs, handed over one by one.
    Saved(fn() -> Vec<Vec<u8>>, BFn),
}

pub struct Phase {
    pub name: &'static str,
    pub kind: Kind,
}
pub fn phase(name: &'static str, kind: Kind) -> Phase {
    Phase { name, kind }
}

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub corpus: bool,
    /// (thorough) -> phases
    pub phases: fn(bool) -> Vec<Phase>,
}

// ---- worker ---------------------------------------------------------------------------------

pub const SHARDS: u64 = 8;

pub struct Stats {
    pub evals: u64,
    pub hashes: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub phases: BTreeMap<String, (u64, u64)>,
    pub samples: Vec<String>,
    pub known: BTreeMap<String, u64>,
}

pub struct Worker<'a> {
    pub check: &'a Check,
    pub seed: u64,
    pub shard: u64,
    pub thorough: bool,
    pub dir: String,
    pub known: Vec<String>,
    pub stats: Stats,
}

static SHRINKING: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

pub struct Found {
    pub phase: usize,
    pub index: u64,
    pub case: Case,
    pub fail: Fail,
}

fn str_hash(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ u64::from(b)).wrapping_mul(0x100_0000_01b3))
}

/// Runs one case from a tape or bytes.
pub fn run_case(ph: &Phase, pi: usize, index: u64, case: &Case, rng: Option<Rng>, thorough: bool) -> (Res, Cx) {
    let prefix = match case {
        Case::Tape(t) => t.clone(),
        Case::Bytes(_) => vec![],
    };
    let r = rt::rec();
    r.start(pi, matches!(case, Case::Bytes(_)) as u64, index);
    let mut cx = Cx {
        shrinking: SHRINKING.load(std::sync::atomic::Ordering::Relaxed),
        src: Src::new(prefix, 0, rng),
        index,
        thorough,
        labels: vec![],
        maxima: vec![],
        nontrivial: false,
        hash: 0,
        sample: None,
        cost: Cost::default(),
    };
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match (&ph.kind, case) {
        (Kind::Random(_, f), _) | (Kind::All(_, f), _) | (Kind::Evolve(_, f), _) => f(&mut cx),
        (Kind::Fuzz(_, _, f), Case::Bytes(b)) | (Kind::Saved(_, f), Case::Bytes(b)) => {
            r.put_bytes(b);
            f(&mut cx, b)
        }
        _ => panic!("case kind does not fit phase {}", ph.name),
    }));
    let res = res.unwrap_or_else(|p| {
        // a panic raised by the library outside `sut` (while its values are being read) is a failure too
        let text = rt::last_panic();
        if text.contains(" at /repo/") {
            fail("panic", format!("the library panicked: {}", text))
        } else {
            std::panic::resume_unwind(p)
        }
    });
    (res, cx)
}

impl<'a> Worker<'a> {
    fn note(&mut self, ph: &str, cx: &mut Cx) {
        self.stats.evals += 1;
        let e = self.stats.phases.entry(ph.to_string()).or_default();
        e.0 += 1;
        if cx.nontrivial {
            let h = if cx.hash == 0 { str_hash(ph) ^ cx.index.wrapping_mul(0x9E37_79B9) } else { cx.hash };
            if self.stats.hashes.insert(h) {
                e.1 += 1;
            }
        }
        for l in cx.labels.drain(..) {
            *self.stats.labels.entry(l.to_string()).or_default() += 1;
        }
        for (l, v) in cx.maxima.drain(..) {
            let e = self.stats.labels.entry(format!("{}: {} (max over workers)", ph, l)).or_default();
            *e = (*e).max(v);
        }
        if let Some(s) = cx.sample.take() {
            let s = format!("{}#{}: {}", ph, cx.index, s);
            let same = self.stats.samples.iter().filter(|x| x.starts_with(ph)).count();
            if same < 4 && self.stats.samples.len() < 24 {
                self.stats.samples.push(s);
            }
        }
    }

    fn known(&mut self, f: &Fail) -> bool {
        if self.known.iter().any(|k| k == f.sig) {
            *self.stats.known.entry(f.sig.to_string()).or_default() += 1;
            return true;
        }
        false
    }

    fn stop_requested(&self) -> bool {
        std::path::Path::new(&format!("{}/stop", self.dir)).exists()
    }

    pub fn run(&mut self) -> Option<Found> {
        let phases = (self.check.phases)(self.thorough);
        for (pi, ph) in phases.iter().enumerate() {
            if let Some(f) = self.run_phase(pi, ph) {
                return Some(f);
            }
        }
        None
    }

    fn run_phase(&mut self, pi: usize, ph: &Phase) -> Option<Found> {
        let key = str_hash(self.check.id) ^ str_hash(ph.name).rotate_left(17);
        match &ph.kind {
            Kind::Random(total, _) => {
                let mut i = self.shard;
                while i < *total {
                    let rng = Rng::new(&[self.seed, key, i]);
                    let (res, mut cx) = run_case(ph, pi, i, &Case::Tape(vec![]), Some(rng), self.thorough);
                    if let Some(f) = self.outcome(ph, pi, i, res, &mut cx, None) {
                        return Some(f);
                    }
                    i += SHARDS;
                    if (i / SHARDS) % 512 == 0 && self.stop_requested() {
                        return None;
                    }
                }
            }
            Kind::All(total, _) => {
                let total = total(self.thorough);
                let mut i = self.shard;
                while i < total {
                    let (res, mut cx) = run_case(ph, pi, i, &Case::Tape(vec![]), None, self.thorough);
                    if let Some(f) = self.outcome(ph, pi, i, res, &mut cx, None) {
                        return Some(f);
                    }
                    i += SHARDS;
                    if (i / SHARDS) % 512 == 0 && self.stop_requested() {
                        return None;
                    }
                }
            }
            Kind::Saved(load, _) => {
                for (i, b) in load().into_iter().enumerate() {
                    if i as u64 % SHARDS != self.shard {
                        continue;
                    }
                    let (res, mut cx) = run_case(ph, pi, i as u64, &Case::Bytes(b.clone()), None, self.thorough);
                    if let Some(f) = self.outcome(ph, pi, i as u64, res, &mut cx, Some(b)) {
                        return Some(f);
                    }
                }
            }
            Kind::Evolve(execs, _) => return self.evolve(pi, ph, key, *execs),
            Kind::Fuzz(execs, seeds, _) => return self.fuzz(pi, ph, key, *execs, seeds()),
        }
        None
    }

    fn outcome(&mut self, ph: &Phase, pi: usize, i: u64, res: Res, cx: &mut Cx, bytes: Option<Vec<u8>>) -> Option<Found> {
        self.note(ph.name, cx);
        let fail = res.err()?;
        if self.known(&fail) {
            return None;
        }
        let case = match bytes {
            Some(b) => Case::Bytes(b),
            None => Case::Tape(rt::rec().tape()),
        };
        Some(self.shrink(ph, pi, i, case, fail))
    }

    fn shrink(&mut self, ph: &Phase, pi: usize, i: u64, case: Case, fail: Fail) -> Found {
        let _ = std::fs::write(format!("{}/stop", self.dir), "");
        let mut best = fail;
        let thorough = self.thorough;
        let known = self.known.clone();
        SHRINKING.store(true, std::sync::atomic::Ordering::Relaxed);
        let case = shrink_case(case, 6000, |c| {
            let (res, _) = run_case(ph, pi, i, c, None, thorough);
            match res {
                Err(f) if !known.iter().any(|k| k == f.sig) => {
                    best = f;
                    true
                }
                _ => false,
            }
        });
        Found { phase: pi, index: i, case, fail: best }
    }

    fn evolve(&mut self, pi: usize, ph: &Phase, key: u64, execs: u64) -> Option<Found> {
        let mut rng = Rng::new(&[self.seed, key, self.shard, 1]);
        let mut seen = vec![0u8; rt::MAP];
        let mut corpus: Vec<Vec<u64>> = vec![];
        for k in 0..execs {
            let fresh = corpus.is_empty() || rng.below(8) == 0;
            let mut tape = vec![];
            let mut tail = Some(Rng::new(&[rng.next()]));
            if !fresh {
                tape = corpus[rng.below(corpus.len())].clone();
                for _ in 0..1 + rng.below(4) {
                    mutate_tape(&mut tape, &mut rng, &corpus);
                }
                if rng.below(2) == 0 {
                    tail = None;
                }
            }
            rt::cov_reset();
            let index = k * SHARDS + self.shard;
            let (res, mut cx) = run_case(ph, pi, index, &Case::Tape(tape), tail, self.thorough);
            let mut new = false;
            rt::cov_each(|g, b| {
                if seen[g] & b == 0 {
                    seen[g] |= b;
                    new = true;
                }
            });
            if new {
                let t = rt::rec().tape();
                if t.len() < 20_000 {
                    corpus.push(t);
                }
            }
            if let Some(f) = self.outcome(ph, pi, index, res, &mut cx, None) {
                return Some(f);
            }
            if k % 512 == 511 && self.stop_requested() {
                return None;
            }
        }
        *self.stats.labels.entry(format!("{}: tapes kept for new coverage", ph.name)).or_default() +=
            corpus.len() as u64;
        None
    }

    fn fuzz(&mut self, pi: usize, ph: &Phase, key: u64, execs: u64, seeds: Vec<Vec<u8>>) -> Option<Found> {
        let mut rng = Rng::new(&[self.seed, key, self.shard, 2]);
        let mut seen = vec![0u8; rt::MAP];
        let mut corpus: Vec<Vec<u8>> = vec![];
        let nseeds = seeds.len() as u64;
        for k in 0..execs {
            let b = if k < nseeds {
                seeds[k as usize].clone()
            } else {
                let mut b = corpus[rng.below(corpus.len())].clone();
                let rounds = 1 << rng.below(4);
                for _ in 0..rounds {
                    mutate_bytes(&mut b, &mut rng, &corpus);
                }
                b
            };
            rt::cov_reset();
            let index = k * SHARDS + self.shard;
            let (res, mut cx) = run_case(ph, pi, index, &Case::Bytes(b.clone()), None, self.thorough);
            let mut new = corpus.is_empty();
            rt::cov_each(|g, bk| {
                if seen[g] & bk == 0 {
                    seen[g] |= bk;
                    new = true;
                }
            });
            if let Some(f) = self.outcome(ph, pi, index, res, &mut cx, Some(b.clone())) {
                return Some(f);
            }
            if new {
                corpus.push(b);
            }
            if k % 512 == 511 && self.stop_requested() {
                return None;
            }
        }
        *self.stats.labels.entry(format!("{}: inputs kept for new coverage", ph.name)).or_default() +=
            corpus.len() as u64;
        let hit = seen.iter().filter(|x| **x != 0).count() as u64;
        let e = self.stats.labels.entry(format!("{}: edges covered (max over workers)", ph.name)).or_default();
        *e = (*e).max(hit);
        None
    }
}

fn mutate_tape(t: &mut Vec<u64>, r: &mut Rng, corpus: &[Vec<u64>]) {
    if t.is_empty() {
        t.push(r.next());
        return;
    }
    let i = r.below(t.len());
    match r.below(7) {
        0 => {
            let bits = [8, 16, 32, 64][r.below(4)];
            t[i] = if r.below(2) == 0 { r.next() } else { likely(r, bits, &[t[(i + 1) % t.len()]; RECENT]) }
        }
        1 => t[i] = t[i].wrapping_add(1),
        2 => t[i] = t[i].wrapping_sub(1),
        3 => {
            let k = 1 + r.below(8);
            let e = (i + k).min(t.len());
            t.drain(i..e);
        }
        4 => {
            let k = 1 + r.below(8);
            for _ in 0..k {
                t.insert(i, r.next());
            }
        }
        5 => t.truncate(i),
        _ => {
            let o = &corpus[r.below(corpus.len())];
            if !o.is_empty() {
                let j = r.below(o.len());
                let k = 1 + r.below(64);
                let part: Vec<u64> = o[j..(j + k).min(o.len())].to_vec();
                for (d, v) in part.into_iter().enumerate() {
                    if i + d < t.len() {
                        t[i + d] = v;
                    } else {
                        t.push(v);
                    }
                }
            }
        }
    }
}

pub fn mutate_bytes(b: &mut Vec<u8>, r: &mut Rng, corpus: &[Vec<u8>]) {
    if b.is_empty() {
        b.push(r.next() as u8);
        return;
    }
    let i = r.below(b.len());
    match r.below(12) {
        0 => b[i] ^= 1 << r.below(8),
        1 => b[i] = r.next() as u8,
        2 => b[i] = b[i].wrapping_add(1),
        3 => b[i] = b[i].wrapping_sub(1),
        4 if r.below(2) == 0 => {
            // a number or text of the library's own
            let d = crate::dict::dict();
            let part: Vec<u8> = match r.below(5) {
                k @ 0..=3 => {
                    let l = if d.fresh[k].is_empty() || r.below(4) == 0 { &d.nums[k] } else { &d.fresh[k] };
                    if l.is_empty() {
                        return;
                    }
                    let x = l[r.below(l.len())].wrapping_add(r.below(3) as u64).wrapping_sub(1);
                    x.to_be_bytes()[8 - (1 << k)..].to_vec()
                }
                _ => {
                    let l = if d.fresh_texts.is_empty() || r.below(4) == 0 { &d.texts } else { &d.fresh_texts };
                    if l.is_empty() {
                        return;
                    }
                    l[r.below(l.len())].clone().into_bytes()
                }
            };
            let e = (i + part.len()).min(b.len());
            let k = e - i;
            b[i..e].copy_from_slice(&part[..k]);
        }
        4 => b[i] = [0, 1, 0x7F, 0x80, 0xFF, 0xC0, 0xE0, 0xED, b'[', b'@', 0xAA, 0xAB, 0xC4][r.below(13)],
        5 | 6 => {
            let w = [2usize, 4][r.below(2)];
            if i + w <= b.len() {
                let v: u32 = match r.below(4) {
                    0 => [0, 1, 2, 0xFFFF, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF, 0xFFFE][r.below(8)],
                    1 => r.below(64) as u32,
                    2 => {
                        let mut x = 0u32;
                        for k in 0..w {
                            x = x << 8 | u32::from(b[i + k]);
                        }
                        if r.below(2) == 0 {
                            x.wrapping_add(1 + r.below(4) as u32)
                        } else {
                            x.wrapping_sub(1 + r.below(4) as u32)
                        }
                    }
                    _ => r.next() as u32,
                };
                let be = v.to_be_bytes();
                b[i..i + w].copy_from_slice(&be[4 - w..]);
            }
        }
        7 => {
            let e = (i + 1 + r.below(16)).min(b.len());
            b.drain(i..e);
        }
        8 => {
            let e = (i + 1 + r.below(32)).min(b.len());
            let part = b[i..e].to_vec();
            if b.len() < 1 << 15 {
                b.splice(i..i, part);
            }
        }
        9 => {
            if b.len() < 1 << 15 {
                for _ in 0..1 + r.below(4) {
                    b.insert(i, r.next() as u8);
                }
            }
        }
        _ => {
            let o = &corpus[r.below(corpus.len())];
            if !o.is_empty() && b.len() < 1 << 15 {
                let j = r.below(o.len());
                let e = (j + 1 + r.below(128)).min(o.len());
                let part = o[j..e].to_vec();
                if r.below(2) == 0 {
                    let e = (i + part.len()).min(b.len());
                    b.splice(i..e, part);
                } else {
                    b.splice(i..i, part);
                }
            }
        }
    }
}

/// Greedy minimisation: drop chunks, then lower single values.
pub fn shrink_case(case: Case, budget: usize, mut test: impl FnMut(&Case) -> bool) -> Case {
    // what is found counts more than how small it is
    let start = std::time::Instant::now();
    let mut fails = |c: &Case| start.elapsed().as_secs() < 25 && test(c);
    fn chunks<T: Clone>(v: &mut Vec<T>, left: &mut usize, test: &mut dyn FnMut(&Vec<T>) -> bool) -> bool {
        let mut any = false;
        let mut size = v.len() / 2;
        while size >= 1 {
            let mut i = 0;
            while i < v.len() && *left > 0 {
                let e = (i + size).min(v.len());
                let mut w = v.clone();
                w.drain(i..e);
                *left -= 1;
                if test(&w) {
                    *v = w;
                    any = true;
                } else {
                    i += size;
                }
            }
            size /= 2;
        }
        any
    }
    let mut left = budget;
    match case {
        Case::Tape(mut t) => {
            // drop the unread tail first: zeros are what is read past the end
            loop {
                let mut any = chunks(&mut t, &mut left, &mut |w| fails(&Case::Tape(w.clone())));
                for i in 0..t.len() {
                    if left == 0 {
                        break;
                    }
                    for cand in [0, 1, t[i] / 2, t[i].wrapping_sub(1)] {
                        if cand < t[i] && left > 0 {
                            let old = t[i];
                            t[i] = cand;
                            left -= 1;
                            if fails(&Case::Tape(t.clone())) {
                                any = true;
                                break;
                            }
                            t[i] = old;
                        }
                    }
                }
                if !any || left == 0 {
                    break;
                }
            }
            let c = Case::Tape(t);
            fails(&c);
            c
        }
        Case::Bytes(mut b) => {
            loop {
                let mut any = chunks(&mut b, &mut left, &mut |w| fails(&Case::Bytes(w.clone())));
                for i in 0..b.len() {
                    if left == 0 {
                        break;
                    }
                    if b[i] != 0 {
                        let old = b[i];
                        b[i] = 0;
                        left -= 1;
                        if fails(&Case::Bytes(b.clone())) {
                            any = true;
                        } else {
                            b[i] = old;
                        }
                    }
                }
                if !any || left == 0 {
                    break;
                }
            }
            let c = Case::Bytes(b);
            fails(&c);
            c
        }
    }
}

// ---- text forms -----------------------------------------------------------------------------

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        let _ = write!(s, "{:02x}", x);
    }
    s
}
pub fn unhex(s: &str) -> Option<Vec<u8>> {
    let s: Vec<u8> = s.bytes().filter(|c| !c.is_ascii_whitespace()).collect();
    if s.len() % 2 != 0 {
        return None;
    }
    s.chunks(2)
        .map(|p| u8::from_str_radix(std::str::from_utf8(p).ok()?, 16).ok())
        .collect()
}

pub fn case_text(c: &Case) -> String {
    match c {
        Case::Tape(t) => {
            let mut s = String::from("tape ");
            for v in t {
                let _ = write!(s, "{:x},", v);
            }
            s
        }
        Case::Bytes(b) => format!("bytes {}", hex(b)),
    }
}
pub fn case_parse(s: &str) -> Option<Case> {
    if let Some(x) = s.strip_prefix("tape ") {
        let mut v = vec![];
        for p in x.split(',') {
            if !p.trim().is_empty() {
                v.push(u64::from_str_radix(p.trim(), 16).ok()?);
            }
        }
        return Some(Case::Tape(v));
    }
    s.strip_prefix("bytes ").and_then(unhex).map(Case::Bytes)
}
