mod dict;
mod engine;
mod gen;
mod obs;
mod props;
mod refdec;
mod rt;
mod spec;
mod val;

use engine::*;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: rt::Counting = rt::Counting;

const ROOT: &str = "/verif";

fn root() -> String {
    std::env::var("JV_ROOT").unwrap_or_else(|_| ROOT.to_string())
}

/// Library calls run on a thread of the size Rust gives threads by default.
fn on_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(2 << 20).spawn(f).unwrap().join().unwrap_or_else(|_| {
        eprintln!("harness thread failed");
        std::process::exit(3)
    })
}

fn find(id: &str) -> &'static Check {
    props::all().iter().find(|c| c.id == id).unwrap_or_else(|| {
        eprintln!("no check {}", id);
        std::process::exit(2)
    })
}

/// Known findings: lines `finding: property=<id> sig=<sig> <text>` in known_findings.txt.
fn known(id: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(format!("{}/known_findings.txt", root())).unwrap_or_default();
    text.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("finding: property=")?;
            let (p, rest) = l.split_once(' ')?;
            let rest = rest.strip_prefix("sig=")?;
            let (sig, text) = rest.split_once(' ')?;
            if p == id {
                Some((sig.to_string(), text.to_string()))
            } else {
                None
            }
        })
        .collect()
}

fn replay_text(id: &str, phase: &str, index: u64, case: &Case, msg: &str, input: Option<&[u8]>) -> String {
    let mut s = format!("property={}\nphase={}\nindex={}\ncase={}\n", id, phase, index, case_text(case));
    for l in msg.lines() {
        let _ = writeln!(s, "message={}", l);
    }
    if let Some(b) = input {
        let shown = &b[..b.len().min(1 << 20)];
        let _ = writeln!(s, "input={}{}", hex(shown), if shown.len() < b.len() { format!(" and {} more bytes", b.len() - shown.len()) } else { String::new() });
    }
    s
}

struct Replay {
    id: String,
    phase: String,
    index: u64,
    case: Case,
}
fn read_replay(path: &str) -> Option<Replay> {
    let text = std::fs::read_to_string(path).ok()?;
    let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).map(|s| s.to_string());
    Some(Replay {
        id: get("property=")?,
        phase: get("phase=")?,
        index: get("index=")?.parse().ok()?,
        case: case_parse(&get("case=")?)?,
    })
}

fn worker(args: &[String]) -> i32 {
    let (id, shard, dir, seed, thorough) = (
        args[0].clone(),
        args[1].parse::<u64>().unwrap(),
        args[2].clone(),
        args[3].parse::<u64>().unwrap(),
        args[4] == "1",
    );
    rt::open_record(&format!("{}/w{}.rec", dir, shard));
    rt::install_panic_hook();
    on_stack(move || {
        let check = find(&id);
        let mut w = Worker {
            check,
            seed,
            shard,
            thorough,
            dir: dir.clone(),
            known: known(&id).into_iter().map(|k| k.0).collect(),
            stats: Stats {
                evals: 0,
                hashes: HashSet::new(),
                labels: BTreeMap::new(),
                phases: BTreeMap::new(),
                samples: vec![],
                known: BTreeMap::new(),
            },
        };
        let found = w.run();
        let s = &w.stats;
        let mut out = format!("evals\t{}\n", s.evals);
        for (k, v) in &s.labels {
            let _ = writeln!(out, "label\t{}\t{}", k, v);
        }
        for (k, v) in &s.phases {
            let _ = writeln!(out, "phase\t{}\t{}\t{}", k, v.0, v.1);
        }
        for (k, v) in &s.known {
            let _ = writeln!(out, "known\t{}\t{}", k, v);
        }
        for x in &s.samples {
            let _ = writeln!(out, "sample\t{}", x.replace(['\n', '\t'], " "));
        }
        let mut hb = Vec::with_capacity(s.hashes.len() * 8);
        for h in &s.hashes {
            hb.extend(h.to_le_bytes());
        }
        std::fs::write(format!("{}/w{}.hash", dir, shard), hb).unwrap();
        std::fs::write(format!("{}/w{}.out", dir, shard), out).unwrap();
        match found {
            None => 0,
            Some(f) => {
                let ph = &(check.phases)(thorough)[f.phase];
                let text = replay_text(
                    &id,
                    ph.name,
                    f.index,
                    &f.case,
                    &format!("[{}] {}", f.fail.sig, f.fail.msg),
                    f.fail.input.as_deref(),
                );
                std::fs::write(format!("{}/w{}.fail", dir, shard), text).unwrap();
                1
            }
        }
    })
}

/// Runs the single case of a replay file. Exit 0 pass, 1 fail.
fn one(path: &str, rec: &str) -> i32 {
    let Some(r) = read_replay(path) else {
        eprintln!("cannot read {}", path);
        return 2;
    };
    rt::open_record(rec);
    rt::install_panic_hook();
    on_stack(move || {
        let check = find(&r.id);
        let phases: Vec<Phase> = [(check.phases)(false), (check.phases)(true)].into_iter().flatten().collect();
        let Some((pi, ph)) = phases.iter().enumerate().find(|p| p.1.name == r.phase) else {
            eprintln!("no phase {}", r.phase);
            return 2;
        };
        match run_case(ph, pi, r.index, &r.case, None, false).0 {
            Ok(()) => {
                println!("case passes");
                0
            }
            Err(f) => {
                println!("case fails: [{}] {}", f.sig, f.msg);
                if let Some(b) = f.input {
                    println!("input ({} bytes): {}", b.len(), val::clip(hex(&b), 2000));
                }
                1
            }
        }
    })
}

fn wait_timeout(mut c: std::process::Child, limit: Duration) -> Option<std::process::ExitStatus> {
    let t = Instant::now();
    loop {
        if let Ok(Some(s)) = c.try_wait() {
            return Some(s);
        }
        if t.elapsed() > limit {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

fn describe(st: &std::process::ExitStatus) -> String {
    use std::os::unix::process::ExitStatusExt;
    match (st.code(), st.signal()) {
        (Some(rt::EXIT_FUEL), _) => "did more work than any linear allowance (deterministic edge count exceeded)".into(),
        (Some(rt::EXIT_MEM), _) => "requested more heap than any linear allowance".into(),
        (_, Some(6)) => "aborted the process (SIGABRT: stack overflow, failed allocation or double panic)".into(),
        (_, Some(11)) => "crashed the process (SIGSEGV)".into(),
        (_, Some(s)) => format!("killed the process with signal {}", s),
        (c, _) => format!("ended the process with code {:?}", c),
    }
}
/// Ends that are the library's doing when they reproduce.
fn is_crash(st: &std::process::ExitStatus) -> bool {
    use std::os::unix::process::ExitStatusExt;
    matches!(st.code(), Some(rt::EXIT_FUEL) | Some(rt::EXIT_MEM)) || matches!(st.signal(), Some(6 | 11 | 4 | 7 | 8 | 5))
}

fn run_one(exe: &std::path::Path, dir: &str, text: &str) -> Option<std::process::ExitStatus> {
    let f = format!("{}/one.txt", dir);
    std::fs::write(&f, text).unwrap();
    let c = Command::new(exe)
        .args(["one", &f, &format!("{}/one.rec", dir)])
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    wait_timeout(c, Duration::from_secs(60))
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7F => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn check(id: &str) -> i32 {
    let t0 = Instant::now();
    let check = find(id);
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let root = root();
    let dir = format!("{}/work/{}-{}", root, id, std::process::id());
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let exe = std::env::current_exe().unwrap();
    if check.corpus {
        let out = format!("{}/corpus.pack", dir);
        let st = Command::new("bash")
            .args([format!("{}/harness/java/corpus.sh", root), out.clone(), seed.to_string(), if thorough { "thorough" } else { "quick" }.to_string()])
            .stdout(Stdio::null())
            .status();
        if !st.map(|s| s.success()).unwrap_or(false) {
            println!("ERROR: the compiled class corpus could not be produced");
            return 2;
        }
        std::env::set_var("JV_CORPUS", &out);
    }
    let limit = Duration::from_secs(if thorough { 6 * 3600 } else { 800 });
    let mut kids = vec![];
    for k in 0..SHARDS {
        let c = Command::new(&exe)
            .args(["worker", id, &k.to_string(), &dir, &seed.to_string(), if thorough { "1" } else { "0" }])
            .stdout(Stdio::null())
            .spawn()
            .unwrap();
        kids.push((k, c));
    }
    let mut ends = vec![];
    let mut error = None;
    for (k, c) in kids {
        let left = limit.saturating_sub(t0.elapsed());
        match wait_timeout(c, left) {
            Some(s) => {
                if is_crash(&s) {
                    let _ = std::fs::write(format!("{}/stop", dir), "");
                }
                ends.push((k, s))
            }
            None => error = Some("a worker did not finish in time (inconclusive)".to_string()),
        }
    }
    // collect violations: (phase position, index, replay text)
    let phases = (check.phases)(thorough);
    let pos = |name: &str| phases.iter().position(|p| p.name == name).unwrap_or(usize::MAX);
    let mut found: Vec<(usize, u64, String)> = vec![];
    for (k, st) in &ends {
        match st.code() {
            Some(0) => {}
            Some(1) => {
                let p = format!("{}/w{}.fail", dir, k);
                match (std::fs::read_to_string(&p), read_replay(&p)) {
                    (Ok(text), Some(r)) => found.push((pos(&r.phase), r.index, text)),
                    _ => error = Some(format!("worker {} failed without a report", k)),
                }
            }
            _ if is_crash(st) => {
                let Some((pi, index, case)) = rt::read_record(&format!("{}/w{}.rec", dir, k)) else {
                    error = Some(format!("worker {} crashed without a record", k));
                    continue;
                };
                let name = phases[pi].name;
                let mut last = None;
                let mut crashes = |c: &Case| -> bool {
                    match run_one(&exe, &dir, &replay_text(id, name, index, c, "", None)) {
                        Some(s) if is_crash(&s) => {
                            last = Some(describe(&s));
                            true
                        }
                        _ => false,
                    }
                };
                if crashes(&case) {
                    let small = shrink_case(case, 300, &mut crashes);
                    let msg = format!("[crash] the library {}", last.unwrap_or_default());
                    found.push((pi, index, replay_text(id, name, index, &small, &msg, None)));
                } else {
                    error = Some(format!("worker {} {} and it does not reproduce", k, describe(st)));
                }
            }
            _ => error = Some(format!("worker {} {}", k, describe(st))),
        }
    }
    found.sort_by(|a, b| (a.0, a.1).cmp(&(b.0, b.1)));

    // evidence
    let mut evals = 0u64;
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut ph: BTreeMap<String, (u64, u64)> = BTreeMap::new();
    let mut samples = vec![];
    let mut kn: BTreeMap<String, u64> = BTreeMap::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    for k in 0..SHARDS {
        for l in std::fs::read_to_string(format!("{}/w{}.out", dir, k)).unwrap_or_default().lines() {
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "evals" => evals += f[1].parse::<u64>().unwrap_or(0),
                "label" => {
                    let v = f[2].parse::<u64>().unwrap_or(0);
                    let e = labels.entry(f[1].into()).or_default();
                    if f[1].contains("(max over workers)") {
                        *e = (*e).max(v)
                    } else {
                        *e += v
                    }
                }
                "phase" => {
                    let e = ph.entry(f[1].into()).or_default();
                    e.0 += f[2].parse::<u64>().unwrap_or(0);
                    e.1 += f[3].parse::<u64>().unwrap_or(0);
                }
                "known" => *kn.entry(f[1].into()).or_default() += f[2].parse::<u64>().unwrap_or(0),
                "sample" => samples.push(f[1].to_string()),
                _ => {}
            }
        }
        let hb = std::fs::read(format!("{}/w{}.hash", dir, k)).unwrap_or_default();
        for c in hb.chunks_exact(8) {
            hashes.insert(u64::from_le_bytes(c.try_into().unwrap()));
        }
    }
    samples.sort_by_key(|s| {
        let name = s.split('#').next().unwrap_or("").to_string();
        (pos(&name), s.len() / 400, s.clone())
    });
    // a few per phase
    let mut per: BTreeMap<String, usize> = BTreeMap::new();
    samples.retain(|s| {
        let e = per.entry(s.split('#').next().unwrap_or("").to_string()).or_default();
        *e += 1;
        *e <= 4
    });
    let mut replay = None;
    if let Some((_, _, text)) = found.first() {
        let h = text.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ u64::from(b)).wrapping_mul(0x100000001b3));
        let rd = format!("{}/replays", root);
        let _ = std::fs::create_dir_all(&rd);
        let p = format!("{}/{}-{:016x}.txt", rd, id, h);
        std::fs::write(&p, text).unwrap();
        for l in text.lines().filter_map(|l| l.strip_prefix("message=")) {
            println!("{}", val::clip(l.to_string(), 1500));
        }
        replay = Some(p);
    }
    let mut j = String::from("{\n");
    let _ = write!(
        j,
        " \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n",
        esc(id),
        esc(if thorough { "thorough" } else { "quick" }),
        seed
    );
    let _ = write!(
        j,
        "  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n",
        evals,
        hashes.len(),
        esc(check.rule),
        samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",\n   ")
    );
    let _ = write!(
        j,
        "  \"phases\": {{{}}},\n",
        ph.iter()
            .map(|(k, v)| format!("{}: {{\"cases\": {}, \"distinct_nontrivial_per_worker_sum\": {}}}", esc(k), v.0, v.1))
            .collect::<Vec<_>>()
            .join(", ")
    );
    let _ = write!(
        j,
        "  \"classes\": {{{}}}\n }},\n",
        labels.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", ")
    );
    let _ = write!(
        j,
        " \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        check.assumptions.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "),
        t0.elapsed().as_secs_f64(),
        found.len().min(1)
    );
    let _ = std::fs::create_dir_all(format!("{}/evidence", root));
    std::fs::write(format!("{}/evidence/{}.json", root, id), j).unwrap();
    if std::env::var("JV_KEEP").is_err() {
        let _ = std::fs::remove_dir_all(&dir);
    }
    for (sig, text) in known(id) {
        println!("KNOWN-FINDING: property={} {} (seen {} times)", id, text, kn.get(&sig).copied().unwrap_or(0));
    }
    println!(
        "{}: {} cases, {} distinct non-trivial, {:.1} s",
        id,
        evals,
        hashes.len(),
        t0.elapsed().as_secs_f64()
    );
    if let Some(p) = replay {
        println!("VIOLATION property={} replay={}", id, p);
        return 1;
    }
    if let Some(e) = error {
        println!("ERROR: {}", e);
        return 2;
    }
    0
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => check(&args[2]),
        Some("literals") => {
            print!("{}", dict::listing());
            0
        }
        Some("worker") => worker(&args[2..]),
        Some("one") => one(&args[2], &args[3]),
        Some("replay") => {
            let dir = format!("{}/work/replay-{}", root(), std::process::id());
            std::fs::create_dir_all(&dir).unwrap();
            let exe = std::env::current_exe().unwrap();
            let c = Command::new(exe).args(["one", &args[2], &format!("{}/one.rec", dir)]).spawn().unwrap();
            let st = wait_timeout(c, Duration::from_secs(300));
            let _ = std::fs::remove_dir_all(&dir);
            match st {
                Some(s) if is_crash(&s) => {
                    println!("case fails: the library {}", describe(&s));
                    1
                }
                Some(s) => s.code().unwrap_or(2),
                None => 2,
            }
        }
        Some("list") => {
            for c in props::all() {
                println!("{}", c.id);
            }
            0
        }
        _ => {
            eprintln!("usage: jv check ID | replay FILE | list");
            2
        }
    };
    std::process::exit(code);
}
