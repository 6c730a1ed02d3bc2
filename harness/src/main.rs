mod alloc;
mod engine;
mod props;

use engine::*;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

const STACK: usize = 64 << 20;

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_string()))
}

fn main() {
    install_panic_hook();
    props::install_logger();
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("run") => run(&args[2], &args[3]),
        Some("worker") => {
            let a = args.clone();
            std::thread::Builder::new().stack_size(STACK).spawn(move || worker(&a[2..])).unwrap().join().unwrap_or(2)
        }
        Some("one") => {
            let a = args.clone();
            std::thread::Builder::new().stack_size(STACK).spawn(move || one(&a[2..])).unwrap().join().unwrap_or(2)
        }
        Some("replay") => replay(&args[2]),
        Some("probe-deep") => props::parse_total::probe_deep(args[2].parse().unwrap()),
        Some("list") => {
            for p in props::all() {
                println!("{} {}", p.id, p.subs.iter().map(|s| s.name).collect::<Vec<_>>().join(","));
            }
            0
        }
        _ => {
            eprintln!("usage: svgcheck run ID quick|thorough | replay FILE | list");
            2
        }
    };
    std::process::exit(code);
}

fn find(id: &str) -> Prop {
    props::all().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {}", id);
        std::process::exit(2)
    })
}

/// Known findings of a property: (signature, description).
fn known_findings(id: &str) -> Vec<(String, String)> {
    let mut out = Vec::new();
    if let Ok(s) = fs::read_to_string(verif_dir().join("known_findings.txt")) {
        for line in s.lines() {
            if let Some(rest) = line.strip_prefix("known: ") {
                let mut it = rest.splitn(3, ' ');
                let p = it.next().unwrap_or("");
                let s = it.next().unwrap_or("");
                let d = it.next().unwrap_or("");
                if p == format!("property={}", id) {
                    if let Some(sig) = s.strip_prefix("sig=") {
                        out.push((sig.to_string(), d.to_string()));
                    }
                }
            }
        }
    }
    out
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c => o.push(c),
        }
    }
    o
}

fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('r') => o.push('\r'),
                Some('t') => o.push('\t'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c);
        }
    }
    o
}

fn join(v: &[u64]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

fn split(s: &str) -> Vec<u64> {
    s.split(',').filter(|x| !x.is_empty()).map(|x| x.trim().parse().unwrap()).collect()
}

fn trunc(s: &str, n: usize) -> String {
    if s.chars().count() > n {
        let mut t: String = s.chars().take(n).collect();
        t.push('…');
        t
    } else {
        s.to_string()
    }
}

/// Progress record: counter, sub index, seed, length, forced choices.
struct Progress {
    f: fs::File,
    n: u64,
}

impl Progress {
    fn put(&mut self, sub: usize, seed: u64, forced: &[u64]) {
        self.n += 1;
        let mut b = Vec::with_capacity(32 + forced.len() * 8);
        for v in [self.n, sub as u64, seed, forced.len() as u64] {
            b.extend_from_slice(&v.to_le_bytes());
        }
        for v in forced {
            b.extend_from_slice(&v.to_le_bytes());
        }
        let _ = self.f.write_all_at(&b, 0);
    }
    fn get(path: &Path) -> Option<(u64, usize, u64, Vec<u64>)> {
        let mut b = Vec::new();
        fs::File::open(path).ok()?.read_to_end(&mut b).ok()?;
        let w: Vec<u64> = b.chunks_exact(8).map(|c| { let mut a = [0; 8]; a.copy_from_slice(c); u64::from_le_bytes(a) }).collect();
        if w.len() < 4 {
            return None;
        }
        let n = (w[3] as usize).min(w.len() - 4);
        Some((w[0], w[1] as usize, w[2], w[4..4 + n].to_vec()))
    }
}

/// Runs a case; a known finding that the file does not list is a failure.
fn judge(f: CaseFn, src: &mut Src, ctx: &mut Ctx, known: &[String]) -> R {
    run_case(f, src, ctx)?;
    match ctx.known.iter().find(|k| !known.contains(k)) {
        Some(k) => fail(k, format!("{} (not listed in known_findings.txt)", k)),
        None => Ok(()),
    }
}

fn worker(a: &[String]) -> i32 {
    let prop = find(&a[0]);
    let thorough = a[1] == "thorough";
    let seed: u64 = a[2].parse().unwrap();
    let w: u64 = a[3].parse().unwrap();
    let nw: u64 = a[4].parse().unwrap();
    let dir = PathBuf::from(&a[5]);
    let deadline = Instant::now() + Duration::from_secs(a[6].parse().unwrap());
    let known: Vec<String> = known_findings(prop.id).into_iter().map(|k| k.0).collect();

    let mut prog = Progress { f: fs::File::create(dir.join(format!("progress{}", w))).unwrap(), n: 0 };
    let mut out = String::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut fps: HashSet<u64> = HashSet::new();
    let mut known_seen: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = Vec::new();
    let mut evals = 0u64;
    let mut nontriv = 0u64;
    let mut guided_total = 0u64;
    let mut failed = false;
    let mut truncated = false;
    let mut cov = Coverage::new();

    'subs: for (si, sub) in prop.subs.iter().enumerate() {
        // SVGCHECK_DIV: fewer cases, for experiments.
        let div: u64 = std::env::var("SVGCHECK_DIV").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let total = (if thorough { sub.thorough } else { sub.quick } / div).max(16);
        let share = total / nw + if w < total % nw { 1 } else { 0 };
        // About a third of the cases come from coverage-guided mutation.
        let guided = if cov.available() && share >= 30 { share / 3 } else { 0 };
        let random = share - guided;
        let base = mix(mix(seed, hash_bytes(format!("{}/{}", prop.id, sub.name).as_bytes())), w + 1);
        let mut corpus: Vec<Vec<u64>> = Vec::new();
        let mut mrng = Rng::new(mix(base, 77));
        let mut sub_samples = 0;
        for i in 0..share {
            if i % 64 == 0 && Instant::now() > deadline {
                truncated = true;
                break 'subs;
            }
            // Another worker has found a violation.
            if i % 64 == 0 && dir.join("stop").exists() {
                break 'subs;
            }
            let case_seed = mix(base, i + 1000);
            let forced: Vec<u64> = if i >= random && !corpus.is_empty() {
                guided_total += 1;
                // Prefer recent entries.
                let n = corpus.len() as u64;
                let p = if mrng.below(2) == 0 { mrng.below(n) } else { n - 1 - mrng.below(n.min(32)) } as usize;
                let o = mrng.below(n) as usize;
                mutate(&mut mrng, &corpus[p], &corpus[o])
            } else {
                Vec::new()
            };
            prog.put(si, case_seed, &forced);
            let mut src = if forced.is_empty() { Src::random(case_seed) } else { Src::forced(forced, Some(case_seed)) };
            let mut ctx = Ctx::new();
            if cov.available() {
                cov.reset();
            }
            let r = judge(sub.f, &mut src, &mut ctx, &known);
            evals += 1;
            if cov.available() && cov.merge() && src.rec.len() < 4000 && corpus.len() < 4000 {
                corpus.push(src.rec.clone());
            }
            for l in &ctx.labels {
                *labels.entry(format!("{}:{}", sub.name, l)).or_insert(0) += 1;
            }
            *labels.entry(format!("{}:cases", sub.name)).or_insert(0) += 1;
            for k in ctx.known.iter().filter(|k| known.contains(k)) {
                *known_seen.entry(k.clone()).or_insert(0) += 1;
            }
            if ctx.nontrivial {
                nontriv += 1;
                let fp = ctx.fp.unwrap_or_else(|| {
                    let b: Vec<u8> = src.rec.iter().flat_map(|v| v.to_le_bytes().to_vec()).collect();
                    hash_bytes(&b)
                });
                fps.insert(mix(fp, si as u64));
                if w == 0 && sub_samples < 3 && !ctx.input.is_empty() && (i == share / 3 || i == share / 2 || i + 1 >= share - 5) {
                    sub_samples += 1;
                    samples.push(format!("[{}] {}", sub.name, trunc(&ctx.input, 1200)));
                }
            }
            if let Err(f) = r {
                if known.contains(&f.sig) {
                    *known_seen.entry(f.sig.clone()).or_insert(0) += 1;
                    continue;
                }
                let sig = f.sig.clone();
                let t0 = Instant::now();
                let _ = fs::write(dir.join("stop"), "");
                let choices = shrink(
                    src.rec.clone(),
                    |c| {
                        if t0.elapsed() > Duration::from_secs(60) {
                            return None;
                        }
                        prog.put(si, 0, c);
                        let mut s = Src::forced(c.to_vec(), None);
                        let mut cx = Ctx::new();
                        match judge(sub.f, &mut s, &mut cx, &known) {
                            Err(f) if f.sig == sig => Some(s.rec),
                            _ => None,
                        }
                    },
                    6000,
                );
                let mut s = Src::forced(choices.clone(), None);
                let mut cx = Ctx::new();
                let last = judge(sub.f, &mut s, &mut cx, &known).err().unwrap_or(f);
                out.push_str(&format!("FAIL\t{}\t{}\t{}\t{}\t{}\t{}\n", sub.name, esc(&last.sig), join(&choices), esc(&last.msg), esc(&cx.input), w));
                failed = true;
                break 'subs;
            }
        }
    }
    out.push_str(&format!("EVALS\t{}\nNONTRIV\t{}\nEDGES\t{}\nGUIDED\t{}\n", evals, nontriv, cov.edges, guided_total));
    if truncated {
        out.push_str("TRUNCATED\t1\n");
    }
    for (k, v) in &labels {
        out.push_str(&format!("LABEL\t{}\t{}\n", k, v));
    }
    for (k, v) in &known_seen {
        out.push_str(&format!("KNOWN\t{}\t{}\n", esc(k), v));
    }
    for s in &samples {
        out.push_str(&format!("SAMPLE\t{}\n", esc(s)));
    }
    let bytes: Vec<u8> = fps.iter().flat_map(|v| v.to_le_bytes().to_vec()).collect();
    fs::write(dir.join(format!("fps{}", w)), bytes).unwrap();
    fs::write(dir.join(format!("out{}", w)), out).unwrap();
    if failed { 1 } else { 0 }
}

/// Runs one case in this process. `one ID SUB SEED|- FILE`
fn one(a: &[String]) -> i32 {
    let prop = find(&a[0]);
    let sub = match prop.subs.iter().find(|s| s.name == a[1]) {
        Some(s) => *s,
        None => {
            eprintln!("unknown check {}", a[1]);
            return 2;
        }
    };
    let forced = split(&fs::read_to_string(&a[3]).unwrap());
    let mut src = if a[2] == "-" {
        Src::forced(forced, None)
    } else if forced.is_empty() {
        Src::random(a[2].parse().unwrap())
    } else {
        Src::forced(forced, Some(a[2].parse().unwrap()))
    };
    if let Ok(t) = std::env::var("SVGCHECK_TRACE") {
        src.trace = fs::File::create(t).ok();
    }
    let mut ctx = Ctx::new();
    let known: Vec<String> = known_findings(prop.id).into_iter().map(|k| k.0).collect();
    let r = judge(sub.f, &mut src, &mut ctx, &known);
    match r {
        Ok(()) => {
            println!("pass\ninput:\n{}", ctx.input);
            0
        }
        Err(f) => {
            println!("FAIL sig={} {}\ninput:\n{}", f.sig, f.msg, ctx.input);
            if known_findings(prop.id).iter().any(|k| k.0 == f.sig) {
                println!("(known finding)");
                0
            } else {
                3
            }
        }
    }
}

fn replay(path: &str) -> i32 {
    let s = match fs::read_to_string(path) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("{}: {}", path, e);
            return 2;
        }
    };
    let mut id = String::new();
    let mut sub = String::new();
    let mut seed = "-".to_string();
    let mut choices = String::new();
    let mut hist = String::new();
    for l in s.lines() {
        if let Some(v) = l.strip_prefix("property: ") {
            id = v.to_string();
        } else if let Some(v) = l.strip_prefix("check: ") {
            sub = v.to_string();
        } else if let Some(v) = l.strip_prefix("seed: ") {
            seed = v.to_string();
        } else if let Some(v) = l.strip_prefix("choices: ") {
            choices = v.to_string();
        } else if let Some(v) = l.strip_prefix("history: ") {
            hist = v.to_string();
        } else if l.starts_with("signature: ") {
            break;
        }
    }
    if !hist.is_empty() {
        if rerun(&id, &hist) {
            println!("a case fails after the cases before it (worker run {})", hist);
            println!("VIOLATION property={} replay={}", id, path);
            return 1;
        }
        return 0;
    }
    if sub == "probe-deep" {
        let o = limited(Some(60)).args(&["probe-deep", &choices]).stderr(Stdio::null()).output().unwrap();
        if o.status.success() {
            return 0;
        }
        println!("parsing {} nested elements: {:?}", choices, o.status);
        println!("VIOLATION property={} replay={}", id, path);
        return 1;
    }
    let dir = work_dir();
    let f = dir.join("choices");
    fs::write(&f, choices).unwrap();
    let (st, out) = isolated(&id, &sub, &seed, &f);
    print!("{}", out);
    let _ = fs::remove_dir_all(&dir);
    match st {
        Iso::Exit(0) => 0,
        Iso::Exit(3) => {
            println!("VIOLATION property={} replay={}", id, path);
            1
        }
        Iso::Exit(c) => c,
        Iso::Signal(s) => {
            println!("killed by signal {}", s);
            println!("VIOLATION property={} replay={}", id, path);
            1
        }
        Iso::Hang => {
            println!("did not finish within the CPU limit");
            println!("VIOLATION property={} replay={}", id, path);
            1
        }
    }
}

fn work_dir() -> PathBuf {
    let d = verif_dir().join("target").join(format!("work-{}", std::process::id()));
    let _ = fs::remove_dir_all(&d);
    fs::create_dir_all(&d).unwrap();
    d
}

#[derive(Debug, PartialEq)]
enum Iso {
    Exit(i32),
    Signal(i32),
    Hang,
}

/// CPU seconds that one isolated case may take. Normal cases take well under 0.1 s.
const CASE_CPU: u64 = 60;

fn limited(cpu: Option<u64>) -> Command {
    let mut c = Command::new("/bin/sh");
    let t = cpu.map(|n| format!("ulimit -t {};", n)).unwrap_or_default();
    c.arg("-c").arg(format!("ulimit -c 0; ulimit -v 8000000; {} exec \"$0\" \"$@\"", t));
    c.arg(std::env::current_exe().unwrap());
    c
}

fn isolated(id: &str, sub: &str, seed: &str, file: &Path) -> (Iso, String) {
    let o = limited(Some(CASE_CPU)).args(&["one", id, sub, seed]).arg(file).stderr(Stdio::null()).output().unwrap();
    let text = String::from_utf8_lossy(&o.stdout).to_string();
    let st = match (o.status.code(), o.status.signal()) {
        (Some(c), _) => Iso::Exit(c),
        (_, Some(24)) | (_, Some(9)) => Iso::Hang,
        (_, Some(s)) => Iso::Signal(s),
        _ => Iso::Exit(2),
    };
    (st, text)
}

/// Repeats the run of one worker ("tier seed worker workers"); true if it fails.
fn rerun(id: &str, hist: &str) -> bool {
    let a: Vec<&str> = hist.split(' ').collect();
    let dir = verif_dir().join("target").join(format!("rerun-{}", std::process::id()));
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).unwrap();
    let seed = a[1].parse::<i64>().unwrap_or(1) as u64;
    let st = limited(None)
        .args(&["worker", id, a[0], &seed.to_string(), a[2], a[3]])
        .arg(&dir)
        .arg("300")
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status()
        .unwrap();
    let _ = fs::remove_dir_all(&dir);
    st.code() == Some(1) || st.signal().is_some()
}

struct Violation {
    sub: String,
    sig: String,
    seed: String,
    choices: Vec<u64>,
    msg: String,
    input: String,
    /// How to repeat the whole run of the worker that found it.
    history: String,
}

fn history(tier: &str, seed: u64, w: u64, nw: u64) -> String {
    format!("{} {} {} {}", tier, seed as i64, w, nw)
}

fn run(id: &str, tier: &str) -> i32 {
    let prop = find(id);
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(1) as u64;
    let known = known_findings(id);
    let dir = work_dir();
    let nw = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8).max(2) as u64;
    let limit: u64 = if tier == "thorough" { 5400 } else { 420 };
    let mut children: Vec<_> = (0..nw)
        .map(|w| {
            let c = limited(None)
                .args(&["worker", id, tier, &seed.to_string(), &w.to_string(), &nw.to_string()])
                .arg(&dir)
                .arg(limit.to_string())
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .spawn()
                .unwrap();
            (w, Some(c), 0u64, Instant::now())
        })
        .collect();

    let mut violations: Vec<Violation> = Vec::new();
    let mut errors: Vec<String> = Vec::new();
    let mut suspects: Vec<(u64, &'static str)> = Vec::new();
    let mut stopped = false;
    loop {
        let mut alive = false;
        for (w, slot, last, since) in children.iter_mut() {
            let done = if let Some(ref mut c) = slot {
                match c.try_wait().unwrap() {
                    Some(st) => {
                        if let Some(sig) = st.signal() {
                            suspects.push((*w, if sig == 9 { "killed" } else { "crash" }));
                            let _ = fs::write(dir.join("stop"), "");
                        } else if !matches!(st.code(), Some(0) | Some(1)) {
                            errors.push(format!("worker {} ended with {:?}", w, st));
                        }
                        true
                    }
                    None => {
                        let n = Progress::get(&dir.join(format!("progress{}", w))).map(|p| p.0).unwrap_or(0);
                        if n != *last {
                            *last = n;
                            *since = Instant::now();
                        } else if since.elapsed() > Duration::from_secs(90) {
                            let _ = c.kill();
                            let _ = c.wait();
                            suspects.push((*w, "hang"));
                            let _ = fs::write(dir.join("stop"), "");
                            slot.take();
                            continue;
                        }
                        alive = true;
                        false
                    }
                }
            } else {
                false
            };
            if done {
                slot.take();
            }
        }
        if !alive {
            break;
        }
        std::thread::sleep(Duration::from_millis(15));
    }

    // Cases that killed or stalled a worker are run again alone.
    for (w, kind) in suspects {
        if violations.iter().any(|v| v.sig == kind) {
            continue;
        }
        let p = match Progress::get(&dir.join(format!("progress{}", w))) {
            Some(p) => p,
            None => {
                errors.push(format!("worker {} died before its first case", w));
                continue;
            }
        };
        let sub = prop.subs[p.1].name;
        let f = dir.join("suspect");
        fs::write(&f, join(&p.3)).unwrap();
        let seed_s = if p.2 == 0 { "-".to_string() } else { p.2.to_string() };
        let (st, _) = isolated(id, sub, &seed_s, &f);
        match st {
            Iso::Signal(s) => {
                let mut v = Violation {
                    sub: sub.to_string(),
                    sig: "crash".to_string(),
                    seed: seed_s.clone(),
                    choices: p.3.clone(),
                    msg: format!("the process was killed by signal {} (stack overflow or abort)", s),
                    input: String::new(),
                    history: history(tier, seed, w, nw),
                };
                // Shrink with one process per attempt.
                let t = Instant::now();
                let start = if p.2 == 0 { p.3.clone() } else { regenerate(id, sub, &seed_s, &f, &dir) };
                let g = dir.join("shrink");
                let mut crash = |c: &[u64]| -> Option<Vec<u64>> {
                    if t.elapsed() > Duration::from_secs(40) {
                        return None;
                    }
                    fs::write(&g, join(c)).unwrap();
                    match isolated(id, sub, "-", &g).0 {
                        Iso::Signal(_) => Some(c.to_vec()),
                        _ => None,
                    }
                };
                if crash(&start).is_some() {
                    v.choices = shrink(start, crash, 400);
                    v.seed = "-".to_string();
                }
                violations.push(v);
            }
            Iso::Hang => violations.push(Violation {
                sub: sub.to_string(),
                sig: "hang".to_string(),
                seed: seed_s,
                choices: p.3.clone(),
                msg: format!("the case used more than {} s of CPU time when run alone", CASE_CPU),
                input: String::new(),
                history: history(tier, seed, w, nw),
            }),
            Iso::Exit(3) => violations.push(Violation {
                sub: sub.to_string(),
                sig: "failed-alone".to_string(),
                seed: seed_s,
                choices: p.3.clone(),
                msg: "the case failed when run alone".to_string(),
                input: String::new(),
                history: history(tier, seed, w, nw),
            }),
            // Slow or killed from outside, and fine alone: the other cases still count.
            Iso::Exit(0) if kind != "crash" => stopped = true,
            // It depends on the cases before it: the worker's whole run is repeated.
            Iso::Exit(_) if kind == "crash" && rerun(id, &history(tier, seed, w, nw)) => violations.push(Violation {
                sub: sub.to_string(),
                sig: "crash".to_string(),
                seed: seed_s,
                choices: p.3.clone(),
                msg: "the process was killed by a signal in this case, after the cases before it".to_string(),
                input: String::new(),
                history: history(tier, seed, w, nw),
            }),
            Iso::Exit(_) => errors.push(format!("worker {}: {} not reproducible alone", w, kind)),
        }
    }

    // Collect.
    let mut evals = 0u64;
    let mut nontriv = 0u64;
    let mut edges = 0u64;
    let mut guided = 0u64;
    let mut truncated = stopped;
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut known_seen: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = Vec::new();
    let mut fps: HashSet<u64> = HashSet::new();
    for w in 0..nw {
        if let Ok(b) = fs::read(dir.join(format!("fps{}", w))) {
            for c in b.chunks_exact(8) {
                let mut a = [0; 8];
                a.copy_from_slice(c);
                fps.insert(u64::from_le_bytes(a));
            }
        }
        let s = fs::read_to_string(dir.join(format!("out{}", w))).unwrap_or_default();
        for line in s.lines() {
            let f: Vec<&str> = line.split('\t').collect();
            match f[0] {
                "EVALS" => evals += f[1].parse::<u64>().unwrap(),
                "NONTRIV" => nontriv += f[1].parse::<u64>().unwrap(),
                "EDGES" => edges = edges.max(f[1].parse().unwrap()),
                "GUIDED" => guided += f[1].parse::<u64>().unwrap(),
                "TRUNCATED" => truncated = true,
                "LABEL" => *labels.entry(f[1].to_string()).or_insert(0) += f[2].parse::<u64>().unwrap(),
                "KNOWN" => *known_seen.entry(unesc(f[1])).or_insert(0) += f[2].parse::<u64>().unwrap(),
                "SAMPLE" => samples.push(unesc(f[1])),
                "FAIL" => violations.push(Violation {
                    sub: f[1].to_string(),
                    sig: unesc(f[2]),
                    seed: "-".to_string(),
                    choices: split(f[3]),
                    msg: unesc(f[4]),
                    input: unesc(f[5]),
                    history: history(tier, seed, f[6].parse().unwrap_or(0), nw),
                }),
                _ => {}
            }
        }
    }

    if id == "C01" && violations.is_empty() {
        let o = limited(Some(60)).args(&["probe-deep", "10000"]).stderr(Stdio::null()).output().unwrap();
        evals += 1;
        if !o.status.success() {
            let sig = "deep-nesting-overflow".to_string();
            if known.iter().any(|k| k.0 == sig) && o.status.signal().is_some() {
                *known_seen.entry(sig).or_insert(0) += 1;
            } else {
                violations.push(Violation {
                    sub: "probe-deep".to_string(),
                    sig,
                    seed: "-".to_string(),
                    choices: vec![10000],
                    msg: format!("parsing 10000 nested elements: {:?}", o.status),
                    input: String::new(),
                    history: String::new(),
                });
            }
        }
    }

    violations.sort_by_key(|v| (v.choices.len(), v.choices.clone()));
    let rdir = verif_dir().join("replays");
    fs::create_dir_all(&rdir).unwrap();
    let mut replays: Vec<String> = Vec::new();
    for v in violations.iter().take(3) {
        let h = hash_bytes(format!("{}{}{}{}", v.sub, v.sig, v.seed, join(&v.choices)).as_bytes());
        let p = rdir.join(format!("{}-{}-{:016x}.replay", id, v.sub, h));
        let f = dir.join("again");
        fs::write(&f, join(&v.choices)).unwrap();
        // A case that passes alone depends on the cases before it, which the replay then repeats.
        let alone = v.sub == "probe-deep" || v.sig == "hang" || isolated(id, &v.sub, &v.seed, &f).0 != Iso::Exit(0);
        let hist = if alone { String::new() } else { format!("history: {}\n", v.history) };
        let text = format!(
            "property: {}\ncheck: {}\nseed: {}\nchoices: {}\n{}signature: {}\n\n{}\n\ninput:\n{}\n",
            id, v.sub, v.seed, join(&v.choices), hist, v.sig, v.msg, v.input
        );
        fs::write(&p, text).unwrap();
        replays.push(p.display().to_string());
    }

    for (sig, desc) in &known {
        if known_seen.contains_key(sig) {
            println!("KNOWN-FINDING: property={} [{}] {}", id, sig, desc);
        }
    }
    for (v, r) in violations.iter().zip(&replays) {
        println!("-- {} [{}] {}\n   input: {}", v.sub, v.sig, trunc(&v.msg, 1500), trunc(&v.input, 1500));
        println!("VIOLATION property={} replay={}", id, r);
    }

    let wall = t0.elapsed().as_secs_f64();
    let mut j = String::new();
    j.push_str("{\n");
    j.push_str(&format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n", js(id), js(tier), seed as i64));
    j.push_str(" \"coverage\": {\n");
    j.push_str(&format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"nontrivial\": {},\n  \"coverage_guided_cases\": {},\n  \"instrumented_edges_reached\": {},\n", evals, fps.len(), nontriv, guided, edges));
    j.push_str(&format!("  \"rule\": {},\n", js(prop.rule)));
    j.push_str("  \"classes\": {");
    j.push_str(&labels.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "));
    j.push_str("},\n  \"samples\": [");
    if samples.is_empty() {
        samples.push(format!("{} cases, no sample recorded", evals));
    }
    j.push_str(&samples.iter().take(12).map(|s| js(s)).collect::<Vec<_>>().join(",\n   "));
    j.push_str("]\n },\n");
    j.push_str(&format!(" \"wall_s\": {:.2},\n \"violations\": {},\n", wall, violations.len()));
    j.push_str(&format!(" \"known_findings\": [{}],\n", known_seen.keys().map(|k| js(k)).collect::<Vec<_>>().join(", ")));
    j.push_str(&format!(" \"truncated\": {},\n \"workers\": {},\n", truncated, nw));
    j.push_str(&format!(" \"assumptions\": [{}]\n}}\n", prop.assumptions.iter().map(|s| js(s)).collect::<Vec<_>>().join(", ")));
    let edir = verif_dir().join("evidence");
    fs::create_dir_all(&edir).unwrap();
    let mut f = fs::File::create(edir.join(format!("{}.json", id))).unwrap();
    f.write_all(j.as_bytes()).unwrap();

    let _ = fs::remove_dir_all(&dir);
    println!(
        "{} {}: {} cases ({} guided), {} distinct non-trivial, {} edges, {:.1} s{}",
        id, tier, evals, guided, fps.len(), edges, wall, if truncated { " (truncated by the time limit)" } else { "" }
    );
    if std::env::var("SVGCHECK_LABELS").is_ok() {
        for (k, v) in &labels {
            println!("   {} {}", k, v);
        }
    }
    if !violations.is_empty() {
        return 1;
    }
    if !errors.is_empty() {
        for e in errors {
            println!("ERROR {}", e);
        }
        return 2;
    }
    0
}

/// Runs a crashing case once more with tracing on, to get the choices it made.
fn regenerate(id: &str, sub: &str, seed: &str, file: &Path, dir: &Path) -> Vec<u64> {
    let t = dir.join("trace");
    let _ = limited(Some(CASE_CPU))
        .args(&["one", id, sub, seed])
        .arg(file)
        .env("SVGCHECK_TRACE", &t)
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status();
    let b = fs::read(&t).unwrap_or_default();
    b.chunks_exact(8).map(|c| { let mut a = [0; 8]; a.copy_from_slice(c); u64::from_le_bytes(a) }).collect()
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c == '\u{7f}' || c == '\u{feff}' || c == '\u{fffe}' || c == '\u{ffff}' => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
