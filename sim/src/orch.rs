//! Command line: orchestration of many runs over worker processes, replay, minimisation, evidence.
use crate::driver::profile;
use crate::runner::*;
use crate::script::*;
use crate::seams::mix64;
use crate::world::Cnt;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::io::{BufRead, BufReader, Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{mpsc, Mutex};
use std::time::{Duration, Instant};

pub const COMPRESS: bool = cfg!(feature = "compress");
pub const HOOKS: bool = cfg!(derivre_sim);
const CHUNK: u64 = 25;
const HANG: u64 = 100;

/// runs in the quick tier
fn budget(prop: &str) -> u64 {
    match prop {
        "C01" => 22000,
        "C02" => 15000,
        "C03" => 22000,
        "C04" => 32000,
        "C05" => 11000,
        "C06" => 5000,
        "C07" => 4000,
        "C08" => 3000,
        "C09" => 8000,
        "C10" => 4500,
        "C11" => 5500,
        "C12" => 18000,
        "C13" => 11000,
        "C14" => 120000,
        "C15" => 15000,
        "C16" => 1100,
        "C17" => 13000,
        _ => 1000,
    }
}

fn arg_u64(a: &[String], i: usize, d: u64) -> u64 {
    a.get(i).and_then(|x| x.parse().ok()).unwrap_or(d)
}

pub fn main(a: &[String]) -> i32 {
    let cmd = a.first().map(|s| s.as_str()).unwrap_or("");
    if cmd != "check" && cmd != "replay" {
        quiet_panics();
    }
    match cmd {
        "check" => check(&a[1]),
        "worker" => worker(&a[1], arg_u64(a, 2, 1), arg_u64(a, 3, 0), arg_u64(a, 4, 1), &a[5]),
        "trace" => trace(&a[1], arg_u64(a, 2, 1), arg_u64(a, 3, 0), arg_u64(a, 4, 0), Path::new(&a[5])),
        "replay" => replay(Path::new(&a[1]), true),
        "inner" => inner(Path::new(&a[1])),
        "minimise" => {
            let mut r: Replay = load(Path::new(&a[1]));
            let k = outcome_of(&r, HANG);
            println!("{:?}", k.0);
            minimise(&mut r, k.0, Duration::from_secs(60));
            save(Path::new(&a[2]), &r);
            0
        }
        "dev" => dev(&a[1..]),
        "show" => {
            let r: Replay = load(Path::new(&a[1]));
            for s in &r.scripts {
                println!("prop {} seed {} run {} mask {} threads {} stack {}k", s.prop, s.seed, s.run, s.mask_bits, s.threads, s.stack_kb);
                for (i, st) in s.steps.iter().enumerate() {
                    println!("{i:4} {}", serde_json::to_string(st).unwrap());
                }
            }
            0
        }
        "selftest" => selftest(arg_u64(a, 1, 1), arg_u64(a, 2, 100)),
        _ => {
            eprintln!("usage: dsim check|replay|show|selftest ...");
            2
        }
    }
}

fn load(p: &Path) -> Replay {
    let t = std::fs::read_to_string(p).unwrap_or_else(|e| {
        eprintln!("{}: {e}", p.display());
        std::process::exit(2)
    });
    serde_json::from_str(&t).unwrap_or_else(|e| {
        eprintln!("{}: {e}", p.display());
        std::process::exit(2)
    })
}
fn save(p: &Path, r: &Replay) {
    std::fs::write(p, serde_json::to_string_pretty(r).unwrap()).unwrap();
}

/// the binary that was built with or without byte compression
fn binary(compress: bool) -> PathBuf {
    let me = std::env::current_exe().unwrap();
    if compress == COMPRESS {
        return me;
    }
    let dir = me.parent().unwrap().parent().unwrap().parent().unwrap();
    dir.join(if compress { "target" } else { "target-nc" }).join("release/dsim")
}

fn limits() {
    unsafe {
        let r = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &r);
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
    }
}

// ----------------------------------------------------------------------------- workers

fn worker(prop: &str, seed: u64, from: u64, to: u64, out: &str) -> i32 {
    limits();
    let so = std::io::stdout();
    let mut cnt = Cnt::new();
    let mut foreign: BTreeMap<&'static str, (u64, String)> = BTreeMap::new();
    let mut states = HashSet::new();
    let mut sample = String::new();
    for run in from..to {
        {
            let mut o = so.lock();
            writeln!(o, "R {run}").unwrap();
            o.flush().unwrap();
        }
        let o = run_seed(prop, seed, run, COMPRESS, HOOKS);
        for (k, v) in &o.world.cnt {
            *cnt.entry(k).or_insert(0) += v;
        }
        *cnt.entry("steps").or_insert(0) += o.script.steps.len() as u64;
        *cnt.entry("observations").or_insert(0) += o.world.obs.len() as u64;
        *cnt.entry("twin_comparisons").or_insert(0) += o.twin_compared;
        if !o.twin.is_empty() {
            *cnt.entry("twin_executions").or_insert(0) += 1;
        }
        *cnt.entry("random_keys_drawn").or_insert(0) += o.entropy_calls;
        if o.script.mask_bits != 0 {
            *cnt.entry("runs_with_forced_collisions").or_insert(0) += 1;
        }
        if o.script.threads > 1 {
            *cnt.entry("runs_on_several_threads").or_insert(0) += 1;
        }
        for (k, v) in &o.world.foreign {
            let e = foreign.entry(k).or_insert((0, String::new()));
            e.0 += v.0;
            if e.1.is_empty() {
                e.1 = format!("run {run}: {}", v.1);
            }
        }
        states.extend(o.world.states.iter().copied());
        if sample.is_empty() && o.script.steps.len() > 5 {
            sample = format!(
                "run {run}: {}",
                o.script.steps.iter().take(14).map(|s| serde_json::to_string(s).unwrap()).collect::<Vec<_>>().join(" ; ").chars().take(900).collect::<String>()
            );
        }
        if let Some(v) = &o.viol {
            let p = format!("{out}/{prop}-{run}-{}.json", if COMPRESS { "c" } else { "n" });
            let mut s = o.script.clone();
            if v.step + 1 < s.steps.len() {
                s.steps.truncate(v.step + 1);
            }
            let mut r = Replay { property: prop.into(), violation: v.msg.clone(), minimised: false, scripts: vec![s] };
            if o.twin != "" {
                r.scripts = vec![o.script.clone()];
            }
            save(Path::new(&p), &r);
            println!("V {run} {p}");
            return 1;
        }
        let nontrivial = o.world.obs.len() >= 8 && o.script.steps.len() >= 5;
        println!("D {run} {:016x} {:016x} {}", o.digest, mix64(o.world.trace ^ o.digest), nontrivial as u8);
    }
    println!(
        "S {}",
        json!({
            "cnt": cnt,
            "foreign": foreign,
            "states": states.iter().map(|x| format!("{x:x}")).collect::<Vec<_>>().join(" "),
            "sample": sample,
        })
    );
    0
}

/// regenerate the runs `from..=run` and log every step of the last one before it is executed
fn trace(prop: &str, seed: u64, from: u64, run: u64, out: &Path) -> i32 {
    limits();
    for i in from..run {
        run_seed(prop, seed, i, COMPRESS, HOOKS);
    }
    let f = std::fs::File::create(out).unwrap();
    STEP_LOG.with(|l| l.set(Some(f)));
    let o = run_seed(prop, seed, run, COMPRESS, HOOKS);
    if o.viol.is_some() {
        1
    } else {
        0
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind {
    Fine,
    Viol,
    Died,
    Hang,
    Error,
}

fn wait(c: &mut std::process::Child, secs: u64) -> Option<std::process::ExitStatus> {
    let t = Instant::now();
    loop {
        if let Some(s) = c.try_wait().unwrap() {
            return Some(s);
        }
        if t.elapsed() > Duration::from_secs(secs) {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(if t.elapsed().as_millis() < 50 { 1 } else { 5 }));
    }
}

/// execute a replay file in a fresh process
fn spawn_inner(p: &Path, compress: bool, secs: u64, proc_seed: &str) -> (Kind, String) {
    use std::os::unix::process::ExitStatusExt;
    let mut c = Command::new(binary(compress))
        .arg("inner")
        .arg(p)
        .env("DSIM_PROC_SEED", proc_seed)
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let mut so = c.stdout.take().unwrap();
    let h = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = so.read_to_string(&mut s);
        s
    });
    let st = wait(&mut c, secs);
    let out = h.join().unwrap();
    match st {
        None => (Kind::Hang, format!("no progress within {secs} s")),
        Some(s) if s.signal().is_some() => (Kind::Died, format!("process died with signal {}", s.signal().unwrap())),
        Some(s) => match s.code() {
            Some(0) => (Kind::Fine, out),
            Some(1) => (Kind::Viol, out),
            _ => (Kind::Error, out),
        },
    }
}

fn inner(p: &Path) -> i32 {
    limits();
    let r = load(p);
    let mut rc = 0;
    let n = r.scripts.len();
    for (i, s) in r.scripts.iter().enumerate() {
        let o = run_script(s);
        if i + 1 == n {
            println!("digest {:016x}", o.digest);
            if let Some(v) = o.viol {
                println!("step {}: {}", v.step, v.msg);
                rc = 1;
            }
        }
    }
    rc
}

fn scratch() -> PathBuf {
    let d = std::env::var("DSIM_OUT").unwrap_or_else(|_| "/tmp".into());
    PathBuf::from(d)
}
static TMP: AtomicU64 = AtomicU64::new(0);

fn outcome_of(r: &Replay, secs: u64) -> (Kind, String) {
    let p = scratch().join(format!("cand-{}-{}.json", std::process::id(), TMP.fetch_add(1, SeqCst)));
    std::fs::write(&p, serde_json::to_string(r).unwrap()).unwrap();
    let comp = r.scripts.last().map_or(true, |s| s.compress);
    let mut k = spawn_inner(&p, comp, secs, "1");
    if r.property == "C11" && k.0 == Kind::Fine {
        // another process with other keys
        for ps in ["2", "3"] {
            let k2 = spawn_inner(&p, comp, secs, ps);
            if k2.0 != Kind::Fine || k2.1 != k.1 {
                k = (Kind::Viol, "two processes with different random keys observe different results".into());
                break;
            }
        }
    }
    let _ = std::fs::remove_file(&p);
    k
}

fn replay(p: &Path, print: bool) -> i32 {
    let r = load(p);
    let k = outcome_of(&r, HANG);
    if print {
        println!("{}", k.1.trim());
    }
    match k.0 {
        Kind::Fine => {
            println!("no violation");
            0
        }
        Kind::Error => 2,
        _ => {
            println!("VIOLATION property={} replay={}", r.property, p.display());
            1
        }
    }
}

// ----------------------------------------------------------------------------- minimisation

fn shrink_a(a: &A) -> Vec<A> {
    let mut v = a.kids();
    let rebuild = |i: usize, k: A| -> A {
        match a {
            A::And(x) | A::Or(x) | A::Cat(x) => {
                let mut x = x.clone();
                x[i] = k;
                match a {
                    A::And(_) => A::And(x),
                    A::Or(_) => A::Or(x),
                    _ => A::Cat(x),
                }
            }
            A::Look(_) => A::Look(Box::new(k)),
            A::Not(_) => A::Not(Box::new(k)),
            A::Rep(_, lo, hi) => A::Rep(Box::new(k), *lo, *hi),
            A::Pre(_) => A::Pre(Box::new(k)),
            x => x.clone(),
        }
    };
    match a {
        A::And(x) | A::Or(x) | A::Cat(x) if x.len() > 1 => {
            for i in 0..x.len() {
                let mut y = x.clone();
                y.remove(i);
                v.push(match a {
                    A::And(_) => A::And(y),
                    A::Or(_) => A::Or(y),
                    _ => A::Cat(y),
                });
            }
        }
        A::Lit(s) if s.chars().count() > 1 => {
            let c: Vec<char> = s.chars().collect();
            v.push(A::Lit(c[..c.len() / 2].iter().collect()));
            v.push(A::Lit(c[c.len() / 2..].iter().collect()));
        }
        A::Bytes(s) if s.len() > 1 => {
            v.push(A::Bytes(s[..s.len() / 2].to_vec()));
            v.push(A::Bytes(s[s.len() / 2..].to_vec()));
        }
        _ => {}
    }
    for (i, k) in a.kids().iter().enumerate() {
        for s in shrink_a(k).into_iter().take(12) {
            v.push(rebuild(i, s));
        }
    }
    v
}

fn shrink_step(st: &Step) -> Vec<Step> {
    let mut v = vec![];
    let texts = |t: &Vec<u8>| -> Vec<Vec<u8>> {
        let mut o = vec![];
        if t.len() > 1 {
            o.push(t[..t.len() / 2].to_vec());
            o.push(t[t.len() / 2..].to_vec());
            o.push(t[..t.len() - 1].to_vec());
            o.push(t[1..].to_vec());
        }
        o
    };
    match st {
        Step::Mk { b, x, a } => v.extend(shrink_a(a).into_iter().take(60).map(|a| Step::Mk { b: *b, x: *x, a })),
        Step::ContIn { b, x, small, big } => {
            v.extend(shrink_a(small).into_iter().take(30).map(|a| Step::ContIn { b: *b, x: *x, small: a, big: big.clone() }));
            v.extend(shrink_a(big).into_iter().take(30).map(|a| Step::ContIn { b: *b, x: *x, small: small.clone(), big: a }));
        }
        Step::MapErr { a, n } => v.extend(shrink_a(a).into_iter().take(40).map(|a| Step::MapErr { a, n: *n })),
        Step::Deep { b, x, ops, depth, tree } if *depth > 2 => {
            for d in [depth / 2, depth * 3 / 4, depth * 9 / 10] {
                v.push(Step::Deep { b: *b, x: *x, ops: ops.clone(), depth: d, tree: *tree });
            }
        }
        Step::Fill { b, n, kind, salt } if *n > 1 => {
            for d in [n / 2, n * 3 / 4, n * 9 / 10, n - 1] {
                v.push(Step::Fill { b: *b, n: d, kind: *kind, salt: *salt });
            }
        }
        Step::Ladder { b, w, n, every, kind, end } if *n > 1 => {
            for d in [n / 2, n * 3 / 4, n * 9 / 10] {
                v.push(Step::Ladder { b: *b, w: w.clone(), n: d, every: *every, kind: *kind, end: *end });
            }
        }
        Step::Search { b, a, n0, n, z, tails } if n > n0 => {
            let base = |n: u32, tails: Vec<Vec<u8>>| Step::Search { b: *b, a: a.clone(), n0: *n0, n, z: z.clone(), tails };
            for d in [n / 2, n * 3 / 4, n * 9 / 10] {
                v.push(base(d.max(*n0), tails.clone()));
            }
            for i in 0..tails.len() {
                v.push(base(*n, vec![tails[i].clone()]));
            }
            v.push(base(*n, vec![]));
        }
        Step::Denote { b, x, max, texts: t } => {
            if t.len() > 0 {
                v.push(Step::Denote { b: *b, x: *x, max: *max, texts: vec![] });
                for i in 0..t.len().min(6) {
                    v.push(Step::Denote { b: *b, x: *x, max: 1, texts: vec![t[i].clone()] });
                }
                if t.len() == 1 {
                    v.extend(texts(&t[0]).into_iter().map(|t| Step::Denote { b: *b, x: *x, max: *max, texts: vec![t] }));
                }
            }
        }
        Step::SAdv { s, t, chunk } => {
            v.extend(texts(t).into_iter().map(|t| Step::SAdv { s: *s, t, chunk: *chunk }));
            if *chunk {
                v.push(Step::SAdv { s: *s, t: t.clone(), chunk: false });
            }
        }
        Step::SPump { s, t, n } if *n > 1 => {
            for k in [n / 2, n - 1] {
                v.push(Step::SPump { s: *s, t: t.clone(), n: k });
            }
        }
        Step::RMatch { r, t, q } => v.extend(texts(t).into_iter().map(|t| Step::RMatch { r: *r, t, q: *q })),
        Step::RDfa { r, t } if !t.is_empty() => v.push(Step::RDfa { r: *r, t: vec![] }),
        Step::LStep { l, i, t } => v.extend(texts(t).into_iter().map(|t| Step::LStep { l: *l, i: *i, t })),
        Step::LNew { l, b, xs } if xs.len() > 1 => {
            for i in 0..xs.len() {
                let mut y = xs.clone();
                y.remove(i);
                v.push(Step::LNew { l: *l, b: *b, xs: y });
            }
        }
        Step::Fuel { b, x, limits } if limits.len() > 1 => {
            for i in 0..limits.len() {
                v.push(Step::Fuel { b: *b, x: *x, limits: vec![limits[i]] });
            }
        }
        Step::HIns { h, v: t } if t.len() > 1 => {
            v.push(Step::HIns { h: *h, v: t[..t.len() / 2].to_vec() });
            v.push(Step::HIns { h: *h, v: t[t.len() / 2..].to_vec() });
        }
        Step::HInc { h, parts } if parts.len() > 1 => {
            v.push(Step::HInc { h: *h, parts: parts[..parts.len() / 2].to_vec() });
            v.push(Step::HIns { h: *h, v: parts.concat() });
        }
        Step::Evict { r, mask, pct, salt } if *pct != 100 || *mask != 127 => {
            v.push(Step::Evict { r: *r, mask: *mask, pct: 100, salt: *salt });
        }
        _ => {}
    }
    v
}

/// the same kind of failure with fewer and simpler steps
fn minimise(r: &mut Replay, kind: Kind, limit: Duration) {
    let t0 = Instant::now();
    if kind == Kind::Hang {
        return;
    }
    let test = |r: &Replay| outcome_of(r, 30).0 == kind;
    // whole scripts first
    while r.scripts.len() > 1 && t0.elapsed() < limit / 2 {
        let mut c = r.clone();
        let keep = c.scripts.len() / 2;
        if keep >= 1 {
            c.scripts = c.scripts[c.scripts.len() - keep..].to_vec();
            if test(&c) {
                *r = c;
                continue;
            }
        }
        let mut any = false;
        let mut i = 0;
        while i + 1 < r.scripts.len() && t0.elapsed() < limit / 2 {
            let mut c = r.clone();
            c.scripts.remove(i);
            if test(&c) {
                *r = c;
                any = true;
            } else {
                i += 1;
            }
        }
        if !any {
            break;
        }
    }
    for k in (0..r.scripts.len()).rev() {
        // knobs
        let knobs: [fn(&mut Script); 2] = [|s| s.threads = 1, |s| s.mask_bits = 0];
        for f in knobs {
            let mut c = r.clone();
            f(&mut c.scripts[k]);
            if serde_json::to_string(&c).unwrap() != serde_json::to_string(r).unwrap() && test(&c) {
                *r = c;
            }
        }
        // steps
        let mut size = (r.scripts[k].steps.len() / 2).max(1);
        loop {
            let mut i = 0;
            let mut any = false;
            while i < r.scripts[k].steps.len() && t0.elapsed() < limit {
                let mut c = r.clone();
                let e = (i + size).min(c.scripts[k].steps.len());
                c.scripts[k].steps.drain(i..e);
                if test(&c) {
                    *r = c;
                    any = true;
                } else {
                    i += size;
                }
            }
            if t0.elapsed() >= limit {
                break;
            }
            if size > 1 {
                size /= 2;
            } else if !any {
                break;
            }
        }
        // arguments
        let mut again = true;
        while again && t0.elapsed() < limit {
            again = false;
            for i in 0..r.scripts[k].steps.len() {
                let mut cand = shrink_step(&r.scripts[k].steps[i]);
                cand.reverse();
                while let Some(st) = cand.pop() {
                    if t0.elapsed() >= limit {
                        break;
                    }
                    let mut c = r.clone();
                    c.scripts[k].steps[i] = st.clone();
                    if test(&c) {
                        *r = c;
                        again = true;
                        cand = shrink_step(&st);
                        cand.reverse();
                    }
                }
            }
        }
    }
    r.minimised = true;
}

// ----------------------------------------------------------------------------- a check

struct Sum {
    cnt: BTreeMap<String, u64>,
    foreign: BTreeMap<String, (u64, String)>,
    states: HashSet<u64>,
    distinct: HashSet<u64>,
    digests: HashMap<(bool, u64), u64>,
    runs: u64,
    runs_nc: u64,
    samples: Vec<String>,
    found: BTreeMap<(u64, bool), Found>,
    errors: Vec<String>,
}
#[derive(Clone, Debug)]
enum Found {
    File(PathBuf, u64),
    Dead(Kind, u64),
}

struct Ctx {
    prop: String,
    seed: u64,
    out: PathBuf,
}

fn run_chunk(cx: &Ctx, compress: bool, from: u64, to: u64, proc_seed: &str, sum: &Mutex<Sum>, only_digests: bool) -> Vec<(u64, u64)> {
    use std::os::unix::process::ExitStatusExt;
    let mut c = match Command::new(binary(compress))
        .args(["worker", &cx.prop, &cx.seed.to_string(), &from.to_string(), &to.to_string(), cx.out.to_str().unwrap()])
        .env("DSIM_PROC_SEED", proc_seed)
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
    {
        Ok(c) => c,
        Err(e) => {
            sum.lock().unwrap().errors.push(format!("cannot start a worker: {e}"));
            return vec![];
        }
    };
    let so = c.stdout.take().unwrap();
    let (tx, rx) = mpsc::channel::<String>();
    let h = std::thread::spawn(move || {
        for l in BufReader::new(so).lines() {
            let Ok(l) = l else { break };
            if tx.send(l).is_err() {
                break;
            }
        }
    });
    let mut cur = None;
    let mut digs = vec![];
    let mut dead = None;
    let mut complete = false;
    loop {
        match rx.recv_timeout(Duration::from_secs(HANG)) {
            Ok(l) => {
                let f: Vec<&str> = l.splitn(3, ' ').collect();
                match f[0] {
                    "R" => cur = f[1].parse::<u64>().ok(),
                    "D" => {
                        let f: Vec<&str> = l.split(' ').collect();
                        let run: u64 = f[1].parse().unwrap();
                        let dig = u64::from_str_radix(f[2], 16).unwrap();
                        digs.push((run, dig));
                        if !only_digests {
                            let mut s = sum.lock().unwrap();
                            s.runs += 1;
                            if !compress {
                                s.runs_nc += 1;
                            }
                            s.digests.insert((compress, run), dig);
                            if f[4] == "1" {
                                s.distinct.insert(u64::from_str_radix(f[3], 16).unwrap());
                            }
                        }
                    }
                    "V" => {
                        complete = true;
                        if !only_digests {
                            let mut s = sum.lock().unwrap();
                            s.runs += 1;
                            s.found.insert((f[1].parse().unwrap(), compress), Found::File(PathBuf::from(f[2]), from));
                        }
                    }
                    "S" => {
                        complete = true;
                        if only_digests {
                            continue;
                        }
                        let v: serde_json::Value = serde_json::from_str(&l[2..]).unwrap();
                        let mut s = sum.lock().unwrap();
                        for (k, n) in v["cnt"].as_object().unwrap() {
                            *s.cnt.entry(k.clone()).or_insert(0) += n.as_u64().unwrap();
                        }
                        for (k, n) in v["foreign"].as_object().unwrap() {
                            let e = s.foreign.entry(k.clone()).or_insert((0, String::new()));
                            e.0 += n[0].as_u64().unwrap();
                            if e.1.is_empty() {
                                e.1 = n[1].as_str().unwrap().to_string();
                            }
                        }
                        for x in v["states"].as_str().unwrap().split_whitespace() {
                            s.states.insert(u64::from_str_radix(x, 16).unwrap());
                        }
                        let sm = v["sample"].as_str().unwrap().to_string();
                        if s.samples.len() < 3 && !sm.is_empty() {
                            s.samples.push(sm);
                        }
                    }
                    _ => {}
                }
            }
            Err(mpsc::RecvTimeoutError::Timeout) => {
                let _ = c.kill();
                dead = Some(Kind::Hang);
                break;
            }
            Err(mpsc::RecvTimeoutError::Disconnected) => break,
        }
    }
    let st = c.wait().unwrap();
    drop(rx);
    let _ = h.join();
    if dead.is_none() && !complete {
        if st.signal().is_some() {
            dead = Some(Kind::Died);
        } else {
            sum.lock().unwrap().errors.push(format!("worker {from}..{to} of {} ended with {st} in run {cur:?}", cx.prop));
        }
    }
    if let (Some(k), Some(r)) = (dead, cur) {
        if !only_digests {
            sum.lock().unwrap().found.insert((r, compress), Found::Dead(k, from));
        }
    }
    digs
}

fn verif_dir() -> PathBuf {
    if let Ok(d) = std::env::var("DSIM_VERIF") {
        return PathBuf::from(d);
    }
    let me = std::env::current_exe().unwrap();
    me.parent().unwrap().parent().unwrap().parent().unwrap().parent().unwrap().to_path_buf()
}

fn check(prop: &str) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let _ = profile(prop);
    let verif = verif_dir();
    let out = verif.join("out").join(format!("{prop}-{}", std::process::id()));
    std::fs::create_dir_all(&out).unwrap();
    std::env::set_var("DSIM_OUT", &out);
    std::fs::create_dir_all(verif.join("evidence")).unwrap();
    println!("property={prop} seed={seed} tier={} hooks={HOOKS}", if thorough { "thorough" } else { "quick" });
    let rc = check_inner(prop, seed, thorough, &verif, &out, t0);
    if rc != 1 {
        let _ = std::fs::remove_dir_all(&out);
    }
    rc
}

fn known(prop: &str, verif: &Path) -> Result<Vec<String>, String> {
    let mut v = vec![];
    let Ok(t) = std::fs::read_to_string(verif.join("known_findings.txt")) else { return Ok(v) };
    for l in t.lines() {
        let Some(rest) = l.strip_prefix("KNOWN-FINDING: ") else { continue };
        if !rest.starts_with(&format!("property={prop} ")) {
            continue;
        }
        let Some(f) = rest.split_whitespace().find_map(|w| w.strip_prefix("replay=")) else { continue };
        let r = load(&verif.join(f));
        let k = outcome_of(&r, HANG);
        if k.0 != Kind::Fine {
            println!("{l}");
            v.push(l.to_string());
        }
    }
    Ok(v)
}

fn check_inner(prop: &str, seed: u64, thorough: bool, verif: &Path, out: &Path, t0: Instant) -> i32 {
    let cx = Ctx { prop: prop.into(), seed, out: out.into() };
    let sum = Mutex::new(Sum {
        cnt: BTreeMap::new(),
        foreign: BTreeMap::new(),
        states: HashSet::new(),
        distinct: HashSet::new(),
        digests: HashMap::new(),
        runs: 0,
        runs_nc: 0,
        samples: vec![],
        found: BTreeMap::new(),
        errors: vec![],
    });
    let findings = known(prop, verif).unwrap_or_default();
    let alt = COMPRESS && binary(false).exists() && std::env::var_os("DSIM_NO_ALT").is_none();
    let runs = std::env::var("DSIM_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(budget(prop));
    let secs: u64 = std::env::var("DSIM_SECONDS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 600 } else { 200 });
    let total = if thorough { u64::MAX / 2 } else { runs };
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let jobs = std::thread::available_parallelism().map_or(4, |n| n.get()).min(16);
    std::thread::scope(|s| {
        for _ in 0..jobs {
            s.spawn(|| loop {
                let c = next.fetch_add(1, SeqCst);
                let (from, to) = (c * CHUNK, ((c + 1) * CHUNK).min(total));
                if from >= total || stop.load(SeqCst) || t0.elapsed() > Duration::from_secs(secs) {
                    return;
                }
                // a share of the runs without byte compression
                let compress = !(alt && c % 5 == 4);
                run_chunk(&cx, compress, from, to, "1", &sum, false);
                let s = sum.lock().unwrap();
                if !s.found.is_empty() || s.errors.len() > 3 {
                    stop.store(true, SeqCst);
                }
            });
        }
    });
    // the same runs in other processes: same keys (determinism of the simulator), other keys (C11)
    let mut redone = 0u64;
    let mut drift = vec![];
    if sum.lock().unwrap().found.is_empty() {
        let nchunks = if thorough { 40 } else if prop == "C11" { 24 } else { 4 };
        let list: Vec<u64> = (0..nchunks).filter(|c| !(alt && c % 5 == 4) && (c + 1) * CHUNK <= total).collect();
        let done = AtomicU64::new(0);
        let acc = Mutex::new((0u64, vec![]));
        std::thread::scope(|s| {
            for _ in 0..jobs {
                s.spawn(|| loop {
                    let i = done.fetch_add(1, SeqCst) as usize;
                    if i >= list.len() {
                        return;
                    }
                    let c = list[i];
                    let d = run_chunk(&cx, COMPRESS, c * CHUNK, (c + 1) * CHUNK, if prop == "C11" { "2" } else { "1" }, &sum, true);
                    let s = sum.lock().unwrap();
                    let mut a = acc.lock().unwrap();
                    for (r, x) in d {
                        a.0 += 1;
                        if let Some(y) = s.digests.get(&(COMPRESS, r)) {
                            if *y != x {
                                a.1.push(r);
                            }
                        }
                    }
                });
            }
        });
        let a = acc.into_inner().unwrap();
        redone = a.0;
        drift = a.1;
        drift.sort();
    }
    let s = sum.into_inner().unwrap();
    let mut viol: Option<(Replay, Kind, String)> = None;
    if let Some(((run, compress), f)) = s.found.iter().next() {
        viol = Some(confirm(&cx, *run, *compress, f));
    } else if prop == "C11" && !drift.is_empty() {
        let run = drift[0];
        let o = run_seed(prop, seed, run, COMPRESS, HOOKS);
        let r = Replay { property: prop.into(), violation: "observations depend on the random keys of the process".into(), minimised: false, scripts: vec![o.script] };
        let k = outcome_of(&r, HANG);
        viol = Some((r, k.0, "observations depend on the random keys of the process".into()));
    }
    let mut rc = 0;
    if let Some((mut r, kind, msg)) = viol {
        if kind == Kind::Error {
            eprintln!("harness error: {msg}");
            rc = 2;
        } else {
            let p = verif.join("out").join(format!("{prop}-seed{seed}-run{}.json", r.scripts.last().map_or(0, |s| s.run)));
            r.violation = msg.clone();
            save(&p, &r);
            if kind != Kind::Fine {
                let before: usize = r.scripts.iter().map(|s| s.steps.len()).sum();
                minimise(&mut r, kind, Duration::from_secs(if thorough { 120 } else { 45 }));
                let k = outcome_of(&r, HANG);
                if k.0 == kind {
                    r.violation = k.1.lines().last().unwrap_or("").to_string();
                    save(&p, &r);
                    println!("minimised {before} -> {} steps: {}", r.scripts.iter().map(|s| s.steps.len()).sum::<usize>(), r.violation);
                }
            }
            println!("{msg}");
            for st in r.scripts.last().map_or(&[][..], |s| &s.steps[..]).iter().take(30) {
                println!("  {}", serde_json::to_string(st).unwrap().chars().take(300).collect::<String>());
            }
            println!("VIOLATION property={prop} replay={}", p.display());
            rc = 1;
        }
    } else if !s.errors.is_empty() {
        for e in &s.errors {
            eprintln!("harness error: {e}");
        }
        rc = 2;
    }
    write_evidence(prop, seed, thorough, verif, &s, redone, &drift, rc, t0, &findings);
    println!(
        "{} runs ({} without byte compression), {} distinct, {} steps, {:.1} s",
        s.runs,
        s.runs_nc,
        s.distinct.len(),
        s.cnt.get("steps").copied().unwrap_or(0),
        t0.elapsed().as_secs_f64()
    );
    rc
}

/// does it fail the same way in a fresh process?
fn confirm(cx: &Ctx, run: u64, compress: bool, f: &Found) -> (Replay, Kind, String) {
    let prefix = |from: u64| -> Vec<Script> {
        // scripts of the runs before, without executing anything that could die
        (from..run)
            .filter_map(|i| {
                let p = cx.out.join(format!("pre-{i}.txt"));
                record(cx, compress, i, i, &p)
            })
            .collect()
    };
    match f {
        Found::File(p, from) => {
            let r = load(p);
            let k = outcome_of(&r, HANG);
            if k.0 != Kind::Fine {
                return (r.clone(), k.0, last_line(&k.1, &r.violation));
            }
            // it may need what the process did before
            let mut r2 = r.clone();
            r2.scripts = prefix(*from);
            r2.scripts.extend(r.scripts.clone());
            let k = outcome_of(&r2, HANG * 2);
            if k.0 != Kind::Fine {
                return (r2, k.0, last_line(&k.1, &r.violation));
            }
            (r.clone(), Kind::Fine, format!("{} (seen once, not reproduced in a fresh process)", r.violation))
        }
        Found::Dead(kind, from) => {
            for start in [run, *from] {
                let p = cx.out.join(format!("trace-{run}.txt"));
                let Some(s) = record(cx, compress, start, run, &p) else { continue };
                let mut scripts = if start == run { vec![] } else { prefix(*from) };
                scripts.push(s);
                let r = Replay { property: cx.prop.clone(), violation: String::new(), minimised: false, scripts };
                let k = outcome_of(&r, HANG);
                if k.0 != Kind::Fine {
                    let what = match k.0 {
                        Kind::Hang => format!("a request does not return within {HANG} s"),
                        Kind::Died => format!("{} (stack overflow, abort or out of memory)", k.1),
                        _ => last_line(&k.1, ""),
                    };
                    return (r, k.0, what);
                }
            }
            (
                Replay { property: cx.prop.clone(), violation: String::new(), minimised: false, scripts: vec![] },
                Kind::Error,
                format!("a worker ended ({kind:?}) in run {run}, which could not be reproduced"),
            )
        }
    }
}
fn last_line(s: &str, d: &str) -> String {
    s.lines().filter(|l| !l.starts_with("digest")).last().unwrap_or(d).to_string()
}

/// steps of `run`, written as they are executed
fn record(cx: &Ctx, compress: bool, from: u64, run: u64, p: &Path) -> Option<Script> {
    let mut c = Command::new(binary(compress))
        .args(["trace", &cx.prop, &cx.seed.to_string(), &from.to_string(), &run.to_string(), p.to_str().unwrap()])
        .env("DSIM_PROC_SEED", "1")
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    wait(&mut c, HANG);
    let t = std::fs::read_to_string(p).ok()?;
    let (_, mut s) = crate::driver::Driver::new(&cx.prop, cx.seed, run, compress, HOOKS);
    s.steps = t.lines().filter_map(|l| serde_json::from_str(l).ok()).collect();
    let _ = std::fs::remove_file(p);
    Some(s)
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(prop: &str, seed: u64, thorough: bool, verif: &Path, s: &Sum, redone: u64, drift: &[u64], rc: i32, t0: Instant, findings: &[String]) {
    let wall = t0.elapsed().as_secs_f64();
    let g = |k: &str| s.cnt.get(k).copied().unwrap_or(0);
    let faults = [
        ("evictions_injected", "loss of a random subset of remembered results of a regex"),
        ("entries_lost", "single remembered results lost"),
        ("class_evictions", "loss of the builder's character-class cache"),
        ("component_cache_changes", "component caches replaced, cloned or emptied"),
        ("regexes_lost", "compiled regex lost; its sessions survive as journals"),
        ("recoveries", "sessions recovered on a rebuilt regex"),
        ("refusals", "refused requests"),
        ("fuel_exhausted", "fuel ran out"),
        ("runs_with_forced_collisions", "runs with forced hash collisions"),
        ("runs_on_several_threads", "runs on several threads"),
        ("thread_hops", "hand-overs to another thread"),
        ("noise", "bursts of unrelated activity"),
        ("refused_double_starts", "interning started twice"),
        ("regex_clones", "regex forks"),
        ("builder_clones", "builder forks"),
        ("session_forks", "session forks"),
        ("session_moves", "sessions moved to a clone"),
        ("rewinds", "sessions rewound"),
        ("flag_changes", "parser flags changed"),
    ];
    let fired: BTreeMap<&str, serde_json::Value> = faults.iter().filter(|f| g(f.0) > 0).map(|f| (f.0, json!({"count": g(f.0), "what": f.1}))).collect();
    let used: BTreeSet<&str> = faults.iter().map(|f| f.0).collect();
    let probes: BTreeMap<&String, u64> = s.cnt.iter().filter(|(k, _)| !used.contains(k.as_str())).map(|(k, v)| (k, *v)).collect();
    let ev = json!({
        "property": prop,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": s.runs,
            "distinct_nontrivial": s.distinct.len(),
            "rule": "one evaluation = one simulated run: run seed -> swarm configuration -> seeded scheduler picks every actor step, delay and fault -> executed on the real code and judged against the reference model after every step and over the history at the end. Distinct by hash of (schedule of step kinds and labels, all observed answers); non-trivial: at least 5 steps and at least 8 answers observed and judged.",
            "samples": s.samples,
            "runs_without_byte_compression": s.runs_nc,
            "seeds_per_hour": (s.runs as f64 / wall * 3600.0) as u64,
            "simulated_time_steps": g("steps"),
            "simulated_time_bytes": g("bytes"),
            "faults_fired": fired,
            "reached": probes,
            "distinct_states": s.states.len(),
            "distinct_states_measure": "distinct (language, reference state, engine state id) triples visited by sessions",
            "runs_repeated_in_another_process": redone,
            "runs_that_differed_when_repeated": drift.len(),
            "judged_by_other_checks": s.foreign.iter().map(|(k, v)| (k.clone(), json!({"count": v.0, "first": v.1}))).collect::<BTreeMap<_, _>>(),
            "components_real": ["derivre (all of /repo/src as built from the working tree)", "regex-syntax", "hashbrown", "ahash", "std HashMap"],
            "components_stub": ["random keys (getrandom, ahash source)", "thread scheduling (lock-step hand-over)", "byte streams", "caller's callbacks"],
            "hooks_enabled": HOOKS,
            "known_findings": findings,
        },
        "assumptions": [
            "regex-syntax parses the pattern strings for the library and for the reference model alike",
            "operations take &mut self, so whole API calls are the atomic steps of a schedule"
        ],
        "wall_s": wall,
        "violations": if rc == 1 { 1 } else { 0 },
    });
    let _ = std::fs::write(verif.join("evidence").join(format!("{prop}.json")), serde_json::to_string_pretty(&ev).unwrap());
}

// ----------------------------------------------------------------------------- development

/// every property, runs repeated in two more processes at different worker counts; digests compared
fn selftest(seed: u64, runs: u64) -> i32 {
    let out = std::env::temp_dir().join(format!("dsim-self-{}", std::process::id()));
    std::fs::create_dir_all(&out).unwrap();
    std::env::set_var("DSIM_OUT", &out);
    let mut bad = 0;
    for i in 1..=17 {
        let prop = format!("C{i:02}");
        let cx = Ctx { prop: prop.clone(), seed, out: out.clone() };
        let mk = || {
            Mutex::new(Sum { cnt: BTreeMap::new(), foreign: BTreeMap::new(), states: HashSet::new(), distinct: HashSet::new(), digests: HashMap::new(), runs: 0, runs_nc: 0, samples: vec![], found: BTreeMap::new(), errors: vec![] })
        };
        let n = if prop == "C16" { runs / 10 + 1 } else { runs };
        let s = mk();
        let a = run_chunk(&cx, COMPRESS, 0, n, "1", &s, true);
        let mut all: Vec<Vec<(u64, u64)>> = vec![];
        std::thread::scope(|sc| {
            let hs: Vec<_> = (0..7)
                .map(|k| {
                    let (cx, s) = (&cx, &s);
                    sc.spawn(move || {
                        let (lo, hi) = (n * k / 7, n * (k + 1) / 7);
                        run_chunk(cx, COMPRESS, lo, hi, if k % 2 == 0 { "1" } else { "5" }, s, true)
                    })
                })
                .collect();
            for h in hs {
                all.push(h.join().unwrap());
            }
        });
        let b: Vec<(u64, u64)> = all.concat();
        let diff = a.iter().zip(&b).filter(|(x, y)| x != y).count() + a.len().abs_diff(b.len());
        println!("{prop}: {} runs, {} again, {} differ", a.len(), b.len(), diff);
        bad += diff;
    }
    let _ = std::fs::remove_dir_all(&out);
    (bad > 0) as i32
}

fn dev(a: &[String]) -> i32 {
    let prop = &a[0];
    let (from, to) = (arg_u64(a, 1, 0), arg_u64(a, 2, 1));
    let seed = arg_u64(a, 3, 1);
    let t = Instant::now();
    let mut cnt = Cnt::new();
    let mut foreign = BTreeMap::new();
    for i in from..to {
        let t0 = Instant::now();
        let o = run_seed(prop, seed, i, COMPRESS, HOOKS);
        if t0.elapsed().as_millis() > 1500 {
            println!("slow run {i} {:?} steps {}", t0.elapsed(), o.script.steps.len());
        }
        for (k, v) in &o.world.cnt {
            *cnt.entry(k).or_insert(0) += v;
        }
        *cnt.entry("steps").or_insert(0) += o.script.steps.len() as u64;
        *cnt.entry("twin_compared").or_insert(0) += o.twin_compared;
        for (k, v) in &o.world.foreign {
            let e = foreign.entry(*k).or_insert((0u64, String::new()));
            e.0 += v.0;
            if e.1.is_empty() {
                e.1 = format!("run {i}: {}", v.1);
            }
        }
        if let Some(v) = o.viol {
            println!("run {i}: VIOL {:?} step {}: {}", v.props, v.step, v.msg);
            save(Path::new(&format!("/tmp/s_{prop}_{i}.json")), &Replay { property: prop.clone(), violation: v.msg, minimised: false, scripts: vec![o.script.clone()] });
        }
    }
    println!("{cnt:?}\nforeign {foreign:#?}\n{:?}", t.elapsed());
    0
}
