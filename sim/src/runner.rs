//! One run = one execution on fresh threads, plus what is checked over its history afterwards.
use crate::driver::Driver;
use crate::script::*;
use crate::seams::{self, mix64};
use crate::world::*;
use std::cell::Cell;
use std::collections::BTreeSet;
use std::sync::{Arc, Condvar, Mutex};

pub enum Source {
    Online(Driver),
    /// (original index, step)
    Steps(Vec<(usize, Step)>),
}

pub struct Job {
    world: World,
    src: Source,
    done_steps: Vec<Step>,
    pos: usize,
    hops: bool,
    log: Option<std::fs::File>,
    timing: bool,
}
struct Unsafe<T>(T);
unsafe impl<T> Send for Unsafe<T> {}

struct Baton {
    job: Option<Unsafe<Job>>,
    turn: usize,
    over: bool,
}

pub fn quiet_panics() {
    if std::env::var_os("DSIM_PANICS").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
}

impl Job {
    /// until a hop (returns the thread) or the end
    fn go(&mut self, threads: usize) -> Option<usize> {
        loop {
            if self.world.viol.is_some() {
                return None;
            }
            let (idx, st) = match &mut self.src {
                Source::Online(d) => match d.next(&self.world) {
                    Some(s) => (self.pos, s),
                    None => return None,
                },
                Source::Steps(v) => match v.get(self.pos) {
                    Some((i, s)) => (*i, s.clone()),
                    None => return None,
                },
            };
            self.pos += 1;
            if let Some(f) = &mut self.log {
                use std::io::Write;
                let _ = writeln!(f, "{}", serde_json::to_string(&st).unwrap());
                let _ = f.flush();
            }
            self.world.step = idx;
            let t0 = self.timing.then(std::time::Instant::now);
            self.world.exec(&st);
            if let Some(t0) = t0 {
                if t0.elapsed().as_millis() > 200 || std::env::var("DSIM_TIMING").map_or(false, |v| v == "2") || matches!(st, Step::Deep{..}) {
                    eprintln!("step {idx} {:?} {}", t0.elapsed(), serde_json::to_string(&st).unwrap());
                }
            }
            if matches!(self.src, Source::Online(_)) {
                self.done_steps.push(st);
            }
            if let Some(t) = self.world.hop.take() {
                if self.hops && threads > 1 {
                    return Some(t as usize % threads);
                }
            }
        }
    }
}

/// Run `job` on `threads` OS threads of the given stack size; exactly one runs at any time, and
/// which one is decided by the script.
fn run_job(job: Job, threads: usize, stack_kb: u32) -> Job {
    let baton = Arc::new((Mutex::new(Baton { job: Some(Unsafe(job)), turn: 0, over: false }), Condvar::new()));
    let mut hs = vec![];
    for me in 0..threads {
        let baton = baton.clone();
        hs.push(
            std::thread::Builder::new()
                .stack_size(stack_kb as usize * 1024)
                .spawn(move || loop {
                    let (lock, cv) = &*baton;
                    let mut g = lock.lock().unwrap();
                    while !g.over && g.turn != me {
                        g = cv.wait(g).unwrap();
                    }
                    if g.over {
                        return;
                    }
                    let mut j = g.job.take().unwrap();
                    drop(g);
                    let next = j.0.go(threads);
                    let mut g = lock.lock().unwrap();
                    g.job = Some(j);
                    match next {
                        Some(t) => g.turn = t,
                        None => g.over = true,
                    }
                    cv.notify_all();
                })
                .unwrap(),
        );
    }
    for h in hs {
        h.join().expect("simulator thread");
    }
    let mut g = baton.0.lock().unwrap();
    g.job.take().unwrap().0
}

fn on_thread<T>(stack_kb: u32, f: impl FnOnce() -> T) -> T {
    let f = Unsafe(f);
    let h = std::thread::Builder::new()
        .stack_size(stack_kb as usize * 1024)
        .spawn_scoped_unsafe(f);
    h
}
trait SpawnScoped {
    fn spawn_scoped_unsafe<T, F: FnOnce() -> T>(self, f: Unsafe<F>) -> T;
}
impl SpawnScoped for std::thread::Builder {
    fn spawn_scoped_unsafe<T, F: FnOnce() -> T>(self, f: Unsafe<F>) -> T {
        let mut out: Option<Unsafe<T>> = None;
        {
            let o = Unsafe(&mut out as *mut Option<Unsafe<T>>);
            std::thread::scope(|s| {
                self.spawn_scoped(s, move || {
                    let (f, o) = (f, o);
                    let f = { f }.0;
                    let r = f();
                    unsafe { *{ o }.0 = Some(Unsafe(r)) };
                })
                .unwrap();
            });
        }
        out.expect("simulator thread").0
    }
}

fn set_mask(bits: u8) {
    let _ = bits;
    #[cfg(derivre_sim)]
    derivre::sim::set_hash_mask(if bits == 0 { u64::MAX } else { (1 << bits) - 1 });
}

pub struct Outcome {
    pub world: World,
    pub script: Script,
    pub viol: Option<Viol>,
    pub entropy_calls: u64,
    pub digest: u64,
    pub twin: &'static str,
    pub twin_compared: u64,
}

thread_local! {
    pub static STEP_LOG: Cell<Option<std::fs::File>> = const { Cell::new(None) };
}

fn execute(prop: &str, src: Source, s: &Script, entropy: u64, mask: u8, hops: bool) -> (World, Vec<Step>, u64) {
    seams::set_entropy(entropy);
    set_mask(mask);
    let threads = if hops { s.threads.max(1) as usize } else { 1 };
    let log = STEP_LOG.with(|l| l.take());
    let job = Job { world: World::new(prop), src, done_steps: vec![], pos: 0, hops, log, timing: std::env::var_os("DSIM_TIMING").is_some() };
    let j = run_job(job, threads, s.stack_kb);
    let calls = seams::entropy_calls();
    if let Some(l) = j.log {
        STEP_LOG.with(|x| x.set(Some(l)));
    }
    (j.world, j.done_steps, calls)
}

pub fn obs_digest(o: &[Ob]) -> u64 {
    let mut h = 0u64;
    for x in o {
        let v = match &x.v {
            V::U(u) => *u,
            V::S(s) => hash_bytes(s.as_bytes()),
        };
        h = mix64(h ^ v ^ (x.step as u64) << 40 ^ hash_bytes(x.tag.as_bytes()));
    }
    h
}

/// run a fresh seed
pub fn run_seed(prop: &str, seed: u64, run: u64, compress: bool, hooks: bool) -> Outcome {
    let (d, mut script) = Driver::new(prop, seed, run, compress, hooks);
    let (world, steps, calls) = execute(prop, Source::Online(d), &script, script.entropy, script.mask_bits, true);
    script.steps = steps;
    finish(prop, world, script, calls)
}

/// run a recorded script
pub fn run_script(script: &Script) -> Outcome {
    let steps = script.steps.iter().cloned().enumerate().collect();
    let (world, _, calls) = execute(&script.prop, Source::Steps(steps), script, script.entropy, script.mask_bits, true);
    finish(&script.prop, world, script.clone(), calls)
}

fn finish(prop: &str, mut world: World, script: Script, calls: u64) -> Outcome {
    let digest = obs_digest(&world.obs);
    let mut viol = world.viol.take();
    let mut twin = "";
    let mut compared = 0;
    if viol.is_none() {
        let (t, n, v) = match prop {
            "C05" => twin_c05(&mut world, &script),
            "C06" => twin_c06(&mut world, &script),
            "C08" => twin_c08(&world, &script),
            "C11" => twin_c11(&world, &script),
            _ => ("", 0, None),
        };
        twin = t;
        compared = n;
        viol = v;
    }
    set_mask(0);
    Outcome { world, script, viol, entropy_calls: calls, digest, twin, twin_compared: compared }
}

fn show_v(v: &V) -> String {
    match v {
        V::U(u) => format!("{u}"),
        V::S(s) => s.chars().take(200).collect(),
    }
}

/// first difference among observations, aligned by (step, tag, occurrence)
fn compare(a: &[Ob], b: &[Ob], lvl: Lvl, all: bool) -> (u64, Option<(u32, String)>) {
    let mut n = 0;
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if i < a.len() && a[i].lvl > lvl {
            i += 1;
            continue;
        }
        if j < b.len() && b[j].lvl > lvl {
            j += 1;
            continue;
        }
        match (a.get(i), b.get(j)) {
            (Some(x), Some(y)) => {
                if x.step < y.step {
                    if all {
                        return (n, Some((x.step, format!("\"{}\" = {} was observed in one execution only", x.tag, show_v(&x.v)))));
                    }
                    i += 1;
                } else if y.step < x.step {
                    if all {
                        return (n, Some((y.step, format!("\"{}\" = {} was observed in one execution only", y.tag, show_v(&y.v)))));
                    }
                    j += 1;
                } else {
                    if x.tag != y.tag {
                        return (n, Some((x.step, format!("\"{}\" = {} in one execution, \"{}\" = {} in the other", x.tag, show_v(&x.v), y.tag, show_v(&y.v)))));
                    }
                    if x.v != y.v {
                        return (n, Some((x.step, format!("\"{}\" is {} in one execution and {} in the other", x.tag, show_v(&x.v), show_v(&y.v)))));
                    }
                    n += 1;
                    i += 1;
                    j += 1;
                }
            }
            (Some(x), None) => {
                if all {
                    return (n, Some((x.step, format!("\"{}\" = {} was observed in one execution only", x.tag, show_v(&x.v)))));
                }
                break;
            }
            (None, Some(y)) => {
                if all {
                    return (n, Some((y.step, format!("\"{}\" = {} was observed in one execution only", y.tag, show_v(&y.v)))));
                }
                break;
            }
            _ => break,
        }
    }
    (n, None)
}

/// the same history without any loss of remembered results, and without hash collisions
fn twin_c05(w: &mut World, s: &Script) -> (&'static str, u64, Option<Viol>) {
    let steps: Vec<(usize, Step)> = s
        .steps
        .iter()
        .cloned()
        .enumerate()
        .filter(|(_, x)| !matches!(x, Step::Evict { .. } | Step::BForget { .. } | Step::LCache { .. }))
        .collect();
    let mut n = 0;
    if steps.len() != s.steps.len() || s.mask_bits != 0 {
        let (t, _, _) = execute("C05", Source::Steps(steps), s, s.entropy ^ 0x77, 0, true);
        if t.viol.is_some() {
            return ("without losses", n, t.viol);
        }
        let (k, d) = compare(&w.obs, &t.obs, Lvl::Id, false);
        n += k;
        if let Some((step, msg)) = d {
            return ("without losses", n, Some(Viol { props: vec!["C05"], msg: format!("with and without loss of remembered results: {msg}"), step: step as usize }));
        }
    }
    // cold recomputation of a few answers; clones and rebuilt regexes intern under the mask of the
    // history they were built in
    set_mask(s.mask_bits);
    let pick = mix64(s.entropy);
    let regs: Vec<u32> = w.regs.keys().copied().collect();
    let r = on_thread(s.stack_kb, || {
        let mut n = 0u64;
        for r in regs {
            let sl = &w.regs[&r];
            if sl.asked.is_empty() || sl.rx.cost() > MAX_COST / 4 {
                continue;
            }
            for k in 0..6u64 {
                let (path, kind, ans) = &sl.asked[(mix64(pick ^ k ^ (r as u64) << 32) % sl.asked.len() as u64) as usize];
                if path.len() > 2000 {
                    continue;
                }
                let fresh = match (&sl.recompile, &sl.origin.pattern) {
                    (Some((b, e)), _) => guard(|| b.to_regex_limited(*e, BIG_FUEL)),
                    (None, Some((p, f))) => guard(|| new_regex(p, f)),
                    _ => continue,
                };
                let Ok(Ok(mut rx)) = fresh else { continue };
                let cold = k % 2 == 1;
                let got = guard(|| {
                    let mut st = rx.initial_state();
                    for b in path {
                        if cold {
                            evict(&mut rx, 127, 100, 0);
                        }
                        st = rx.transition(st, *b);
                    }
                    if cold {
                        evict(&mut rx, 127, 100, 0);
                    }
                    match kind {
                        0 => rx.is_accepting(st) as u64,
                        1 => look_code(rx.lookahead_len_for_state(st)),
                        2 => hint_code(rx.next_byte(st)),
                        _ => st.is_dead() as u64,
                    }
                });
                n += 1;
                let name = ["accepting", "lookahead length", "hint", "dead"][*kind as usize];
                match got {
                    Ok(v) if v == *ans => {}
                    Ok(v) => {
                        return (n, Some(format!("{name} after {} was {ans}; computed cold on a fresh regex it is {v}", show(path))));
                    }
                    Err(e) => return (n, Some(format!("{name} after {} was {ans}; computed cold on a fresh regex: panic {e}", show(path)))),
                }
            }
        }
        (n, None)
    });
    n += r.0;
    w.count("cold_recomputations", r.0);
    ("without losses, and cold", n, r.1.map(|msg| Viol { props: vec!["C05"], msg, step: s.steps.len() }))
}

fn relabel(st: &Step, nb: u32) -> Step {
    let mut st = st.clone();
    match &mut st {
        Step::Flag { b, .. }
        | Step::Mk { b, .. }
        | Step::MkRegex { b, .. }
        | Step::Nullable { b, .. }
        | Step::Forced { b, .. }
        | Step::Print { b, .. }
        | Step::ContIn { b, .. }
        | Step::IsCont { b, .. }
        | Step::Fill { b, .. }
        | Step::Json { b, .. } => *b = nb,
        _ => {}
    }
    st
}

/// for every regex and builder alive: replay only its own lineage
fn twin_c06(w: &mut World, s: &Script) -> (&'static str, u64, Option<Viol>) {
    let regs: Vec<u32> = w.regs.keys().copied().collect();
    let mut n = 0u64;
    seams::set_entropy(s.entropy ^ 0x99);
    let builders: Vec<u32> = w.builders.keys().copied().collect();
    for b in builders {
        let blog = std::mem::take(&mut w.builders.get_mut(&b).unwrap().blog);
        let r = on_thread(s.stack_kb, || replay_builder(&blog).map(|(_, n)| n));
        match r {
            Ok(k) => n += k,
            Err(msg) => return ("lineages", n, Some(Viol { props: vec!["C06"], msg: format!("builder {b}: {msg}"), step: s.steps.len() })),
        }
    }
    for r in regs {
        let sl = &w.regs[&r];
        let (origin, log) = (sl.origin.clone(), &sl.log);
        let got = on_thread(s.stack_kb, || replay_regex(&origin, log));
        match got {
            Ok(k) => n += k,
            Err(msg) => return ("lineages", n, Some(Viol { props: vec!["C06"], msg: format!("regex {r}: {msg}"), step: s.steps.len() })),
        }
    }
    w.count("lineage_answers_compared", n);
    ("lineages", n, None)
}

fn replay_builder(blog: &[(Step, Vec<Ob>)]) -> Result<(World, u64), String> {
    let mut t = World::new("C06");
    t.exec(&Step::BNew { b: 0 });
    let mut n = 0;
    for (st, obs) in blog {
        let k = t.obs.len();
        t.exec(&relabel(st, 0));
        let new = &t.obs[k..];
        if new.len() != obs.len() {
            return Err(format!("alone it answers {} differently ({} against {} observations)", brief(st), new.len(), obs.len()));
        }
        for (a, b) in new.iter().zip(obs) {
            if a.tag != b.tag || a.v != b.v {
                return Err(format!("{}: \"{}\" = {} when alone, \"{}\" = {} in the full history", brief(st), a.tag, show_v(&a.v), b.tag, show_v(&b.v)));
            }
            n += 1;
        }
    }
    Ok((t, n))
}

fn brief(st: &Step) -> String {
    let t = format!("{st:?}");
    t.chars().take(160).collect()
}

fn replay_regex(o: &Origin, log: &[(RCall, Vec<V>)]) -> Result<u64, String> {
    let (mut t, mut n) = replay_builder(&o.blog)?;
    let mut rx = match &o.pattern {
        Some((p, f)) => guard(|| new_regex(p, f)).map_err(|e| format!("panic {e}"))?.map_err(|e| e.to_string())?,
        None => {
            t.exec(&Step::Compile { b: 0, x: o.x, r: 0, fuel: o.fuel });
            match t.regs.remove(&0) {
                Some(s) => s.rx,
                None => return Err("compilation fails when replayed alone".into()),
            }
        }
    };
    use derivre::StateID;
    for (i, (c, exp)) in log.iter().enumerate() {
        let got = guard(|| match c {
            RCall::Trans(s, t, chunk) => {
                let s = StateID::new(*s);
                vec![V::U(if *chunk { rx.transition_bytes(s, t) } else { rx.transition(s, t[0]) }.as_u32() as u64)]
            }
            RCall::Acc(s) => vec![V::U(rx.is_accepting(StateID::new(*s)) as u64)],
            RCall::Look(s) => vec![V::U(look_code(rx.lookahead_len_for_state(StateID::new(*s))))],
            RCall::Hint(s) => vec![V::U(hint_code(rx.next_byte(StateID::new(*s))))],
            RCall::Match(t, q) => vec![V::U(match q {
                0 => rx.is_match_bytes(t) as u64,
                1 => look_code(rx.lookahead_len_bytes(t)),
                2 => rx.is_match(std::str::from_utf8(t).unwrap()) as u64,
                _ => look_code(rx.lookahead_len(std::str::from_utf8(t).unwrap())),
            })],
            RCall::Empty => vec![V::U(rx.always_empty() as u64)],
            RCall::Stats => vec![V::U(rx.cost()), V::U(rx.num_bytes() as u64), V::S(format!("{rx:?}"))],
            RCall::Dfa => vec![V::U(hash_bytes(&rx.dfa()))],
            RCall::Evict(m, p, s) => {
                evict(&mut rx, *m, *p, *s);
                vec![]
            }
        });
        match got {
            Ok(v) if v == *exp => n += 1,
            Ok(v) => return Err(format!("call {i} {c:?}: {} in the full history, {} when the others had never existed", exp.iter().map(show_v).collect::<Vec<_>>().join(", "), v.iter().map(show_v).collect::<Vec<_>>().join(", "))),
            Err(e) => return Err(format!("call {i} {c:?}: panic when replayed alone: {e}")),
        }
    }
    Ok(n)
}

/// the same history, in which the refused requests had never been made
fn twin_c08(w: &World, s: &Script) -> (&'static str, u64, Option<Viol>) {
    if w.refused.is_empty() {
        return ("", 0, None);
    }
    let refused: BTreeSet<usize> = w.refused.iter().copied().collect();
    let steps: Vec<(usize, Step)> = s.steps.iter().cloned().enumerate().filter(|(i, _)| !refused.contains(i)).collect();
    let (t, _, _) = execute("C08", Source::Steps(steps), s, s.entropy ^ 0x33, s.mask_bits, true);
    if t.viol.is_some() {
        return ("without refusals", 0, t.viol);
    }
    let a: Vec<Ob> = w.obs.iter().filter(|o| !refused.contains(&(o.step as usize))).cloned().collect();
    let b = &t.obs;
    let (n, d) = compare(&a, b, Lvl::Lang, false);
    ("without refusals", n, d.map(|(step, msg)| Viol { props: vec!["C08"], msg: format!("with and without the refused requests: {msg}"), step: step as usize }))
}

/// the same calls with other hash seeds, on one thread, with no unrelated activity
fn twin_c11(w: &World, s: &Script) -> (&'static str, u64, Option<Viol>) {
    let steps: Vec<(usize, Step)> = s.steps.iter().cloned().enumerate().filter(|(_, x)| !matches!(x, Step::Noise { .. } | Step::Hop { .. })).collect();
    let (t, _, _) = execute("C11", Source::Steps(steps), s, s.entropy ^ 0x1234_5678_9abc, 0, false);
    let (n, d) = compare(&w.obs, &t.obs, Lvl::Cost, true);
    ("other hash seeds, one thread, no noise", n, d.map(|(step, msg)| Viol { props: vec!["C11"], msg: format!("two executions of one history: {msg}"), step: step as usize }))
}
