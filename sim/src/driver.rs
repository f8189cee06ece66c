//! The seeded scheduler: decides which actor does what next, and which fault strikes when.
//! Everything it decides becomes a concrete step of the script.
use crate::gen::*;
use crate::refmodel as rm;
use crate::script::*;
use crate::seams::{mix64, Rng};
use crate::world::*;
use std::collections::{BTreeMap, VecDeque};

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Act {
    Mk,
    MkRx,
    Flag,
    Nullable,
    Forced,
    Print,
    ContIn,
    IsCont,
    Json,
    BForget,
    Compile,
    Denote,
    Fuel,
    BNew,
    BClone,
    BDrop,
    Bad,
    MapErr,
    NewR,
    RClone,
    Lose,
    Evict,
    Empty,
    Match,
    Stats,
    Dfa,
    Warm,
    Audit,
    Equiv,
    Open,
    Adv,
    Pump,
    AskA,
    AskL,
    AskH,
    AskF,
    Fork,
    Rewind,
    Move,
    Recover,
    Close,
    LNew,
    LStep,
    LReset,
    LAsk,
    LCache,
    HNew,
    HClone,
    HIns,
    HInc,
    HDouble,
    HMid,
    HCheck,
    HDrop,
    Hop,
    Noise,
}
use Act::*;

/// families: 0 plain 1 bool 2 pattern 3 realistic 4 keywords 5 x&~y 6 all bytes 7 many sets
/// 8 window 9 lookahead 10 deep keywords 11 shared prefixes 12 bool over patterns 13 prefixes
pub struct Profile {
    fam: [u32; 14],
    acts: Vec<(Act, u32)>,
    /// never switched off by the swarm
    core: Vec<Act>,
    steps: (usize, usize),
    regs: (usize, usize),
    sess: (usize, usize),
    builders: (usize, usize),
    max_states: usize,
    mask_pct: u32,
}

const SESSION: &[(Act, u32)] = &[
    (Adv, 40),
    (Open, 5),
    (Close, 2),
    (Fork, 5),
    (Rewind, 5),
    (Move, 3),
    (Recover, 6),
    (RClone, 3),
    (Lose, 2),
    (Evict, 4),
    (Hop, 1),
    (Noise, 1),
    (Match, 6),
    (NewR, 1),
];

fn with(base: &[(Act, u32)], more: &[(Act, u32)]) -> Vec<(Act, u32)> {
    let mut m: BTreeMap<Act, u32> = base.iter().copied().collect();
    for (a, w) in more {
        m.insert(*a, *w);
    }
    m.into_iter().filter(|x| x.1 > 0).collect()
}

pub fn profile(prop: &str) -> Profile {
    let mut p = Profile {
        fam: [20, 18, 20, 8, 8, 8, 2, 3, 3, 4, 1, 8, 8, 4],
        acts: vec![],
        core: vec![Adv, Open, AskA],
        steps: (10, 120),
        regs: (1, 2),
        sess: (1, 5),
        builders: (0, 0),
        max_states: 250,
        mask_pct: 8,
    };
    match prop {
        "C01" => {
            p.acts = with(SESSION, &[(AskA, 25), (AskL, 2), (AskH, 4), (Equiv, 2), (Dfa, 1), (Empty, 1)]);
        }
        "C02" => {
            p.acts = with(SESSION, &[(AskA, 5), (AskL, 1), (AskH, 2), (Equiv, 3), (Empty, 5), (Adv, 50), (NewR, 3)]);
            p.fam = [16, 22, 14, 5, 6, 18, 3, 3, 2, 3, 1, 5, 14, 6];
            p.core = vec![Adv, Open, Empty];
        }
        "C03" => {
            p.acts = with(SESSION, &[(AskA, 5), (AskL, 1), (AskH, 18), (AskF, 12), (Empty, 1), (Equiv, 1)]);
            p.fam = [20, 14, 16, 8, 16, 6, 3, 3, 2, 5, 2, 14, 6, 6];
            p.core = vec![Adv, Open, AskH, AskF];
        }
        "C04" => {
            p.acts = with(SESSION, &[(AskA, 4), (AskL, 30), (AskH, 3), (Pump, 1), (Match, 14)]);
            p.fam = [4, 2, 2, 0, 0, 0, 0, 0, 0, 100, 0, 0, 0, 0];
            p.core = vec![Adv, Open, AskL];
            p.max_states = 150;
        }
        "C05" => {
            p.acts = with(SESSION, &[(Evict, 14), (AskA, 10), (AskL, 6), (AskH, 10), (Audit, 3), (Empty, 1), (Equiv, 1), (BForget, 2), (Mk, 1), (Stats, 1)]);
            p.fam = [18, 18, 12, 6, 8, 6, 2, 3, 5, 14, 1, 8, 6, 3];
            p.core = vec![Adv, Open, AskA, AskL, AskH, Evict];
            p.mask_pct = 35;
            p.max_states = 150;
        }
        "C06" => {
            p.acts = with(
                SESSION,
                &[(RClone, 10), (Move, 8), (AskA, 10), (AskL, 5), (AskH, 8), (Stats, 4), (Dfa, 1), (Empty, 3), (BClone, 4), (Mk, 8), (MkRx, 3), (Flag, 2), (Compile, 5), (ContIn, 2), (IsCont, 1), (Json, 1), (Bad, 2), (Nullable, 2), (Print, 1)],
            );
            p.fam = [18, 18, 12, 6, 8, 6, 1, 2, 3, 12, 1, 8, 6, 3];
            p.core = vec![Adv, Open, RClone, BClone, Move, Mk];
            p.builders = (1, 1);
            p.max_states = 100;
        }
        "C07" => {
            p.acts = with(
                &[],
                &[(Mk, 40), (MkRx, 14), (Flag, 10), (Nullable, 6), (Forced, 5), (Print, 2), (ContIn, 7), (IsCont, 3), (Json, 4), (BForget, 3), (Compile, 5), (Denote, 26), (BNew, 1), (BClone, 3), (BDrop, 1), (Bad, 3), (Hop, 1), (Noise, 1), (Open, 2), (Adv, 5), (AskA, 5)],
            );
            p.core = vec![Mk, Denote];
            p.builders = (1, 2);
            p.regs = (0, 0);
            p.sess = (0, 0);
            p.steps = (12, 90);
            p.max_states = 120;
            p.mask_pct = 25;
        }
        "C08" => {
            p.acts = with(
                &[],
                &[(Mk, 25), (MkRx, 8), (Flag, 6), (Nullable, 4), (Forced, 2), (Print, 1), (ContIn, 4), (IsCont, 3), (Json, 5), (BForget, 1), (Compile, 8), (Denote, 6), (BNew, 1), (BClone, 2), (Bad, 30), (MapErr, 4), (NewR, 3), (Open, 8), (Adv, 18), (AskA, 8), (AskL, 2), (AskH, 3), (Match, 3), (Evict, 1)],
            );
            p.core = vec![Mk, Bad, Compile];
            p.builders = (1, 2);
            p.regs = (0, 0);
            p.sess = (0, 0);
            p.steps = (12, 90);
            p.max_states = 100;
        }
        "C09" => {
            p.acts = with(
                &[],
                &[(Mk, 16), (MkRx, 5), (ContIn, 10), (IsCont, 12), (Fuel, 18), (Compile, 10), (Empty, 2), (Open, 3), (Adv, 8), (AskA, 3), (LNew, 4), (LStep, 20), (LAsk, 26), (LReset, 4), (LCache, 4), (BClone, 1), (Evict, 1)],
            );
            p.fam = [10, 22, 10, 3, 4, 20, 1, 1, 4, 3, 1, 6, 20, 4];
            p.core = vec![Mk, Fuel, LNew, LStep, LAsk];
            p.builders = (1, 2);
            p.regs = (0, 0);
            p.sess = (0, 0);
            p.steps = (10, 70);
            p.max_states = 150;
            p.mask_pct = 15;
        }
        "C10" => {
            p.acts = with(
                &[],
                &[(Mk, 10), (MkRx, 6), (Flag, 4), (ContIn, 22), (IsCont, 34), (Compile, 14), (Fuel, 2), (Empty, 2), (BForget, 2), (BClone, 2), (Bad, 2), (Json, 1), (Open, 2), (Adv, 4), (Evict, 1), (Denote, 1)],
            );
            p.fam = [16, 20, 12, 3, 10, 12, 1, 1, 2, 0, 1, 12, 10, 6];
            p.core = vec![IsCont, ContIn, Compile];
            p.builders = (1, 2);
            p.regs = (0, 0);
            p.sess = (0, 0);
            p.steps = (8, 60);
            p.max_states = 120;
        }
        "C11" => {
            p.acts = with(
                SESSION,
                &[(AskA, 10), (AskL, 6), (AskH, 8), (Stats, 8), (Dfa, 3), (Empty, 1), (BClone, 2), (Mk, 10), (MkRx, 4), (Flag, 2), (Compile, 5), (ContIn, 3), (IsCont, 2), (Json, 2), (Bad, 2), (Nullable, 1), (Print, 5), (Hop, 8), (Noise, 8), (LNew, 2), (LStep, 6), (LAsk, 6), (Equiv, 1), (Fuel, 1)],
            );
            p.core = vec![Adv, Open, Stats, Hop, Noise, Mk];
            p.builders = (1, 1);
            p.mask_pct = 0;
        }
        "C12" => {
            p.acts = with(SESSION, &[(AskA, 12), (AskL, 6), (AskH, 8), (Stats, 6), (Warm, 12), (Evict, 4), (Empty, 2), (Match, 3), (NewR, 1), (Equiv, 1)]);
            p.core = vec![Adv, Open, Warm, AskA, AskH, AskL, Stats];
        }
        "C13" => {
            p.acts = with(SESSION, &[(AskA, 8), (AskL, 4), (AskH, 6), (Dfa, 14), (Evict, 5), (RClone, 5), (NewR, 3), (Stats, 1)]);
            p.fam = [22, 16, 20, 8, 8, 5, 4, 4, 5, 14, 0, 8, 6, 3];
            p.core = vec![Adv, Open, Dfa, RClone];
            p.max_states = 90;
            p.steps = (8, 60);
        }
        "C14" => {
            p.acts = with(&[], &[(HNew, 1), (HClone, 2), (HIns, 45), (HInc, 45), (HDouble, 4), (HMid, 3), (HCheck, 3), (HDrop, 1)]);
            p.core = vec![HIns, HInc, HCheck];
            p.regs = (0, 0);
            p.sess = (0, 0);
            p.steps = (20, 700);
            p.mask_pct = 60;
        }
        "C15" => {
            p.acts = with(
                &[],
                &[(Mk, 8), (MkRx, 4), (Json, 14), (Compile, 16), (Open, 14), (Adv, 60), (AskA, 10), (AskH, 2), (Match, 40), (Equiv, 12), (Flag, 2), (BClone, 1), (Bad, 2), (Evict, 2), (Fork, 3), (Rewind, 3), (RClone, 2), (Empty, 1), (ContIn, 1)],
            );
            p.fam = [40, 0, 35, 8, 10, 0, 2, 0, 0, 0, 0, 8, 0, 0];
            p.core = vec![Mk, Json, Compile, Open, Adv, Match, AskA];
            p.builders = (1, 2);
            p.regs = (0, 0);
            p.sess = (0, 0);
            p.steps = (30, 140);
            p.max_states = 120;
        }
        "C16" => {
            p.acts = with(SESSION, &[(AskA, 15), (AskL, 4), (AskH, 10), (Empty, 3), (Nullable, 3), (Print, 4), (Compile, 3), (NewR, 0), (Lose, 0), (Adv, 30), (Evict, 2), (Stats, 1), (BClone, 1), (Mk, 1), (Match, 3)]);
            p.core = vec![Adv, Open, AskA, AskH, Print, Nullable, Empty];
            p.builders = (1, 1);
            p.regs = (0, 0);
            p.sess = (0, 0);
            p.steps = (6, 30);
            p.mask_pct = 0;
        }
        "C17" => {
            p.acts = with(&[], &[(LNew, 2), (LStep, 45), (LReset, 6), (LAsk, 40), (LCache, 8), (Mk, 2), (BClone, 1), (Hop, 1)]);
            p.core = vec![LStep, LAsk];
            p.builders = (1, 1);
            p.regs = (0, 0);
            p.sess = (0, 0);
            p.fam = [20, 14, 18, 8, 8, 5, 3, 4, 2, 14, 1, 8, 6, 4];
            p.max_states = 150;
            p.steps = (15, 130);
            p.mask_pct = 20;
        }
        _ => panic!("unknown property {prop}"),
    }
    p
}

#[derive(Clone)]
enum How {
    Pattern(String, Option<[bool; 5]>),
    Built { b: u32, x: u32 },
    Made(A),
}

pub struct Driver {
    g: Gen,
    rng: Rng,
    prop: String,
    p: Profile,
    w: Vec<u32>,
    queue: VecDeque<Step>,
    left: usize,
    labels: u32,
    how: BTreeMap<u32, How>,
    heir: BTreeMap<u32, u32>,
    stall: BTreeMap<u32, usize>,
    streams: BTreeMap<u32, VecDeque<u8>>,
    t: usize,
    threads: u8,
    hooks: bool,
    /// last known contained pairs
    tail_done: bool,
    bursts: u32,
    /// size of a read, 0 if they vary
    read: usize,
    pairs: Vec<(String, String)>,
    mask: u8,
    pats: Vec<String>,
}

impl Driver {
    /// header of the script (no steps yet) and the scheduler of this run
    pub fn new(prop: &str, seed: u64, run: u64, compress: bool, hooks: bool) -> (Driver, Script) {
        let mut rng = Rng::new(mix64(seed.wrapping_mul(0x1_0000_0001).wrapping_add(run)) ^ mix64(prop.bytes().fold(7, |h, c| h * 31 + c as u64)));
        let p = profile(prop);
        let mut g = Gen::new(rng.fork());
        g.max_states = p.max_states;
        let mut w = vec![];
        for (a, wt) in &p.acts {
            let off = !p.core.contains(a) && rng.pct(30);
            w.push(if off { 0 } else { wt * rng.range(1, 4) as u32 });
        }
        // whole runs without faults
        if rng.pct(20) {
            for (i, (a, _)) in p.acts.iter().enumerate() {
                if matches!(a, Evict | Lose | BForget | LCache | Bad) && !p.core.contains(a) {
                    w[i] = 0;
                }
            }
        }
        let hi = if rng.pct(70) { (p.steps.0 + p.steps.1) / 2 } else { p.steps.1 };
        let left = rng.range(p.steps.0, hi);
        let threads = if w.iter().zip(&p.acts).any(|(w, a)| a.0 == Hop && *w > 0) { rng.range(1, 4) as u8 } else { 1 };
        let mask_bits = if hooks && rng.pct(p.mask_pct) { rng.range(1, 8) as u8 } else { 0 };
        let huge = (prop == "C05" && run % 200 == 17) || (matches!(prop, "C01" | "C02") && run % 320 == 131);
        let mask_bits = if huge { 0 } else { mask_bits };
        let script = Script {
            prop: prop.into(),
            seed,
            run,
            entropy: rng.next(),
            mask_bits,
            stack_kb: if prop == "C16" { 512 } else { 8192 },
            threads,
            compress,
            hooks,
            steps: vec![],
        };
        let read = if rng.pct(35) { rng.range(2, 8) } else { 0 };
        let mut d = Driver {
            g,
            rng,
            prop: prop.into(),
            p,
            w,
            queue: VecDeque::new(),
            left,
            labels: 0,
            how: BTreeMap::new(),
            heir: BTreeMap::new(),
            stall: BTreeMap::new(),
            streams: BTreeMap::new(),
            t: 0,
            threads,
            hooks,
            tail_done: false,
            bursts: 0,
            read,
            pairs: vec![],
            pats: vec![],
            mask: mask_bits,
        };
        d.setup(run);
        (d, script)
    }

    fn label(&mut self) -> u32 {
        self.labels += 1;
        self.labels
    }

    fn setup(&mut self, run: u64) {
        let nb = self.rng.range(self.p.builders.0, self.p.builders.1);
        let mut bs = vec![];
        for _ in 0..nb {
            let b = self.label();
            bs.push(b);
            self.queue.push_back(Step::BNew { b });
        }
        match self.prop.as_str() {
            "C14" => {
                let h = self.label();
                self.queue.push_back(Step::HNew { h });
                if run % 400 == 77 {
                    self.long_vectors(h);
                }
                return;
            }
            "C16" => {
                let b = bs[0];
                if self.rng.pct(12) {
                    self.hint_tower(b);
                    return;
                }
                if self.rng.pct(12) {
                    self.deep_empty(Some(b));
                    return;
                }
                if self.rng.pct(8) {
                    let w = (0..self.rng.range(1, 5)).map(|_| b'a' + self.rng.below(3) as u8).collect();
                    let n = self.rng.range(1000, 4000) as u32;
                    let every = self.rng.range(1, 3) as u32;
                    self.queue.push_back(Step::Ladder { b, w, n: n / every, every, kind: self.rng.below(3) as u8, end: b'z' });
                    return;
                }
                let x = self.deep(b);
                let r = self.label();
                self.queue.push_back(Step::Nullable { b, x });
                self.queue.push_back(Step::Print { b, x, max: 0 });
                let mut x = x;
                if self.rng.pct(35) {
                    // what walks over the whole expression once more
                    let e = std::mem::replace(&mut x, self.label());
                    let esc = self.rng.pick(&["nrbtf\\\"u", "nrt\\\"", ""]).to_string();
                    self.queue.push_back(Step::Json { b, x, e, esc, raw: self.rng.pct(50) });
                    if self.rng.pct(50) {
                        self.queue.push_back(Step::Print { b, x, max: 0 });
                    }
                }
                self.queue.push_back(Step::Compile { b, x, r, fuel: None });
                self.how.insert(r, How::Built { b, x });
                for _ in 0..self.rng.range(1, 3) {
                    let s = self.label();
                    self.queue.push_back(Step::SOpen { s, r });
                }
                return;
            }
            "C17" => {
                self.lexer(bs[0]);
                return;
            }
            "C05" if run % 200 == 17 => {
                // more states than a 16-bit counter holds
                let r = self.label();
                self.big_window(r, 66_000);
                return;
            }
            "C01" | "C02" | "C03" | "C06" | "C11" | "C12" if run % 400 == 217 => {
                let r = self.label();
                let n = *self.rng.pick(&[130u32, 520, 1030, 2050, 4100, 8200, 10_010, 16_400, 32_800, 66_000]);
                // collisions make long lists
                let n = if self.mask == 0 { n } else { n.min(2050) };
                self.big_window(r, n);
                if self.prop == "C06" {
                    let c = self.label();
                    let at = self.rng.below(self.queue.len() - 4) + 4;
                    self.queue.insert(at, Step::RClone { r: c, from: r });
                    if let Some(h) = self.how.get(&r).cloned() {
                        self.how.insert(c, h);
                    }
                    self.left = 40;
                }
                return;
            }
            "C01" | "C02" if run % 320 == 131 => {
                self.big_count();
                return;
            }
            "C04" | "C12" if self.rng.pct(if self.prop == "C12" { 3 } else { 6 }) => {
                self.long_lookahead();
            }
            "C02" | "C09" | "C10" if run % 60 == 13 => {
                self.deep_empty(bs.first().copied());
                return;
            }
            "C13" if self.rng.pct(4) => {
                self.near_full();
                return;
            }
            "C01" | "C02" | "C03" | "C07" | "C09" | "C10" if self.rng.pct(6) => {
                self.tiny_burst(bs.first().copied());
                return;
            }
            _ => {}
        }
        if !bs.is_empty() && run % 150 == 61 && !matches!(self.prop.as_str(), "C09" | "C13" | "C14" | "C17") {
            // a builder that has been in use for long
            let n = match self.rng.below(6) {
                0 | 1 => 300,
                2 => 1_100,
                3 => 5_000,
                4 => 20_000,
                _ => 68_000,
            };
            let n = if self.mask == 0 { n } else { n.min(300) } + self.rng.below(9) as u32;
            let b = bs[self.rng.below(bs.len())];
            let salt = self.rng.next() & 0xfff;
            self.queue.push_back(Step::Fill { b, n, kind: self.rng.pct(35) as u8, salt });
        }
        for _ in 0..self.rng.range(self.p.regs.0, self.p.regs.1) {
            self.new_regex(&bs);
        }
        let regs: Vec<u32> = self.how.keys().copied().collect();
        if !regs.is_empty() {
            for _ in 0..self.rng.range(self.p.sess.0, self.p.sess.1) {
                let s = self.label();
                let r = *self.rng.pick(&regs);
                self.queue.push_back(Step::SOpen { s, r });
            }
        }
    }

    /// very many very small expressions, on one builder
    fn tiny_burst(&mut self, b: Option<u32>) {
        let b = b.unwrap_or_else(|| {
            let b = self.label();
            self.queue.push_back(Step::BNew { b });
            b
        });
        let n = self.rng.range(30, 120);
        let mut load: BTreeMap<u32, u32> = BTreeMap::new();
        self.g.mono = self.rng.pct(35);
        // upper bounds near the largest number; only where nothing depends on very long texts
        let huge = matches!(self.prop.as_str(), "C01" | "C03" | "C07") && self.rng.pct(20);
        for _ in 0..n {
            let x = self.label();
            if huge {
                let d = self.rng.range(1, 3) as u32;
                let a = loop {
                    let a = self.g.tiny(d, &[], true);
                    if a.load(&load) <= 30 {
                        break a;
                    }
                };
                let a = self.huge(&a);
                self.queue.push_back(Step::Mk { b, x, a });
                self.queue.push_back(Step::Denote { b, x, max: 60, texts: vec![] });
                continue;
            }
            let known: Vec<u32> = load.iter().rev().filter(|(_, l)| **l <= 12).take(12).map(|(x, _)| *x).collect();
            let depth = self.rng.range(1, 4) as u32;
            // expressions whose automaton may explode are left out
            let a = self.light(depth, &known, &load, 60);
            let mut l = a.load(&load);
            if self.prop == "C10" && self.rng.pct(60) {
                let small = self.light(depth.min(3), &known, &load, 30);
                l += 2 * small.load(&load);
                self.queue.push_back(Step::ContIn { b, x, small, big: a });
            } else {
                self.queue.push_back(Step::Mk { b, x, a });
            }
            load.insert(x, l);
            match self.prop.as_str() {
                "C09" if self.rng.pct(40) => {
                    let limits = (0..self.rng.range(4, 12)).map(|_| if self.rng.pct(50) { (1 + self.rng.below(9) as u64 / 6) << 32 | self.rng.below(1001) as u64 } else { self.rng.below(60) as u64 }).collect();
                    self.queue.push_back(Step::Fuel { b, x, limits });
                }
                _ => self.queue.push_back(Step::Denote { b, x, max: 150, texts: vec![] }),
            }
        }
        self.left = if huge { 0 } else { self.rng.below(10) };
    }

    fn huge(&mut self, a: &A) -> A {
        match a {
            A::Rep(x, l, h) => {
                let k = self.rng.below(14) as u32;
                let h = match self.rng.below(10) {
                    0..=3 => Some(u32::MAX - k),
                    4 => Some((1 << 31) + k),
                    5 => Some((1 << 31) - k),
                    6 => Some((1 << *self.rng.pick(&[24, 25, 28, 30])) + k),
                    _ => *h,
                };
                A::Rep(Box::new(self.huge(x)), *l, h)
            }
            A::Or(v) => A::Or(v.iter().map(|x| self.huge(x)).collect()),
            A::Cat(v) => A::Cat(v.iter().map(|x| self.huge(x)).collect()),
            A::Pre(x) => A::Pre(Box::new(self.huge(x))),
            _ => a.clone(),
        }
    }

    /// vectors longer than 16 bits can count, and shorter ones that agree with them
    fn long_vectors(&mut self, h: u32) {
        let n = self.rng.range(65_534, 66_000);
        let salt = self.rng.next();
        let long: Vec<u32> = (0..n).map(|i| mix64(salt ^ i as u64) as u32 & 3).collect();
        let k = self.rng.below(n - 65_533) + 1;
        let mut v = vec![long[..k].to_vec(), long.clone(), long[..n.min(65_535)].to_vec(), long[n.saturating_sub(65_536)..].to_vec(), long[..n.saturating_sub(65_536)].to_vec()];
        let mut other = long.clone();
        other[n - 1 - self.rng.below(400)] ^= 1;
        v.push(other);
        for i in (1..v.len()).rev() {
            v.swap(i, self.rng.below(i + 1));
        }
        for v in v {
            if self.rng.pct(40) {
                let k = self.rng.below(v.len() + 1);
                self.queue.push_back(Step::HInc { h, parts: vec![v[..k].to_vec(), v[k..].to_vec()] });
            } else {
                self.queue.push_back(Step::HIns { h, v });
            }
        }
        self.queue.push_back(Step::HIns { h, v: long });
        self.queue.push_back(Step::HCheck { h });
        self.left = self.rng.range(2, 10);
    }

    /// emptiness that shows only after a long search
    fn deep_empty(&mut self, b: Option<u32>) {
        let b = b.unwrap_or_else(|| {
            let b = self.label();
            self.queue.push_back(Step::BNew { b });
            b
        });
        // beyond what the reference can hold
        let far = self.prop == "C16" || (self.prop == "C02" && self.mask == 0 && self.rng.pct(30));
        let n = if far { 30 } else { *self.rng.pick(&[60u32, 130, 260, 520, 1030, 1300]) + self.rng.below(30) as u32 };
        let bx = |a: A| Box::new(a);
        let lit = |s: &str| A::Lit(s.into());
        let unit = match self.rng.below(3) {
            0 => A::Byte(b'a'),
            1 => A::Set(vec![0, 0, 0, 0b110, 0, 0, 0, 0]),
            _ => A::Or(vec![A::Byte(b'a'), A::Byte(b'b')]),
        };
        let times = |lo: u32, hi: Option<u32>| A::Rep(bx(unit.clone()), lo, hi);
        let d = self.rng.below(3) as u32;
        let e = self.rng.below(3) as u32;
        let (small, big) = match self.rng.below(6) {
            0 => (A::Cat(vec![times(n, Some(n)), lit("x")]), A::Cat(vec![times(n, Some(n + d)), if self.rng.pct(60) { lit("y") } else { lit("xy") }])),
            1 => (times(n, Some(n + d)), times(n + e, None)),
            2 => (A::Cat(vec![times(n + d, None), lit("x")]), A::Cat(vec![times(n + e, None), lit("x")])),
            3 => (A::Cat(vec![times(n, Some(n)), lit("xx")]), A::Cat(vec![times(n - d, Some(n)), A::Rep(bx(A::Byte(b'x')), 2, Some(2 + e))])),
            4 => (A::Cat(vec![times(n, None), lit("x")]), A::Cat(vec![times(0, Some(n - 1 + d)), lit("x")])),
            _ => (A::Cat(vec![times(n, Some(n + d)), A::Rx("[xy]".into())]), A::Cat(vec![times(n, Some(n + e)), A::Rx("[yz]".into())])),
        };
        let (x, r) = (self.label(), self.label());
        let contained = self.rng.pct(50);
        if far {
            let core = if contained { A::And(vec![small, A::Not(bx(big))]) } else { A::And(vec![small, big]) };
            let (a, z) = match self.rng.below(3) {
                0 => (core, ""),
                1 => (A::Cat(vec![A::Byte(b'z'), core]), "z"),
                _ => (A::Or(vec![A::Cat(vec![A::Byte(b'z'), core]), lit("q")]), "z"),
            };
            let heads = [n - 3, n - 1, n, n + 1, n + 3];
            let tails = heads.iter().map(|k| [vec![b'a'; *k as usize], self.rng.pick(&["x", "y", "xy", "xx", "xxx", "z"]).as_bytes().to_vec()].concat()).collect();
            let far = self.rng.range(2_000, 30_000) as u32;
            self.queue.push_back(Step::Search { b, a, n0: n, n: far, z: z.into(), tails });
            self.left = self.rng.range(0, 4);
            return;
        }
        if self.prop == "C10" && self.rng.pct(70) {
            let (p, q) = if contained { (small.clone(), A::Or(vec![small, big])) } else { (small, big) };
            self.queue.push_back(Step::ContIn { b, x, small: p, big: q });
        } else {
            let core = if contained { A::And(vec![small, A::Not(bx(big))]) } else { A::And(vec![small, big]) };
            let a = match self.rng.below(3) {
                0 => core,
                1 => A::Cat(vec![A::Byte(b'z'), core]),
                _ => A::Or(vec![A::Cat(vec![A::Byte(b'z'), core]), lit("q")]),
            };
            self.queue.push_back(Step::Mk { b, x, a });
        }
        if self.prop == "C09" {
            let limits = (0..self.rng.range(3, 6)).map(|_| if self.rng.pct(60) { (1 + self.rng.below(9) as u64 / 6) << 32 | self.rng.below(1001) as u64 } else { self.rng.below(9000) as u64 }).collect();
            self.queue.push_back(Step::Fuel { b, x, limits });
        }
        self.queue.push_back(Step::Compile { b, x, r, fuel: None });
        self.how.insert(r, How::Built { b, x });
        self.queue.push_back(Step::REmpty { r });
        for z in ["z", ""] {
            let s = self.label();
            self.queue.push_back(Step::SOpen { s, r });
            self.queue.push_back(Step::SAdv { s, t: z.into(), chunk: false });
            self.queue.push_back(Step::SPump { s, t: vec![b'a'], n: n - 3 });
            self.queue.push_back(Step::SAsk { s, q: 0 });
            for t in ["a", "a", "a", "x", "x"] {
                self.queue.push_back(Step::SAdv { s, t: t.into(), chunk: false });
                self.queue.push_back(Step::SAsk { s, q: 0 });
            }
        }
        self.left = self.rng.range(2, 10);
    }

    /// about as many states as an exported table can name
    fn near_full(&mut self) {
        let b = self.label();
        self.queue.push_back(Step::BNew { b });
        for _ in 0..self.rng.range(1, 3) {
            let n = self.rng.range(225, 265) as u32;
            let m = self.rng.range(1, n as usize - 1) as u32;
            let times = |c: u8, n: u32| A::Rep(Box::new(A::Byte(c)), n, Some(n));
            let a = match self.rng.below(6) {
                0 => times(b'a', n),
                1 => A::Or(vec![times(b'a', m), times(b'b', n - m)]),
                2 => A::Rep(Box::new(A::Set(vec![0, 0, 0, 6, 0, 0, 0, 0])), n / 2, Some(n)),
                3 => A::Or(vec![A::Cat(vec![A::Byte(b'c'), times(b'a', m)]), A::Rep(Box::new(A::Byte(b'b')), (n - m) / 2, Some(n - m))]),
                4 => A::Win(7),
                _ => A::Cat(vec![times(b'a', m), A::Rep(Box::new(A::Byte(b'c')), 0, None), times(b'b', n - m)]),
            };
            let (x, r, s) = (self.label(), self.label(), self.label());
            self.queue.push_back(Step::Mk { b, x, a });
            self.queue.push_back(Step::Compile { b, x, r, fuel: None });
            self.how.insert(r, How::Built { b, x });
            self.queue.push_back(Step::SOpen { s, r });
            let t = (0..self.rng.range(0, 300)).map(|_| if self.rng.pct(90) { b'a' } else { b'b' }).collect();
            self.queue.push_back(Step::SAdv { s, t, chunk: true });
        }
        self.left = self.rng.range(2, 12);
    }

    fn light(&mut self, depth: u32, refs: &[u32], load: &BTreeMap<u32, u32>, max: u32) -> A {
        for _ in 0..6 {
            let a = self.g.tiny(depth, refs, false);
            if a.load(load) <= max {
                return a;
            }
        }
        A::Byte(b'a')
    }

    fn big_window(&mut self, r: u32, n: u32) {
        let b = self.label();
        let x = self.label();
        self.queue.push_back(Step::BNew { b });
        self.queue.push_back(Step::Mk { b, x, a: A::Win(n) });
        self.queue.push_back(Step::Compile { b, x, r, fuel: None });
        self.how.insert(r, How::Built { b, x });
        let s0 = self.label();
        self.queue.push_back(Step::SOpen { s: s0, r });
        // many states; another session keeps returning to the early ones
        let part = n as usize / 16;
        let rest = n as usize % 16;
        let mut x = self.rng.next();
        let early = self.label();
        self.queue.push_back(Step::SFork { s: early, from: s0 });
        for i in 0..17 {
            let t: Vec<u8> = (0..if i < 16 { part } else { rest })
                .map(|_| {
                    x = mix64(x.wrapping_add(0x9e3779b97f4a7c15));
                    if x >> 40 & 1 == 1 {
                        b'a'
                    } else {
                        b'b'
                    }
                })
                .collect();
            self.queue.push_back(Step::SAdv { s: s0, t: t.clone(), chunk: i % 2 == 0 });
            if i % 10 == 0 {
                self.queue.push_back(Step::SAsk { s: s0, q: 0 });
                self.queue.push_back(Step::SAdv { s: early, t: t[..t.len().min(500)].to_vec(), chunk: false });
                self.queue.push_back(Step::SAsk { s: early, q: 0 });
                self.queue.push_back(Step::SAsk { s: early, q: 2 });
            }
        }
        let end = self.label();
        self.queue.push_back(Step::SFork { s: end, from: s0 });
        for (s, t) in [(s0, b"a"), (end, b"b")] {
            self.queue.push_back(Step::SAsk { s, q: 2 });
            self.queue.push_back(Step::SAdv { s, t: t.to_vec(), chunk: false });
            self.queue.push_back(Step::SAsk { s, q: 1 });
        }
        self.queue.push_back(Step::Evict { r, mask: 7, pct: 30, salt: x });
        self.queue.push_back(Step::SAdv { s: early, t: vec![b'a'; 30], chunk: true });
        self.queue.push_back(Step::SAsk { s: early, q: 1 });
        self.left = 5;
    }

    /// counts around and beyond the usual word sizes
    fn big_count(&mut self) {
        let edge = *self.rng.pick(&[300u32, 511, 1000, 4096, 32767, 32768, 65535, 65536, 66000, 70000, 100_000]);
        let edge = edge + self.rng.below(3) as u32;
        let hi = match self.rng.below(4) {
            0 => None,
            1 => Some(edge),
            _ => Some(edge + self.rng.below(6) as u32),
        };
        let lo = match self.rng.below(3) {
            0 if hi.is_some() => self.rng.below(4) as u32,
            1 => edge - self.rng.below(4) as u32,
            _ => edge,
        };
        let r = self.label();
        let h = hi.map_or("".into(), |x| x.to_string());
        let p = format!("{}{{{lo},{h}}}", self.rng.pick(&["[ab]", "a", "(a|b)", "[a-z]"]));
        if self.rng.pct(50) {
            self.queue.push_back(Step::RNew { r, p: p.clone(), f: None });
            self.how.insert(r, How::Pattern(p, None));
        } else {
            let (b, x) = (self.label(), self.label());
            let mut w = vec![0u32; 8];
            w[3] = 0b110;
            self.queue.push_back(Step::BNew { b });
            self.queue.push_back(Step::Mk { b, x, a: A::Rep(Box::new(A::Set(w)), lo, hi) });
            self.queue.push_back(Step::Compile { b, x, r, fuel: None });
            self.how.insert(r, How::Built { b, x });
        }
        let s = self.label();
        self.queue.push_back(Step::SOpen { s, r });
        let near = edge - 10;
        self.queue.push_back(Step::SPump { s, t: vec![b'a'; 250], n: near / 250 });
        self.queue.push_back(Step::SAsk { s, q: 0 });
        self.queue.push_back(Step::SAsk { s, q: 2 });
        self.queue.push_back(Step::SAdv { s, t: vec![b'a'; (near % 250) as usize], chunk: true });
        for _ in 0..22 {
            self.queue.push_back(Step::SAsk { s, q: 0 });
            if self.rng.pct(30) {
                self.queue.push_back(Step::SAsk { s, q: 2 });
            }
            self.queue.push_back(Step::SAdv { s, t: vec![b'a'], chunk: false });
        }
        self.queue.push_back(Step::SAsk { s, q: 0 });
        self.queue.push_back(Step::REmpty { r });
        self.left = 5;
    }

    fn long_lookahead(&mut self) {
        let cases: &[(&str, &str, &str, &str)] = &[
            ("[abx]*(?P<stop>[xq]*y)", "ab", "x", "y"),
            ("a*(?P<stop>ba*c)", "aab", "a", "c"),
            ("x(?P<stop>y*z)|xy(?P<stop>y*z)", "x", "y", "z"),
            ("(?P<stop>(ab)*c)", "", "ab", "c"),
            ("[a-z]+(?P<stop>[.][0-9]+!)", "abc.", "10", "!"),
            ("x?(?P<stop>(?s:.)*END)", "x", "EN", "END"),
        ];
        let huge = self.prop == "C04" && self.mask == 0 && self.rng.pct(4);
        // one split pending, or the states themselves become too large
        let c = if huge { cases[*self.rng.pick(&[1, 3])] } else { *self.rng.pick(cases) };
        let r = self.label();
        self.queue.push_back(Step::RNew { r, p: c.0.into(), f: None });
        self.how.insert(r, How::Pattern(c.0.into(), None));
        let s = self.label();
        self.queue.push_back(Step::SOpen { s, r });
        self.queue.push_back(Step::SAdv { s, t: c.1.into(), chunk: false });
        let n = *self.rng.pick(&[100u32, 127, 254, 255, 256, 257, 400, 1000]) + self.rng.below(3) as u32;
        let n = if huge { 65_530 + self.rng.below(700) as u32 } else { n };
        let other = self.label();
        self.queue.push_back(Step::SFork { s: other, from: s });
        self.queue.push_back(Step::SPump { s, t: c.2.into(), n });
        self.queue.push_back(Step::SAdv { s, t: c.3.into(), chunk: true });
        self.queue.push_back(Step::SAsk { s, q: 1 });
        self.queue.push_back(Step::SPump { s: other, t: c.2.into(), n: n / 2 });
        self.queue.push_back(Step::SAdv { s: other, t: c.3.into(), chunk: true });
        self.queue.push_back(Step::SAsk { s: other, q: 1 });
        self.queue.push_back(Step::SAsk { s, q: 1 });
        self.queue.push_back(Step::SAsk { s, q: 2 });
    }

    fn new_regex(&mut self, bs: &[u32]) -> u32 {
        let a = loop {
            let (a, _, _) = self.g.expr(&self.p.fam);
            if a.load(&Default::default()) <= 250 || matches!(a, A::Rx(_)) {
                break a;
            }
        };
        let r = self.label();
        let wide = matches!(&a, A::Or(v) | A::And(v) | A::Cat(v) if v.len() > 8);
        match &a {
            A::Rx(p) if self.rng.pct(60) => {
                let mut f = None;
                if self.rng.pct(25) {
                    let mut fl = DEFAULT_FLAGS;
                    for x in fl.iter_mut() {
                        if self.rng.pct(35) {
                            *x = !*x;
                        }
                    }
                    let d = eval(&a, &fl, &|_| None).ok().and_then(|m| m.dfa().ok());
                    if d.map_or(false, |d| d.n <= self.p.max_states) {
                        f = Some(fl);
                    }
                }
                self.queue.push_back(Step::RNew { r, p: p.clone(), f });
                self.how.insert(r, How::Pattern(p.clone(), f));
            }
            _ => {
                let x = self.label();
                if !bs.is_empty() && self.rng.pct(70) {
                    let b = *self.rng.pick(bs);
                    self.queue.push_back(Step::Mk { b, x, a: a.clone() });
                    self.queue.push_back(Step::Compile { b, x, r, fuel: None });
                    self.how.insert(r, How::Built { b, x });
                } else {
                    let b = self.label();
                    self.queue.push_back(Step::BNew { b });
                    if self.rng.pct(30) {
                        // the builder has a past
                        let y = self.label();
                        let (o, _, _) = self.g.expr(&self.p.fam);
                        self.queue.push_back(Step::Mk { b, x: y, a: o });
                    }
                    self.queue.push_back(Step::Mk { b, x, a: a.clone() });
                    self.queue.push_back(Step::Compile { b, x, r, fuel: None });
                    if self.rng.pct(50) {
                        self.queue.push_back(Step::BDrop { b });
                        self.how.insert(r, How::Made(a));
                    } else {
                        self.how.insert(r, How::Built { b, x });
                    }
                }
            }
        }
        if wide && self.rng.pct(60) && matches!(self.prop.as_str(), "C01" | "C02" | "C03" | "C09" | "C10") {
            // walks seldom find the one way through that matters: visit all of it
            self.queue.push_back(Step::REquiv { r, max: 400 });
        }
        r
    }

    fn lexer(&mut self, b: u32) {
        let l = self.label();
        let dense = self.rng.pct(15);
        self.g.mono = dense && self.rng.pct(35);
        let n = self.rng.range(1, if dense { 12 } else { 5 });
        let mut xs = vec![];
        for _ in 0..n {
            let x = self.label();
            let a = if dense { self.light(3, &[], &BTreeMap::new(), 40) } else { self.g.expr(&self.p.fam).0 };
            self.queue.push_back(Step::Mk { b, x, a });
            xs.push(x);
        }
        if self.rng.pct(15) {
            let x = *self.rng.pick(&xs);
            xs.push(x);
        }
        self.queue.push_back(Step::LNew { l, b, xs });
    }

    /// a(a?)+ ... : nothing at the top shows where the first byte is decided
    fn hint_tower(&mut self, b: u32) {
        let (x, r) = (self.label(), self.label());
        let bx = |a: A| Box::new(a);
        let opt = A::Rep(bx(A::Byte(b'a')), 0, Some(1));
        let ops = match self.rng.below(3) {
            0 => vec![A::Lit("a".into()), A::Cat(vec![A::Ref(0), opt]), A::Rep(bx(A::Ref(0)), 1, None)],
            1 => vec![A::Lit("ba".into()), A::Rep(bx(A::Cat(vec![A::Ref(0), opt])), 1, Some(1)), A::Rep(bx(A::Ref(0)), 1, None)],
            _ => vec![A::Byte(b'a'), A::Rep(bx(A::Cat(vec![A::Ref(0), opt.clone(), opt])), 1, None)],
        };
        let depth = self.rng.range(10_000, 30_000) as u32;
        self.queue.push_back(Step::Deep { b, x, ops, depth, tree: false });
        self.queue.push_back(Step::Nullable { b, x });
        self.queue.push_back(Step::Print { b, x, max: 0 });
        self.queue.push_back(Step::Compile { b, x, r, fuel: None });
        let s = self.label();
        self.queue.push_back(Step::SOpen { s, r });
        for q in [0, 2, 1] {
            self.queue.push_back(Step::SAsk { s, q });
        }
        self.queue.push_back(Step::SAdv { s, t: vec![self.rng.below(4) as u8 * 30 + b'b' + 1], chunk: false });
        self.queue.push_back(Step::SAsk { s, q: 0 });
        self.queue.push_back(Step::SRewind { s, n: 1 });
        self.queue.push_back(Step::SAsk { s, q: 2 });
        self.left = 0;
    }

    fn deep(&mut self, b: u32) -> u32 {
        let x = self.label();
        let bx = |a: A| Box::new(a);
        let star = |s: &[u8]| {
            let mut w = vec![0u32; 8];
            for b in s {
                w[*b as usize / 32] |= 1 << (b % 32);
            }
            A::Rep(bx(A::Set(w)), 0, None)
        };
        let r = || A::Ref(0);
        let ab = star(b"ab");
        let abc = star(b"abc");
        let towers: Vec<(Vec<A>, usize)> = vec![
            // (base, levels...), maximal depth
            (vec![A::Lit("".into()), A::Or(vec![A::Cat(vec![A::Byte(b'a'), r()]), A::Cat(vec![A::Byte(b'b'), ab.clone()]), A::Eps])], 12000),
            (vec![ab.clone(), A::Or(vec![A::Cat(vec![A::Byte(b'a'), r()]), A::Cat(vec![A::Byte(b'b'), ab.clone()]), A::Eps])], 12000),
            (
                vec![
                    A::Lit("ab".into()),
                    A::And(vec![A::Or(vec![r(), A::Cat(vec![A::Byte(b'c'), abc.clone()])]), A::Not(bx(A::Lit("bb".into())))]),
                    A::Or(vec![r(), A::Lit("bb".into())]),
                ],
                20000,
            ),
            (vec![A::Lit("a".into()), A::Rep(bx(A::Or(vec![r(), A::Byte(b'b')])), 0, None), A::Cat(vec![r(), A::Rep(bx(A::Byte(b'a')), 0, Some(1))])], 6000),
            (vec![A::Lit("a".into()), A::Not(bx(A::Or(vec![A::Cat(vec![A::Byte(b'b'), ab.clone()]), r()]))), A::And(vec![r(), abc.clone()])], 20000),
            (vec![A::Rx("a+b".into()), A::Pre(bx(A::Or(vec![r(), A::Lit("ab".into())]))), A::Or(vec![r(), A::Cat(vec![A::Byte(b'b'), ab.clone()])])], 10000),
            (vec![A::Lit("b".into()), A::Cat(vec![A::Rep(bx(r()), 0, None), A::Rep(bx(A::Byte(b'a')), 0, Some(1))]), A::Or(vec![r(), A::Byte(b'c')])], 300),
            // distribution over a common prefix at every level
            (vec![A::Lit("b".into()), A::Or(vec![A::Cat(vec![A::Rep(bx(A::Byte(b'a')), 0, None), r()]), A::Cat(vec![A::Rep(bx(A::Byte(b'a')), 0, None), A::Byte(b'c'), ab.clone()])])], 4000),
            // (x? | c)+
            (vec![A::Lit("a".into()), A::Rep(bx(A::Or(vec![r(), A::Byte(b'c')])), 1, None), A::Rep(bx(r()), 0, Some(1)), A::Cat(vec![r(), A::Rep(bx(A::Byte(b'b')), 0, Some(1))])], 500),
        ];
        let (ops, max) = self.rng.pick(&towers).clone();
        let depth = if self.rng.pct(70) { self.rng.range(max / 8, max / 2) } else { self.rng.range(max / 2, max) } as u32;
        let tree = self.rng.pct(25);
        self.queue.push_back(Step::Deep { b, x, ops, depth, tree });
        x
    }

    // ------------------------------------------------------------------ picking

    fn pick_reg(&mut self, w: &World) -> Option<u32> {
        let v: Vec<u32> = w.regs.keys().copied().collect();
        if v.is_empty() {
            None
        } else {
            Some(*self.rng.pick(&v))
        }
    }
    fn pick_builder(&mut self, w: &World) -> Option<u32> {
        let v: Vec<u32> = w.builders.keys().copied().collect();
        if v.is_empty() {
            None
        } else {
            Some(*self.rng.pick(&v))
        }
    }
    /// a session that can run now
    fn pick_sess(&mut self, w: &World) -> Option<u32> {
        let t = self.t;
        let v: Vec<u32> = w
            .sess
            .iter()
            .filter(|(s, x)| w.regs.contains_key(&x.r) && self.stall.get(s).map_or(true, |u| *u <= t))
            .map(|x| *x.0)
            .collect();
        if v.is_empty() {
            return None;
        }
        if self.rng.pct(75) {
            let live: Vec<u32> = v.iter().copied().filter(|s| !w.sess[s].sid.is_dead()).collect();
            if !live.is_empty() {
                return Some(*self.rng.pick(&live));
            }
        }
        Some(*self.rng.pick(&v))
    }
    fn pick_x(&mut self, w: &World, b: u32, f: impl Fn(&X) -> bool) -> Option<u32> {
        let v: Vec<u32> = w.builders[&b].xs.iter().filter(|x| f(x.1)).map(|x| *x.0).collect();
        if v.is_empty() {
            return None;
        }
        // recent ones more often
        if self.rng.pct(40) {
            let k = v.len().min(3);
            Some(v[v.len() - 1 - self.rng.below(k)])
        } else {
            Some(*self.rng.pick(&v))
        }
    }

    /// an expression for builder `b` under its current flags, that stays small
    fn ast_for(&mut self, w: &World, b: u32) -> A {
        let s = &w.builders[&b];
        let refs: Vec<u32> = s.xs.iter().filter(|x| x.1.json.is_none() && !x.1.m.has_look && x.1.m.dfa().map_or(false, |d| d.n < 40)).map(|x| *x.0).collect();
        for _ in 0..12 {
            let a = if refs.is_empty() || self.rng.pct(45) {
                self.g.expr(&self.p.fam).0
            } else {
                let d = self.rng.range(1, 2) as u32;
                let mut bools = if self.prop == "C15" { 0 } else { 2 };
                self.g.ast(d, &mut bools, &refs, self.prop != "C15")
            };
            let lk = |l: u32| s.xs.get(&l).map(|x| x.m.clone());
            let Ok(mo) = eval(&a, &s.flags, &lk) else { continue };
            let Ok(d) = mo.dfa() else { continue };
            if d.n <= self.p.max_states && a.load(&Default::default()) <= 250 {
                return a;
            }
        }
        A::Lit("ab".into())
    }

    /// a request that has to be refused
    fn bad(&mut self, w: &World, b: u32) -> Step {
        let x = self.label();
        let r = self.rng.below(100);
        if r < 12 {
            return Step::MkRegex { b, x, p: self.rng.pick(BAD_PATTERNS).to_string() };
        }
        if r < 22 {
            let p = self.rng.pick(BAD_PATTERNS).to_string();
            let q = self.g.pattern(1);
            let (small, big) = match self.rng.below(3) {
                0 => (p, q),
                1 => (q, p),
                _ => (p.clone(), p),
            };
            let fuel = if self.rng.pct(50) { None } else { Some(self.rng.below(100) as u64) };
            return Step::IsCont { b, small, big, fuel };
        }
        if r < 34 {
            let e = self.pick_x(w, b, |x| x.json.is_none() && !x.m.has_look);
            if let Some(e) = e {
                let bad_opt = self.rng.pct(50);
                let esc = if bad_opt { self.rng.pick(&["x", "nrx", "/", "n t", "ü", "0", "N", "'"]).to_string() } else { "nrtbf\\\"u".to_string() };
                return Step::Json { b, x, e, esc, raw: self.rng.pct(50) };
            }
        }
        // a bad leaf somewhere in a larger request
        let near = self.rng.pct(20);
        let leaf = match self.rng.below(6) {
            // the next handles to be issued; nothing may be built before they are looked at
            _ if near => A::BadRef(1 << 30 | *self.rng.pick(&[0u32, 0, 1, 2, 5])),
            0 => A::Rx(self.rng.pick(BAD_PATTERNS).to_string()),
            1 => A::Set(vec![1; *self.rng.pick(&[0usize, 1, 7, 9, 16])]),
            2 => A::BadRef(0),
            3 => A::BadRef(1 + self.rng.below(3) as u32),
            4 => A::BadRef(u32::MAX - 100_000 - self.rng.below(1000) as u32),
            _ => A::Rx("a\\bb".into()),
        };
        let mut a = leaf;
        for _ in 0..self.rng.below(5) {
            let other = if self.rng.pct(70) { self.ast_for(w, b) } else { A::Lit("ab".into()) };
            a = match self.rng.below(7) {
                0 | 2 | 5 if near => A::Cat(vec![a, other]),
                0 => A::Cat(vec![other, a]),
                1 => A::Or(vec![a, other]),
                2 => A::And(vec![other, a, A::Rx(".*".into())]),
                3 => A::Not(Box::new(a)),
                4 => A::Rep(Box::new(a), self.rng.below(2) as u32, Some(3)),
                5 => A::Cat(vec![A::Nil, a]),
                _ => A::Pre(Box::new(a)),
            };
        }
        if !near && self.rng.pct(15) {
            let o = self.ast_for(w, b);
            let (small, big) = if self.rng.pct(50) { (a, o) } else { (o, a) };
            return Step::ContIn { b, x, small, big };
        }
        Step::Mk { b, x, a }
    }

    fn fuel(&mut self) -> u64 {
        if self.rng.pct(12) {
            // little more than a power of two
            let k = *self.rng.pick(&[16, 24, 31, 32, 32, 33, 40, 48, 63]);
            return (1 << k) + self.rng.below(50) as u64;
        }
        match self.rng.below(5) {
            0 => self.rng.below(4) as u64,
            1 => self.rng.below(40) as u64,
            2 => self.rng.below(400) as u64,
            3 => self.rng.below(4000) as u64,
            _ => 1 << self.rng.below(18),
        }
    }

    /// JSON text of one string
    fn encode(&mut self, s: &str, j: &JsonSpec) -> Vec<u8> {
        let esc: Vec<u8> = j.esc.bytes().collect();
        let mut v = vec![];
        if !j.raw {
            v.push(b'"');
        }
        for c in s.chars() {
            let mut opts: Vec<Vec<u8>> = vec![];
            let code = c as u32;
            let short = match c {
                '\n' => Some(b'n'),
                '\r' => Some(b'r'),
                '\t' => Some(b't'),
                '\u{8}' => Some(b'b'),
                '\u{c}' => Some(b'f'),
                '"' => Some(b'"'),
                '\\' => Some(b'\\'),
                _ => None,
            };
            if let Some(x) = short {
                if esc.contains(&x) {
                    opts.push(vec![b'\\', x]);
                }
            }
            let bare = code >= 0x20 && code != 0x7f && c != '"' && c != '\\';
            if bare {
                opts.push(c.to_string().into_bytes());
            }
            if (code < 0x20 || code == 0x7f) && esc.contains(&b'u') {
                opts.push(if self.rng.pct(50) || code == 0x7f { format!("\\u{code:04X}") } else { format!("\\u{code:04x}") }.into_bytes());
            }
            if opts.is_empty() || self.rng.pct(2) {
                // something that may or may not be legal
                opts.push(match self.rng.below(3) {
                    0 => c.to_string().into_bytes(),
                    1 => format!("\\u{:04x}", code & 0xffff).into_bytes(),
                    _ => vec![b'\\', short.unwrap_or(b'x')],
                });
            }
            v.extend(self.rng.pick(&opts).clone());
        }
        if !j.raw {
            v.push(b'"');
        }
        v
    }
    fn json_text(&mut self, j: &JsonSpec) -> Vec<u8> {
        let n = self.rng.below(9);
        let s = self.g.accepted(&j.inner, n);
        let s = String::from_utf8_lossy(&s).into_owned();
        let mut t = self.encode(&s, j);
        self.corrupt(&mut t);
        t
    }
    fn corrupt(&mut self, t: &mut Vec<u8>) {
        if !self.rng.pct(30) {
            return;
        }
        let n = t.len();
        let at = self.rng.below(n + 1);
        match self.rng.below(7) {
            0 if n > 0 => t.truncate(at),
            1 if n > 0 => t[at.min(n - 1)] ^= 1 << self.rng.below(8),
            2 if n > 0 => {
                t.remove(at.min(n - 1));
            }
            3 if n > 0 => {
                let c = t[at.min(n - 1)];
                t.insert(at, c);
            }
            4 => t.insert(at, *self.rng.pick(&[b'"', b'\\', 0x7f, 0x1f, b'u', b'n', 0])),
            5 => {
                let e = *self.rng.pick(&["\\u000A", "\\u007f", "\\u007F", "\\n", "\\\"", "\\\\", "\\u0041", "\\/", "\\u001f", "\\t"]);
                for (i, c) in e.bytes().enumerate() {
                    t.insert(at + i, c);
                }
            }
            _ if n > 1 => {
                let b = self.rng.below(n);
                t.swap(at.min(n - 1), b);
            }
            _ => {}
        }
    }

    fn reg_text(&mut self, w: &World, r: u32) -> Vec<u8> {
        let sl = &w.regs[&r];
        if let Some(j) = sl.json.clone() {
            return self.json_text(&j);
        }
        match &sl.dfa {
            None => {
                let n = self.rng.below(30);
                self.ab(n)
            }
            Some(d) => {
                let n = self.rng.below(16);
                let mut t = if self.rng.pct(60) {
                    self.g.accepted(d, n)
                } else {
                    self.g.text(Some(d), d.start, n)
                };
                if self.rng.pct(25) {
                    self.corrupt(&mut t);
                }
                t
            }
        }
    }
    fn ab(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| if self.rng.pct(3) { self.g.byte() } else { *self.rng.pick(b"ab") }).collect()
    }

    fn adv_bytes(&mut self, w: &World, s: u32) -> Vec<u8> {
        let se = &w.sess[&s];
        let sl = &w.regs[&se.r];
        let n = match self.rng.below(10) {
            0..=4 => 1,
            5..=7 => self.rng.range(1, 4),
            8 => self.rng.range(2, 10),
            _ => self.rng.range(1, 40),
        };
        if let Some(j) = sl.json.clone() {
            if se.bytes.is_empty() || self.rng.pct(3) || !self.streams.contains_key(&s) {
                let t = self.json_text(&j);
                self.streams.insert(s, t.into());
            }
            let q = self.streams.get_mut(&s).unwrap();
            let mut v = vec![];
            for _ in 0..n {
                match q.pop_front() {
                    Some(b) => v.push(b),
                    None => break,
                }
            }
            if v.is_empty() {
                v.push(self.g.byte());
            }
            return v;
        }
        match sl.dfa.clone() {
            None => self.ab(n),
            Some(d) => self.g.text(Some(&d), se.q, n),
        }
    }

    fn read_bytes(&mut self, w: &World, s: u32, mut t: Vec<u8>) -> Vec<u8> {
        let se = &w.sess[&s];
        if let (Some(d), None) = (w.regs[&se.r].dfa.clone(), &w.regs[&se.r].json) {
            let q = d.run(se.q, &t);
            if t.len() < self.read {
                t.extend(self.g.text(Some(&d), q, self.read - t.len()));
            }
            t.truncate(self.read);
        }
        t
    }

    // ------------------------------------------------------------------ the next step

    pub fn next(&mut self, w: &World) -> Option<Step> {
        if let Some(s) = self.queue.pop_front() {
            self.t += 1;
            return Some(s);
        }
        for _ in 0..200 {
            if self.left == 0 {
                if !self.tail_done {
                    self.tail_done = true;
                    self.tail(w);
                    return self.queue.pop_front();
                }
                return None;
            }
            self.left -= 1;
            let i = self.rng.weighted(&self.w);
            let a = self.p.acts[i].0;
            if let Some(s) = self.act(a, w) {
                // faults sometimes come in bursts, and queries right after them
                if matches!(s, Step::Evict { .. } | Step::RClone { .. } | Step::BForget { .. }) && self.bursts < 20 {
                    self.bursts += 1;
                    self.left += 2;
                }
                self.t += 1;
                return Some(s);
            }
            if let Some(s) = self.queue.pop_front() {
                self.t += 1;
                return Some(s);
            }
        }
        None
    }

    /// closing checks of a run
    fn tail(&mut self, w: &World) {
        match self.prop.as_str() {
            "C01" | "C02" => {
                if self.rng.pct(30) {
                    for r in w.regs.keys() {
                        self.queue.push_back(Step::REquiv { r: *r, max: 400 });
                    }
                }
            }
            "C05" => {
                for r in w.regs.keys() {
                    self.queue.push_back(Step::RAudit { r: *r });
                }
            }
            "C07" | "C08" => {
                for (b, s) in &w.builders {
                    // (without compression a regex keeps every node of its builder)
                    if self.prop == "C08" && self.mask == 0 && cfg!(feature = "compress") {
                        let stem: Vec<u8> = (0..self.rng.below(4)).map(|_| b'a' + self.rng.below(4) as u8).collect();
                        let words = (0..self.rng.range(2, 12))
                            .map(|_| stem.iter().copied().chain((0..self.rng.range(1, 6)).map(|_| b'a' + self.rng.below(3) as u8)).collect())
                            .collect();
                        self.queue.push_back(Step::Probe { b: *b, words });
                    }
                    let xs: Vec<u32> = s.xs.iter().filter(|x| x.1.json.is_none() && x.1.m.dfa().is_ok()).map(|x| *x.0).collect();
                    if xs.is_empty() {
                        continue;
                    }
                    for _ in 0..6 {
                        let x = *self.rng.pick(&xs);
                        let d = s.xs[&x].m.dfa().unwrap();
                        let texts = (0..4).map(|_| self.g.accepted(&d, 6)).collect();
                        self.queue.push_back(Step::Denote { b: *b, x, max: 300, texts });
                    }
                    for x in xs.iter().take(20) {
                        self.queue.push_back(Step::Nullable { b: *b, x: *x });
                    }
                }
            }
            "C12" => {
                for r in w.regs.keys() {
                    self.queue.push_back(Step::RWarm { r: *r, salt: self.rng.next(), n: 60 });
                }
            }
            "C13" => {
                for r in w.regs.keys() {
                    let t = self.reg_text(w, *r);
                    self.queue.push_back(Step::RDfa { r: *r, t });
                }
            }
            "C14" => {
                for h in w.tabs.keys() {
                    self.queue.push_back(Step::HCheck { h: *h });
                }
            }
            "C16" => {
                let b = w.builders.keys().next().copied();
                if let Some(b) = b {
                    self.queue.push_back(Step::BDrop { b });
                }
                for r in w.regs.keys() {
                    self.queue.push_back(Step::RStats { r: *r });
                    self.queue.push_back(Step::RDrop { r: *r });
                }
            }
            _ => {}
        }
    }

    fn vec(&mut self, w: &World, h: u32) -> Vec<u32> {
        let s = &w.tabs[&h];
        if !s.elts.is_empty() && self.rng.pct(35) {
            let mut v = self.rng.pick(&s.elts).clone();
            match self.rng.below(5) {
                0 if !v.is_empty() => {
                    let i = self.rng.below(v.len());
                    v[i] ^= 1 << self.rng.below(32);
                }
                1 => {
                    v.pop();
                }
                2 => v.push(self.rng.below(3) as u32),
                _ => {}
            }
            return v;
        }
        let n = match self.rng.below(20) {
            0 => 0,
            1..=14 => self.rng.range(1, 5),
            15..=18 => self.rng.range(4, 40),
            _ => self.rng.range(100, 3000),
        };
        let small = self.rng.pct(60);
        (0..n).map(|_| if small { self.rng.below(4) as u32 } else { self.rng.next() as u32 }).collect()
    }
    fn pick_tab(&mut self, w: &World) -> Option<u32> {
        let v: Vec<u32> = w.tabs.keys().copied().collect();
        if v.is_empty() {
            None
        } else {
            Some(*self.rng.pick(&v))
        }
    }
    fn pick_raw(&mut self, w: &World) -> Option<(u32, u32)> {
        let v: Vec<u32> = w.raws.keys().copied().collect();
        if v.is_empty() {
            return None;
        }
        let l = *self.rng.pick(&v);
        let n = w.raws[&l].roots.len();
        Some((l, self.rng.below(n) as u32))
    }

    fn act(&mut self, a: Act, w: &World) -> Option<Step> {
        Some(match a {
            Mk => {
                let b = self.pick_builder(w)?;
                let a = self.ast_for(w, b);
                if self.prop == "C15" {
                    let s = &w.builders[&b];
                    let lk = |l: u32| s.xs.get(&l).map(|x| x.m.clone());
                    let d = eval(&a, &s.flags, &lk).ok()?.dfa().ok()?;
                    if !utf8_lang(&d) {
                        return None;
                    }
                }
                Step::Mk { b, x: self.label(), a }
            }
            MkRx => {
                let b = self.pick_builder(w)?;
                let p = if !self.pats.is_empty() && self.rng.pct(25) { self.rng.pick(&self.pats).clone() } else { self.g.pattern(2) };
                self.pats.push(p.clone());
                let x = self.label();
                if let Ok(m) = eval(&A::Rx(p.clone()), &w.builders[&b].flags, &|_| None) {
                    let d = m.dfa().ok()?;
                    if d.n > self.p.max_states || (self.prop == "C15" && !utf8_lang(&d)) {
                        return None;
                    }
                }
                Step::MkRegex { b, x, p }
            }
            Flag => {
                let b = self.pick_builder(w)?;
                let cur = w.builders[&b].flags;
                // back to the defaults now and then
                let f = self.rng.below(5);
                let v = if self.rng.pct(60) { !cur[f] } else { DEFAULT_FLAGS[f] };
                Step::Flag { b, f: f as u8, v }
            }
            Nullable => {
                let b = self.pick_builder(w)?;
                Step::Nullable { b, x: self.pick_x(w, b, |x| x.json.is_none())? }
            }
            Forced => {
                let b = self.pick_builder(w)?;
                let x = self.pick_x(w, b, |x| x.json.is_none())?;
                let d = w.builders[&b].xs[&x].m.dfa().ok()?;
                let n = self.rng.below(5);
                let t = self.g.text(Some(&d), d.start, n);
                Step::Forced { b, x, t }
            }
            Print => {
                let b = self.pick_builder(w)?;
                let x = self.pick_x(w, b, |_| true)?;
                let max = if self.prop == "C16" { 0 } else { self.rng.range(1, 300) };
                Step::Print { b, x, max }
            }
            ContIn => {
                let b = self.pick_builder(w)?;
                let x = self.label();
                let s = self.ast_for(w, b);
                let (small, big) = self.pair(s);
                self.small_product(w, b, &small, &big)?;
                if self.rng.pct(60) {
                    let r = self.label();
                    let fuel = if self.rng.pct(20) { Some(self.fuel()) } else { None };
                    self.queue.push_back(Step::Compile { b, x, r, fuel });
                    self.how.insert(r, How::Built { b, x });
                }
                self.queue.push_front(Step::ContIn { b, x, small, big });
                return None;
            }
            IsCont => {
                let b = self.pick_builder(w)?;
                if !self.pairs.is_empty() && self.rng.pct(30) {
                    // an earlier question, whatever has changed since
                    let (mut small, mut big) = self.rng.pick(&self.pairs).clone();
                    if self.rng.pct(25) {
                        std::mem::swap(&mut small, &mut big);
                    }
                    if self.rng.pct(50) {
                        // every pattern anew, under other flags
                        let f = *self.rng.pick(&[0u8, 3, 3, 4, 4, 2]);
                        let v = !w.builders[&b].flags[f as usize];
                        let mut flags = w.builders[&b].flags;
                        flags[f as usize] = v;
                        self.small_product_under(w, b, &flags, &A::Rx(small.clone()), &A::Rx(big.clone()))?;
                        self.queue.push_front(Step::IsCont { b, small, big, fuel: None });
                        return Some(Step::Flag { b, f, v });
                    }
                    self.small_product(w, b, &A::Rx(small.clone()), &A::Rx(big.clone()))?;
                    return Some(Step::IsCont { b, small, big, fuel: None });
                }
                let p = match self.rng.below(4) {
                    0 => match self.g.keywords(false) {
                        A::Rx(p) => p,
                        _ => self.g.pattern(1),
                    },
                    _ => self.g.pattern(1),
                };
                let q = match self.g.mutate(&A::Rx(p.clone())) {
                    A::Rx(q) if self.rng.pct(75) => q,
                    _ => match self.rng.below(4) {
                        0 => p.clone(),
                        1 => ".*".into(),
                        _ => self.g.pattern(1),
                    },
                };
                // pairs whose verdict hangs on a flag
                let q = if self.rng.pct(12) {
                    let mut v: Vec<char> = p.chars().collect();
                    if let Some(i) = (0..v.len()).find(|_| self.rng.pct(30)) {
                        match v[i] {
                            'a'..='z' => v[i] = v[i].to_ascii_uppercase(),
                            'A'..='Z' => v[i] = v[i].to_ascii_lowercase(),
                            '.' | '\n' => {
                                v.splice(i..=i, "(?s:.)".chars());
                            }
                            ' ' => {
                                v.remove(i);
                            }
                            _ => v.push(' '),
                        }
                    }
                    v.into_iter().collect()
                } else {
                    q
                };
                let (small, big) = if self.rng.pct(50) { (p, q) } else { (q, p) };
                self.pairs.push((small.clone(), big.clone()));
                self.small_product(w, b, &A::Rx(small.clone()), &A::Rx(big.clone()))?;
                let fuel = if self.rng.pct(if self.prop == "C09" { 75 } else { 25 }) { Some(self.fuel()) } else { None };
                if fuel.is_some() && self.rng.pct(60) {
                    // try again with more
                    let more = if self.rng.pct(50) { None } else { Some(fuel.unwrap().saturating_mul(20).saturating_add(50)) };
                    self.queue.push_back(Step::IsCont { b, small: small.clone(), big: big.clone(), fuel: more });
                }
                if self.rng.pct(20) {
                    self.queue.push_back(Step::IsCont { b, small: big.clone(), big: small.clone(), fuel: None });
                }
                self.queue.push_front(Step::IsCont { b, small, big, fuel });
                return None;
            }
            Json => {
                let b = self.pick_builder(w)?;
                let strict = self.prop == "C15";
                let e = self.pick_x(w, b, |x| x.json.is_none() && !x.m.has_look && (!strict || (!x.m.has_bool && x.m.dfa().map_or(false, |d| utf8_lang(&d)))))?;
                let all = b"\"\\bfnrtu";
                let esc = match self.rng.below(4) {
                    0 => "nrbtf\\\"u".to_string(),
                    1 => "nrt\\\"u".to_string(),
                    _ => all.iter().filter(|_| self.rng.pct(65)).map(|c| *c as char).collect(),
                };
                let x = self.label();
                if self.rng.pct(70) {
                    let r = self.label();
                    self.queue.push_back(Step::Compile { b, x, r, fuel: None });
                    self.how.insert(r, How::Built { b, x });
                    let s = self.label();
                    self.queue.push_back(Step::SOpen { s, r });
                }
                self.queue.push_front(Step::Json { b, x, e, esc, raw: self.rng.pct(50) });
                return None;
            }
            BForget => {
                if !self.hooks {
                    return None;
                }
                Step::BForget { b: self.pick_builder(w)? }
            }
            Compile => {
                let b = self.pick_builder(w)?;
                let x = self.pick_x(w, b, |_| true)?;
                if w.regs.len() > 8 {
                    let r = self.pick_reg(w)?;
                    return Some(Step::RDrop { r });
                }
                let r = self.label();
                self.how.insert(r, How::Built { b, x });
                let fuel = if matches!(self.prop.as_str(), "C09" | "C10") && self.rng.pct(40) { Some(self.fuel()) } else { None };
                Step::Compile { b, x, r, fuel }
            }
            Denote => {
                let b = self.pick_builder(w)?;
                let x = self.pick_x(w, b, |x| x.json.is_none())?;
                let d = w.builders[&b].xs[&x].m.dfa().ok()?;
                let texts = (0..self.rng.range(1, 6))
                    .map(|_| {
                        let n = self.rng.below(10);
                        if self.rng.pct(50) {
                            self.g.accepted(&d, n)
                        } else {
                            self.g.text(Some(&d), d.start, n)
                        }
                    })
                    .collect();
                Step::Denote { b, x, max: self.rng.range(50, 400) as u32, texts }
            }
            Fuel => {
                let b = self.pick_builder(w)?;
                let x = self.pick_x(w, b, |_| true)?;
                let mut limits: Vec<u64> = (0..self.rng.range(1, 4)).map(|_| self.fuel()).collect();
                for _ in 0..self.rng.range(1, 6) {
                    limits.push(1 << 32 | *self.rng.pick(&[0u64, 1, 10, 50, 100, 250, 500, 750, 900, 990, 999, 1000, 1001, 1100, 2000]));
                }
                if self.rng.pct(30) {
                    limits.push((self.rng.range(2, 5) as u64) << 32 | self.rng.below(1500) as u64);
                }
                Step::Fuel { b, x, limits }
            }
            BNew => {
                if w.builders.len() > 3 {
                    return None;
                }
                Step::BNew { b: self.label() }
            }
            BClone => {
                if w.builders.len() > 4 {
                    return None;
                }
                let from = self.pick_builder(w)?;
                Step::BClone { b: self.label(), from }
            }
            BDrop => {
                if w.builders.len() < 2 {
                    return None;
                }
                Step::BDrop { b: self.pick_builder(w)? }
            }
            Bad => {
                if self.rng.pct(8) {
                    let r = self.label();
                    return Some(Step::RNew { r, p: self.rng.pick(BAD_PATTERNS).to_string(), f: None });
                }
                let b = self.pick_builder(w)?;
                self.bad(w, b)
            }
            MapErr => {
                let mut bools = 3;
                let a = self.g.ast(3, &mut bools, &[], true);
                let n = self.rng.below(a.size() + 2) as u32;
                Step::MapErr { a, n }
            }
            NewR => {
                if w.regs.len() > 6 {
                    return None;
                }
                let bs: Vec<u32> = w.builders.keys().copied().collect();
                let r = self.new_regex(&bs);
                let s = self.label();
                self.queue.push_back(Step::SOpen { s, r });
                return None;
            }
            RClone => {
                if w.regs.len() > 8 {
                    return Some(Step::RDrop { r: self.pick_reg(w)? });
                }
                let from = self.pick_reg(w)?;
                let r = self.label();
                let h = self.how.get(&from).cloned();
                if let Some(h) = h {
                    self.how.insert(r, h);
                }
                Step::RClone { r, from }
            }
            Lose => {
                let r = self.pick_reg(w)?;
                let h = self.how.get(&r).cloned()?;
                let r2 = self.label();
                match &h {
                    How::Pattern(p, f) => {
                        self.queue.push_back(Step::RNew { r: r2, p: p.clone(), f: *f });
                    }
                    How::Built { b, x } => {
                        if !w.builders.contains_key(b) {
                            return None;
                        }
                        self.queue.push_back(Step::Compile { b: *b, x: *x, r: r2, fuel: None });
                    }
                    How::Made(a) => {
                        let b = self.label();
                        let x = self.label();
                        self.queue.push_back(Step::BNew { b });
                        self.queue.push_back(Step::Mk { b, x, a: a.clone() });
                        self.queue.push_back(Step::Compile { b, x, r: r2, fuel: None });
                        self.queue.push_back(Step::BDrop { b });
                    }
                }
                self.how.insert(r2, h);
                self.heir.insert(r, r2);
                Step::RDrop { r }
            }
            Evict => {
                if !self.hooks {
                    return None;
                }
                let r = self.pick_reg(w)?;
                let mask = if self.rng.pct(50) { 127 } else { self.rng.range(1, 127) as u8 };
                let pct = *self.rng.pick(&[5u8, 20, 50, 80, 100]);
                Step::Evict { r, mask, pct, salt: self.rng.next() }
            }
            Empty => Step::REmpty { r: self.pick_reg(w)? },
            Match => {
                let r = self.pick_reg(w)?;
                let t = self.reg_text(w, r);
                Step::RMatch { r, t, q: self.rng.below(4) as u8 }
            }
            Stats => Step::RStats { r: self.pick_reg(w)? },
            Dfa => {
                let r = self.pick_reg(w)?;
                let t = self.reg_text(w, r);
                Step::RDfa { r, t }
            }
            Warm => {
                let r = self.pick_reg(w)?;
                let n = match self.rng.below(10) {
                    0..=5 => self.rng.range(5, 60),
                    6..=8 => self.rng.range(60, 300),
                    _ => 2000,
                } as u32;
                Step::RWarm { r, salt: self.rng.next(), n }
            }
            Audit => Step::RAudit { r: self.pick_reg(w)? },
            Equiv => Step::REquiv { r: self.pick_reg(w)?, max: self.rng.range(20, 400) as u32 },
            Open => {
                if w.sess.len() > 10 {
                    return None;
                }
                let r = self.pick_reg(w)?;
                Step::SOpen { s: self.label(), r }
            }
            Adv => {
                let s = self.pick_sess(w)?;
                let t = self.adv_bytes(w, s);
                if self.rng.pct(6) {
                    let d = self.t + self.rng.range(5, 60);
                    self.stall.insert(s, d);
                }
                if self.read > 0 && self.rng.pct(40) {
                    // fixed-size reads into the I/O buffer; another session waits at the same place
                    let t = self.read_bytes(w, s, t);
                    if w.sess.len() <= 10 && self.rng.pct(12) {
                        let other = self.label();
                        let t2 = self.adv_bytes(w, s);
                        let t2 = self.read_bytes(w, s, t2);
                        self.queue.push_back(Step::SAdv { s, t, chunk: true });
                        self.queue.push_back(Step::SAdv { s: other, t: t2, chunk: true });
                        self.queue.push_back(Step::SAsk { s: other, q: 0 });
                        return Some(Step::SFork { s: other, from: s });
                    }
                    return Some(Step::SAdv { s, t, chunk: true });
                }
                Step::SAdv { s, t, chunk: self.rng.pct(35) }
            }
            Pump => {
                let s = self.pick_sess(w)?;
                let t = self.adv_bytes(w, s);
                Step::SPump { s, t, n: self.rng.range(5, 120) as u32 }
            }
            AskA => Step::SAsk { s: self.pick_sess(w)?, q: 0 },
            AskL => Step::SAsk { s: self.pick_sess(w)?, q: 1 },
            AskH => Step::SAsk { s: self.pick_sess(w)?, q: 2 },
            AskF => Step::SAsk { s: self.pick_sess(w)?, q: 3 },
            Fork => {
                if w.sess.len() > 10 {
                    return None;
                }
                let from = self.pick_sess(w)?;
                let s = self.label();
                if let Some(q) = self.streams.get(&from).cloned() {
                    self.streams.insert(s, q);
                }
                Step::SFork { s, from }
            }
            Rewind => {
                let s = self.pick_sess(w)?;
                let n = w.sess[&s].bytes.len();
                self.streams.remove(&s);
                Step::SRewind { s, n: self.rng.below(n + 1) as u32 }
            }
            Move => {
                let s = self.pick_sess(w)?;
                let root = w.regs[&w.sess[&s].r].root;
                let v: Vec<u32> = w.regs.iter().filter(|x| x.1.root == root && *x.0 != w.sess[&s].r).map(|x| *x.0).collect();
                if v.is_empty() {
                    return None;
                }
                Step::SMove { s, r: *self.rng.pick(&v) }
            }
            Recover => {
                let mut v = vec![];
                for (s, x) in &w.sess {
                    if !w.regs.contains_key(&x.r) {
                        let mut h = self.heir.get(&x.r).copied();
                        while let Some(r) = h {
                            if w.regs.contains_key(&r) {
                                v.push((*s, r));
                                break;
                            }
                            h = self.heir.get(&r).copied();
                        }
                    }
                }
                if v.is_empty() {
                    return None;
                }
                let (s, r) = *self.rng.pick(&v);
                Step::SRecover { s, r }
            }
            Close => {
                if w.sess.len() < 3 {
                    return None;
                }
                Step::SClose { s: self.pick_sess(w)? }
            }
            LNew => {
                let b = self.pick_builder(w)?;
                if w.raws.len() > 2 {
                    return None;
                }
                let xs: Vec<u32> = w.builders[&b].xs.iter().filter(|x| x.1.json.is_none()).map(|x| *x.0).collect();
                if xs.len() < 2 || self.rng.pct(40) {
                    self.lexer(b);
                    return None;
                }
                let n = self.rng.range(1, xs.len().min(5));
                let xs = (0..n).map(|_| *self.rng.pick(&xs)).collect();
                Step::LNew { l: self.label(), b, xs }
            }
            LStep => {
                let (l, i) = self.pick_raw(w)?;
                let s = &w.raws[&l];
                let n = self.rng.range(1, 3);
                let d = s.dfas[i as usize].clone();
                let t = match d {
                    Some(d) => self.g.text(Some(&d), s.q[i as usize], n),
                    None => self.ab(n),
                };
                Step::LStep { l, i, t }
            }
            LReset => {
                let (l, i) = self.pick_raw(w)?;
                Step::LReset { l, i }
            }
            LAsk => {
                let (l, i) = self.pick_raw(w)?;
                let fuelish = self.prop == "C09";
                let q = if fuelish { *self.rng.pick(&[1u8, 1, 1, 6, 6, 0, 2]) } else { *self.rng.pick(&[0u8, 1, 1, 1, 2, 2, 3, 5, 4, 6]) };
                let fuel = if q == 6 || self.rng.pct(if fuelish { 75 } else { 15 }) { Some(self.fuel()) } else { None };
                Step::LAsk { l, i, q, fuel }
            }
            LCache => {
                let (l, _) = self.pick_raw(w)?;
                let op = if self.hooks { self.rng.below(3) } else { self.rng.below(2) } as u8;
                Step::LCache { l, cache: self.rng.below(3) as u8, op, pct: *self.rng.pick(&[10u8, 50, 100]), salt: self.rng.next() }
            }
            HNew => {
                if w.tabs.len() > 3 {
                    return None;
                }
                Step::HNew { h: self.label() }
            }
            HClone => {
                if w.tabs.len() > 3 {
                    return None;
                }
                let from = self.pick_tab(w)?;
                Step::HClone { h: self.label(), from }
            }
            HIns => {
                let h = self.pick_tab(w)?;
                Step::HIns { h, v: self.vec(w, h) }
            }
            HInc => {
                let h = self.pick_tab(w)?;
                let v = self.vec(w, h);
                let mut parts = vec![];
                let mut i = 0;
                while i < v.len() {
                    let n = if self.rng.pct(50) { 1 } else { self.rng.range(0, 5) };
                    let e = (i + n).min(v.len());
                    parts.push(v[i..e].to_vec());
                    i = e;
                }
                Step::HInc { h, parts }
            }
            HDouble => {
                let h = self.pick_tab(w)?;
                Step::HDouble { h, v: self.vec(w, h) }
            }
            HMid => {
                if w.tabs.len() > 3 {
                    return None;
                }
                let h = self.pick_tab(w)?;
                let v = self.vec(w, h);
                let k = self.rng.below(v.len() + 1);
                let parts = if self.rng.pct(50) { v[..k].iter().map(|x| vec![*x]).collect() } else { vec![v[..k].to_vec()] };
                let v2 = if self.rng.pct(40) { v[k..].to_vec() } else { self.vec(w, h) };
                Step::HMid { h, to: self.label(), parts, v1: v[k..].to_vec(), v2 }
            }
            HCheck => Step::HCheck { h: self.pick_tab(w)? },
            HDrop => {
                if w.tabs.len() < 2 {
                    return None;
                }
                Step::HDrop { h: self.pick_tab(w)? }
            }
            Hop => {
                if self.threads < 2 {
                    return None;
                }
                Step::Hop { t: self.rng.below(self.threads as usize) as u8 }
            }
            Noise => {
                let n = if self.prop == "C11" && self.rng.pct(4) { self.rng.range(300, 3000) } else { self.rng.below(20) };
                Step::Noise { seed: self.rng.next(), n: n as u32 }
            }
        })
    }

    /// two expressions whose containment is interesting
    fn pair(&mut self, a: A) -> (A, A) {
        let b = match self.rng.below(6) {
            0 => self.g.mutate(&a),
            1 => A::Or(vec![self.g.mutate(&a), a.clone()]),
            2 => A::Rep(Box::new(a.clone()), 0, None),
            3 => self.g.expr(&self.p.fam).0,
            4 => a.clone(),
            _ => {
                let b = self.g.mutate(&a);
                self.g.mutate(&b)
            }
        };
        if self.rng.pct(65) {
            (a, b)
        } else {
            (b, a)
        }
    }
    fn small_product(&self, w: &World, b: u32, x: &A, y: &A) -> Option<()> {
        self.small_product_under(w, b, &w.builders[&b].flags, x, y)
    }
    fn small_product_under(&self, w: &World, b: u32, flags: &[bool; 5], x: &A, y: &A) -> Option<()> {
        let s = &w.builders[&b];
        let lk = |l: u32| s.xs.get(&l).map(|x| x.m.clone());
        let (mx, my) = (eval(x, flags, &lk).ok()?, eval(y, flags, &lk).ok()?);
        let (dx, dy) = (mx.dfa().ok()?, my.dfa().ok()?);
        if mx.has_look || my.has_look || dx.n > 60 || dy.n > 60 {
            return None;
        }
        Some(())
    }
}

pub fn utf8_lang(d: &rm::Dfa) -> bool {
    thread_local! {
        static NOT_UTF8: rm::Dfa = rm::Dfa::repeat(&rm::Dfa::utf8(&[(0, 0xD7FF), (0xE000, 0x10FFFF)]), 0, None).unwrap().not();
    }
    NOT_UTF8.with(|n| rm::Dfa::and(&[d, n]).map_or(false, |x| x.is_empty_lang()))
}
