//! Concrete scripts: everything a run did, in a form that can be executed again without the
//! generator. A step that refers to a label that does not exist is skipped, so any subsequence of a
//! script is a script.
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum A {
    And(Vec<A>),
    Or(Vec<A>),
    Cat(Vec<A>),
    Look(Box<A>),
    Not(Box<A>),
    Rep(Box<A>, u32, Option<u32>),
    Pre(Box<A>),
    Eps,
    Nil,
    Rx(String),
    Lit(String),
    Bytes(Vec<u8>),
    Byte(u8),
    Set(Vec<u32>),
    /// label of an earlier expression of the same builder
    Ref(u32),
    /// raw handle number that was never issued
    BadRef(u32),
    /// [ab]*a[ab]{n}
    Win(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Step {
    // ---- builders
    BNew { b: u32 },
    BClone { b: u32, from: u32 },
    BDrop { b: u32 },
    /// 0 unicode, 1 utf8, 2 ignore_whitespace, 3 case_insensitive, 4 dot_matches_new_line
    Flag { b: u32, f: u8, v: bool },
    Mk { b: u32, x: u32, a: A },
    MkRegex { b: u32, x: u32, p: String },
    Nullable { b: u32, x: u32 },
    Forced { b: u32, x: u32, t: Vec<u8> },
    Print { b: u32, x: u32, max: usize },
    /// mk_contained_in_ast
    ContIn { b: u32, x: u32, small: A, big: A },
    /// is_contained_in
    IsCont { b: u32, small: String, big: String, fuel: Option<u64> },
    Json { b: u32, x: u32, e: u32, esc: String, raw: bool },
    BForget { b: u32 },
    Compile { b: u32, x: u32, r: u32, fuel: Option<u64> },
    /// size of the compiled alternation of these words
    Probe { b: u32, words: Vec<Vec<u8>> },
    /// compile with each of these limits; C09
    Fuel { b: u32, x: u32, limits: Vec<u64> },
    /// compile and drop; check denotation on texts and by walking up to `max` states
    Denote { b: u32, x: u32, max: u32, texts: Vec<Vec<u8>> },
    /// nest `depth` levels by cycling through `ops`; `tree`: as one tree, not handle by handle
    Deep {
        b: u32,
        x: u32,
        ops: Vec<A>,
        depth: u32,
        #[serde(default)]
        tree: bool,
    },
    /// ask for `n` different words (kind 0) or one-character classes (kind 1); look at a few again
    Fill { b: u32, n: u32, kind: u8, salt: u64 },
    /// `a` counts to `n0`; count to `n` instead, look for a match, and walk z, n - n0 times 'a', tail
    Search { b: u32, a: A, n0: u32, n: u32, z: Vec<u8>, tails: Vec<Vec<u8>> },
    /// the first `i * every` bytes of `w` repeated, for i in 1..=n, and for each of them the same and `end`
    /// (kind: 0 only the first, 1 only the second, 2 both), as one alternation
    Ladder { b: u32, w: Vec<u8>, n: u32, every: u32, kind: u8, end: u8 },
    // ---- compiled regexes
    /// f: parser flags, as for Flag
    RNew {
        r: u32,
        p: String,
        #[serde(default, skip_serializing_if = "Option::is_none")]
        f: Option<[bool; 5]>,
    },
    RClone { r: u32, from: u32 },
    RDrop { r: u32 },
    Evict { r: u32, mask: u8, pct: u8, salt: u64 },
    REmpty { r: u32 },
    RMatch { r: u32, t: Vec<u8>, q: u8 },
    RStats { r: u32 },
    RDfa { r: u32, t: Vec<u8> },
    /// walk known ground; C12
    RWarm { r: u32, salt: u64, n: u32 },
    /// re-ask everything that was ever answered
    RAudit { r: u32 },
    /// walk the product with the reference automaton
    REquiv { r: u32, max: u32 },
    // ---- sessions
    SOpen { s: u32, r: u32 },
    SAdv { s: u32, t: Vec<u8>, chunk: bool },
    /// pump: the text repeated n times
    SPump { s: u32, t: Vec<u8>, n: u32 },
    /// 0 accept, 1 lookahead, 2 hint, 3 hint checked against all 256 successors
    SAsk { s: u32, q: u8 },
    SFork { s: u32, from: u32 },
    SRewind { s: u32, n: u32 },
    SMove { s: u32, r: u32 },
    SRecover { s: u32, r: u32 },
    SClose { s: u32 },
    // ---- several roots, component interface
    LNew { l: u32, b: u32, xs: Vec<u32> },
    LStep { l: u32, i: u32, t: Vec<u8> },
    LReset { l: u32, i: u32 },
    /// 0 nullable 1 non-empty 2 hint 3 lookahead 4 print 5 possible lookahead
    LAsk { l: u32, i: u32, q: u8, fuel: Option<u64> },
    /// cache: 0 deriv 1 relevance 2 hint; op: 0 fresh, 1 clone, 2 evict
    LCache { l: u32, cache: u8, op: u8, pct: u8, salt: u64 },
    // ---- interning tables
    HNew { h: u32 },
    HClone { h: u32, from: u32 },
    HIns { h: u32, v: Vec<u32> },
    /// incremental; one-element parts are pushed singly
    HInc { h: u32, parts: Vec<Vec<u32>> },
    /// start twice, expect a refusal, then carry on with `v`
    HDouble { h: u32, v: Vec<u32> },
    /// start, push `parts`, copy, and finish both with different ends
    HMid { h: u32, to: u32, parts: Vec<Vec<u32>>, v1: Vec<u32>, v2: Vec<u32> },
    HCheck { h: u32 },
    HDrop { h: u32 },
    // ---- caller's mapping callback fails at the n-th node
    MapErr { a: A, n: u32 },
    // ---- environment
    Hop { t: u8 },
    Noise { seed: u64, n: u32 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Script {
    pub prop: String,
    /// run index and base seed it came from (information only)
    pub seed: u64,
    pub run: u64,
    /// keys of every random source
    pub entropy: u64,
    pub mask_bits: u8,
    pub stack_kb: u32,
    pub threads: u8,
    pub compress: bool,
    pub hooks: bool,
    pub steps: Vec<Step>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub violation: String,
    pub minimised: bool,
    /// executed in order in one fresh process; the last one fails
    pub scripts: Vec<Script>,
}

impl A {
    pub fn size(&self) -> usize {
        match self {
            A::And(v) | A::Or(v) | A::Cat(v) => 1 + v.iter().map(|x| x.size()).sum::<usize>(),
            A::Look(x) | A::Not(x) | A::Rep(x, _, _) | A::Pre(x) => 1 + x.size(),
            _ => 1,
        }
    }
    pub fn kids(&self) -> Vec<A> {
        match self {
            A::And(v) | A::Or(v) | A::Cat(v) => v.clone(),
            A::Look(x) | A::Not(x) | A::Rep(x, _, _) | A::Pre(x) => vec![(**x).clone()],
            _ => vec![],
        }
    }
    /// rough measure of how large an automaton this can need
    pub fn load(&self, refs: &std::collections::BTreeMap<u32, u32>) -> u32 {
        match self {
            A::Rep(x, a, z) => 1 + x.load(refs).saturating_mul(z.unwrap_or(a + 1).max(1)),
            A::Not(x) => 1 + x.load(refs).saturating_mul(2),
            A::Ref(x) => refs.get(x).copied().unwrap_or(1),
            A::Win(n) => *n,
            A::Rx(s) if s.len() > 48 => s.len() as u32 / 16,
            _ => self.kids().iter().fold(1, |s, k| s.saturating_add(k.load(refs))),
        }
    }
    /// with counts of at least `from` raised by `by`
    pub fn raised(&self, from: u32, by: u32) -> A {
        let v = |v: &Vec<A>| v.iter().map(|x| x.raised(from, by)).collect();
        let up = |n: u32| if n >= from { n + by } else { n };
        match self {
            A::And(x) => A::And(v(x)),
            A::Or(x) => A::Or(v(x)),
            A::Cat(x) => A::Cat(v(x)),
            A::Look(x) => A::Look(Box::new(x.raised(from, by))),
            A::Not(x) => A::Not(Box::new(x.raised(from, by))),
            A::Pre(x) => A::Pre(Box::new(x.raised(from, by))),
            A::Rep(x, l, h) => A::Rep(Box::new(x.raised(from, by)), up(*l), h.map(up)),
            _ => self.clone(),
        }
    }
    pub fn has(&self, f: &impl Fn(&A) -> bool) -> bool {
        f(self) || self.kids().iter().any(|k| k.has(f))
    }
}
