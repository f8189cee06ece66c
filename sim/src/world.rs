//! The simulated world: every object under test, the reference state beside it, and the executor of
//! concrete steps. Invariants are evaluated after each step.
use crate::refmodel::*;
use crate::script::*;
use crate::seams::{mix64, Rng};
use derivre::raw::{DerivCache, ExprSet, NextByteCache, RelevanceCache, VecHashCons};
use derivre::{AlphabetInfo, ExprRef, JsonQuoteOptions, NextByte, Regex, RegexAst, RegexBuilder, StateID};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

pub const BIG_FUEL: u64 = 400_000;
/// a regex that became more expensive than this is retired (not judged any further)
pub const MAX_COST: u64 = 3_000_000;

#[derive(Clone, Debug)]
pub struct Viol {
    pub props: Vec<&'static str>,
    pub msg: String,
    pub step: usize,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd)]
pub enum Lvl {
    Lang,
    Id,
    Cost,
}
#[derive(Clone, PartialEq, Debug)]
pub enum V {
    U(u64),
    S(String),
}
#[derive(Clone, PartialEq, Debug)]
pub struct Ob {
    pub step: u32,
    pub lvl: Lvl,
    pub tag: &'static str,
    pub v: V,
}

pub type Cnt = BTreeMap<&'static str, u64>;

pub struct X {
    pub r: ExprRef,
    pub m: M,
    pub json: Option<Arc<JsonSpec>>,
}
pub struct JsonSpec {
    pub inner: Arc<Dfa>,
    pub esc: String,
    pub raw: bool,
    /// the inner language has only well-formed UTF-8
    pub utf8: bool,
}
pub struct BSlot {
    pub b: RegexBuilder,
    pub flags: [bool; 5],
    pub xs: BTreeMap<u32, X>,
    pub handles: BTreeMap<u32, M>,
    pub blog: Vec<(Step, Vec<Ob>)>,
    pub refused: u32,
}
#[derive(Clone, Debug)]
pub enum RCall {
    Trans(u32, Vec<u8>, bool),
    Acc(u32),
    Look(u32),
    Hint(u32),
    Match(Vec<u8>, u8),
    Empty,
    Stats,
    Dfa,
    #[allow(dead_code)]
    Evict(u8, u8, u64),
}
pub struct Origin {
    pub blog: Vec<(Step, Vec<Ob>)>,
    pub x: u32,
    pub fuel: Option<u64>,
    pub pattern: Option<(String, Option<[bool; 5]>)>,
}
pub struct RSlot {
    pub rx: Regex,
    pub m: M,
    pub dfa: Option<Arc<Dfa>>,
    pub look: Option<Arc<LookSpec>>,
    /// lookahead present but of an unspecified shape
    pub odd_look: bool,
    pub json: Option<Arc<JsonSpec>>,
    pub root: u64,
    /// identifies the language
    pub key: u64,
    pub sidq: Vec<u32>,
    /// hash of the bytes that first led to the state
    pub rep: Vec<u64>,
    pub trans: BTreeMap<(u32, u8), u32>,
    pub acc: BTreeMap<u32, bool>,
    pub looks: BTreeMap<u32, u64>,
    pub hints: BTreeMap<u32, u64>,
    pub cold: bool,
    pub last_cost: u64,
    pub log: Vec<(RCall, Vec<V>)>,
    pub origin: Arc<Origin>,
    /// for cold re-computation: (path, kind, answer)
    pub asked: Vec<(Vec<u8>, u8, u64)>,
    pub recompile: Option<(RegexBuilder, ExprRef)>,
}
#[derive(Clone)]
pub struct Sess {
    pub r: u32,
    pub sid: StateID,
    pub bytes: Vec<u8>,
    pub hist: Vec<StateID>,
    pub q: u32,
    pub track: Option<LookTrack>,
}
pub struct LSlot {
    pub es: ExprSet,
    pub alpha: AlphabetInfo,
    pub roots: Vec<ExprRef>,
    pub cur: Vec<ExprRef>,
    pub dfas: Vec<Option<Arc<Dfa>>>,
    pub looks: Vec<Option<Arc<LookSpec>>>,
    pub odd: Vec<bool>,
    pub q: Vec<u32>,
    pub track: Vec<Option<LookTrack>>,
    pub deriv: DerivCache,
    pub rel: RelevanceCache,
    pub nb: NextByteCache,
    pub exhausted: u32,
    pub paths: Vec<Vec<u8>>,
    /// what the lookahead may be at most, less the length of the text
    pub bound: Vec<i64>,
}
pub struct HSlot {
    pub t: VecHashCons,
    pub elts: Vec<Vec<u32>>,
    pub ids: BTreeMap<Vec<u32>, u32>,
}

pub struct World {
    pub focus: String,
    pub builders: BTreeMap<u32, BSlot>,
    pub regs: BTreeMap<u32, RSlot>,
    pub sess: BTreeMap<u32, Sess>,
    pub raws: BTreeMap<u32, LSlot>,
    pub tabs: BTreeMap<u32, HSlot>,
    pub obs: Vec<Ob>,
    pub cnt: Cnt,
    pub step: usize,
    pub foreign: BTreeMap<&'static str, (u64, String)>,
    pub viol: Option<Viol>,
    pub hop: Option<u8>,
    pub refused: Vec<usize>,
    pub roots: u64,
    pub keep: Vec<Regex>,
    pub trace: u64,
    pub states: BTreeSet<u64>,
    pub panicked: bool,
    io: Vec<u8>,
}

pub fn hint_code(n: NextByte) -> u64 {
    match n {
        NextByte::Dead => 0,
        NextByte::ForcedEOI => 1,
        NextByte::SomeBytes => 2,
        NextByte::ForcedByte(b) => 256 + b as u64,
    }
}
pub fn look_code(l: Option<usize>) -> u64 {
    l.map_or(u64::MAX, |x| x as u64)
}

pub fn opaque() -> M {
    m(Node::Window(u32::MAX))
}

pub fn ref_parser(f: &[bool; 5]) -> regex_syntax::Parser {
    regex_syntax::ParserBuilder::new()
        .unicode(f[0])
        .utf8(f[1])
        .ignore_whitespace(f[2])
        .case_insensitive(f[3])
        .dot_matches_new_line(f[4])
        .build()
}
pub fn new_regex(p: &str, f: &Option<[bool; 5]>) -> anyhow::Result<Regex> {
    match f {
        None => Regex::new(p),
        Some(f) => Regex::new_with_parser(ref_parser(f), p),
    }
}
pub const DEFAULT_FLAGS: [bool; 5] = [true, true, false, false, false];

/// denotation of an AST, or the reason why it must be refused
pub fn eval(a: &A, flags: &[bool; 5], lookup: &dyn Fn(u32) -> Option<M>) -> Result<M, String> {
    let list = |v: &Vec<A>| v.iter().map(|x| eval(x, flags, lookup)).collect::<Result<Vec<M>, String>>();
    Ok(match a {
        A::And(v) => m(Node::And(list(v)?)),
        A::Or(v) => m(Node::Or(list(v)?)),
        A::Cat(v) => m(Node::Concat(list(v)?)),
        A::Look(x) => m(Node::Look(eval(x, flags, lookup)?)),
        A::Not(x) => m(Node::Not(eval(x, flags, lookup)?)),
        // no text is that long
        A::Rep(x, a, Some(b)) if *b >= 1 << 24 => m(Node::Repeat(eval(x, flags, lookup)?, *a, None)),
        A::Rep(x, a, b) => m(Node::Repeat(eval(x, flags, lookup)?, *a, *b)),
        A::Pre(x) => m(Node::Prefixes(eval(x, flags, lookup)?)),
        A::Eps => m(Node::Empty),
        A::Nil => m(Node::None),
        A::Rx(p) => model_of_pattern(&mut ref_parser(flags), p).map_err(|e| format!("{e:?}"))?,
        A::Lit(s) => m(Node::Bytes(s.as_bytes().to_vec())),
        A::Bytes(b) => m(Node::Bytes(b.clone())),
        A::Byte(b) => m(Node::Set(set_of(&[*b]))),
        A::Set(w) => {
            if w.len() != 8 {
                return Err("byte set length".into());
            }
            let mut s = [0u64; 4];
            for i in 0..4 {
                s[i] = w[2 * i] as u64 | (w[2 * i + 1] as u64) << 32;
            }
            m(Node::Set(s))
        }
        A::Ref(l) => lookup(*l).ok_or("label")?,
        A::BadRef(_) => return Err("handle".into()),
        A::Win(n) => m(Node::Window(*n)),
    })
}

/// handles counted from the number of expressions there are
pub fn bind(a: &A, len: u32) -> A {
    let list = |v: &Vec<A>| v.iter().map(|x| bind(x, len)).collect::<Vec<_>>();
    let bx = |x: &A| Box::new(bind(x, len));
    match a {
        A::And(v) => A::And(list(v)),
        A::Or(v) => A::Or(list(v)),
        A::Cat(v) => A::Cat(list(v)),
        A::Look(x) => A::Look(bx(x)),
        A::Not(x) => A::Not(bx(x)),
        A::Rep(x, n, k) => A::Rep(bx(x), *n, *k),
        A::Pre(x) => A::Pre(bx(x)),
        A::BadRef(n) if n >> 30 == 1 => A::BadRef(u32::MAX - (len + (n & 0xffff))),
        _ => a.clone(),
    }
}

pub fn to_ast(a: &A, lookup: &dyn Fn(u32) -> Option<ExprRef>) -> Option<RegexAst> {
    let list = |v: &Vec<A>| v.iter().map(|x| to_ast(x, lookup)).collect::<Option<Vec<_>>>();
    Some(match a {
        A::And(v) => RegexAst::And(list(v)?),
        A::Or(v) => RegexAst::Or(list(v)?),
        A::Cat(v) => RegexAst::Concat(list(v)?),
        A::Look(x) => RegexAst::LookAhead(Box::new(to_ast(x, lookup)?)),
        A::Not(x) => RegexAst::Not(Box::new(to_ast(x, lookup)?)),
        A::Rep(x, a, b) => RegexAst::Repeat(Box::new(to_ast(x, lookup)?), *a, b.unwrap_or(u32::MAX)),
        A::Pre(x) => RegexAst::Prefixes(Box::new(to_ast(x, lookup)?)),
        A::Eps => RegexAst::EmptyString,
        A::Nil => RegexAst::NoMatch,
        A::Rx(p) => RegexAst::Regex(p.clone()),
        A::Lit(s) => RegexAst::Literal(s.clone()),
        A::Bytes(b) => RegexAst::ByteLiteral(b.clone()),
        A::Byte(b) => RegexAst::Byte(*b),
        A::Set(w) => RegexAst::ByteSet(w.clone()),
        A::Ref(l) => RegexAst::ExprRef(lookup(*l)?),
        A::BadRef(0) => RegexAst::ExprRef(ExprRef::INVALID),
        A::BadRef(n) => RegexAst::ExprRef(ExprRef::new(u32::MAX - n)),
        A::Win(n) => {
            let mut w = vec![0u32; 8];
            w[3] = 0b110;
            if *n > 20 {
                return Some(RegexAst::Concat(vec![RegexAst::Repeat(Box::new(RegexAst::ByteSet(w)), *n, *n), RegexAst::Byte(b'a')]));
            }
            RegexAst::Concat(vec![
                RegexAst::Repeat(Box::new(RegexAst::ByteSet(w.clone())), 0, u32::MAX),
                RegexAst::Byte(b'a'),
                RegexAst::Repeat(Box::new(RegexAst::ByteSet(w)), *n, *n),
            ])
        }
    })
}

/// put `t` in the place of the first open reference
fn fill(n: &mut RegexAst, t: &mut Option<RegexAst>) {
    match n {
        RegexAst::ExprRef(r) if *r == ExprRef::INVALID => {
            if let Some(t) = t.take() {
                *n = t;
            }
        }
        RegexAst::And(v) | RegexAst::Or(v) | RegexAst::Concat(v) => v.iter_mut().for_each(|x| {
            if t.is_some() {
                fill(x, t)
            }
        }),
        RegexAst::LookAhead(x) | RegexAst::Not(x) | RegexAst::Repeat(x, _, _) | RegexAst::Prefixes(x) => fill(x, t),
        _ => {}
    }
}

/// drop a tree without recursion
fn dismantle(t: RegexAst) {
    let mut todo = vec![t];
    while let Some(t) = todo.pop() {
        match t {
            RegexAst::And(v) | RegexAst::Or(v) | RegexAst::Concat(v) => todo.extend(v),
            RegexAst::LookAhead(x) | RegexAst::Not(x) | RegexAst::Repeat(x, _, _) | RegexAst::Prefixes(x) => todo.push(*x),
            _ => {}
        }
    }
}

fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "panic".into()
    }
}
/// development aid: report violations of every property, not only the one under check
fn all_properties() -> bool {
    static ALL: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *ALL.get_or_init(|| std::env::var_os("DSIM_ALL").is_some())
}
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(panic_text)
}

/// what the quoted regex has to say about a stream
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Must {
    Yes,
    No,
    Either,
}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum JPhase {
    Open,
    Body,
    Esc,
    /// digits seen, value
    Hex(u8, u32),
    Close,
    Bad,
}
impl JsonSpec {
    /// None: left open by the specification
    fn step(&self, q: u32, ph: JPhase, b: u8) -> Option<(u32, JPhase)> {
        use JPhase::*;
        let eat = |c: u8| (self.inner.step(q, c), Body);
        Some(match ph {
            Open if b == b'"' => (q, Body),
            Open | Close | Bad => (q, Bad),
            Body => match b {
                b'"' if !self.raw => (q, Close),
                b'"' | 0..=0x1f | 0x7f => (q, Bad),
                b'\\' => (q, Esc),
                c => eat(c),
            },
            Esc if !self.esc.as_bytes().contains(&b) => (q, Bad),
            Esc => match b {
                b'n' => eat(b'\n'),
                b'r' => eat(b'\r'),
                b't' => eat(b'\t'),
                b'b' => eat(8),
                b'f' => eat(12),
                b'"' | b'\\' => eat(b),
                b'u' => (q, Hex(0, 0)),
                _ => (q, Bad),
            },
            Hex(n, v) => {
                let Some(d) = (b as char).to_digit(16) else { return Some((q, Bad)) };
                let v = v * 16 + d;
                if n < 3 {
                    (q, Hex(n + 1, v))
                } else if v < 0x20 || v == 0x7f && b == b'F' {
                    eat(v as u8)
                } else {
                    return None;
                }
            }
        })
    }
}
pub fn classify_json(t: &[u8], s: &JsonSpec) -> Must {
    let body: &[u8] = if s.raw {
        t
    } else {
        if t.len() < 2 || t[0] != b'"' || t[t.len() - 1] != b'"' {
            return Must::No;
        }
        &t[1..t.len() - 1]
    };
    let ok = |c: u8| s.esc.as_bytes().contains(&c);
    let mut out: Vec<u8> = vec![];
    let mut must = true;
    let mut i = 0;
    let hex4 = |x: &[u8]| -> Option<u32> {
        if x.len() < 4 {
            return None;
        }
        let mut v = 0;
        for &c in &x[..4] {
            v = v * 16 + (c as char).to_digit(16)?;
        }
        Some(v)
    };
    while i < body.len() {
        let c = body[i];
        if c < 0x20 || c == 0x7f || c == b'"' {
            return Must::No;
        }
        if c != b'\\' {
            out.push(c);
            i += 1;
            continue;
        }
        let Some(&e) = body.get(i + 1) else { return Must::No };
        if !ok(e) {
            return Must::No;
        }
        match e {
            b'n' => out.push(b'\n'),
            b'r' => out.push(b'\r'),
            b't' => out.push(b'\t'),
            b'b' => out.push(8),
            b'f' => out.push(12),
            b'"' => out.push(b'"'),
            b'\\' => out.push(b'\\'),
            b'u' => {
                let Some(v) = hex4(&body[i + 2..]) else { return Must::No };
                if v < 0x20 || (v == 0x7f && body[i + 5] == b'F') {
                    out.push(v as u8);
                } else {
                    must = false;
                    if (0xD800..0xDC00).contains(&v) {
                        let rest = &body[i + 6..];
                        if rest.len() < 6 || rest[0] != b'\\' || rest[1] != b'u' {
                            return Must::No;
                        }
                        match hex4(&rest[2..]) {
                            Some(lo) if (0xDC00..0xE000).contains(&lo) => {
                                let ch = char::from_u32(0x10000 + ((v - 0xD800) << 10) + (lo - 0xDC00)).unwrap();
                                out.extend(ch.to_string().as_bytes());
                                i += 6;
                            }
                            _ => return Must::No,
                        }
                    } else {
                        match char::from_u32(v) {
                            Some(ch) => out.extend(ch.to_string().as_bytes()),
                            None => return Must::No,
                        }
                    }
                }
                i += 4;
            }
            _ => return Must::No,
        }
        i += 2;
    }
    if !s.inner.accepts(&out) {
        Must::No
    } else if must {
        Must::Yes
    } else {
        Must::Either
    }
}

const TWIN: [&str; 4] = ["C05", "C06", "C08", "C11"];

impl World {
    pub fn new(focus: &str) -> World {
        World {
            focus: focus.to_string(),
            builders: BTreeMap::new(),
            regs: BTreeMap::new(),
            sess: BTreeMap::new(),
            raws: BTreeMap::new(),
            tabs: BTreeMap::new(),
            obs: vec![],
            cnt: Cnt::new(),
            step: 0,
            foreign: BTreeMap::new(),
            viol: None,
            hop: None,
            refused: vec![],
            roots: 0,
            keep: vec![],
            trace: 0,
            states: BTreeSet::new(),
            panicked: false,
            io: Vec::with_capacity(1 << 16),
        }
    }
    pub fn ob(&mut self, lvl: Lvl, tag: &'static str, v: u64) {
        self.obs.push(Ob { step: self.step as u32, lvl, tag, v: V::U(v) });
    }
    pub fn obs_s(&mut self, lvl: Lvl, tag: &'static str, v: String) {
        self.obs.push(Ob { step: self.step as u32, lvl, tag, v: V::S(v) });
    }
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.cnt.entry(k).or_insert(0) += n;
    }
    pub fn fail(&mut self, props: &[&'static str], msg: String) {
        if props.iter().any(|p| *p == self.focus) || all_properties() {
            if self.viol.is_none() {
                self.viol = Some(Viol { props: props.to_vec(), msg, step: self.step });
            }
        } else {
            for p in props {
                let e = self.foreign.entry(p).or_insert((0, String::new()));
                e.0 += 1;
                if e.1.is_empty() {
                    e.1 = msg.clone();
                }
            }
        }
    }
    /// an API call that has no business panicking did
    fn panicked(&mut self, what: &str, msg: String) {
        self.panicked = true;
        if TWIN.contains(&self.focus.as_str()) {
            self.obs_s(Lvl::Lang, "panic", what.to_string());
            self.count("panics", 1);
        } else if self.viol.is_none() {
            self.viol = Some(Viol { props: vec!["*"], msg: format!("panic in {what}: {msg}"), step: self.step });
        }
    }

    pub fn exec(&mut self, st: &Step) {
        self.trace = mix64(self.trace ^ step_kind(st));
        let n = self.obs.len();
        self.exec_inner(st);
        if self.obs.len() > n {
            if self.focus == "C06" {
                // history of the builder lineage
                if let Some(b) = builder_of(st) {
                    let obs = self.obs[n..].to_vec();
                    if let Some(bs) = self.builders.get_mut(&b) {
                        bs.blog.push((st.clone(), obs));
                    }
                }
            }
        }
        self.step += 1;
    }

    fn exec_inner(&mut self, st: &Step) {
        match st {
            Step::BNew { b } => {
                match guard(RegexBuilder::new) {
                    Ok(x) => {
                        self.builders.insert(
                            *b,
                            BSlot {
                                b: x,
                                flags: DEFAULT_FLAGS,
                                xs: BTreeMap::new(),
                                handles: BTreeMap::new(),
                                blog: vec![],
                                refused: 0,
                            },
                        );
                    }
                    Err(e) => self.panicked("RegexBuilder::new", e),
                }
            }
            Step::BClone { b, from } => {
                let Some(s) = self.builders.get(from) else { return };
                if b == from {
                    return;
                }
                match guard(|| s.b.clone()) {
                    Ok(c) => {
                        let n = BSlot {
                            b: c,
                            flags: s.flags,
                            xs: s.xs.iter().map(|(k, x)| (*k, X { r: x.r, m: x.m.clone(), json: x.json.clone() })).collect(),
                            handles: s.handles.clone(),
                            blog: s.blog.clone(),
                            refused: s.refused,
                        };
                        self.builders.insert(*b, n);
                        self.count("builder_clones", 1);
                    }
                    Err(e) => self.panicked("RegexBuilder::clone", e),
                }
            }
            Step::BDrop { b } => {
                self.builders.remove(b);
            }
            Step::Flag { b, f, v } => {
                let Some(s) = self.builders.get_mut(b) else { return };
                s.flags[*f as usize] = *v;
                match f {
                    0 => s.b.unicode(*v),
                    1 => s.b.utf8(*v),
                    2 => s.b.ignore_whitespace(*v),
                    3 => s.b.case_insensitive(*v),
                    _ => s.b.dot_matches_new_line(*v),
                };
                self.ob(Lvl::Lang, "flag", *f as u64);
                self.count("flag_changes", 1);
            }
            Step::BForget { b } => {
                let Some(_s) = self.builders.get_mut(b) else { return };
                #[cfg(derivre_sim)]
                _s.b.sim_forget_classes();
                self.count("class_evictions", 1);
            }
            Step::Mk { b, x, a } => self.mk(*b, *x, MkReq::Ast(a)),
            Step::MkRegex { b, x, p } => self.mk(*b, *x, MkReq::Rx(p)),
            Step::ContIn { b, x, small, big } => self.mk(*b, *x, MkReq::Cont(small, big)),
            Step::Nullable { b, x } => {
                let Some(s) = self.builders.get(b) else { return };
                let Some(e) = s.xs.get(x) else { return };
                let exp = e.m.dfa().ok().map(|d| d.is_acc(d.start));
                match guard(|| s.b.is_nullable(e.r)) {
                    Ok(v) => {
                        self.ob(Lvl::Lang, "nullable", v as u64);
                        if let Some(x) = exp {
                            if x != v {
                                self.fail(&["C07"], format!("is_nullable = {v}, language contains the empty string: {x}"));
                            }
                        }
                    }
                    Err(e) => self.panicked("is_nullable", e),
                }
            }
            Step::Forced { b, x, t } => {
                let Some(s) = self.builders.get(b) else { return };
                let Some(e) = s.xs.get(x) else { return };
                let d = e.m.dfa().ok();
                match guard(|| s.b.exprset().has_simply_forced_bytes(e.r, t)) {
                    Ok(v) => {
                        self.ob(Lvl::Cost, "forced", v as u64);
                        if let (true, Some(d)) = (v, d) {
                            // no accepted string may leave the prefix
                            let mut q = d.start;
                            let mut bad = false;
                            for &c in t {
                                bad |= d.is_acc(q) || (0..=255u8).any(|o| o != c && d.is_live(d.step(q, o)));
                                q = d.step(q, c);
                            }
                            if bad && !d.is_empty_lang() {
                                self.fail(&["C07", "C03"], format!("has_simply_forced_bytes({t:?}) = true, but the language has strings without that prefix"));
                            }
                        }
                    }
                    Err(e) => self.panicked("has_simply_forced_bytes", e),
                }
            }
            Step::Print { b, x, max } => {
                let Some(s) = self.builders.get(b) else { return };
                let Some(e) = s.xs.get(x) else { return };
                let r = e.r;
                match guard(|| {
                    let es = s.b.exprset();
                    let mut o = if *max == 0 { es.expr_to_string(r) } else { es.expr_to_string_max_len(r, *max) };
                    let mut t = String::new();
                    RegexAst::Not(Box::new(RegexAst::ExprRef(r))).write_to_str(&mut t, 200, Some(es));
                    o.push_str(&t);
                    o
                }) {
                    Ok(v) => self.obs_s(Lvl::Cost, "print", v),
                    Err(e) => self.panicked("expr_to_string", e),
                }
            }
            Step::IsCont { b, small, big, fuel } => self.is_cont(*b, small, big, *fuel),
            Step::Json { b, x, e, esc, raw } => self.json(*b, *x, *e, esc, *raw),
            Step::Compile { b, x, r, fuel } => self.compile(*b, *x, *r, *fuel),
            Step::Probe { b, words } => {
                let Some(s) = self.builders.get_mut(b) else { return };
                let a = RegexAst::Or(words.iter().map(|w| RegexAst::ByteLiteral(w.clone())).collect());
                let got = guard(|| {
                    let e = s.b.mk(&a)?;
                    s.b.to_regex_limited(e, BIG_FUEL)
                });
                match got {
                    Err(e) => self.panicked("to_regex_limited", e),
                    Ok(Err(e)) => self.fail(&["C08"], format!("an alternation of words was refused: {e}")),
                    Ok(Ok(rx)) => {
                        // the shape of a plain alternation of words does not depend on what else
                        // the builder holds
                        let st = rx.stats();
                        let part = |k: &str| st.split("; ").find(|p| p.contains(k)).unwrap_or("").split(" (").next().unwrap_or("").to_string();
                        self.obs_s(Lvl::Lang, "size of a compiled word list", format!("{}; {}", part(" nodes"), part("alphabet size")));
                        self.count("word_lists", 1);
                    }
                }
            }
            Step::Fuel { b, x, limits } => self.fuel(*b, *x, limits),
            Step::Denote { b, x, max, texts } => self.denote(*b, *x, *max, texts),
            Step::Deep { b, x, ops, depth, tree } => self.deep(*b, *x, ops, *depth, *tree),
            Step::Fill { b, n, kind, salt } => self.fill_builder(*b, *n, *kind, *salt),
            Step::Ladder { b, w, n, every, kind, end } => self.ladder(*b, w, *n, *every, *kind, *end),
            Step::Search { b, a, n0, n, z, tails } => self.search(*b, a, *n0, *n, z, tails),
            Step::RNew { r, p, f } => self.rnew(*r, p, f),
            Step::RClone { r, from } => self.rclone(*r, *from),
            Step::RDrop { r } => {
                // sessions survive as journals of what they consumed
                if self.regs.remove(r).is_some() {
                    self.count("regexes_lost", 1);
                }
            }
            Step::Evict { r, mask, pct, salt } => {
                let Some(s) = self.regs.get_mut(r) else { return };
                let n = evict(&mut s.rx, *mask, *pct, *salt);
                s.cold = true;
                if self.focus == "C06" {
                    s.log.push((RCall::Evict(*mask, *pct, *salt), vec![]));
                }
                self.count("evictions_injected", 1);
                self.count("entries_lost", n);
            }
            Step::REmpty { r } => self.with_reg(*r, "always_empty", |w, s, _| {
                let v = s.rx.always_empty();
                w.ob(Lvl::Lang, "always_empty", v as u64);
                w.log(s, RCall::Empty, vec![V::U(v as u64)]);
                if let Some(d) = &s.dfa {
                    if v != d.is_empty_lang() {
                        w.fail(&["C02", "C10"], format!("always_empty = {v}, language empty: {}", d.is_empty_lang()));
                    }
                }
                // the two constants that are no position in any word
                for st in [StateID::DEAD, StateID::MISSING] {
                    if s.rx.is_accepting(st) || s.rx.lookahead_len_for_state(st).is_some() {
                        w.fail(&["C02", "C01"], format!("{st:?} accepts"));
                    }
                    if s.rx.next_byte(st) != NextByte::Dead {
                        w.fail(&["C02", "C03"], format!("hint at {st:?}"));
                    }
                    if let Some(c) = (0..=255u8).step_by(15).find(|c| !s.rx.transition(st, *c).is_dead()) {
                        w.fail(&["C02", "C01"], format!("{st:?} goes on with byte {c}"));
                    }
                }
            }),
            Step::RMatch { r, t, q } => self.with_reg(*r, "is_match", |w, s, _| w.rmatch(s, t, *q)),
            Step::RStats { r } => self.with_reg(*r, "stats", |w, s, _| {
                let c = s.rx.cost();
                w.ob(Lvl::Cost, "cost", c);
                let nb = s.rx.num_bytes() as u64;
                w.ob(Lvl::Cost, "num_bytes", nb);
                let st = format!("{:?}", s.rx);
                w.log(s, RCall::Stats, vec![V::U(c), V::U(nb), V::S(st.clone())]);
                w.obs_s(Lvl::Cost, "stats", st);
                if c < s.last_cost {
                    w.fail(&["C12"], format!("reported cost fell from {} to {c}", s.last_cost));
                }
                s.last_cost = c;
            }),
            Step::RDfa { r, t } => self.with_reg(*r, "dfa", |w, s, _| w.dfa(s, t)),
            Step::RWarm { r, salt, n } => self.with_reg(*r, "warm walk", |w, s, _| w.warm(s, *salt, *n)),
            Step::RAudit { r } => self.with_reg(*r, "audit", |w, s, _| w.audit(s)),
            Step::REquiv { r, max } => self.with_reg(*r, "product walk", |w, s, _| w.equiv(s, *max, &["C01"], &["C02"])),
            Step::SOpen { s, r } => {
                let mut new = None;
                self.with_reg(*r, "initial_state", |w, sl, _| {
                    let sid = sl.rx.initial_state();
                    let q = sl.dfa.as_ref().map_or(0, |d| d.start);
                    w.ob(Lvl::Id, "initial", sid.as_u32() as u64);
                    w.ob(Lvl::Lang, "initial dead", sid.is_dead() as u64);
                    let se = Sess { r: *r, sid, bytes: vec![], hist: vec![sid], q, track: sl.look.as_ref().map(|l| l.start()) };
                    w.note_state(sl, sid, q, &[], None);
                    new = Some(se);
                });
                if let Some(se) = new {
                    self.sess.insert(*s, se);
                    self.count("sessions", 1);
                }
            }
            Step::SAdv { s, t, chunk } => self.with_sess(*s, "transition", |w, sl, se| w.advance(sl, se, t, *chunk)),
            Step::SPump { s, t, n } => self.with_sess(*s, "transition", |w, sl, se| {
                for _ in 0..*n {
                    w.advance(sl, se, t, true);
                    if w.viol.is_some() || sl.rx.cost() > MAX_COST {
                        break;
                    }
                }
                w.count("pumped_bytes", t.len() as u64 * *n as u64);
                // the same again as one text
                if w.viol.is_none() && sl.rx.cost() <= MAX_COST && se.bytes.len() >= 1000 {
                    let all = se.bytes.clone();
                    w.rmatch(sl, &all, (*n & 3) as u8);
                }
            }),
            Step::SAsk { s, q } => self.with_sess(*s, "query", |w, sl, se| w.ask(sl, se, *q)),
            Step::SFork { s, from } => {
                if let Some(x) = self.sess.get(from).cloned() {
                    self.sess.insert(*s, x);
                    self.count("session_forks", 1);
                }
            }
            Step::SRewind { s, n } => {
                let mut done = false;
                self.with_sess(*s, "rewind", |_, sl, se| {
                    let n = *n as usize;
                    if n >= se.hist.len() {
                        return;
                    }
                    let sid = se.hist[n];
                    if !sl.knows(sid) {
                        return;
                    }
                    se.sid = sid;
                    se.hist.truncate(n + 1);
                    se.bytes.truncate(n);
                    if let Some(d) = &sl.dfa {
                        se.q = d.run(d.start, &se.bytes);
                    }
                    if let Some(l) = &sl.look {
                        let mut t = l.start();
                        for b in &se.bytes {
                            l.step(&mut t, *b);
                        }
                        se.track = Some(t);
                    }
                    done = true;
                });
                if done {
                    self.count("rewinds", 1);
                }
            }
            Step::SMove { s, r } => {
                let (Some(se), Some(t)) = (self.sess.get(s), self.regs.get(r)) else { return };
                let Some(o) = self.regs.get(&se.r) else { return };
                // every position it can come back to must be from before the fork, or be known to be
                // the same there
                let same = |x: &StateID| x.is_dead() || o.rep.get(x.as_usize()).is_some_and(|h| *h != 0 && t.rep.get(x.as_usize()) == Some(h));
                if o.root != t.root || !se.hist.iter().all(same) || !same(&se.sid) {
                    return;
                }
                self.sess.get_mut(s).unwrap().r = *r;
                self.count("session_moves", 1);
            }
            Step::SRecover { s, r } => {
                let Some(se) = self.sess.get(s) else { return };
                let Some(t) = self.regs.get(r) else { return };
                if let Some(o) = self.regs.get(&se.r) {
                    let same = match (&o.dfa, &t.dfa) {
                        (Some(a), Some(b)) => a == b,
                        _ => o.m == t.m && o.json.is_none() && t.json.is_none(),
                    };
                    if !same || o.m.has_look != t.m.has_look || (o.m.has_look && o.m != t.m) {
                        return;
                    }
                }
                let bytes = se.bytes.clone();
                let mut new = None;
                let (sr, rr) = (*s, *r);
                self.with_reg(rr, "recover", |w, sl, _| {
                    let sid = sl.rx.initial_state();
                    let q = sl.dfa.as_ref().map_or(0, |d| d.start);
                    let mut se = Sess { r: rr, sid, bytes: vec![], hist: vec![sid], q, track: sl.look.as_ref().map(|l| l.start()) };
                    w.note_state(sl, sid, q, &[], None);
                    w.advance(sl, &mut se, &bytes, false);
                    new = Some(se);
                });
                if let Some(se) = new {
                    self.sess.insert(sr, se);
                    self.count("recoveries", 1);
                }
            }
            Step::SClose { s } => {
                self.sess.remove(s);
            }
            Step::LNew { l, b, xs } => self.lnew(*l, *b, xs),
            Step::LStep { l, i, t } => self.with_raw(*l, *i, "derivative", |w, s, i| w.lstep(s, i, t)),
            Step::LReset { l, i } => self.with_raw(*l, *i, "reset", |_, s, i| {
                s.cur[i] = s.roots[i];
                s.paths[i].clear();
                s.bound[i] = i64::MAX >> 1;
                if let Some(d) = &s.dfas[i] {
                    s.q[i] = d.start;
                }
                s.track[i] = s.looks[i].as_ref().map(|x| x.start());
            }),
            Step::LAsk { l, i, q, fuel } => self.with_raw(*l, *i, "component query", |w, s, i| w.lask(s, i, *q, *fuel)),
            Step::LCache { l, cache, op, pct, salt } => {
                self.with_raw(*l, 0, "cache replacement", |w, s, _| w.lcache(s, *cache, *op, *pct, *salt))
            }
            Step::HNew { h } => match guard(VecHashCons::new) {
                Ok(t) => {
                    self.tabs.insert(*h, HSlot { t, elts: vec![], ids: BTreeMap::new() });
                }
                Err(e) => self.panicked("VecHashCons::new", e),
            },
            Step::HClone { h, from } => {
                let Some(s) = self.tabs.get(from) else { return };
                let n = HSlot { t: s.t.clone(), elts: s.elts.clone(), ids: s.ids.clone() };
                self.tabs.insert(*h, n);
                self.count("table_clones", 1);
            }
            Step::HDrop { h } => {
                self.tabs.remove(h);
            }
            Step::HIns { h, v } => self.hins(*h, &[v.clone()], 0),
            Step::HInc { h, parts } => self.hins(*h, parts, 1),
            Step::HMid { h, to, parts, v1, v2 } => self.hmid(*h, *to, parts, v1, v2),
            Step::HDouble { h, v } => self.hins(*h, &[v.clone()], 2),
            Step::HCheck { h } => self.hcheck(*h),
            Step::MapErr { a, n } => self.map_err(a, *n),
            Step::Hop { t } => {
                self.hop = Some(*t);
                self.count("thread_hops", 1);
            }
            Step::Noise { seed, n } => self.noise(*seed, *n),
        }
    }

    fn log(&mut self, s: &mut RSlot, c: RCall, v: Vec<V>) {
        if self.focus == "C06" {
            s.log.push((c, v));
        }
    }

    // --------------------------------------------------------------------------- builders

    fn mk(&mut self, b: u32, x: u32, req: MkReq) {
        let Some(mut s) = self.builders.remove(&b) else { return };
        let lk = |l: u32| s.xs.get(&l).map(|x| x.m.clone());
        let model = match &req {
            MkReq::Ast(a) => eval(a, &s.flags, &lk),
            MkReq::Rx(p) => eval(&A::Rx(p.to_string()), &s.flags, &lk),
            MkReq::Cont(a, c) => eval(a, &s.flags, &lk)
                .and_then(|a| Ok(m(Node::And(vec![a, m(Node::Not(eval(c, &s.flags, &lk)?))])))),
        };
        if model.as_ref().err().map_or(false, |e| e == "label") {
            self.builders.insert(b, s);
            return;
        }
        let lr = |l: u32| s.xs.get(&l).map(|x| x.r);
        let got = match &req {
            MkReq::Ast(a) => {
                let a = &bind(a, s.b.exprset().len() as u32);
                let Some(ast) = to_ast(a, &lr) else {
                    self.builders.insert(b, s);
                    return;
                };
                guard(|| s.b.mk(&ast))
            }
            MkReq::Rx(p) => guard(|| s.b.mk_regex(p)),
            MkReq::Cont(a, c) => {
                let (Some(a), Some(c)) = (to_ast(a, &lr), to_ast(c, &lr)) else {
                    self.builders.insert(b, s);
                    return;
                };
                guard(|| s.b.mk_contained_in_ast(&a, &c))
            }
        };
        self.count("builder_requests", 1);
        let mut keep = true;
        match (model, got) {
            (mo, Err(e)) => {
                keep = false;
                if mo.is_err() && self.focus == "C08" {
                    self.fail(&["C08"], format!("panic instead of an error: {e}"));
                }
                self.panicked("mk", e);
            }
            (Err(_), Ok(Err(_))) => {
                self.ob(Lvl::Lang, "refused", 1);
                self.refused.push(self.step);
                s.refused += 1;
                self.count("refusals", 1);
            }
            (Err(why), Ok(Ok(_))) => {
                self.ob(Lvl::Lang, "refused", 0);
                self.fail(&["C08"], format!("a request that cannot be served was accepted ({why})"));
            }
            (Ok(_), Ok(Err(e))) => {
                self.ob(Lvl::Lang, "refused", 1);
                self.fail(&["C07", "C08"], format!("a valid request was refused: {e}"));
            }
            (Ok(mo), Ok(Ok(r))) => {
                self.ob(Lvl::Lang, "refused", 0);
                self.new_expr(&mut s, x, r, mo, None);
            }
        }
        if keep {
            self.builders.insert(b, s);
        }
    }

    fn new_expr(&mut self, s: &mut BSlot, x: u32, r: ExprRef, mo: M, json: Option<Arc<JsonSpec>>) {
        self.ob(Lvl::Cost, "handle", r.as_u32() as u64);
        let d = mo.dfa().ok();
        match guard(|| s.b.is_nullable(r)) {
            Ok(n) => {
                self.ob(Lvl::Lang, "nullable", n as u64);
                if let Some(d) = &d {
                    if n != d.is_acc(d.start) {
                        self.fail(&["C07"], format!("new handle: is_nullable = {n}, language contains the empty string: {}", !n));
                    }
                }
            }
            Err(e) => self.panicked("is_nullable", e),
        }
        if json.is_none() {
            if let Some(old) = s.handles.get(&r.as_u32()) {
                if let (Ok(a), Some(b)) = (old.dfa(), &d) {
                    if a != *b {
                        self.fail(&["C07"], "one handle was issued for two expressions of different languages".into());
                    }
                }
                self.count("handle_reissued", 1);
            } else {
                s.handles.insert(r.as_u32(), mo.clone());
            }
        }
        s.xs.insert(x, X { r, m: mo, json });
    }

    fn is_cont(&mut self, b: u32, small: &str, big: &str, fuel: Option<u64>) {
        let Some(mut s) = self.builders.remove(&b) else { return };
        let sub = eval(&A::Rx(small.into()), &s.flags, &|_| None)
            .and_then(|a| Ok((a, eval(&A::Rx(big.into()), &s.flags, &|_| None)?)));
        let got = guard(|| s.b.is_contained_in(small, big, fuel.unwrap_or(u64::MAX)));
        self.count("containment_queries", 1);
        let mut keep = true;
        match (sub, got) {
            (mo, Err(e)) => {
                keep = false;
                if mo.is_err() && self.focus == "C08" {
                    self.fail(&["C08"], format!("panic instead of an error: {e}"));
                }
                self.panicked("is_contained_in", e);
            }
            (Err(_), Ok(Err(_))) => {
                self.ob(Lvl::Lang, "refused", 1);
                self.refused.push(self.step);
                s.refused += 1;
                self.count("refusals", 1);
            }
            (Err(_), Ok(Ok(_))) => self.fail(&["C08"], "containment of a pattern with a syntax error was answered".into()),
            (Ok(_), Ok(Err(e))) => {
                if fuel.is_none() {
                    self.fail(&["C09", "C10"], format!("containment query with unlimited fuel failed: {e}"));
                } else {
                    self.ob(Lvl::Cost, "exhausted", 1);
                    self.count("fuel_exhausted", 1);
                }
            }
            (Ok((a, c)), Ok(Ok(v))) => {
                self.ob(if fuel.is_some() { Lvl::Cost } else { Lvl::Lang }, "contained", v as u64);
                if let (Ok(x), Ok(y)) = (a.dfa(), c.dfa()) {
                    if let Ok(diff) = Dfa::and(&[&x, &y.not()]) {
                        let exp = diff.is_empty_lang();
                        self.count(if exp { "contained_yes" } else { "contained_no" }, 1);
                        if v != exp {
                            let wit = diff.witness(diff.start);
                            let mut p = vec!["C10"];
                            if fuel.is_some() {
                                p.push("C09");
                            }
                            self.fail(&p, format!("is_contained_in({small:?}, {big:?}) = {v}, expected {exp}, witness {wit:?}"));
                        }
                    }
                }
            }
        }
        if keep {
            self.builders.insert(b, s);
        }
    }

    fn json(&mut self, b: u32, x: u32, e: u32, esc: &str, raw: bool) {
        let Some(mut s) = self.builders.remove(&b) else { return };
        let Some(src) = s.xs.get(&e) else {
            self.builders.insert(b, s);
            return;
        };
        if src.json.is_some() || src.m.has_look {
            self.builders.insert(b, s);
            return;
        }
        let (r, mo) = (src.r, src.m.clone());
        let bad_opt = esc.bytes().any(|c| !b"\"\\bfnrtu".contains(&c));
        let must_refuse = bad_opt || surely_bool(&mo);
        let may_refuse = must_refuse || mo.has_bool || mo.has_prefixes || mo.dfa().is_err();
        let opt = JsonQuoteOptions { allowed_escapes: esc.to_string(), raw_mode: raw };
        let got = guard(|| s.b.json_quote(r, &opt));
        self.count("json_requests", 1);
        let mut keep = true;
        match got {
            Err(e) => {
                keep = false;
                if must_refuse && self.focus == "C08" {
                    self.fail(&["C08"], format!("panic instead of an error: {e}"));
                }
                self.panicked("json_quote", e);
            }
            Ok(Err(_)) => {
                self.ob(Lvl::Lang, "refused", 1);
                s.refused += 1;
                self.refused.push(self.step);
                self.count("refusals", 1);
                if !may_refuse {
                    self.fail(&["C15", "C08"], "JSON quoting of a plain expression was refused".into());
                }
            }
            Ok(Ok(r)) => {
                self.ob(Lvl::Lang, "refused", 0);
                if must_refuse {
                    self.fail(&["C08"], format!("JSON quoting request that cannot be served was accepted (escapes {esc:?})"));
                } else {
                    let spec = mo.dfa().ok().map(|inner| Arc::new(JsonSpec { utf8: crate::driver::utf8_lang(&inner), inner, esc: esc.into(), raw }));
                    match spec {
                        Some(sp) => self.new_expr(&mut s, x, r, opaque(), Some(sp)),
                        None => self.new_expr(&mut s, x, r, opaque(), None),
                    }
                }
            }
        }
        if keep {
            self.builders.insert(b, s);
        }
    }

    fn mk_rslot(&mut self, rx: Regex, mo: M, json: Option<Arc<JsonSpec>>, origin: Origin, recompile: Option<(RegexBuilder, ExprRef)>) -> RSlot {
        self.roots += 1;
        let look = match LookSpec::new(&mo) {
            Some(Ok(l)) => Some(Arc::new(l)),
            _ => None,
        };
        let odd_look = mo.has_look && look.is_none();
        let dfa = mo.dfa().ok();
        let key = dfa.as_ref().map_or(0, |d| {
            let h = d.trans.iter().fold(d.n as u64, |h, x| mix64(h ^ *x as u64));
            d.class.iter().fold(h, |h, x| mix64(h ^ *x as u64))
        });
        RSlot {
            rx,
            dfa,
            key,
            look,
            odd_look,
            m: mo,
            json,
            root: self.roots,
            sidq: vec![],
            rep: vec![],
            trans: BTreeMap::new(),
            acc: BTreeMap::new(),
            looks: BTreeMap::new(),
            hints: BTreeMap::new(),
            cold: false,
            last_cost: 0,
            log: vec![],
            origin: Arc::new(origin),
            asked: vec![],
            recompile,
        }
    }

    fn compile(&mut self, b: u32, x: u32, r: u32, fuel: Option<u64>) {
        let Some(s) = self.builders.get(&b) else { return };
        let Some(e) = s.xs.get(&x) else { return };
        let (er, mo, json) = (e.r, e.m.clone(), e.json.clone());
        // a limit as a safety net: the work of a compilation is exponential in the worst case
        let mut got = guard(|| s.b.to_regex_limited(er, fuel.unwrap_or(BIG_FUEL).min(BIG_FUEL)));
        if let (Ok(Ok(_)), Some(f @ BIG_FUEL..)) = (&got, fuel) {
            got = guard(|| s.b.to_regex_limited(er, f));
            if let Ok(Err(e)) = &got {
                let e = e.to_string();
                self.fail(&["C09"], format!("compilation fails with fuel {f} and succeeds with {BIG_FUEL}: {e}"));
            }
        }
        self.count("compilations", 1);
        match got {
            Err(e) => self.panicked("to_regex_limited", e),
            Ok(Err(_)) => {
                self.ob(Lvl::Cost, "exhausted", 1);
                self.count(if fuel.is_some() { "fuel_exhausted" } else { "too_expensive" }, 1);
            }
            Ok(Ok(mut rx)) => {
                let s = self.builders.get(&b).unwrap();
                let blog = if self.focus == "C06" { s.blog.clone() } else { vec![] };
                let rec = if self.focus == "C05" { Some((s.b.clone(), er)) } else { None };
                let origin = Origin { blog, x, fuel, pattern: None };
                let empty = rx.always_empty();
                let slot = self.mk_rslot(rx, mo, json, origin, rec);
                self.ob(Lvl::Lang, "compiled empty", empty as u64);
                if let Some(d) = &slot.dfa {
                    if empty != d.is_empty_lang() {
                        let p: &[&'static str] = if fuel.is_some() { &["C02", "C09"] } else { &["C02", "C10"] };
                        self.fail(p, format!("compiled regex says always_empty = {empty}, language empty: {}", !empty));
                    }
                }
                self.sess.retain(|_, s| s.r != r);
                self.regs.insert(r, slot);
            }
        }
    }

    fn rnew(&mut self, r: u32, p: &str, f: &Option<[bool; 5]>) {
        let mo = eval(&A::Rx(p.into()), &f.unwrap_or(DEFAULT_FLAGS), &|_| None);
        if let Ok(mo) = &mo {
            if mo.dfa().is_err() {
                return;
            }
        }
        let got = guard(|| new_regex(p, f));
        self.count("compilations", 1);
        match (mo, got) {
            (mo, Err(e)) => {
                if mo.is_err() && self.focus == "C08" {
                    self.fail(&["C08"], format!("panic instead of an error: {e}"));
                }
                self.panicked("Regex::new", e);
            }
            (Err(_), Ok(Err(_))) => {
                self.ob(Lvl::Lang, "refused", 1);
                self.refused.push(self.step);
                self.count("refusals", 1);
            }
            (Err(why), Ok(Ok(_))) => self.fail(&["C08"], format!("Regex::new accepted {p:?} ({why})")),
            (Ok(_), Ok(Err(e))) => self.fail(&["C08", "C07"], format!("Regex::new({p:?}) was refused: {e}")),
            (Ok(mo), Ok(Ok(rx))) => {
                self.ob(Lvl::Lang, "refused", 0);
                let origin = Origin { blog: vec![], x: 0, fuel: None, pattern: Some((p.to_string(), *f)) };
                let slot = self.mk_rslot(rx, mo, None, origin, None);
                self.sess.retain(|_, s| s.r != r);
                self.regs.insert(r, slot);
            }
        }
    }

    fn rclone(&mut self, r: u32, from: u32) {
        if r == from {
            return;
        }
        let Some(s) = self.regs.get(&from) else { return };
        match guard(|| s.rx.clone()) {
            Err(e) => self.panicked("Regex::clone", e),
            Ok(c) => {
                let n = RSlot {
                    rx: c,
                    m: s.m.clone(),
                    dfa: s.dfa.clone(),
                    look: s.look.clone(),
                    odd_look: s.odd_look,
                    json: s.json.clone(),
                    root: s.root,
                    key: s.key,
                    sidq: s.sidq.clone(),
                    rep: s.rep.clone(),
                    trans: s.trans.clone(),
                    acc: s.acc.clone(),
                    looks: s.looks.clone(),
                    hints: s.hints.clone(),
                    cold: s.cold,
                    last_cost: s.last_cost,
                    log: s.log.clone(),
                    origin: s.origin.clone(),
                    asked: vec![],
                    recompile: s.recompile.clone(),
                };
                self.sess.retain(|_, x| x.r != r);
                self.regs.insert(r, n);
                self.count("regex_clones", 1);
            }
        }
    }

    fn with_reg(&mut self, r: u32, what: &str, f: impl FnOnce(&mut World, &mut RSlot, u32)) {
        let Some(mut s) = self.regs.remove(&r) else { return };
        if s.rx.cost() > MAX_COST {
            self.count("retired", 1);
            return;
        }
        match guard(|| f(self, &mut s, r)) {
            Ok(()) => {
                self.regs.insert(r, s);
            }
            Err(e) => {
                self.sess.retain(|_, x| x.r != r);
                self.panicked(what, e)
            }
        }
    }
    fn with_sess(&mut self, s: u32, what: &str, f: impl FnOnce(&mut World, &mut RSlot, &mut Sess)) {
        let Some(mut se) = self.sess.remove(&s) else { return };
        let r = se.r;
        if !self.regs.contains_key(&r) {
            // the regex was lost; the journal stays
            self.sess.insert(s, se);
            return;
        }
        let mut back = None;
        self.with_reg(r, what, |w, sl, _| {
            f(w, sl, &mut se);
            back = Some(se);
        });
        if let Some(se) = back {
            self.sess.insert(s, se);
        }
    }
    fn with_raw(&mut self, l: u32, i: u32, what: &str, f: impl FnOnce(&mut World, &mut LSlot, usize)) {
        let Some(mut s) = self.raws.remove(&l) else { return };
        if i as usize >= s.roots.len() {
            self.raws.insert(l, s);
            return;
        }
        if s.es.cost() > MAX_COST {
            self.count("retired", 1);
            return;
        }
        match guard(|| f(self, &mut s, i as usize)) {
            Ok(()) => {
                self.raws.insert(l, s);
            }
            Err(e) => self.panicked(what, e),
        }
    }

    // --------------------------------------------------------------------------- sessions

    /// `sid` was reached by `path` and the reference is in `q`
    fn note_state(&mut self, sl: &mut RSlot, sid: StateID, q: u32, path: &[u8], from: Option<(usize, u8)>) {
        let i = sid.as_usize();
        if i >= sl.sidq.len() {
            sl.sidq.resize(i + 1, u32::MAX);
            sl.rep.resize(i + 1, 0);
        }
        if sl.rep[i] == 0 {
            // which path it was first reached by
            sl.rep[i] = match from {
                None => 1,
                Some((p, b)) => mix64(sl.rep.get(p).copied().unwrap_or(7) ^ (b as u64) << 56) | 1,
            };
        }
        let Some(d) = &sl.dfa else {
            sl.sidq[i] = 0;
            return;
        };
        let live = d.is_live(q);
        if sid.is_dead() == live {
            let wit = if live { d.witness(q) } else { None };
            self.fail(&["C02"], format!("after {} the state is {}, but a continuation {}: {:?}", show(path), if live { "dead" } else { "alive" }, if live { "matches" } else { "cannot match" }, wit));
            return;
        }
        if sid.is_dead() {
            sl.sidq[i] = q;
            return;
        }
        if sl.sidq[i] == u32::MAX {
            sl.sidq[i] = q;
            self.count("engine_states", 1);
        } else if sl.sidq[i] != q {
            let d = d.clone();
            let suf = distinguish(&d, sl.sidq[i], q);
            let p: &[&'static str] = if sl.sidq.len() > 60_000 { &["C01", "C05"] } else { &["C01"] };
            self.fail(p, format!("state {} stands for two residual languages (after {}), told apart by {:?}", sid.as_u32(), show(path), suf));
        }
    }

    fn advance(&mut self, sl: &mut RSlot, se: &mut Sess, t: &[u8], chunk: bool) {
        if t.is_empty() {
            return;
        }
        self.count("bytes", t.len() as u64);
        let mut sids = Vec::with_capacity(t.len());
        if chunk {
            let start = se.sid;
            let io = self.fill(t);
            let end = sl.rx.transition_bytes(start, &io);
            self.io = io;
            self.log(sl, RCall::Trans(start.as_u32(), t.to_vec(), true), vec![V::U(end.as_u32() as u64)]);
            // intermediate ids are read back one by one (all known now)
            let mut x = start;
            for &b in t {
                x = sl.rx.transition(x, b);
                sids.push(x);
            }
            if x != end {
                self.fail(&["C05", "C01"], format!("a chunk ended in state {}, its bytes one by one in {}", end.as_u32(), x.as_u32()));
            }
        } else {
            let mut x = se.sid;
            for &b in t {
                let y = sl.rx.transition(x, b);
                self.log(sl, RCall::Trans(x.as_u32(), vec![b], false), vec![V::U(y.as_u32() as u64)]);
                x = y;
                sids.push(x);
            }
        }
        let mut h = 0u64;
        for (&b, &sid) in t.iter().zip(&sids) {
            let prev = se.sid.as_u32();
            match sl.trans.get(&(prev, b)) {
                Some(&o) => {
                    if o != sid.as_u32() {
                        self.fail(&["C05"], format!("state {prev} on byte {b:#x} led to state {o} earlier and to {} now", sid.as_u32()));
                    }
                }
                None => {
                    if sl.trans.len() < 20_000 || self.focus == "C05" {
                        sl.trans.insert((prev, b), sid.as_u32());
                    }
                }
            }
            se.sid = sid;
            se.bytes.push(b);
            se.hist.push(sid);
            if let Some(d) = &sl.dfa {
                se.q = d.step(se.q, b);
            }
            if let (Some(l), Some(t)) = (&sl.look, &mut se.track) {
                l.step(t, b);
            }
            self.note_state(sl, sid, se.q, &se.bytes, Some((prev as usize, b)));
            h = mix64(h ^ sid.as_u32() as u64);
        }
        self.ob(Lvl::Id, "ids", h);
        self.ob(Lvl::Lang, "dead", se.sid.is_dead() as u64);
        let key = mix64(sl.key ^ se.q as u64 ^ (se.sid.as_u32() as u64) << 24);
        if self.states.len() < 4096 {
            self.states.insert(key);
        }
        if self.focus == "C05" && sl.asked.len() < 40 {
            sl.asked.push((se.bytes.clone(), 3, se.sid.is_dead() as u64));
        }
    }

    fn ask(&mut self, sl: &mut RSlot, se: &mut Sess, q: u8) {
        self.count("queries", 1);
        let id = se.sid.as_u32();
        match q {
            0 => {
                let v = sl.rx.is_accepting(se.sid);
                self.log(sl, RCall::Acc(id), vec![V::U(v as u64)]);
                self.ob(Lvl::Lang, "accept", v as u64);
                self.check_acc(sl, se, v);
                self.stable(sl, se, 0, v as u64);
            }
            1 => {
                let v = sl.rx.lookahead_len_for_state(se.sid);
                self.log(sl, RCall::Look(id), vec![V::U(look_code(v))]);
                self.ob(Lvl::Lang, "lookahead", look_code(v));
                let tr = se.track.clone();
                self.check_look(sl, se.q, tr.as_ref(), v, &se.bytes);
                if v.is_some() != sl.acc.get(&id).copied().unwrap_or(v.is_some()) {
                    self.fail(&["C04"], "lookahead length and acceptance disagree".into());
                }
                self.stable(sl, se, 1, look_code(v));
            }
            2 | 3 => {
                let v = sl.rx.next_byte(se.sid);
                self.log(sl, RCall::Hint(id), vec![V::U(hint_code(v))]);
                self.ob(Lvl::Id, "hint", hint_code(v));
                self.check_hint(sl, se, v, q == 3);
                self.stable(sl, se, 2, hint_code(v));
            }
            _ => {}
        }
    }

    fn stable(&mut self, sl: &mut RSlot, se: &Sess, kind: u8, v: u64) {
        let id = se.sid.as_u32();
        let (old, name) = match kind {
            0 => (sl.acc.insert(id, v != 0).map(|x| x as u64), "accepting"),
            1 => (sl.looks.insert(id, v), "lookahead length"),
            _ => (sl.hints.insert(id, v), "hint"),
        };
        if let Some(o) = old {
            if o != v {
                let p: &[&'static str] = match kind {
                    0 => &["C05"],
                    1 => &["C05", "C04"],
                    _ => &["C05", "C03"],
                };
                self.fail(p, format!("{name} of state {id} was {o}, now {v}"));
            }
            self.count("answers_repeated", 1);
        }
        if self.focus == "C05" && sl.asked.len() < 80 {
            sl.asked.push((se.bytes.clone(), kind, v));
        }
    }

    fn check_acc(&mut self, sl: &RSlot, se: &Sess, v: bool) {
        if let Some(d) = &sl.dfa {
            if v != d.is_acc(se.q) {
                self.fail(&["C01"], format!("after {} is_accepting = {v}, expected {}", show(&se.bytes), !v));
            }
        }
        if let Some(j) = &sl.json {
            self.check_json(j, &se.bytes, v);
        }
    }
    fn check_json(&mut self, j: &JsonSpec, t: &[u8], v: bool) {
        let e = classify_json(t, j);
        self.count(match e { Must::Yes => "json_must_accept", Must::No => "json_must_reject", Must::Either => "json_either" }, 1);
        if (e == Must::Yes && !v) || (e == Must::No && v) {
            self.fail(&["C15"], format!("JSON stream {}: accepted = {v}, expected {}", show(t), !v));
        }
    }
    fn check_look(&mut self, sl: &RSlot, q: u32, tr: Option<&LookTrack>, v: Option<usize>, t: &[u8]) {
        let Some(d) = &sl.dfa else { return };
        let exp = if let (Some(l), Some(t)) = (&sl.look, tr) {
            l.len(t)
        } else if sl.odd_look {
            return;
        } else if d.is_acc(q) {
            Some(0)
        } else {
            None
        };
        if v.is_some() {
            self.count("lookahead_present", 1);
        }
        if v.unwrap_or(0) > 255 {
            self.count("lookahead_over_255", 1);
        }
        if v != exp {
            self.fail(&["C04"], format!("after {} lookahead_len = {v:?}, expected {exp:?}", show(t)));
        }
    }
    fn check_hint(&mut self, sl: &mut RSlot, se: &Sess, v: NextByte, full: bool) {
        self.count(match v { NextByte::Dead => "hint_dead", NextByte::ForcedEOI => "hint_eoi", NextByte::SomeBytes => "hint_some", NextByte::ForcedByte(_) => "hint_byte" }, 1);
        if (v == NextByte::Dead) != se.sid.is_dead() {
            self.fail(&["C03"], format!("after {} the hint is {v:?}, state dead: {}", show(&se.bytes), se.sid.is_dead()));
            return;
        }
        let suspicious = match (&sl.dfa, v) {
            (_, NextByte::SomeBytes) | (_, NextByte::Dead) => false,
            (Some(d), NextByte::ForcedByte(b)) => {
                d.is_acc(se.q) || (0..=255u8).any(|c| c != b && d.is_live(d.step(se.q, c)))
            }
            (Some(d), NextByte::ForcedEOI) => {
                !d.is_acc(se.q) || (0..=255u8).any(|c| d.is_live(d.step(se.q, c)))
            }
            (None, _) => full,
        };
        if suspicious || (full && v != NextByte::SomeBytes && v != NextByte::Dead) {
            // what the engine itself says, on a copy
            let mut c = sl.rx.clone();
            let acc = c.is_accepting(se.sid);
            let live: Vec<u8> = (0..=255u8).filter(|&b| !c.transition(se.sid, b).is_dead()).collect();
            self.count("hint_confirmed_on_engine", 1);
            let bad = match v {
                NextByte::ForcedByte(b) => acc || live.iter().any(|x| *x != b),
                _ => !acc || !live.is_empty(),
            };
            if bad {
                self.fail(&["C03"], format!("after {} the hint is {v:?}; accepting: {acc}, bytes leading to a live state: {live:?}", show(&se.bytes)));
            }
        }
    }

    /// the one I/O buffer that every chunk and every whole text is read into
    fn fill(&mut self, t: &[u8]) -> Vec<u8> {
        let mut io = std::mem::take(&mut self.io);
        io.clear();
        io.extend_from_slice(t);
        io
    }

    fn rmatch(&mut self, sl: &mut RSlot, t: &[u8], q: u8) {
        self.count("whole_matches", 1);
        let io = self.fill(t);
        let as_str = std::str::from_utf8(&io).ok();
        let q = if as_str.is_none() { q & 1 } else { q & 3 };
        let (acc, len) = match q {
            0 => (sl.rx.is_match_bytes(&io), None),
            1 => {
                let l = sl.rx.lookahead_len_bytes(&io);
                (l.is_some(), Some(l))
            }
            2 => (sl.rx.is_match(as_str.unwrap()), None),
            _ => {
                let l = sl.rx.lookahead_len(as_str.unwrap());
                (l.is_some(), Some(l))
            }
        };
        self.io = io;
        let code = len.map_or(acc as u64, look_code);
        self.ob(Lvl::Lang, "match", code);
        self.log(sl, RCall::Match(t.to_vec(), q), vec![V::U(code)]);
        if let Some(d) = sl.dfa.clone() {
            let q = d.run(d.start, t);
            if acc != d.is_acc(q) {
                self.fail(&["C01"], format!("match of {} = {acc}, expected {}", show(t), !acc));
            }
            if let Some(l) = len {
                let tr = sl.look.as_ref().map(|s| {
                    let mut x = s.start();
                    for b in t {
                        s.step(&mut x, *b);
                    }
                    x
                });
                self.check_look(sl, q, tr.as_ref(), l, t);
            }
        }
        if let Some(j) = &sl.json.clone() {
            self.check_json(j, t, acc);
        }
    }

    fn audit(&mut self, sl: &mut RSlot) {
        self.count("audits", 1);
        for (&(s, b), &t) in sl.trans.clone().iter() {
            let x = sl.rx.transition(StateID::new(s), b).as_u32();
            if x != t {
                self.fail(&["C05"], format!("state {s} on byte {b:#x} led to state {t} earlier and to {x} now"));
                return;
            }
        }
        for (&s, &v) in sl.acc.clone().iter() {
            let x = sl.rx.is_accepting(StateID::new(s));
            if x != v {
                self.fail(&["C05"], format!("accepting of state {s} was {v}, now {x}"));
            }
        }
        for (&s, &v) in sl.looks.clone().iter() {
            let x = look_code(sl.rx.lookahead_len_for_state(StateID::new(s)));
            if x != v {
                self.fail(&["C05", "C04"], format!("lookahead length of state {s} was {v}, now {x}"));
            }
        }
        for (&s, &v) in sl.hints.clone().iter() {
            let x = hint_code(sl.rx.next_byte(StateID::new(s)));
            if x != v {
                self.fail(&["C05", "C03"], format!("hint of state {s} was {v}, now {x}"));
            }
        }
    }

    /// bytes one of each class of both automata
    fn reps(sl: &RSlot) -> Vec<u8> {
        let mut seen = BTreeSet::new();
        let mut v = vec![];
        for b in 0..=255u8 {
            let k = (sl.rx.alpha().map(b), sl.dfa.as_ref().map_or(0, |d| d.class[b as usize]));
            if seen.insert(k) {
                v.push(b);
            }
        }
        v
    }

    /// walk the engine together with the quoting rules, over everything up to `max` joint states;
    /// \\uXXXX for anything but control characters and DEL is left open and not followed
    fn json_walk(&mut self, sl: &mut RSlot, j: &JsonSpec, max: u32) {
        use JPhase::*;
        let mut seen_rep = BTreeSet::new();
        let reps: Vec<u8> = (0..=255u8)
            .filter(|&b| {
                let special = b"\"\\nrtbfu0123456789abcdefABCDEF/".contains(&b) || b == 0x7f;
                let kind = if b < 0x20 { 1 } else if special { b as u32 + 2 } else { 0 };
                seen_rep.insert((sl.rx.alpha().map(b), j.inner.class[b as usize], kind))
            })
            .collect();
        let start = (sl.rx.initial_state().as_u32(), j.inner.start, if j.raw { Body } else { Open });
        let mut from = BTreeMap::from([(start, None)]);
        let mut todo = std::collections::VecDeque::from([(sl.rx.initial_state(), start)]);
        let mut full = true;
        while let Some((s, k)) = todo.pop_front() {
            let acc = sl.rx.is_accepting(s);
            let exp = k.2 == if j.raw { Body } else { Close } && j.inner.is_acc(k.1);
            if acc != exp {
                let mut p = vec![];
                let mut x = k;
                while let Some(Some((o, b))) = from.get(&x) {
                    p.push(*b);
                    x = *o;
                }
                p.reverse();
                self.fail(&["C15"], format!("JSON stream {}: accepted = {acc}, expected {exp}", show(&p)));
                return;
            }
            if sl.rx.cost() > MAX_COST {
                return; // retired at the next step
            }
            if from.len() > max as usize {
                full = false;
                break;
            }
            for &b in &reps {
                let Some((q, ph)) = j.step(k.1, k.2, b) else { continue };
                let t = sl.rx.transition(s, b);
                if t.is_dead() && (ph == Bad || !j.inner.is_live(q)) {
                    continue;
                }
                let n = (t.as_u32(), q, ph);
                if !from.contains_key(&n) {
                    from.insert(n, Some((k, b)));
                    todo.push_back((t, n));
                }
            }
        }
        self.ob(Lvl::Id, "json product", from.len() as u64);
        self.count("json_product_states", from.len() as u64);
        self.count(if full { "json_walks_complete" } else { "json_walks_cut" }, 1);
    }

    fn equiv(&mut self, sl: &mut RSlot, max: u32, p_acc: &[&'static str], p_dead: &[&'static str]) {
        if let Some(j) = sl.json.clone() {
            if j.utf8 {
                self.json_walk(sl, &j, max * 10);
            }
            return;
        }
        let Some(d) = sl.dfa.clone() else { return };
        let reps = Self::reps(sl);
        let start = (sl.rx.initial_state(), d.start);
        let mut seen = BTreeMap::new();
        let mut todo = std::collections::VecDeque::from([start]);
        seen.insert((start.0.as_u32(), start.1), None);
        let path = |seen: &BTreeMap<(u32, u32), Option<((u32, u32), u8)>>, mut k: (u32, u32)| {
            let mut p = vec![];
            while let Some(Some((o, b))) = seen.get(&k) {
                p.push(*b);
                k = *o;
            }
            p.reverse();
            p
        };
        let mut full = true;
        while let Some((s, q)) = todo.pop_front() {
            let acc = sl.rx.is_accepting(s);
            let k = (s.as_u32(), q);
            if acc != d.is_acc(q) {
                let p = path(&seen, k);
                self.fail(p_acc, format!("after {} is_accepting = {acc}, expected {}", show(&p), !acc));
                return;
            }
            if s.is_dead() == d.is_live(q) {
                let p = path(&seen, k);
                self.fail(p_dead, format!("after {} dead = {}, expected {}", show(&p), s.is_dead(), !s.is_dead()));
                return;
            }
            // half of the states are asked before their transitions are taken, half after
            let hints = self.focus == "C03";
            if hints && s.as_u32() % 2 == 0 && !self.hint_in_walk(sl, &d, s, q, || path(&seen, k)) {
                return;
            }
            if sl.rx.cost() > MAX_COST {
                return; // retired at the next step
            }
            if seen.len() > max as usize {
                full = false;
                break;
            }
            for &b in &reps {
                let t = sl.rx.transition(s, b);
                let n = (t, d.step(q, b));
                let nk = (n.0.as_u32(), n.1);
                if !seen.contains_key(&nk) {
                    seen.insert(nk, Some((k, b)));
                    todo.push_back(n);
                }
            }
            if hints && s.as_u32() % 2 == 1 && !self.hint_in_walk(sl, &d, s, q, || path(&seen, k)) {
                return;
            }
        }
        self.ob(Lvl::Id, "product", seen.len() as u64);
        self.count("product_states", seen.len() as u64);
        self.count(if full { "product_walks_complete" } else { "product_walks_cut" }, 1);
    }

    fn hint_in_walk(&mut self, sl: &mut RSlot, d: &Dfa, s: StateID, q: u32, path: impl Fn() -> Vec<u8>) -> bool {
        let v = sl.rx.next_byte(s);
        self.count("hints_in_walks", 1);
        let others = |x: Option<u8>| (0..=255u8).any(|c| Some(c) != x && d.is_live(d.step(q, c)));
        let ok = match v {
            NextByte::Dead => s.is_dead(),
            _ if s.is_dead() => false,
            NextByte::SomeBytes => true,
            NextByte::ForcedEOI => d.is_acc(q) && !others(None),
            NextByte::ForcedByte(b) => !d.is_acc(q) && !others(Some(b)),
        };
        if !ok {
            self.fail(&["C03"], format!("after {} the hint is {v:?}; matches: {}, bytes with a continuation: {:?}", show(&path()), d.is_acc(q), (0..=255u8).filter(|c| d.is_live(d.step(q, *c))).collect::<Vec<_>>()));
        }
        ok
    }

    fn dfa(&mut self, sl: &mut RSlot, t: &[u8]) {
        // only regexes of fewer than 250 states can be exported
        {
            let mut c = sl.rx.clone();
            let mut seen = BTreeSet::new();
            let mut todo = vec![c.initial_state()];
            seen.insert(0);
            seen.insert(todo[0].as_u32());
            let mut used = BTreeSet::new();
            let reps: Vec<u8> = (0..=255u8).filter(|b| used.insert(c.alpha().map(*b))).collect();
            while let Some(s) = todo.pop() {
                for &b in &reps {
                    let x = c.transition(s, b);
                    if seen.insert(x.as_u32()) {
                        todo.push(x);
                    }
                }
                if seen.len() > 340 {
                    self.count("dfa_too_large", 1);
                    return;
                }
            }
            let total = seen.iter().max().unwrap() + 1;
            if seen.len() > 240 || total > 255 {
                // may be refused, but a table that is handed out has to be right
                let mut e = c.clone();
                match guard(|| e.dfa()) {
                    Err(_) => self.count("exports_refused", 1),
                    Ok(tab) => {
                        self.count("exports_near_full", 1);
                        let k = c.alpha().len();
                        for &s in &seen {
                            for &b in &reps {
                                let x = c.transition(StateID::new(s), b).as_u32();
                                let v = tab.get(256 + s as usize * k + tab[b as usize] as usize).map(|v| *v as u32);
                                if v != Some(x) {
                                    self.fail(&["C13"], format!("export: state {s} on {b:#x} gives {v:?}, the engine gives {x}"));
                                    return;
                                }
                            }
                        }
                    }
                }
                return;
            }
        }
        let mut before = sl.rx.clone();
        let tab = sl.rx.dfa();
        self.count("exports", 1);
        self.log(sl, RCall::Dfa, vec![V::U(hash_bytes(&tab))]);
        self.ob(Lvl::Id, "dfa", hash_bytes(&tab));
        let k = sl.rx.alpha().len();
        if tab.len() < 256 || (tab.len() - 256) % k != 0 {
            self.fail(&["C13"], format!("exported table has {} bytes for an alphabet of {k}", tab.len()));
            return;
        }
        let n = (tab.len() - 256) / k;
        let at = |s: usize, b: u8| -> Option<usize> {
            let c = tab[b as usize] as usize;
            if c >= k || s >= n {
                return None;
            }
            Some(tab[256 + s * k + c] as usize)
        };
        // known ground, recorded before the export
        for (&(s, b), &x) in &sl.trans {
            if at(s as usize, b) != Some(x as usize) {
                let v = at(s as usize, b);
                self.fail(&["C13"], format!("export: state {s} on {b:#x} gives {v:?}, the engine gave {x}"));
                return;
            }
        }
        // everything reachable, in the original and in a clone taken now
        let mut clone = sl.rx.clone();
        let init = sl.rx.initial_state().as_usize();
        let mut seen = BTreeSet::from([init]);
        let mut todo = vec![(init, sl.dfa.as_ref().map_or(0, |d| d.start))];
        while let Some((s, q)) = todo.pop() {
            if let Some(d) = &sl.dfa.clone() {
                let a = sl.rx.is_accepting(StateID::new(s as u32));
                if a != d.is_acc(q) {
                    self.fail(&["C01"], "accepting state of the export is wrong".into());
                    return;
                }
            }
            for b in 0..=255u8 {
                let Some(x) = at(s, b) else {
                    self.fail(&["C13"], format!("export has no entry for state {s} and byte {b:#x}"));
                    return;
                };
                let y = sl.rx.transition(StateID::new(s as u32), b).as_usize();
                let z = clone.transition(StateID::new(s as u32), b).as_usize();
                if x != y || x != z {
                    self.fail(&["C13"], format!("export: state {s} on {b:#x} gives {x}, the engine {y}, its clone {z}"));
                    return;
                }
                if seen.insert(x) {
                    todo.push((x, sl.dfa.as_ref().map_or(0, |d| d.step(q, b))));
                }
            }
        }
        // a text through the table, the engine, and the engine as it was before
        let (mut s, mut e, mut o) = (init, sl.rx.initial_state(), before.initial_state());
        for &b in t {
            s = at(s, b).unwrap_or(usize::MAX);
            e = sl.rx.transition(e, b);
            o = before.transition(o, b);
            let (a1, a2) = (sl.rx.is_accepting(e), before.is_accepting(o));
            if s != e.as_usize() || a1 != a2 || e.is_dead() != o.is_dead() {
                self.fail(&["C13"], format!("lock-step on {}: table {s}, engine {}, before the export {} (accepting {a1}/{a2})", show(t), e.as_u32(), o.as_u32()));
                return;
            }
        }
        // no answer changed (asked of a copy: answers forgotten before the export are not relearned)
        let mut c = sl.rx.clone();
        for (&s, &v) in sl.acc.clone().iter() {
            if c.is_accepting(StateID::new(s)) != v {
                self.fail(&["C13"], format!("accepting of state {s} changed by the export"));
            }
        }
        for (&s, &v) in sl.hints.clone().iter() {
            if hint_code(c.next_byte(StateID::new(s))) != v {
                self.fail(&["C13"], format!("hint of state {s} changed by the export"));
            }
        }
        for (&s, &v) in sl.looks.clone().iter() {
            if look_code(c.lookahead_len_for_state(StateID::new(s))) != v {
                self.fail(&["C13"], format!("lookahead length of state {s} changed by the export"));
            }
        }
    }

    fn warm(&mut self, sl: &mut RSlot, salt: u64, n: u32) {
        if sl.trans.is_empty() {
            return;
        }
        let mut rng = Rng::new(salt);
        let ents: Vec<(u32, u8, u32)> = sl.trans.iter().map(|(&(s, b), &t)| (s, b, t)).collect();
        let accs: Vec<u32> = sl.acc.keys().copied().collect();
        let looks: Vec<u32> = sl.looks.keys().copied().collect();
        let hints: Vec<u32> = sl.hints.keys().copied().collect();
        // a long input over known ground
        let mut by_state: BTreeMap<u32, Vec<(u8, u32)>> = BTreeMap::new();
        for &(s, b, t) in &ents {
            if t != 0 || rng.pct(2) {
                by_state.entry(s).or_default().push((b, t));
            }
        }
        let mut text = vec![];
        let starts: Vec<u32> = by_state.keys().copied().collect();
        let start = if starts.is_empty() { 0 } else { *rng.pick(&starts) };
        let mut x = start;
        while text.len() < n as usize * 50 {
            match by_state.get(&x) {
                Some(v) => {
                    let (b, t) = *rng.pick(v);
                    text.push(b);
                    x = t;
                }
                None => break,
            }
        }
        let mut walk = |sl: &mut RSlot, seed: u64| {
            let mut rng = Rng::new(seed);
            for _ in 0..n {
                let (s, b, _) = *rng.pick(&ents);
                sl.rx.transition(StateID::new(s), b);
                if !accs.is_empty() {
                    sl.rx.is_accepting(StateID::new(*rng.pick(&accs)));
                }
                if !looks.is_empty() {
                    sl.rx.lookahead_len_for_state(StateID::new(*rng.pick(&looks)));
                }
                if !hints.is_empty() {
                    sl.rx.next_byte(StateID::new(*rng.pick(&hints)));
                }
            }
            sl.rx.transition_bytes(StateID::new(start), &text);
            sl.rx.always_empty();
        };
        let s2 = salt ^ 1;
        if sl.cold {
            let c0 = sl.rx.cost();
            walk(sl, s2);
            if sl.rx.cost() < c0 {
                self.fail(&["C12"], "reported cost fell".into());
            }
            self.count("warm_walks_after_loss", 1);
        }
        let a = (sl.rx.cost(), sl.rx.num_bytes(), sl.rx.stats());
        walk(sl, s2);
        let b = (sl.rx.cost(), sl.rx.num_bytes(), sl.rx.stats());
        self.count("warm_walks", 1);
        self.count("warm_bytes", text.len() as u64);
        if a != b {
            self.fail(&["C12"], format!("walking known ground changed (cost, bytes, stats) from {a:?} to {b:?}"));
        }
        self.ob(Lvl::Cost, "cost", b.0);
    }

    // --------------------------------------------------------------------------- denotation

    fn denote(&mut self, b: u32, x: u32, max: u32, texts: &[Vec<u8>]) {
        let Some(s) = self.builders.get(&b) else { return };
        let Some(e) = s.xs.get(&x) else { return };
        let (er, mo, json) = (e.r, e.m.clone(), e.json.clone());
        let Ok(d) = mo.dfa() else { return };
        let got = guard(|| s.b.to_regex_limited(er, BIG_FUEL));
        self.count("denotations", 1);
        match got {
            Err(e) => self.panicked("to_regex_limited", e),
            Ok(Err(_)) => self.count("too_expensive", 1),
            Ok(Ok(rx)) => {
                let origin = Origin { blog: vec![], x, fuel: None, pattern: None };
                let mut slot = self.mk_rslot(rx, mo, json, origin, None);
                let r = guard(|| {
                    for t in texts {
                        let io = self.fill(t);
                        let v = slot.rx.is_match_bytes(&io);
                        self.io = io;
                        self.ob(Lvl::Lang, "denote", v as u64);
                        if v != d.accepts(t) {
                            self.fail(&["C07"], format!("a handle built earlier: match of {} = {v}, expected {}", show(t), !v));
                            return;
                        }
                    }
                    self.equiv(&mut slot, max, &["C07", "C01"], &["C02", "C10", "C07"]);
                });
                if let Err(e) = r {
                    self.panicked("denotation check", e);
                }
            }
        }
    }

    fn fuel(&mut self, b: u32, x: u32, limits: &[u64]) {
        let Some(s) = self.builders.get(&b) else { return };
        let Some(e) = s.xs.get(&x) else { return };
        let er = e.r;
        let exp = e.m.dfa().ok().map(|d| d.is_empty_lang());
        let base_cost = s.b.exprset().cost();
        let run = |l: u64| guard(|| s.b.to_regex_limited(er, l).map(|mut r| (r.always_empty(), r.cost())));
        let base = match run(BIG_FUEL) {
            Ok(Ok(v)) => v,
            Ok(Err(_)) => {
                self.count("too_expensive", 1);
                return;
            }
            Err(e) => return self.panicked("to_regex_limited", e),
        };
        let full = run(u64::MAX);
        let work = base.1.saturating_sub(base_cost);
        let mut res: Vec<(u64, Option<bool>)> = vec![];
        for &l in limits {
            // thousandths of the work, possibly on top of a power of two
            let l = match l >> 32 {
                k @ 1..=5 => (((l & 0xffff_ffff) * work) / 1000) + [0, 1 << 32, 1 << 33, 1 << 48, 1 << 63][k as usize - 1],
                _ => l,
            };
            match run(l) {
                Ok(Ok((v, _))) => res.push((l, Some(v))),
                Ok(Err(_)) => res.push((l, None)),
                Err(e) => return self.panicked("to_regex_limited", e),
            }
        }
        match full {
            Ok(Ok(v)) => {
                if v.0 != base.0 {
                    self.fail(&["C09"], format!("always_empty = {} with fuel {BIG_FUEL}, {} with unlimited fuel", base.0, v.0));
                }
            }
            Ok(Err(e)) => self.fail(&["C09"], format!("compilation with unlimited fuel failed: {e}")),
            Err(e) => return self.panicked("to_regex_limited", e),
        }
        res.sort();
        for &(l, v) in &res {
            match v {
                None => {
                    self.count("fuel_exhausted", 1);
                    if work <= l {
                        self.fail(&["C09"], format!("fuel {l} was not enough for a compilation whose whole work is {work}"));
                    }
                }
                Some(v) => {
                    self.count("fuel_sufficed", 1);
                    if v != base.0 {
                        self.fail(&["C09"], format!("with fuel {l} always_empty = {v}, with more fuel {}", base.0));
                    }
                }
            }
        }
        if let Some(i) = res.iter().position(|r| r.1.is_some()) {
            if let Some(j) = res[i..].iter().find(|r| r.1.is_none()) {
                let (a, b) = (res[i].0, j.0);
                self.fail(&["C09"], format!("compilation succeeds with fuel {a} and fails with {b}"));
            }
        }
        if let Some(e) = exp {
            if e != base.0 {
                self.fail(&["C02"], format!("always_empty = {}, language empty: {e}", base.0));
            }
        }
        self.ob(Lvl::Cost, "work", work);
    }

    fn deep(&mut self, b: u32, x: u32, ops: &[A], depth: u32, tree: bool) {
        if ops.len() < 2 {
            return;
        }
        let Some(mut s) = self.builders.remove(&b) else { return };
        let flags = s.flags;
        let Ok(base) = eval(&ops[0], &flags, &|_| None) else { return };
        let Ok(d0) = base.dfa() else { return };
        // reference first; levels are collapsed to their automata
        let mut memo: Vec<Vec<(Arc<Dfa>, Arc<Dfa>)>> = vec![vec![]; ops.len()];
        let mut cur = d0;
        for i in 0..depth as usize {
            let k = 1 + i % (ops.len() - 1);
            if let Some((_, n)) = memo[k].iter().find(|(o, _)| *o == cur) {
                cur = n.clone();
                continue;
            }
            let prev = m(Node::Given(Arc::new(DfaBox((*cur).clone()))));
            let Ok(n) = eval(&ops[k], &flags, &|_| Some(prev.clone())) else { return };
            let Ok(n) = n.dfa() else { return };
            if n.n > 200 {
                return;
            }
            if memo[k].len() < 64 {
                memo[k].push((cur.clone(), n.clone()));
            }
            cur = n;
        }
        let got = guard(|| {
            if tree {
                let mut t = to_ast(&ops[0], &|_| None).unwrap();
                for i in 0..depth as usize {
                    let k = 1 + i % (ops.len() - 1);
                    let mut n = to_ast(&ops[k], &|_| Some(ExprRef::INVALID)).unwrap();
                    let mut t0 = Some(t);
                    fill(&mut n, &mut t0);
                    if let Some(t0) = t0 {
                        dismantle(t0);
                    }
                    t = n;
                }
                let r = s.b.mk(&t);
                let _ = format!("{t:?}");
                dismantle(t);
                return r;
            }
            let mut r = s.b.mk(&to_ast(&ops[0], &|_| None).unwrap())?;
            for i in 0..depth as usize {
                let k = 1 + i % (ops.len() - 1);
                r = s.b.mk(&to_ast(&ops[k], &|_| Some(r)).unwrap())?;
            }
            anyhow::Ok(r)
        });
        self.count("deep_levels", depth as u64);
        match got {
            Err(e) => self.panicked("mk", e),
            Ok(Err(e)) => self.fail(&["C16", "C07"], format!("a valid request was refused: {e}")),
            Ok(Ok(r)) => {
                let mut mo = m(Node::Given(Arc::new(DfaBox((*cur).clone()))));
                let e = |a: &A| eval(a, &flags, &|_| Some(base.clone()));
                if let Some(mo) = Arc::get_mut(&mut mo) {
                    // what a JSON string cannot be made of
                    mo.has_bool = ops.iter().any(|a| e(a).map_or(true, |x| x.has_bool));
                    mo.has_prefixes = ops.iter().any(|a| e(a).map_or(true, |x| x.has_prefixes));
                }
                let n = self.viol.is_some();
                let foc = std::mem::take(&mut self.focus);
                // nullability at depth is C16's business here
                self.focus = if foc == "C16" { "C07".into() } else { foc.clone() };
                self.new_expr(&mut s, x, r, mo, None);
                self.focus = foc;
                if !n {
                    if let Some(v) = &mut self.viol {
                        v.props.push("C16");
                    }
                }
                self.builders.insert(b, s);
            }
        }
    }

    /// A builder that has seen many requests.
    fn fill_builder(&mut self, b: u32, n: u32, kind: u8, salt: u64) {
        let Some(mut s) = self.builders.remove(&b) else { return };
        let utf8 = s.flags[0] && s.flags[1];
        let text = |i: u32| -> (RegexAst, String) {
            if kind == 1 && utf8 {
                let i = 0x4e00 + i % 0x5000;
                let c = char::from_u32(i).unwrap();
                let t = c.to_string();
                // a class of two that is the same as none other here
                (RegexAst::Regex(format!("[{c}\\x{{{:x}}}]", 0x20000 + i)), t)
            } else {
                let t = format!("{salt:x}-{i}");
                (RegexAst::Literal(t.clone()), t)
            }
        };
        let n = if kind == 1 { n.min(0x5000) } else { n };
        let got = guard(|| -> anyhow::Result<_> {
            let mut rs = Vec::with_capacity(n as usize);
            for i in 0..n {
                rs.push(s.b.mk(&text(i).0)?);
            }
            let mut bad = vec![];
            let mut ids: Vec<u32> = rs.iter().map(|r| r.as_u32()).collect();
            ids.sort_unstable();
            if let Some(w) = ids.windows(2).find(|w| w[0] == w[1]) {
                bad.push(format!("two of {n} different words got handle {}", w[0]));
            }
            let mut x = salt;
            for k in 0..6 {
                x = mix64(x.wrapping_add(k));
                let i = match k {
                    0 => 0,
                    1 => n - 1,
                    _ => (x >> 16) as u32 % n,
                };
                let mut rx = s.b.to_regex_limited(rs[i as usize], u64::MAX)?;
                let other = text((i + 1 + (x >> 40) as u32 % (n.max(2) - 1)) % n).1;
                let me = text(i).1;
                if !rx.is_match(&me) || (me != other && rx.is_match(&other)) || s.b.is_nullable(rs[i as usize]) {
                    bad.push(format!("request {i} of {n} does not stand for {me:?} any more"));
                }
            }
            Ok((rs.iter().fold(0u64, |h, r| mix64(h ^ r.as_u32() as u64)), bad))
        });
        self.count("mass_requests", n as u64);
        match got {
            Err(e) => self.panicked("mk", e),
            Ok(Err(e)) => self.fail(&["C07"], format!("a valid request was refused: {e}")),
            Ok(Ok((h, bad))) => {
                self.ob(Lvl::Cost, "handles", h);
                if let Some(x) = bad.first() {
                    self.fail(&["C07", "C01"], x.clone());
                }
                self.builders.insert(b, s);
            }
        }
    }

    /// Thousands of words, each the beginning of the next.
    fn ladder(&mut self, b: u32, w: &[u8], n: u32, every: u32, kind: u8, end: u8) {
        let Some(s) = self.builders.get_mut(&b) else { return };
        if w.is_empty() || every == 0 || n == 0 || w.contains(&end) {
            return;
        }
        let (n, every) = (n as usize, every as usize);
        let bld = &mut s.b;
        let at = |i: usize| w[i % w.len()];
        // is there a word after which it stands so
        let word = |len: usize| len > 0 && len % every == 0 && len <= n * every;
        let mut bad = vec![];
        let r = guard(|| -> anyhow::Result<()> {
            let mut v = vec![];
            let mut x = ExprRef::EMPTY_STRING;
            for i in 0..n {
                let mut p = vec![RegexAst::ExprRef(x)];
                p.extend((i * every..(i + 1) * every).map(|i| RegexAst::Byte(at(i))));
                x = bld.mk(&RegexAst::Concat(p))?;
                if kind != 1 {
                    v.push(RegexAst::ExprRef(x));
                }
                if kind != 0 {
                    v.push(RegexAst::Concat(vec![RegexAst::ExprRef(x), RegexAst::Byte(end)]));
                }
            }
            let e = bld.mk(&RegexAst::Or(v))?;
            let shown = bld.exprset().expr_to_string_max_len(e, 1000);
            if shown.is_empty() {
                bad.push("prints as nothing".to_string());
            }
            let mut rx = bld.to_regex_limited(e, u64::MAX)?;
            if rx.always_empty() {
                bad.push("always_empty = true".to_string());
            }
            let mut st = rx.initial_state();
            for len in 0..(every + 2).min(n * every) {
                let acc = rx.is_accepting(st);
                if acc != (kind != 1 && word(len)) {
                    bad.push(format!("after {len} bytes: accepting = {acc}"));
                }
                let ends = kind != 0 && word(len);
                match rx.next_byte(st) {
                    NextByte::ForcedByte(c) if c == at(len) && !acc && !ends => {}
                    NextByte::SomeBytes => {}
                    h => bad.push(format!("after {len} bytes the hint is {h:?}")),
                }
                let e1 = rx.transition(st, end);
                if rx.is_accepting(e1) != ends || e1.is_dead() == ends {
                    bad.push(format!("after {len} bytes and the end mark: {e1:?}"));
                }
                st = rx.transition(st, at(len));
                if st.is_dead() {
                    bad.push(format!("after {} bytes: dead", len + 1));
                    break;
                }
            }
            Ok(())
        });
        self.count("ladders", 1);
        match r {
            Err(e) => self.panicked("ladder", e),
            Ok(Err(e)) => self.fail(&["C16", "C07"], format!("a valid request was refused: {e}")),
            Ok(Ok(())) => {
                if let Some(x) = bad.first() {
                    self.fail(&["C16", "C01"], format!("{n} words, each a beginning of the next: {x}"));
                }
            }
        }
    }

    /// Every word of `a` has its counted part at the head (after `z`), so counting to `n` instead of
    /// `n0` and going `n - n0` steps into it leaves the same thing.
    fn search(&mut self, b: u32, a: &A, n0: u32, n: u32, z: &[u8], tails: &[Vec<u8>]) {
        let Some(s) = self.builders.get_mut(&b) else { return };
        let Ok(d) = eval(a, &s.flags, &|_| None).map_err(|_| ()).and_then(|m| m.dfa().map_err(|_| ())) else { return };
        let by = n.saturating_sub(n0);
        let big = a.raised(n0 / 2, by);
        let Some(ast) = to_ast(&big, &|_| None) else { return };
        let bld = &mut s.b;
        let mut bad = vec![];
        let r = guard(|| -> anyhow::Result<()> {
            let e = bld.mk(&ast)?;
            let mut rx = bld.to_regex(e);
            if rx.always_empty() != !d.is_live(d.start) {
                bad.push(format!("always_empty = {}", rx.always_empty()));
            }
            let s0 = rx.initial_state();
            let s0 = rx.transition_bytes(s0, z);
            let s0 = (0..by).fold(s0, |s, _| rx.transition(s, b'a'));
            let q0 = d.run(d.start, z);
            for t in tails {
                let (mut s, mut q) = (s0, q0);
                for i in 0..=t.len() {
                    let (acc, dead) = (rx.is_accepting(s), s.is_dead());
                    if acc != d.is_acc(q) || dead == d.is_live(q) {
                        bad.push(format!("after {}, {by} x 'a' and {}: accepting = {acc}, dead = {dead}", show(z), show(&t[..i])));
                    }
                    if let NextByte::ForcedByte(f) = rx.next_byte(s) {
                        if d.is_acc(q) || (0..=255u8).any(|c| c != f && d.is_live(d.step(q, c))) {
                            bad.push(format!("after {}, {by} x 'a' and {}: forced byte {f}", show(z), show(&t[..i])));
                        }
                    }
                    if i < t.len() {
                        s = rx.transition(s, t[i]);
                        q = d.step(q, t[i]);
                    }
                }
            }
            Ok(())
        });
        self.count("long_searches", 1);
        self.count("deep_levels", n as u64);
        match r {
            Err(e) => self.panicked("to_regex", e),
            Ok(Err(e)) => self.fail(&["C16", "C07"], format!("a valid request was refused: {e}")),
            Ok(Ok(())) => {
                if let Some(x) = bad.first() {
                    self.fail(&["C16", "C02"], format!("counting to {n}: {x}"));
                }
            }
        }
    }

    // --------------------------------------------------------------------------- components

    fn lnew(&mut self, l: u32, b: u32, xs: &[u32]) {
        let Some(s) = self.builders.get(&b) else { return };
        let es: Vec<&X> = xs.iter().filter_map(|x| s.xs.get(x)).filter(|x| x.json.is_none()).collect();
        if es.is_empty() {
            return;
        }
        let refs: Vec<ExprRef> = es.iter().map(|x| x.r).collect();
        let ms: Vec<M> = es.iter().map(|x| x.m.clone()).collect();
        match guard(|| AlphabetInfo::from_exprset(s.b.exprset(), &refs)) {
            Err(e) => self.panicked("AlphabetInfo::from_exprset", e),
            Ok((alpha, es, roots)) => {
                let dfas: Vec<Option<Arc<Dfa>>> = ms.iter().map(|x| x.dfa().ok()).collect();
                self.count("component_lexers", 1);
                if roots.len() != refs.len() {
                    self.fail(&["C17"], format!("{} roots in, {} out", refs.len(), roots.len()));
                    return;
                }
                let mut members: BTreeMap<usize, Vec<u8>> = BTreeMap::new();
                for c in 0..=255u8 {
                    members.entry(alpha.map(c)).or_default().push(c);
                }
                for (sym, mem) in &members {
                    if *sym >= alpha.len() {
                        self.fail(&["C17"], format!("symbol {sym} of byte {:#x} is outside the alphabet of {}", mem[0], alpha.len()));
                        return;
                    }
                    for (i, d) in dfas.iter().enumerate() {
                        if let Some(d) = d {
                            if let Some(o) = mem.iter().find(|c| d.class[**c as usize] != d.class[mem[0] as usize]) {
                                self.fail(&["C17"], format!("bytes {:#x} and {o:#x} share symbol {sym} but expression {i} tells them apart", mem[0]));
                            }
                        }
                    }
                }
                for sym in 0..alpha.len().min(256) {
                    let mem = members.get(&sym).cloned().unwrap_or_default();
                    if let Some(c) = alpha.inv_map(sym) {
                        if mem != vec![c] {
                            self.fail(&["C17", "C03"], format!("symbol {sym} maps back to {c:#x}, its members are {mem:?}"));
                        }
                    }
                }
                self.ob(Lvl::Cost, "alphabet", alpha.len() as u64);
                if alpha.len() > 32 {
                    self.count("alphabets_over_32", 1);
                }
                if alpha.len() == 256 {
                    self.count("alphabets_of_256", 1);
                }
                let looks: Vec<Option<Arc<LookSpec>>> = ms.iter().map(|x| LookSpec::new(x).and_then(|r| r.ok()).map(Arc::new)).collect();
                let slot = LSlot {
                    odd: ms.iter().zip(&looks).map(|(x, l)| x.has_look && l.is_none()).collect(),
                    q: dfas.iter().map(|d| d.as_ref().map_or(0, |d| d.start)).collect(),
                    track: looks.iter().map(|l| l.as_ref().map(|l| l.start())).collect(),
                    paths: vec![vec![]; roots.len()],
                    bound: vec![i64::MAX >> 1; roots.len()],
                    es,
                    alpha,
                    cur: roots.clone(),
                    roots,
                    dfas,
                    looks,
                    deriv: DerivCache::new(),
                    rel: RelevanceCache::new(),
                    nb: NextByteCache::new(),
                    exhausted: 0,
                };
                self.raws.insert(l, slot);
            }
        }
    }

    fn lstep(&mut self, s: &mut LSlot, i: usize, t: &[u8]) {
        for &b in t {
            let sym = s.alpha.map(b) as u8;
            s.cur[i] = s.deriv.derivative(&mut s.es, s.cur[i], sym);
            s.paths[i].push(b);
            if let Some(d) = &s.dfas[i] {
                s.q[i] = d.step(s.q[i], b);
            }
            if let (Some(l), Some(t)) = (&s.looks[i], &mut s.track[i]) {
                l.step(t, b);
            }
            if s.es.cost() > MAX_COST {
                break;
            }
        }
        self.count("bytes", t.len() as u64);
        self.lask(s, i, 0, None);
    }

    fn lask(&mut self, s: &mut LSlot, i: usize, q: u8, fuel: Option<u64>) {
        self.count("component_queries", 1);
        let d = s.dfas[i].clone();
        let path = s.paths[i].clone();
        match q {
            0 => {
                let v = s.es.is_nullable(s.cur[i]);
                self.ob(Lvl::Lang, "nullable", v as u64);
                if let Some(d) = d {
                    if v != d.is_acc(s.q[i]) {
                        self.fail(&["C17"], format!("expression {i} after {}: residual nullable = {v}, expected {}", show(&path), !v));
                    }
                }
            }
            1 => {
                let c0 = s.es.cost();
                let f = fuel.unwrap_or(BIG_FUEL);
                if f > BIG_FUEL && s.rel.clone().is_non_empty_limited(&mut s.es.clone(), s.cur[i], BIG_FUEL).is_err() {
                    self.count("too_expensive", 1);
                    return;
                }
                let got = s.rel.is_non_empty_limited(&mut s.es, s.cur[i], f);
                let work = s.es.cost() - c0;
                match got {
                    Err(_) => {
                        self.count(if fuel.is_some() { "fuel_exhausted" } else { "too_expensive" }, 1);
                        s.exhausted += 1;
                        if work <= f {
                            self.fail(&["C09"], format!("non-emptiness query failed after work {work} with fuel {f}"));
                        }
                    }
                    Ok(v) => self.lverdict(s, i, v, fuel.is_some(), work),
                }
            }
            6 => {
                // growing limits until it succeeds
                let mut f = fuel.unwrap_or(1);
                for n in 0..80 {
                    let c0 = s.es.cost();
                    let got = s.rel.is_non_empty_limited(&mut s.es, s.cur[i], f);
                    let work = s.es.cost() - c0;
                    match got {
                        Ok(v) => {
                            self.count(if n > 0 { "retried_to_success" } else { "fuel_sufficed" }, 1);
                            self.lverdict(s, i, v, true, work);
                            return;
                        }
                        Err(_) => {
                            s.exhausted += 1;
                            self.count("fuel_exhausted", 1);
                            if work <= f {
                                self.fail(&["C09"], format!("non-emptiness query failed after work {work} with fuel {f}"));
                                return;
                            }
                            if f == u64::MAX {
                                self.fail(&["C09"], "non-emptiness query with unlimited fuel failed".into());
                                return;
                            }
                        }
                    }
                    if s.es.cost() > MAX_COST {
                        self.count("too_expensive", 1);
                        return;
                    }
                    f = f.saturating_mul(2).max(f.saturating_add(1));
                    if n > 50 {
                        f = u64::MAX;
                    }
                }
                self.fail(&["C09"], "non-emptiness query did not succeed with growing fuel".into());
            }
            2 => {
                let v = s.nb.next_byte(&s.es, s.cur[i]);
                let back = match v {
                    NextByte::ForcedByte(c) => s.alpha.inv_map(c as usize).map_or(1000, |b| b as u64),
                    _ => hint_code(v),
                };
                self.ob(Lvl::Id, "hint", back);
                let Some(d) = d else { return };
                let qq = s.q[i];
                let bad = match v {
                    NextByte::SomeBytes => false,
                    NextByte::Dead => d.is_live(qq),
                    NextByte::ForcedEOI => !d.is_acc(qq) || (0..=255u8).any(|b| d.is_live(d.step(qq, b))),
                    NextByte::ForcedByte(c) => {
                        d.is_acc(qq) || (0..=255u8).any(|b| s.alpha.map(b) != c as usize && d.is_live(d.step(qq, b)))
                    }
                };
                if bad {
                    self.fail(&["C17", "C03"], format!("expression {i} after {}: component hint {v:?} is unsound", show(&path)));
                }
            }
            3 | 5 => {
                if q == 5 {
                    let p = s.es.possible_lookahead_len(s.cur[i]);
                    self.ob(Lvl::Cost, "possible", p as u64);
                    s.bound[i] = s.bound[i].min(p as i64 - path.len() as i64);
                    if !s.odd[i] && p > path.len() {
                        self.fail(&["C17", "C04"], format!("expression {i} after {}: a lookahead of {p} is said to be possible", show(&path)));
                    }
                }
                if !s.es.is_nullable(s.cur[i]) || s.odd[i] {
                    return;
                }
                let v = s.es.lookahead_len(s.cur[i]).unwrap_or(0);
                self.ob(Lvl::Lang, "lookahead", v as u64);
                let exp = match (&s.looks[i], &s.track[i]) {
                    (Some(l), Some(t)) => l.len(t),
                    _ => Some(0),
                };
                if v as i64 > s.bound[i] + path.len() as i64 {
                    self.fail(&["C17", "C04"], format!("expression {i} after {}: lookahead {v}, but at an earlier point at most {} was said to be possible for this point", show(&path), s.bound[i] + path.len() as i64));
                }
                if d.is_some() && exp != Some(v) {
                    self.fail(&["C17", "C04"], format!("expression {i} after {}: lookahead {v}, expected {exp:?}", show(&path)));
                }
            }
            _ => {
                let t = s.es.expr_to_string_max_len(s.cur[i], 120);
                self.obs_s(Lvl::Cost, "print", t);
            }
        }
    }

    fn lverdict(&mut self, s: &LSlot, i: usize, v: bool, limited: bool, work: u64) {
        if limited {
            self.count("fuel_sufficed", 1);
        }
        self.ob(if limited { Lvl::Cost } else { Lvl::Lang }, "non_empty", v as u64);
        self.ob(Lvl::Cost, "work", work);
        if let Some(d) = &s.dfas[i] {
            if v != d.is_live(s.q[i]) {
                let mut p = vec!["C17"];
                if s.exhausted > 0 || limited {
                    p.push("C09");
                }
                self.fail(&p, format!("expression {i} after {}: non-empty = {v}, expected {} ({} exhausted queries before)", show(&s.paths[i]), !v, s.exhausted));
            }
        }
    }

    fn lcache(&mut self, s: &mut LSlot, cache: u8, op: u8, _pct: u8, _salt: u64) {
        self.count("component_cache_changes", 1);
        match (cache, op) {
            (0, 0) => s.deriv = DerivCache::new(),
            (1, 0) => s.rel = RelevanceCache::new(),
            (2, 0) => s.nb = NextByteCache::new(),
            (0, 1) => s.deriv = s.deriv.clone(),
            (1, 1) => s.rel = s.rel.clone(),
            (2, 1) => s.nb = s.nb.clone(),
            _ => {
                #[cfg(derivre_sim)]
                {
                    let mut n = 0;
                    let mut f = |_m: derivre::sim::Memo, a: u32, b: u32| {
                        let x = mix64(_salt ^ (a as u64) << 20 ^ b as u64) % 100 < _pct as u64;
                        n += x as u64;
                        x
                    };
                    match cache {
                        0 => s.deriv.sim_forget(&mut f),
                        1 => s.rel.sim_forget(&mut f),
                        _ => s.nb.sim_forget(&mut f),
                    }
                    self.count("entries_lost", n);
                }
            }
        }
    }

    // --------------------------------------------------------------------------- interning

    fn hins(&mut self, h: u32, parts: &[Vec<u32>], style: u8) {
        let Some(mut s) = self.tabs.remove(&h) else { return };
        let v: Vec<u32> = parts.concat();
        let got = guard(|| {
            match style {
                0 => return Ok(s.t.insert(&v)),
                1 => s.t.start_insert(),
                _ => {
                    s.t.start_insert();
                    let n = s.t.len();
                    let again = guard(|| s.t.start_insert());
                    if again.is_ok() {
                        return Err("a second start_insert() was not refused".to_string());
                    }
                    if s.t.len() != n {
                        return Err("a refused start_insert() changed the length".to_string());
                    }
                }
            }
            for p in parts {
                if p.len() == 1 {
                    s.t.push_u32(p[0]);
                } else {
                    s.t.push_slice(p);
                }
            }
            Ok(s.t.finish_insert())
        });
        self.count("insertions", 1);
        if style == 2 {
            self.count("refused_double_starts", 1);
        }
        match got {
            Err(e) => return self.panicked("VecHashCons insertion", e),
            Ok(Err(e)) => return self.fail(&["C14"], e),
            Ok(Ok(id)) => {
                self.ob(Lvl::Lang, "id", id as u64);
                let exp = match s.ids.get(&v) {
                    Some(x) => {
                        self.count("insertions_repeated", 1);
                        *x
                    }
                    None => {
                        let x = s.elts.len() as u32;
                        s.ids.insert(v.clone(), x);
                        s.elts.push(v.clone());
                        x
                    }
                };
                if id != exp {
                    self.fail(&["C14"], format!("inserting {v:?} returned id {id}, expected {exp}"));
                }
                let l = s.t.len();
                if l != s.elts.len() {
                    self.fail(&["C14"], format!("length {l}, expected {}", s.elts.len()));
                }
                self.tabs.insert(h, s);
            }
        }
    }

    /// a table is copied while a vector is being pushed into it; both go on
    fn hmid(&mut self, h: u32, to: u32, parts: &[Vec<u32>], v1: &[u32], v2: &[u32]) {
        if self.tabs.contains_key(&to) || h == to {
            return;
        }
        let Some(mut s) = self.tabs.remove(&h) else { return };
        let done = parts.concat();
        let got = guard(|| {
            s.t.start_insert();
            for p in parts {
                if p.len() == 1 {
                    s.t.push_u32(p[0]);
                } else {
                    s.t.push_slice(p);
                }
            }
            let mut c = s.t.clone();
            s.t.push_slice(v1);
            c.push_slice(v2);
            let (a, b) = (s.t.finish_insert(), c.finish_insert());
            (c, a, b)
        });
        self.count("clones_midway", 1);
        let (c, a, b) = match got {
            Err(e) => return self.panicked("VecHashCons insertion around a clone", e),
            Ok(x) => x,
        };
        let mut o = HSlot { t: c, elts: s.elts.clone(), ids: s.ids.clone() };
        for (slot, id, more) in [(&mut s, a, v1), (&mut o, b, v2)] {
            let v = [&done[..], more].concat();
            let exp = *slot.ids.entry(v.clone()).or_insert_with(|| {
                slot.elts.push(v.clone());
                slot.elts.len() as u32 - 1
            });
            self.ob(Lvl::Lang, "id", id as u64);
            if id != exp || slot.t.len() != slot.elts.len() || slot.t.get(id) != &v[..] {
                self.fail(&["C14"], format!("inserting {v:?} around a clone returned id {id} reading {:?}, expected {exp}", slot.t.get(id)));
                return;
            }
        }
        self.tabs.insert(h, s);
        self.tabs.insert(to, o);
    }

    fn hcheck(&mut self, h: u32) {
        let Some(s) = self.tabs.get(&h) else { return };
        let n = s.elts.len() as u32;
        let mut bad = None;
        let r = guard(|| {
            for (i, e) in s.elts.iter().enumerate() {
                if s.t.get(i as u32) != &e[..] {
                    bad = Some(format!("id {i} reads back {:?}, inserted {e:?}", s.t.get(i as u32)));
                    return;
                }
            }
            for i in [0, n / 2, n.wrapping_sub(1), n, n + 1, u32::MAX] {
                if s.t.is_valid(i) != (i < n) {
                    bad = Some(format!("is_valid({i}) = {} with {n} elements", s.t.is_valid(i)));
                    return;
                }
            }
            if guard(|| s.t.get(n).len()).is_ok() {
                bad = Some(format!("get({n}) did not panic with {n} elements"));
            }
        });
        self.count("table_checks", 1);
        if let Err(e) = r {
            self.panicked("VecHashCons::get", e);
        } else if let Some(b) = bad {
            self.fail(&["C14"], b);
        }
    }

    // --------------------------------------------------------------------------- callbacks, noise

    fn map_err(&mut self, a: &A, n: u32) {
        struct T {
            kids: Vec<T>,
            id: u32,
        }
        fn tree(a: &A, next: &mut u32) -> T {
            let kids = a.kids().iter().map(|k| tree(k, next)).collect();
            let id = *next;
            *next += 1;
            T { kids, id }
        }
        fn fold(t: &T) -> u64 {
            t.kids.iter().fold(t.id as u64 + 1, |x, k| mix64(x ^ fold(k)))
        }
        let mut size = 0;
        let t = tree(a, &mut size);
        let mut calls = vec![];
        let mut after_err = false;
        let got = guard(|| {
            derivre::map_ast(
                &t,
                |t: &T| &t.kids[..],
                |t: &T, args: Vec<u64>| {
                    if calls.last() == Some(&u32::MAX) {
                        after_err = true;
                    }
                    if t.id == n {
                        calls.push(u32::MAX);
                        anyhow::bail!("simulated failure at node {}", t.id)
                    }
                    calls.push(t.id);
                    Ok(args.iter().fold(t.id as u64 + 1, |x, k| mix64(x ^ k)))
                },
            )
        });
        self.count("callback_runs", 1);
        match got {
            Err(e) => self.panicked("map_ast", e),
            Ok(Ok(v)) => {
                if n < size {
                    self.fail(&["C08"], "an error of the mapping callback was swallowed".into());
                } else if v != fold(&t) {
                    self.fail(&["C08"], "map_ast combined the results in the wrong order".into());
                }
                self.ob(Lvl::Lang, "map", v);
            }
            Ok(Err(e)) => {
                self.count("refusals", 1);
                self.refused.push(self.step);
                self.ob(Lvl::Lang, "refused", 1);
                if n >= size || after_err || !e.to_string().contains("simulated failure") {
                    self.fail(&["C08"], format!("mapping callback: {e}, called again after its error: {after_err}"));
                }
            }
        }
    }

    /// unrelated work: other builders, regexes and tables in the same process and thread
    fn noise(&mut self, seed: u64, n: u32) {
        let mut rng = Rng::new(seed);
        self.count("noise", 1);
        let kind = rng.below(8);
        let n = n as usize;
        let r = guard(|| {
            let mut b = RegexBuilder::new();
            let pats = ["a+b?c*", "[0-9]+(\\.[0-9]+)?", "(foo|bar|fob)*", "\\w+", "x{2,5}y", "a*(?P<stop>ab?c)"];
            let p = *rng.pick(&pats);
            let e = b.mk_regex(p).unwrap();
            let mut r = b.to_regex(e);
            match kind {
                0 => {
                    // alternations with shared heads
                    for i in 0..n {
                        let _ = b.mk_regex(&format!("foo{i}x|foo{i}y|bar{i}"));
                    }
                }
                1 => {
                    for i in 0..n / 40 + 1 {
                        b.case_insensitive(i % 2 == 0).unicode(true);
                        let lo = 0x100 + rng.below(0x3000) as u32;
                        let _ = b.mk_regex(&format!("[\\x{{{lo:x}}}-\\x{{{:x}}}]+", lo + rng.below(900) as u32));
                        if i % 16 == 15 {
                            b = RegexBuilder::new();
                        }
                    }
                }
                2 => {
                    let esc = ["nrbtf\\\"u", "nrbtf\\\"", "u", "n"];
                    for i in 0..n / 20 + 1 {
                        let o = JsonQuoteOptions { allowed_escapes: rng.pick(&esc).to_string(), raw_mode: i % 2 == 0 };
                        let e = b.mk_regex(&format!("[ -~\\n]{{{}}}x", i % 7)).unwrap();
                        let _ = b.json_quote(e, &o);
                    }
                }
                3 => {
                    for i in 0..n / 40 + 1 {
                        let _ = b.is_contained_in(&format!("a{{{}}}b", i % 9), "a*b|c", rng.below(200) as u64);
                        let _ = b.mk_regex("x\\\\by(");
                        let _ = b.mk_regex(r"x\by");
                    }
                }
                4 => {
                    let mut t = VecHashCons::new();
                    for i in 0..n as u32 * 4 {
                        t.insert(&[i % 97, i / 3, 7][..rng.below(4)]);
                    }
                }
                5 => {
                    for i in 0..n / 60 + 1 {
                        let mut r = Regex::new(&format!("(?:a|b){{{}}}c|d", i % 20)).unwrap();
                        let s = r.initial_state();
                        let s = r.transition_bytes(s, b"abab");
                        r.next_byte(s);
                        r.lookahead_len_for_state(s);
                        if i % 8 == 0 {
                            r.dfa();
                        }
                        self.keep_some(r);
                    }
                }
                _ => {
                    for _ in 0..n {
                        let t: Vec<u8> = (0..rng.below(12)).map(|_| *rng.pick(b"abcxy019.foor")).collect();
                        r.is_match_bytes(&t);
                    }
                }
            }
            r
        });
        if let Ok(r) = r {
            if rng.pct(50) {
                self.keep_some(r);
            }
        }
    }
    fn keep_some(&mut self, r: Regex) {
        if self.keep.len() < 30 {
            self.keep.push(r);
        }
    }
}

impl RSlot {
    pub fn knows(&self, sid: StateID) -> bool {
        self.sidq.get(sid.as_usize()).map_or(false, |q| *q != u32::MAX) || sid.is_dead()
    }
}

enum MkReq<'a> {
    Ast(&'a A),
    Rx(&'a str),
    Cont(&'a A, &'a A),
}

/// certainly contains and/not/prefixes after any simplification
fn surely_bool(mo: &M) -> bool {
    let plain = |x: &M| match &x.node {
        Node::Bytes(b) => b.len() >= 2,
        _ => false,
    };
    match &mo.node {
        Node::Not(x) => plain(x),
        Node::Prefixes(x) => plain(x),
        Node::And(v) => v.len() == 2 && v[0] != v[1] && plain(&v[0]) && matches!(&v[1].node, Node::Repeat(x, 1, None) if matches!(x.node, Node::Set(_) | Node::Bytes(_))),
        Node::Concat(v) => v.iter().any(surely_bool) && v.iter().all(|x| surely_bool(x) || plain(x)),
        Node::Repeat(x, _, max) => max.map_or(true, |m| m > 0) && surely_bool(x),
        _ => false,
    }
}

pub fn evict(rx: &mut Regex, mask: u8, pct: u8, salt: u64) -> u64 {
    let _ = (&rx, mask, pct, salt);
    #[allow(unused_mut)]
    let mut n = 0;
    #[cfg(derivre_sim)]
    {
        use derivre::sim::Memo;
        rx.sim_forget(&mut |k, a, b| {
            let bit = match k {
                Memo::Transition => 0,
                Memo::LookaheadLen => 1,
                Memo::StateNextByte => 2,
                Memo::Deriv => 3,
                Memo::Relevance => 4,
                Memo::SymDeriv => 5,
                Memo::NextByte => 6,
            };
            let x = mask >> bit & 1 == 1 && mix64(salt ^ (a as u64) << 24 ^ (b as u64) << 8 ^ bit) % 100 < pct as u64;
            n += x as u64;
            x
        });
    }
    n
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = b.len() as u64;
    for c in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h = mix64(h ^ u64::from_le_bytes(w));
    }
    h
}

pub fn show(t: &[u8]) -> String {
    if t.len() > 60 {
        format!("\"{}\"...({} bytes)", t[..60].escape_ascii(), t.len())
    } else {
        format!("\"{}\"", t.escape_ascii())
    }
}

pub fn distinguish(d: &Dfa, a: u32, b: u32) -> Option<Vec<u8>> {
    let mut seen = BTreeSet::from([(a, b)]);
    let mut todo = std::collections::VecDeque::from([((a, b), vec![])]);
    while let Some(((x, y), p)) = todo.pop_front() {
        if d.is_acc(x) != d.is_acc(y) {
            return Some(p);
        }
        for c in 0..d.k {
            let byte = (0..=255u8).find(|b| d.class[*b as usize] as usize == c).unwrap();
            let n = (d.step(x, byte), d.step(y, byte));
            if seen.insert(n) {
                let mut p2 = p.clone();
                p2.push(byte);
                todo.push_back((n, p2));
            }
            if seen.len() > 5000 {
                return None;
            }
        }
    }
    None
}

pub fn builder_of(st: &Step) -> Option<u32> {
    match st {
        Step::Flag { b, .. }
        | Step::Mk { b, .. }
        | Step::MkRegex { b, .. }
        | Step::Nullable { b, .. }
        | Step::Forced { b, .. }
        | Step::Print { b, .. }
        | Step::ContIn { b, .. }
        | Step::IsCont { b, .. }
        | Step::Fill { b, .. }
        | Step::Json { b, .. } => Some(*b),
        _ => None,
    }
}

pub fn step_kind(st: &Step) -> u64 {
    // kind and labels, not payloads: the shape of the interleaving
    let (k, a, b): (u64, u32, u32) = match st {
        Step::BNew { b } => (1, *b, 0),
        Step::BClone { b, from } => (2, *b, *from),
        Step::BDrop { b } => (3, *b, 0),
        Step::Flag { b, f, .. } => (4, *b, *f as u32),
        Step::Mk { b, .. } => (5, *b, 0),
        Step::MkRegex { b, .. } => (6, *b, 0),
        Step::Nullable { b, .. } => (7, *b, 0),
        Step::Forced { b, .. } => (8, *b, 0),
        Step::Print { b, .. } => (9, *b, 0),
        Step::ContIn { b, .. } => (10, *b, 0),
        Step::IsCont { b, .. } => (11, *b, 0),
        Step::Json { b, .. } => (12, *b, 0),
        Step::BForget { b } => (13, *b, 0),
        Step::Compile { b, r, .. } => (14, *b, *r),
        Step::Fuel { b, .. } => (15, *b, 0),
        Step::Denote { b, .. } => (16, *b, 0),
        Step::Deep { b, depth, .. } => (17, *b, *depth),
        Step::Search { b, n, .. } => (55, *b, *n),
        Step::Ladder { b, n, .. } => (56, *b, *n),
        Step::RNew { r, .. } => (18, *r, 0),
        Step::RClone { r, from } => (19, *r, *from),
        Step::RDrop { r } => (20, *r, 0),
        Step::Evict { r, mask, .. } => (21, *r, *mask as u32),
        Step::REmpty { r } => (22, *r, 0),
        Step::RMatch { r, .. } => (23, *r, 0),
        Step::RStats { r } => (24, *r, 0),
        Step::RDfa { r, .. } => (25, *r, 0),
        Step::RWarm { r, .. } => (26, *r, 0),
        Step::RAudit { r } => (27, *r, 0),
        Step::REquiv { r, .. } => (28, *r, 0),
        Step::SOpen { s, r } => (29, *s, *r),
        Step::SAdv { s, t, chunk } => (30, *s, (t.len() as u32) << 1 | *chunk as u32),
        Step::SPump { s, .. } => (31, *s, 0),
        Step::SAsk { s, q } => (32, *s, *q as u32),
        Step::SFork { s, from } => (33, *s, *from),
        Step::SRewind { s, n } => (34, *s, *n),
        Step::SMove { s, r } => (35, *s, *r),
        Step::SRecover { s, r } => (36, *s, *r),
        Step::SClose { s } => (37, *s, 0),
        Step::LNew { l, xs, .. } => (38, *l, xs.len() as u32),
        Step::LStep { l, i, .. } => (39, *l, *i),
        Step::LReset { l, i } => (40, *l, *i),
        Step::LAsk { l, i, q, .. } => (41, *l << 8 | *q as u32, *i),
        Step::LCache { l, cache, op, .. } => (42, *l, (*cache as u32) << 8 | *op as u32),
        Step::HNew { h } => (43, *h, 0),
        Step::HClone { h, from } => (44, *h, *from),
        Step::HIns { h, v } => (45, *h, v.len() as u32),
        Step::HInc { h, parts } => (46, *h, parts.len() as u32),
        Step::HDouble { h, .. } => (47, *h, 0),
        Step::HMid { h, to, .. } => (54, *h, *to),
        Step::HCheck { h } => (48, *h, 0),
        Step::HDrop { h } => (49, *h, 0),
        Step::MapErr { n, .. } => (50, *n, 0),
        Step::Hop { t } => (51, *t as u32, 0),
        Step::Noise { .. } => (52, 0, 0),
        Step::Probe { b, .. } => (53, *b, 0),
        Step::Fill { b, n, .. } => (55, *b, *n),
    };
    mix64(k << 56 ^ (a as u64) << 28 ^ b as u64)
}
