//! Generators: expressions, patterns, texts.
use crate::refmodel::*;
use crate::script::A;
use crate::seams::Rng;
use crate::world::{eval, DEFAULT_FLAGS};
use std::sync::Arc;

pub struct Gen {
    pub rng: Rng,
    /// letters of this run
    pub letters: Vec<char>,
    pub max_states: usize,
    /// `tiny` uses one letter only: fewer shapes, so each comes up more often
    pub mono: bool,
    classes: Vec<Vec<(u32, u32)>>,
}

pub const PATTERNS: &[&str] = &[
    "[a-zA-Z_][a-zA-Z0-9_]*",
    "[0-9]+",
    "-?(0|[1-9][0-9]*)(\\.[0-9]+)?([eE][+-]?[0-9]+)?",
    "\"([^\"\\\\\\x00-\\x1f]|\\\\[\"\\\\bfnrt/]|\\\\u[0-9a-fA-F]{4})*\"",
    "/\\*([^*]|\\*+[^*/])*\\*+/",
    "//[^\\n]*\\n",
    "[ \\t\\r\\n]+",
    "0x[0-9a-fA-F]{1,8}",
    "\\d{4}-\\d{2}-\\d{2}",
    "[a-z]+@[a-z]+\\.(com|org|net)",
    "(true|false|null)",
    "(if|then|else|elif|while|for|function|fun|forall|return)",
    "\\w+",
    "[^a]*",
    ".*",
    "(?s:.*)",
    "(?i:select|from|where)",
    "[α-ω]+",
    "é|è|ê",
    "\\p{Greek}+|[a-c]",
    "[^\\x00-\\x7f]",
    "(a|b)*abb",
    "(ab|ba)*",
    "a?b?c?d?",
    "(a{2,3}b?){1,3}",
    "^abc$",
    "a*b*c*",
    "(aa|aaa)*",
    "[a-f]{3}x|[d-h]{3}y",
    "",
    "(|a)b",
    "x*?y+?",
    "(?:a(?:b(?:c(?:d)?)?)?)?",
    "[\\x00-\\x7f]*",
    "\\u{10FFFF}|\\u{800}|\\u{7ff}|\\u{ffff}",
];

pub const LOOK_PATTERNS: &[&str] = &[
    "[abx]*(?P<stop>[xq]*y)",
    "a(?P<stop>b)",
    "a*(?P<stop>ab)",
    "(ab)*(?P<stop>(ba)*c)",
    "a+(?P<stop>aa)",
    "(?P<stop>b)",
    "[a-c]*(?P<stop>c+d)",
    "a(?P<stop>b)|ab(?P<stop>c)",
    "a*(?P<stop>aab)|(?P<stop>a*ab)",
    "(a|b)*(?P<stop>a(a|b)a)",
    "x(?P<stop>y*z)|xy(?P<stop>y*z)",
    "a(?P<stop>b*)",
    "\\w*(?P<stop>[ .]x*)",
    "a{0,3}(?P<stop>a{2})",
    "(foo|fo)(?P<stop>o*bar)",
];

/// what the library has to refuse
pub const BAD_PATTERNS: &[&str] = &[
    "(", ")", "[a", "a{2", "*a", "a**b)", "(?P<x", "\\", "[z-a]", "a{3,2}", "(?P<stop>a", "\\p{Nope}",
    "a\\bb", "a^b", "a$b", "(?m:^a)", "(?m)^abc$", "\\Bx", "(ab$)*", "(^a)+", "x(^)", "(a$)b", "a|b^c", "(?-u:\\xff)", "\\b", "[a-z]+\\b",
    "(foo$|bar)x", "(a|b^)*", "((^a)?b)*",
];

impl Gen {
    pub fn new(mut rng: Rng) -> Gen {
        let sets: [&[char]; 8] = [
            &['a', 'b'],
            &['a', 'b', 'c'],
            &['a', 'b', '\n'],
            &['0', '1', 'x', '.'],
            &['a', 'é', '☃'],
            &['x', 'y', '"', '\\'],
            &['a', 'b', 'c', 'd', 'e'],
            &['a', '\u{7f}', '\u{1}', '\u{80}', '\u{ffff}'],
        ];
        let w = [30, 30, 8, 8, 8, 5, 8, 3];
        let letters = sets[rng.weighted(&w)].to_vec();
        Gen { rng, letters, max_states: 250, mono: false, classes: vec![] }
    }

    fn letter(&mut self) -> char {
        *self.rng.pick(&self.letters.clone())
    }
    fn word(&mut self, lo: usize, hi: usize) -> String {
        let n = self.rng.range(lo, hi);
        (0..n).map(|_| self.letter()).collect()
    }
    pub fn byte(&mut self) -> u8 {
        match self.rng.weighted(&[80, 10, 10]) {
            0 => {
                let c = self.letter();
                let mut b = [0; 4];
                let s = c.encode_utf8(&mut b).as_bytes();
                *self.rng.pick(s)
            }
            1 => *self.rng.pick(&[0u8, 9, 10, 13, 0x1f, 0x20, b'"', b'\\', 0x7f, 0x80, 0xc3, 0xff]),
            _ => self.rng.below(256) as u8,
        }
    }
    pub fn set(&mut self) -> Vec<u32> {
        let mut w = vec![0u32; 8];
        let mut put = |b: u8| w[b as usize / 32] |= 1 << (b % 32);
        match self.rng.weighted(&[50, 20, 15, 10, 5]) {
            0 => {
                for _ in 0..self.rng.range(1, 3) {
                    let c = *self.rng.pick(&self.letters);
                    let mut b = [0; 4];
                    for x in c.encode_utf8(&mut b).bytes() {
                        put(x);
                    }
                }
            }
            1 => {
                let a = self.rng.below(256);
                let z = (a + self.rng.below(40)).min(255);
                for b in a..=z {
                    put(b as u8);
                }
            }
            2 => {
                // complement of a few
                let skip: Vec<u8> = (0..self.rng.range(0, 3)).map(|_| self.rng.below(256) as u8).collect();
                let l: Vec<u8> = self.letters.iter().filter(|c| c.is_ascii()).map(|c| *c as u8).collect();
                let one = l.first().copied().unwrap_or(b'a');
                for b in 0..=255u8 {
                    if !skip.contains(&b) && b != one {
                        put(b);
                    }
                }
            }
            3 => {
                for b in 0..=255u8 {
                    if self.rng.pct(50) {
                        put(b);
                    }
                }
            }
            _ => {
                if self.rng.pct(50) {
                    for b in 0..=255u8 {
                        put(b);
                    }
                }
            }
        }
        w
    }

    /// anything; `bools` how many and/not/prefixes may be used
    pub fn ast(&mut self, depth: u32, bools: &mut u32, refs: &[u32], pre_ok: bool) -> A {
        let leaf = depth == 0 || self.rng.pct(18);
        if leaf {
            let w = [30, 16, 12, 12, 3, 2, 14, if refs.is_empty() { 0 } else { 40 }, 5];
            return match self.rng.weighted(&w) {
                0 => A::Lit(self.word(0, 4)),
                1 => A::Byte(self.byte()),
                2 => A::Set(self.set()),
                3 => A::Rx(self.pattern(1)),
                4 => A::Eps,
                5 => A::Nil,
                6 => {
                    let n = self.rng.range(0, 3);
                    A::Bytes((0..n).map(|_| self.byte()).collect())
                }
                7 => A::Ref(*self.rng.pick(refs)),
                _ => A::Rx("(?s:.)*".into()),
            };
        }
        let b = if *bools > 0 { 14 } else { 0 };
        let p = if *bools > 0 && pre_ok { 8 } else { 0 };
        match self.rng.weighted(&[30, 26, 22, b, b, p]) {
            0 => {
                let n = self.rng.range(1, 4);
                A::Cat((0..n).map(|_| self.ast(depth - 1, bools, refs, pre_ok)).collect())
            }
            1 => {
                let n = self.rng.range(1, 4);
                A::Or((0..n).map(|_| self.ast(depth - 1, bools, refs, pre_ok)).collect())
            }
            2 => {
                let (a, z) = *self.rng.pick(&[
                    (0, None),
                    (0, None),
                    (1, None),
                    (0, Some(1)),
                    (2, Some(2)),
                    (0, Some(3)),
                    (1, Some(3)),
                    (2, None),
                    (3, Some(5)),
                    (0, Some(0)),
                    (1, Some(1)),
                ]);
                A::Rep(Box::new(self.ast(depth - 1, bools, refs, pre_ok)), a, z)
            }
            3 => {
                *bools -= 1;
                let n = self.rng.range(1, 3);
                A::And((0..n).map(|_| self.ast(depth - 1, bools, refs, pre_ok)).collect())
            }
            4 => {
                *bools -= 1;
                A::Not(Box::new(self.ast(depth - 1, bools, refs, pre_ok)))
            }
            _ => {
                *bools -= 1;
                // see known_findings.txt: prefixes of and/not
                A::Pre(Box::new(self.ast(depth - 1, &mut 0, &[], false)))
            }
        }
    }

    fn esc(c: char) -> String {
        match c {
            '\n' => "\\n".into(),
            '"' => "\"".into(),
            c if "\\.+*?()|[]{}^$#&-~ ".contains(c) => format!("\\{c}"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => format!("\\x{:02x}", c as u32),
            c => c.to_string(),
        }
    }

    /// a small regular expression in the string syntax
    pub fn pattern(&mut self, depth: u32) -> String {
        if self.rng.pct(8) {
            return self.rng.pick(PATTERNS).to_string();
        }
        self.pat(depth + 1)
    }
    fn pat(&mut self, depth: u32) -> String {
        if depth == 0 || self.rng.pct(15) {
            return match self.rng.weighted(&[50, 20, 8, 6, 4, 3, 5]) {
                6 => self.big_class(),
                0 => self.word(1, 3).chars().map(Self::esc).collect(),
                1 => {
                    let mut s = String::from(if self.rng.pct(25) { "[^" } else { "[" });
                    for _ in 0..self.rng.range(1, 3) {
                        let c = self.letter();
                        s += &Self::esc(c);
                    }
                    if self.rng.pct(20) {
                        s += "a-d";
                    }
                    s + "]"
                }
                2 => ".".into(),
                3 => self.rng.pick(&["\\d", "\\w", "\\s", "(?s:.)", "[^\\n]", "\\D", "[^\"]", "[^\\\\]", "[^\"\\\\]", "[^\\x00-\\x1f]", "[\\x00-\\x7f]", "[^\\n\"]", "[\\x00-!]"]).to_string(),
                4 => "(?i:aB)".into(),
                _ => "()".into(),
            };
        }
        match self.rng.weighted(&[40, 25, 30, 3]) {
            0 => {
                let n = self.rng.range(1, 3);
                (0..n)
                    .map(|_| {
                        let s = self.pat(depth - 1);
                        if s.contains('|') {
                            format!("(?:{s})")
                        } else {
                            s
                        }
                    })
                    .collect()
            }
            1 => {
                let n = self.rng.range(2, 4);
                (0..n).map(|_| self.pat(depth - 1)).collect::<Vec<_>>().join("|")
            }
            2 => {
                let s = self.pat(depth - 1);
                let q = *self.rng.pick(&["*", "+", "?", "{2}", "{1,3}", "{0,2}", "{2,}", "*?", "+?", "{0}"]);
                if self.rng.pct(50) {
                    format!("({s}){q}")
                } else {
                    format!("(?:{s}){q}")
                }
            }
            _ => format!("(?i:{})", self.pat(depth - 1)),
        }
    }

    /// a class of many ranges, often a near twin of an earlier one
    fn big_class(&mut self) -> String {
        if self.rng.pct(20) {
            return self
                .rng
                .pick(&["\\pL", "\\p{Alphabetic}", "\\p{Greek}", "\\p{Lu}", "\\p{Ll}", "[\\pL--a]", "[\\pL--\\p{Han}]", "\\p{Cyrillic}", "[^\\pL]", "\\PL", "[\\w--[aé]]", "\\p{Nd}", "[\\d--9]", "[\\d--\u{1d7ff}]", "\\p{White_Space}"])
                .to_string();
        }
        let mut v: Vec<(u32, u32)> = if !self.classes.is_empty() && self.rng.pct(65) {
            let mut v = self.rng.pick(&self.classes).clone();
            for _ in 0..self.rng.range(1, 2) {
                let i = if self.rng.pct(50) { v.len() - 1 } else { self.rng.below(v.len()) };
                match self.rng.below(5) {
                    0 if v.len() > 1 => {
                        v.remove(i);
                    }
                    1 => v[i].1 = v[i].1.saturating_add(1).min(0x10ffff),
                    2 if v[i].0 < v[i].1 => v[i].1 -= 1,
                    3 => v[i].0 = v[i].0.saturating_sub(1),
                    _ => {
                        let c = self.code_point();
                        v.push((c, c));
                    }
                }
            }
            v
        } else {
            let n = if self.rng.pct(50) { self.rng.range(2, 12) } else { self.rng.range(8, 40) };
            (0..n)
                .map(|_| {
                    let lo = self.code_point();
                    let hi = if self.rng.pct(40) { lo } else { (lo + self.rng.below(200) as u32).min(0x10ffff) };
                    (lo, hi)
                })
                .collect()
        };
        for r in v.iter_mut() {
            // not a surrogate
            for x in [&mut r.0, &mut r.1] {
                if (0xd800..0xe000).contains(x) {
                    *x = 0xe000;
                }
            }
        }
        v.sort_unstable();
        v.dedup();
        if self.classes.len() < 8 {
            self.classes.push(v.clone());
        } else {
            let i = self.rng.below(8);
            self.classes[i] = v.clone();
        }
        let body: String = v.iter().map(|(a, b)| if a == b { format!("\\x{{{a:x}}}") } else { format!("\\x{{{a:x}}}-\\x{{{b:x}}}") }).collect();
        format!("[{}{body}]", if self.rng.pct(15) { "^" } else { "" })
    }
    fn code_point(&mut self) -> u32 {
        let edges = [0u32, 0x20, 0x41, 0x61, 0x7f, 0x80, 0xbf, 0x100, 0x3b1, 0x7ff, 0x800, 0xfff, 0x1000, 0x3041, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x3ffff, 0x40000, 0x10ffff];
        let e = *self.rng.pick(&edges);
        match self.rng.below(4) {
            0 => e,
            1 => (e + self.rng.below(64) as u32).min(0x10ffff),
            2 => e.saturating_sub(self.rng.below(64) as u32),
            _ => (e + self.rng.below(2000) as u32).min(0x10ffff),
        }
    }

    /// alternation of words with shared prefixes
    pub fn keywords(&mut self, deep: bool) -> A {
        let mut words: Vec<String> = vec![];
        if deep {
            let n = self.rng.range(105, 135);
            let spine: Vec<char> = (0..n).map(|_| *self.rng.pick(&['a', 'b'])).collect();
            for i in 0..n {
                let mut w: String = spine[..i].iter().collect();
                match self.rng.below(3) {
                    0 => {}
                    1 => w.push('c'),
                    _ => w.push_str(if spine[i] == 'a' { "bx" } else { "ax" }),
                }
                words.push(w);
            }
            words.push(spine.iter().collect());
        } else {
            let n = self.rng.range(2, 25);
            for _ in 0..n {
                let w = if !words.is_empty() && self.rng.pct(60) {
                    let base: Vec<char> = self.rng.pick(&words).chars().collect();
                    let k = self.rng.below(base.len() + 1);
                    base[..k].iter().collect::<String>() + &self.word(0, 3)
                } else {
                    self.word(1, 5)
                };
                words.push(w);
            }
        }
        let n = words.len();
        for i in (1..n).rev() {
            let j = self.rng.below(i + 1);
            words.swap(i, j);
        }
        if self.rng.pct(40) {
            A::Rx(words.iter().map(|w| w.chars().map(Self::esc).collect::<String>()).collect::<Vec<_>>().join("|"))
        } else {
            A::Or(words.into_iter().map(A::Lit).collect())
        }
    }

    /// alternation of concatenations that share prefixes which are not plain bytes
    pub fn shared_prefixes(&mut self) -> A {
        let mut parts: Vec<A> = vec![];
        for _ in 0..self.rng.range(2, 4) {
            parts.push(self.ast(1, &mut 0, &[], false));
        }
        let n = self.rng.range(2, 6);
        let mut alts = vec![];
        for _ in 0..n {
            let k = self.rng.range(1, 4);
            alts.push(A::Cat((0..k).map(|_| self.rng.pick(&parts).clone()).collect()));
        }
        A::Or(alts)
    }

    pub fn all_bytes(&mut self) -> A {
        let mut p: Vec<u8> = (0..=255).collect();
        for i in (1..256).rev() {
            let j = self.rng.below(i + 1);
            p.swap(i, j);
        }
        let cut = match self.rng.below(4) {
            0 => 255,
            1 => self.rng.range(200, 256),
            _ => 256,
        };
        p.truncate(cut);
        match self.rng.below(4) {
            3 => {
                // many symbols of one byte, and classes of what is left
                let k = self.rng.range(60, 245);
                let (one, rest) = p.split_at(k.min(p.len() - 2));
                let mut sets = vec![];
                let mut i = 0;
                while i < rest.len() && sets.len() < 6 {
                    let n = if self.rng.pct(30) { 1 } else { self.rng.range(1, 12) };
                    let mut w = vec![0u32; 8];
                    for b in &rest[i..(i + n).min(rest.len())] {
                        w[*b as usize / 32] |= 1 << (*b % 32);
                    }
                    sets.push(A::Set(w));
                    i += n;
                }
                let mut alts = vec![];
                for c in one.chunks(self.rng.range(6, 40)) {
                    let mut v: Vec<A> = c.iter().map(|b| A::Byte(*b)).collect();
                    for _ in 0..self.rng.range(0, 3) {
                        let at = self.rng.below(v.len() + 1);
                        v.insert(at, self.rng.pick(&sets).clone());
                    }
                    alts.push(A::Cat(v));
                }
                A::Or(alts)
            }
            0 => A::Bytes(p),
            1 => A::Cat(p.into_iter().map(|b| A::Rep(Box::new(A::Byte(b)), 0, Some(1))).take(24).chain([A::Set(self.set())]).collect()),
            _ => {
                // every byte leads somewhere else, in groups
                let mut alts = vec![];
                for (i, c) in p.chunks(32).enumerate() {
                    let mut v: Vec<A> = c.iter().map(|b| A::Byte(*b)).collect();
                    v.push(A::Lit("z".repeat(i)));
                    alts.push(A::Cat(v));
                }
                A::Or(alts)
            }
        }
    }

    pub fn many_sets(&mut self) -> A {
        let n = self.rng.range(60, 80);
        let w = self.rng.range(2, 9);
        let mut v = vec![];
        for i in 0..n {
            let mut s = vec![0u32; 8];
            let a = (i * 3 + self.rng.below(2)) % 250;
            for b in a..(a + w).min(256) {
                s[b / 32] |= 1 << (b % 32);
            }
            if self.rng.pct(10) {
                s[3] |= 2;
            }
            v.push(A::Set(s));
        }
        if self.rng.pct(50) {
            // short strings, so that texts get far
            let alts = v.chunks(8).map(|c| A::Cat(c.to_vec())).collect();
            A::Or(alts)
        } else {
            A::Cat(v)
        }
    }

    /// a small change of `a`
    pub fn mutate(&mut self, a: &A) -> A {
        match a {
            A::Or(v) | A::Cat(v) | A::And(v) if !v.is_empty() && self.rng.pct(75) => {
                let mut v = v.clone();
                let i = self.rng.below(v.len());
                if self.rng.pct(20) && v.len() > 1 {
                    v.remove(i);
                } else {
                    v[i] = self.mutate(&v[i].clone());
                }
                match a {
                    A::Or(_) => A::Or(v),
                    A::Cat(_) => A::Cat(v),
                    _ => A::And(v),
                }
            }
            A::Rep(x, lo, hi) => match self.rng.below(3) {
                0 => A::Rep(x.clone(), lo.saturating_sub(1), *hi),
                1 => A::Rep(x.clone(), *lo, hi.map(|h| h + 1)),
                _ => A::Rep(Box::new(self.mutate(x)), *lo, *hi),
            },
            A::Not(x) => A::Not(Box::new(self.mutate(x))),
            A::Rx(p) => match self.rng.below(4) {
                0 => A::Rx(format!("(?:{p})*")),
                1 => A::Rx(format!("(?:{p})|{}", self.pat(1))),
                2 => A::Rx(format!("(?:{p})?")),
                _ => A::Cat(vec![A::Rx(p.clone()), A::Rep(Box::new(A::Byte(self.byte())), 0, Some(1))]),
            },
            x => match self.rng.below(3) {
                0 => A::Rep(Box::new(x.clone()), 0, None),
                1 => A::Or(vec![x.clone(), A::Lit(self.word(1, 2))]),
                _ => A::Rep(Box::new(x.clone()), 0, Some(1)),
            },
        }
    }

    pub fn look_expr(&mut self) -> A {
        match self.rng.weighted(&[25, 30, 20, 15, 8, 25]) {
            5 => {
                // the same few parts in front of and behind the split
                self.mono = self.rng.pct(40);
                let x = self.tiny(1, &[], false);
                let y = self.tiny(1, &[], false);
                let n = self.rng.range(1, 4);
                let mut v: Vec<A> = (0..n)
                    .map(|_| {
                        let (a, b) = (self.shape(&x, &y, false), self.shape(&y, &x, false));
                        A::Cat(vec![a, A::Look(Box::new(b))])
                    })
                    .collect();
                self.mono = false;
                if n == 1 { v.pop().unwrap() } else { A::Or(v) }
            }
            0 => A::Rx(self.rng.pick(LOOK_PATTERNS).to_string()),
            4 => {
                // many splits pending at once
                let n = self.rng.range(20, 70);
                A::Rx(match self.rng.below(4) {
                    0 => format!("a*(?P<stop>a{{{n}}}c)"),
                    1 => format!("[ab]*(?P<stop>a[ab]{{{}}}c)", n / 18 + 1),
                    2 => format!("(?:a{{2}})*(?P<stop>a{{{n}}}b?c)"),
                    _ => format!("a*(?P<stop>(?:aa){{1,{}}}c)|b*(?P<stop>c)", n / 4),
                })
            }
            1 => {
                let a = self.ast(2, &mut 0, &[], false);
                let b = self.ast(2, &mut 0, &[], false);
                A::Cat(vec![a, A::Look(Box::new(b))])
            }
            2 => {
                let n = self.rng.range(2, 3);
                A::Or(
                    (0..n)
                        .map(|_| {
                            let a = self.ast(1, &mut 0, &[], false);
                            let b = self.ast(1, &mut 0, &[], false);
                            A::Cat(vec![a, A::Look(Box::new(b))])
                        })
                        .collect(),
                )
            }
            _ => {
                let a = self.pat(1);
                let b = self.pat(1);
                A::Rx(format!("(?:{a})(?P<stop>{b})"))
            }
        }
    }

    /// many parts side by side
    fn wide(&mut self) -> A {
        let n = self.rng.range(9, 50);
        match self.rng.below(5) {
            0 | 1 => {
                // one letter enters all of the alternatives; nearly all go on with the same byte
                let odd = self.rng.below(4);
                let mut alts: Vec<A> = (0..n)
                    .map(|i| {
                        let mut w = vec![0u32; 8];
                        for b in [b'Z', b'0' + i as u8] {
                            w[b as usize / 32] |= 1 << (b % 32);
                        }
                        let head = if i < odd { 'y' } else { 'x' };
                        // distinct tails that share their ends: few states, many alternatives
                        let t: String = (0..=5).rev().skip_while(|k| i >> k == 0).map(|k| if i >> k & 1 == 1 { 'p' } else { 'q' }).collect();
                        A::Cat(vec![A::Set(w), A::Lit(format!("{head}{t}"))])
                    })
                    .collect();
                for i in (1..n).rev() {
                    alts.swap(i, self.rng.below(i + 1));
                }
                A::Or(alts)
            }
            2 => {
                // many exclusions
                let mut v = vec![A::Rx("[a-d]{0,3}".into())];
                for _ in 0..n {
                    v.push(A::Not(Box::new(A::Lit(self.word(1, 3)))));
                }
                A::And(v)
            }
            3 => {
                let x = A::Rep(Box::new(A::Byte(b'a')), 0, Some(1));
                let mut v = vec![x; n];
                v[self.rng.below(n)] = A::Rep(Box::new(A::Byte(b'b')), 0, Some(1));
                A::Cat(v)
            }
            _ => {
                let k = self.rng.range(1, 4) as u32;
                A::Or((1..=(n as u32 / 4)).map(|i| A::Rep(Box::new(A::Byte(b'a')), i * k, Some(i * k))).collect())
            }
        }
    }

    fn once(&mut self, fam: usize) -> A {
        match fam {
            0 => self.ast(3, &mut 0, &[], true),
            1 => self.ast(3, &mut 3, &[], true),
            2 => A::Rx(self.pattern(2)),
            3 => A::Rx(self.rng.pick(PATTERNS).to_string()),
            4 if self.rng.pct(30) => self.wide(),
            4 => self.keywords(false),
            5 if self.rng.pct(50) => self.identity(),
            5 => {
                let x = self.ast(2, &mut 0, &[], false);
                let y = self.mutate(&x);
                let (x, y) = if self.rng.pct(50) { (x, y) } else { (y, x) };
                A::And(vec![x, A::Not(Box::new(y))])
            }
            6 => self.all_bytes(),
            7 => self.many_sets(),
            8 => A::Win(self.rng.range(1, 7) as u32),
            9 => self.look_expr(),
            10 => self.keywords(true),
            11 => self.shared_prefixes(),
            12 => {
                // intersection and complement of patterns
                let a = A::Rx(self.pattern(1));
                let b = A::Rx(self.pattern(1));
                match self.rng.below(4) {
                    0 => A::And(vec![a, b]),
                    1 => A::And(vec![a, A::Not(Box::new(b))]),
                    2 => A::Not(Box::new(A::Or(vec![a, b]))),
                    _ => A::And(vec![A::Rx(".*".into()), a, A::Not(Box::new(b))]),
                }
            }
            _ if self.rng.pct(20) => {
                // prefixes of something empty
                let e = loop {
                    let e = self.identity();
                    if eval(&e, &DEFAULT_FLAGS, &|_| None).ok().and_then(|m| m.dfa().ok()).map_or(false, |d| d.is_empty_lang()) {
                        break e;
                    }
                };
                let e = A::Pre(Box::new(e));
                match self.rng.below(4) {
                    0 => e,
                    1 => A::Or(vec![e, A::Lit(self.word(1, 3))]),
                    2 => A::Or(vec![A::Cat(vec![A::Lit(self.word(1, 2)), e]), A::Lit(self.word(1, 3))]),
                    _ => A::Pre(Box::new(A::Or(vec![e, A::Lit(self.word(1, 3))]))),
                }
            }
            _ => A::Pre(Box::new(self.ast(2, &mut 0, &[], false))),
        }
    }

    /// one of the small shapes over two given parts
    fn shape(&mut self, x: &A, y: &A, pre: bool) -> A {
        let bx = |a: &A| Box::new(a.clone());
        let rep = |a: &A, l, h| A::Rep(bx(a), l, h);
        let v = |a: &[&A]| a.iter().map(|x| (*x).clone()).collect::<Vec<A>>();
        let star = rep(x, 0, None);
        let (l, h) = *self.rng.pick(&[(1, None), (0, Some(1)), (2, None), (2, Some(2)), (1, Some(2)), (2, Some(4)), (3, None), (0, Some(2)), (3, Some(3))]);
        let some = rep(x, l, h);
        match self.rng.below(if pre { 17 } else { 22 }) {
            0 | 1 => x.clone(),
            2 => star,
            3 | 4 => some,
            5 => A::Cat(v(&[x, x])),
            6 => A::Cat(v(&[x, y])),
            7 => A::Cat(v(&[y, x])),
            8 => A::Cat(v(&[&star, x])),
            9 => A::Cat(v(&[x, &star])),
            10 => A::Cat(v(&[&star, y])),
            11 => A::Cat(v(&[y, &star])),
            12 => A::Cat(v(&[&some, x])),
            13 => A::Cat(v(&[x, &some, y])),
            14 => A::Or(v(&[x, y])),
            15 => y.clone(),
            16 => A::Eps,
            17 => A::Not(bx(x)),
            18 => A::Not(bx(&star)),
            19 => A::And(v(&[x, y])),
            20 => A::And(v(&[x, &A::Not(bx(y))])),
            _ => A::Not(bx(&A::Cat(v(&[x, y])))),
        }
    }
    /// two or three shapes over the same parts, put together: nearly an identity
    fn law(&mut self, refs: &[u32], pre: bool) -> A {
        let d = self.rng.pct(30) as u32;
        let x = self.tiny(d, refs, pre);
        let y = if self.rng.pct(85) { self.tiny(0, refs, pre) } else { x.clone() };
        let n = if self.rng.pct(75) { 2 } else { 3 };
        let counts = self.rng.pct(20);
        let v: Vec<A> = (0..n)
            .map(|_| {
                if !counts {
                    return self.shape(&x, &y, pre);
                }
                // the same thing, different counts
                let l = self.rng.below(5) as u32;
                let h = if self.rng.pct(20) { None } else { Some(l + self.rng.below(3) as u32) };
                A::Rep(Box::new(x.clone()), l, h)
            })
            .collect();
        let a = match self.rng.weighted(&[45, 25, if pre { 0 } else { 30 }]) {
            0 => A::Or(v),
            1 => A::Cat(v),
            _ => A::And(v),
        };
        match self.rng.below(10) {
            0 => self.shape(&a, &y, pre),
            1 => self.shape(&x, &a, pre),
            _ => a,
        }
    }

    /// a very small expression over very few bytes, with every constructor equally likely
    pub fn tiny(&mut self, depth: u32, refs: &[u32], pre: bool) -> A {
        if depth >= 2 && self.rng.pct(25) {
            return self.law(refs, pre);
        }
        let l = [b'a', b'b', b'c'];
        let set = |s: &[u8]| {
            let mut w = vec![0u32; 8];
            for b in s {
                w[*b as usize / 32] |= 1 << (*b % 32);
            }
            A::Set(w)
        };
        if self.mono && (depth == 0 || self.rng.pct(25)) {
            return match self.rng.weighted(&[60, 6, 4, 4, 3, if refs.is_empty() || pre { 0 } else { 12 }]) {
                0 => A::Byte(b'a'),
                1 => A::Eps,
                2 => A::Byte(b'b'),
                3 => set(b"ab"),
                4 => A::Rep(Box::new(A::Set(vec![!0; 8])), 0, None),
                _ => A::Ref(*self.rng.pick(refs)),
            };
        }
        if depth == 0 || self.rng.pct(12) {
            let nl = self.rng.range(1, 2);
            return match self.rng.weighted(&[24, 10, 10, 6, 3, 6, 4, if refs.is_empty() || pre { 0 } else { 22 }]) {
                0 => A::Byte(l[self.rng.below(nl + 1)]),
                1 => A::Bytes((0..self.rng.range(1, 3)).map(|_| l[self.rng.below(nl + 1)]).collect()),
                2 => {
                    if self.rng.pct(60) {
                        set(b"ab")
                    } else {
                        set(b"bc")
                    }
                }
                3 => A::Eps,
                4 => A::Nil,
                // anything
                5 if self.rng.pct(50) => A::Rep(Box::new(A::Set(vec![!0; 8])), 0, None),
                5 if !pre => A::Not(Box::new(A::Nil)),
                6 if !pre => A::Not(Box::new(A::Byte(b'a'))),
                7 => A::Ref(*self.rng.pick(refs)),
                _ => A::Set(vec![!0; 8]),
            };
        }
        let nb = if pre { 0 } else { 12 };
        match self.rng.weighted(&[24, 22, 18, nb, nb, if pre { 4 } else { 8 }]) {
            k @ (0 | 1 | 3) => {
                let n = self.rng.range(1 + (k != 0) as usize, 3);
                let v = (0..n).map(|_| self.tiny(depth - 1, refs, pre)).collect();
                match k {
                    0 => A::Cat(v),
                    1 => A::Or(v),
                    _ => A::And(v),
                }
            }
            2 => {
                let (a, z) = *self.rng.pick(&[(0, None), (1, None), (0, Some(1)), (2, None), (0, Some(2)), (2, Some(3)), (1, Some(2)), (3, None), (2, Some(2)), (0, Some(0)), (1, Some(1))]);
                A::Rep(Box::new(self.tiny(depth - 1, refs, pre)), a, z)
            }
            4 => A::Not(Box::new(self.tiny(depth - 1, refs, pre))),
            _ => A::Pre(Box::new(self.tiny(depth - 1, refs, true))),
        }
    }

    /// languages that are empty, or nearly so, for a reason that only shows when the parts are combined
    fn identity(&mut self) -> A {
        for _ in 0..20 {
            let mut bools = self.rng.below(3) as u32;
            let x = self.ast(2, &mut bools, &[], false);
            let Ok(mo) = eval(&x, &DEFAULT_FLAGS, &|_| None) else { continue };
            let Ok(d) = mo.dfa() else { continue };
            if d.n > 7 || d.k > 8 {
                continue;
            }
            let Some(same) = from_dfa(&d) else { continue };
            let Some(comp) = from_dfa(&d.not()) else { continue };
            let (mut same, mut comp) = (same, comp);
            if self.rng.pct(15) {
                same = self.mutate(&same);
            }
            if self.rng.pct(15) {
                comp = self.mutate(&comp);
            }
            let bx = |a: A| Box::new(a);
            return match self.rng.below(6) {
                0 => A::And(vec![x, comp]),
                1 => A::Not(bx(A::Or(vec![x, comp]))),
                2 => A::And(vec![x, A::Not(bx(same))]),
                3 => A::And(vec![same, A::Not(bx(x))]),
                4 => A::Not(bx(A::Or(vec![A::Not(bx(comp)), A::Not(bx(x))]))),
                _ => A::Or(vec![A::And(vec![x, comp]), A::Lit(self.word(1, 2))]),
            };
        }
        A::And(vec![A::Lit("ab".into()), A::Rx("b.*".into())])
    }

    /// families: 0 plain 1 bool 2 pattern 3 realistic 4 keywords 5 x&~y 6 all bytes 7 many sets
    /// 8 window 9 lookahead 10 deep keywords 11 shared prefixes 12 bool over patterns 13 prefixes
    pub fn expr(&mut self, w: &[u32; 14]) -> (A, M, Option<Arc<Dfa>>) {
        for _ in 0..30 {
            let fam = self.rng.weighted(w);
            let a = self.once(fam);
            let Ok(mo) = eval(&a, &DEFAULT_FLAGS, &|_| None) else { continue };
            if mo.size > 60 && fam < 4 {
                continue;
            }
            let Ok(d) = mo.dfa() else { continue };
            let lim = if fam == 6 || fam == 7 || fam == 10 { 1000 } else { self.max_states };
            if d.n > lim {
                continue;
            }
            if mo.has_look {
                match LookSpec::new(&mo) {
                    Some(Ok(_)) => {}
                    _ => continue,
                }
            }
            // mostly languages with something in them
            if d.n == 1 && !self.rng.pct(15) {
                continue;
            }
            return (a, mo, Some(d));
        }
        let a = A::Rx("(a|b)*abb".into());
        let mo = eval(&a, &DEFAULT_FLAGS, &|_| None).unwrap();
        let d = mo.dfa().ok();
        (a, mo, d)
    }

    /// next byte for a session in reference state `q`
    pub fn next_byte(&mut self, d: Option<&Dfa>, q: u32) -> u8 {
        let Some(d) = d else { return self.byte() };
        let r = self.rng.below(100);
        if r < 82 {
            let live: Vec<usize> = (0..d.k).filter(|c| d.is_live(d.trans[q as usize * d.k + c])).collect();
            // the letter that opens a fan (see `wide`)
            if live.len() > 8 && self.rng.pct(20) && d.is_live(d.step(q, b'Z')) {
                return b'Z';
            }
            if !live.is_empty() {
                let c = *self.rng.pick(&live);
                return self.byte_of(d, c);
            }
        } else if r < 92 {
            let c = self.rng.below(d.k);
            return self.byte_of(d, c);
        }
        self.byte()
    }
    fn byte_of(&mut self, d: &Dfa, c: usize) -> u8 {
        let n = d.class.iter().filter(|x| **x as usize == c).count();
        let mut i = self.rng.below(n);
        // prefer readable bytes a little
        if n > 20 && self.rng.pct(50) {
            for b in b"azAZ09_ .-" {
                if d.class[*b as usize] as usize == c && self.rng.pct(30) {
                    return *b;
                }
            }
        }
        for b in 0..256 {
            if d.class[b] as usize == c {
                if i == 0 {
                    return b as u8;
                }
                i -= 1;
            }
        }
        0
    }
    pub fn text(&mut self, d: Option<&Dfa>, mut q: u32, n: usize) -> Vec<u8> {
        let mut v = vec![];
        for _ in 0..n {
            let b = self.next_byte(d, q);
            v.push(b);
            if let Some(d) = d {
                q = d.step(q, b);
            }
        }
        v
    }
    /// a text that is accepted, if there is one nearby
    pub fn accepted(&mut self, d: &Dfa, n: usize) -> Vec<u8> {
        let mut q = d.start;
        let mut v = vec![];
        for _ in 0..n {
            let live: Vec<usize> = (0..d.k).filter(|c| d.is_live(d.trans[q as usize * d.k + c])).collect();
            if live.is_empty() {
                break;
            }
            let c = *self.rng.pick(&live);
            let b = self.byte_of(d, c);
            v.push(b);
            q = d.step(q, b);
        }
        if let Some(w) = d.witness(q) {
            v.extend(w);
        }
        v
    }
}

/// an expression without and/not for the language of `d`, by elimination of states
pub fn from_dfa(d: &Dfa) -> Option<A> {
    let n = d.n;
    // edges over states 0..n, start n, end n+1
    let mut e: Vec<Vec<Option<A>>> = vec![vec![None; n + 2]; n + 2];
    let or = |a: Option<A>, b: A| match a {
        None => b,
        Some(A::Or(mut v)) => {
            v.push(b);
            A::Or(v)
        }
        Some(a) => A::Or(vec![a, b]),
    };
    for s in 0..n {
        if !d.is_live(s as u32) {
            continue;
        }
        let mut sets: Vec<Vec<u32>> = vec![vec![]; n];
        for c in 0..d.k {
            let t = d.trans[s * d.k + c] as usize;
            if !d.is_live(t as u32) {
                continue;
            }
            if sets[t].is_empty() {
                sets[t] = vec![0; 8];
            }
            for b in d.bytes_of_class(c) {
                sets[t][b as usize / 32] |= 1 << (b % 32);
            }
        }
        for (t, w) in sets.into_iter().enumerate() {
            if !w.is_empty() {
                e[s][t] = Some(A::Set(w));
            }
        }
        if d.is_acc(s as u32) {
            e[s][n + 1] = Some(A::Eps);
        }
    }
    e[n][d.start as usize] = Some(A::Eps);
    for k in 0..n {
        let loop_ = e[k][k].take().map(|x| A::Rep(Box::new(x), 0, None));
        for i in 0..n + 2 {
            if i == k {
                continue;
            }
            let Some(a) = e[i][k].take() else { continue };
            for j in 0..n + 2 {
                if j == k {
                    continue;
                }
                let Some(b) = e[k][j].clone() else { continue };
                let mut v = vec![];
                for x in [Some(a.clone()), loop_.clone(), Some(b)].into_iter().flatten() {
                    match x {
                        A::Eps => {}
                        A::Cat(y) => v.extend(y),
                        x => v.push(x),
                    }
                }
                let x = match v.len() {
                    0 => A::Eps,
                    1 => v.pop().unwrap(),
                    _ => A::Cat(v),
                };
                if x.size() > 120 {
                    return None;
                }
                let old = e[i][j].take();
                e[i][j] = Some(or(old, x));
            }
        }
    }
    Some(e[n][n + 1].take().unwrap_or(A::Nil))
}
