//! Independent reference model: denotation of expressions as minimal complete DFAs.
//! Shares nothing with derivre (only regex-syntax's parser is shared, for regex strings).
use std::collections::{BTreeMap, HashMap};
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::sync::{Arc, Mutex, OnceLock};

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.write_u64(*b as u64);
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type Set256 = [u64; 4];
pub fn set_has(s: &Set256, b: u8) -> bool {
    s[b as usize / 64] >> (b % 64) & 1 == 1
}
pub fn set_add(s: &mut Set256, b: u8) {
    s[b as usize / 64] |= 1 << (b % 64)
}
pub fn set_of(bytes: &[u8]) -> Set256 {
    let mut s = [0; 4];
    for b in bytes {
        set_add(&mut s, *b)
    }
    s
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct TooBig;
pub const MAX_STATES: usize = 1500;
const MAX_CELLS: usize = 300_000;

/// Complete DFA; canonical once `canon()` was applied (minimal, BFS numbering, classes numbered by
/// first byte), so equality of values is equality of languages.
#[derive(Clone, PartialEq, Eq)]
pub struct Dfa {
    pub class: Vec<u8>, // 256 entries
    pub k: usize,
    pub n: usize,
    pub trans: Vec<u32>,
    pub acc: Vec<bool>,
    pub live: Vec<bool>,
    pub start: u32,
}

fn determinize<S: Clone + Eq + Hash>(
    class: Vec<u8>,
    k: usize,
    start: S,
    mut step: impl FnMut(&S, usize) -> S,
    acc: impl Fn(&S) -> bool,
) -> Result<Dfa, TooBig> {
    let mut ids: FxMap<S, u32> = FxMap::default();
    let mut states = vec![start.clone()];
    ids.insert(start, 0);
    let mut trans = vec![];
    let mut i = 0;
    while i < states.len() {
        let s = states[i].clone();
        for c in 0..k {
            let t = step(&s, c);
            let id = match ids.get(&t) {
                Some(x) => *x,
                None => {
                    let x = states.len() as u32;
                    if states.len() >= MAX_STATES || (states.len() + 1) * k > MAX_CELLS {
                        return Err(TooBig);
                    }
                    states.push(t.clone());
                    ids.insert(t, x);
                    x
                }
            };
            trans.push(id);
        }
        i += 1;
    }
    let accv = states.iter().map(|s| acc(s)).collect();
    Ok(Dfa { class, k, n: states.len(), trans, acc: accv, live: vec![], start: 0 }.canon())
}

fn merge_classes(ds: &[&Dfa]) -> (Vec<u8>, Vec<Vec<u8>>) {
    let mut map: BTreeMap<Vec<u8>, u8> = BTreeMap::new();
    let mut class = vec![0u8; 256];
    let mut reps = vec![];
    for b in 0..256 {
        let key: Vec<u8> = ds.iter().map(|d| d.class[b]).collect();
        let l = map.len();
        let id = *map.entry(key.clone()).or_insert_with(|| {
            reps.push(key);
            l as u8
        });
        class[b] = id;
    }
    (class, reps)
}

impl Dfa {
    #[inline]
    pub fn step(&self, s: u32, b: u8) -> u32 {
        self.trans[s as usize * self.k + self.class[b as usize] as usize]
    }
    #[inline]
    fn stepc(&self, s: u32, c: u8) -> u32 {
        self.trans[s as usize * self.k + c as usize]
    }
    pub fn run(&self, mut s: u32, bytes: &[u8]) -> u32 {
        for b in bytes {
            s = self.step(s, *b);
        }
        s
    }
    pub fn is_acc(&self, s: u32) -> bool {
        self.acc[s as usize]
    }
    pub fn is_live(&self, s: u32) -> bool {
        self.live[s as usize]
    }
    pub fn accepts(&self, bytes: &[u8]) -> bool {
        self.is_acc(self.run(self.start, bytes))
    }
    pub fn is_empty_lang(&self) -> bool {
        !self.is_live(self.start)
    }

    pub fn compute_live(&mut self) {
        let mut rev: Vec<Vec<u32>> = vec![vec![]; self.n];
        for s in 0..self.n {
            for c in 0..self.k {
                rev[self.trans[s * self.k + c] as usize].push(s as u32);
            }
        }
        let mut live = self.acc.clone();
        let mut todo: Vec<u32> = (0..self.n as u32).filter(|s| live[*s as usize]).collect();
        while let Some(s) = todo.pop() {
            for &p in &rev[s as usize] {
                if !live[p as usize] {
                    live[p as usize] = true;
                    todo.push(p);
                }
            }
        }
        self.live = live;
    }

    /// minimise and bring to canonical form
    pub fn canon(self) -> Dfa {
        let (n, k) = (self.n, self.k);
        // start from the distance to the nearest accepting state: equivalent states agree on it, and
        // long chains need no refinement at all
        let mut part = vec![u32::MAX; n];
        {
            let mut rev: Vec<Vec<u32>> = vec![vec![]; n];
            for s in 0..n {
                for c in 0..k {
                    let t = self.trans[s * k + c] as usize;
                    if rev[t].last() != Some(&(s as u32)) {
                        rev[t].push(s as u32);
                    }
                }
            }
            let mut todo: std::collections::VecDeque<u32> = Default::default();
            for s in 0..n {
                if self.acc[s] {
                    part[s] = 0;
                    todo.push_back(s as u32);
                }
            }
            while let Some(s) = todo.pop_front() {
                for &p in &rev[s as usize] {
                    if part[p as usize] == u32::MAX {
                        part[p as usize] = part[s as usize] + 1;
                        todo.push_back(p);
                    }
                }
            }
        }
        let mut count = part.iter().collect::<std::collections::BTreeSet<_>>().len();
        loop {
            let mut ids: FxMap<Vec<u32>, u32> = FxMap::default();
            let mut np = vec![0u32; n];
            for s in 0..n {
                let mut sig = Vec::with_capacity(k + 1);
                sig.push(part[s]);
                for c in 0..k {
                    sig.push(part[self.trans[s * k + c] as usize]);
                }
                let l = ids.len() as u32;
                np[s] = *ids.entry(sig).or_insert(l);
            }
            let nc = ids.len();
            part = np;
            if nc == count {
                break;
            }
            count = nc;
        }
        // representative per block
        let mut rep = vec![u32::MAX; count];
        for s in 0..n {
            if rep[part[s] as usize] == u32::MAX {
                rep[part[s] as usize] = s as u32;
            }
        }
        // merge equal columns
        let mut colmap: FxMap<Vec<u32>, u8> = FxMap::default();
        let mut newcol: Vec<Option<u8>> = vec![None; k];
        let mut class = vec![0u8; 256];
        let mut repcol: Vec<usize> = vec![];
        for b in 0..256 {
            let c = self.class[b] as usize;
            if newcol[c].is_none() {
                let col: Vec<u32> = rep.iter().map(|&s| part[self.trans[s as usize * k + c] as usize]).collect();
                let l = colmap.len() as u8;
                let id = *colmap.entry(col).or_insert_with(|| {
                    repcol.push(c);
                    l
                });
                newcol[c] = Some(id);
            }
            class[b] = newcol[c].unwrap();
        }
        let nk = repcol.len();
        // BFS numbering of reachable blocks
        let mut num = vec![u32::MAX; count];
        let mut order = vec![part[self.start as usize]];
        num[order[0] as usize] = 0;
        let mut i = 0;
        let mut trans = vec![];
        let mut acc = vec![];
        while i < order.len() {
            let blk = order[i];
            let s = rep[blk as usize] as usize;
            acc.push(self.acc[s]);
            for &c in &repcol {
                let t = part[self.trans[s * k + c] as usize];
                if num[t as usize] == u32::MAX {
                    num[t as usize] = order.len() as u32;
                    order.push(t);
                }
                trans.push(num[t as usize]);
            }
            i += 1;
        }
        let mut d = Dfa { class, k: nk, n: order.len(), trans, acc, live: vec![], start: 0 };
        // unreachable blocks may have separated columns: do it again if anything was dropped
        if d.n != count {
            return d.canon();
        }
        d.compute_live();
        d
    }

    pub fn epsilon() -> Dfa {
        Dfa { class: vec![0; 256], k: 1, n: 2, trans: vec![1, 1], acc: vec![true, false], live: vec![], start: 0 }.canon()
    }
    pub fn none() -> Dfa {
        Dfa { class: vec![0; 256], k: 1, n: 1, trans: vec![0], acc: vec![false], live: vec![], start: 0 }.canon()
    }
    pub fn all() -> Dfa {
        Dfa::none().not()
    }
    pub fn set(s: &Set256) -> Dfa {
        let class = (0..=255u8).map(|b| set_has(s, b) as u8).collect();
        Dfa { class, k: 2, n: 3, trans: vec![2, 1, 2, 2, 2, 2], acc: vec![false, true, false], live: vec![], start: 0 }.canon()
    }
    pub fn literal(bytes: &[u8]) -> Result<Dfa, TooBig> {
        let mut class = vec![0u8; 256];
        let mut seen = [false; 256];
        for &b in bytes {
            seen[b as usize] = true;
        }
        let distinct: Vec<usize> = (0..256).filter(|b| seen[*b]).collect();
        // class 0 = all others (may be empty when all 256 are used)
        let all = distinct.len() == 256;
        for (i, b) in distinct.iter().enumerate() {
            class[*b] = (i + if all { 0 } else { 1 }) as u8;
        }
        let k = distinct.len() + if all { 0 } else { 1 };
        let n = bytes.len() + 2;
        if n * k > MAX_CELLS * 4 {
            return Err(TooBig);
        }
        let dead = (n - 1) as u32;
        let mut trans = vec![dead; n * k];
        for (i, b) in bytes.iter().enumerate() {
            trans[i * k + class[*b as usize] as usize] = i as u32 + 1;
        }
        let mut acc = vec![false; n];
        acc[bytes.len()] = true;
        // already minimal (chain); still canonicalise unless long
        let d = Dfa { class, k, n, trans, acc, live: vec![], start: 0 };
        Ok(d.canon())
    }
    pub fn not(&self) -> Dfa {
        let mut d = self.clone();
        for a in d.acc.iter_mut() {
            *a = !*a;
        }
        d.canon()
    }
    pub fn prefixes(&self) -> Dfa {
        let mut d = self.clone();
        d.acc = d.live.clone();
        d.canon()
    }
    /// strings of the language no proper prefix of which is in the language
    pub fn prefix_free(&self) -> Dfa {
        let mut d = self.clone();
        let dead = d.n as u32;
        d.n += 1;
        d.acc.push(false);
        for s in 0..dead as usize {
            if d.acc[s] {
                for c in 0..d.k {
                    d.trans[s * d.k + c] = dead;
                }
            }
        }
        d.trans.extend(std::iter::repeat(dead).take(d.k));
        d.canon()
    }
    pub fn minus_epsilon(&self) -> Dfa {
        if !self.is_acc(self.start) {
            return self.clone();
        }
        let mut d = self.clone();
        let s = d.n as u32;
        d.n += 1;
        d.acc.push(false);
        for c in 0..d.k {
            let t = d.trans[self.start as usize * d.k + c];
            d.trans.push(t);
        }
        d.start = s;
        d.canon()
    }
    pub fn or(ds: &[&Dfa]) -> Result<Dfa, TooBig> {
        if ds.is_empty() {
            return Ok(Dfa::none());
        }
        if ds.len() == 1 {
            return Ok(ds[0].clone());
        }
        let (class, reps) = merge_classes(ds);
        let start: Vec<(u16, u32)> = (0..ds.len())
            .filter(|&i| ds[i].is_live(ds[i].start))
            .map(|i| (i as u16, ds[i].start))
            .collect();
        determinize(
            class,
            reps.len(),
            start,
            |s, c| {
                s.iter()
                    .map(|&(i, q)| (i, ds[i as usize].stepc(q, reps[c][i as usize])))
                    .filter(|&(i, q)| ds[i as usize].is_live(q))
                    .collect()
            },
            |s| s.iter().any(|&(i, q)| ds[i as usize].is_acc(q)),
        )
    }
    pub fn and(ds: &[&Dfa]) -> Result<Dfa, TooBig> {
        if ds.is_empty() {
            return Ok(Dfa::all());
        }
        if ds.len() == 1 {
            return Ok(ds[0].clone());
        }
        let (class, reps) = merge_classes(ds);
        let norm = |v: Vec<u32>| -> Vec<u32> {
            if v.iter().enumerate().any(|(i, &q)| !ds[i].is_live(q)) {
                vec![]
            } else {
                v
            }
        };
        let start = norm(ds.iter().map(|d| d.start).collect());
        determinize(
            class,
            reps.len(),
            start,
            |s, c| {
                if s.is_empty() {
                    vec![]
                } else {
                    norm(s.iter().enumerate().map(|(i, &q)| ds[i].stepc(q, reps[c][i])).collect())
                }
            },
            |s| !s.is_empty() && s.iter().enumerate().all(|(i, &q)| ds[i].is_acc(q)),
        )
    }
    pub fn concat2(a: &Dfa, b: &Dfa) -> Result<Dfa, TooBig> {
        let (class, reps) = merge_classes(&[a, b]);
        let dead_a = u32::MAX;
        let enter = |q: u32, mut set: Vec<u32>| -> (u32, Vec<u32>) {
            if q != dead_a && a.is_acc(q) && b.is_live(b.start) {
                set.push(b.start);
            }
            set.sort_unstable();
            set.dedup();
            (q, set)
        };
        let start = enter(if a.is_live(a.start) { a.start } else { dead_a }, vec![]);
        determinize(
            class,
            reps.len(),
            start,
            |(q, set), c| {
                let nq = if *q == dead_a { dead_a } else { a.stepc(*q, reps[c][0]) };
                let nq = if nq != dead_a && a.is_live(nq) { nq } else { dead_a };
                let ns = set.iter().map(|&s| b.stepc(s, reps[c][1])).filter(|&s| b.is_live(s)).collect();
                enter(nq, ns)
            },
            |(_, set)| set.iter().any(|&s| b.is_acc(s)),
        )
    }
    pub fn repeat(e: &Dfa, min: u32, max: Option<u32>) -> Result<Dfa, TooBig> {
        if max == Some(0) {
            return Ok(Dfa::epsilon());
        }
        let (e, min) = if e.is_acc(e.start) { (e.minus_epsilon(), 0) } else { (e.clone(), min) };
        if let Some(d) = Dfa::counter(&e, min, max) {
            return Ok(d);
        }
        let n = e.n as u64;
        if (min as u64).max(max.unwrap_or(0) as u64) > 5000 {
            return Err(TooBig);
        }
        // NFA states i*n+s: inside copy i (copies beyond `min` share an index when unbounded)
        let cap = |i: u64| match max {
            None => i.min(min as u64),
            Some(_) => i,
        };
        let may_start = |i: u64| max.map_or(true, |m| i < m as u64);
        let close = |mut v: Vec<u64>| {
            // e is not nullable, so one round of completions is enough
            let mut extra = vec![];
            for &x in &v {
                let (i, s) = (x / n, (x % n) as u32);
                if e.is_acc(s) && may_start(i + 1) {
                    extra.push(cap(i + 1) * n + e.start as u64);
                }
            }
            v.extend(extra);
            v.sort_unstable();
            v.dedup();
            v
        };
        let start = (true, if e.is_live(e.start) { vec![e.start as u64] } else { vec![] });
        let minv = min as u64;
        determinize(
            e.class.clone(),
            e.k,
            start,
            |(_, set), c| {
                let v = set
                    .iter()
                    .map(|&x| (x / n, e.stepc((x % n) as u32, c as u8)))
                    .filter(|&(_, s)| e.is_live(s))
                    .map(|(i, s)| i * n + s as u64)
                    .collect();
                (false, close(v))
            },
            |(init, set)| {
                (*init && minv == 0) || set.iter().any(|&x| e.is_acc((x % n) as u32) && x / n + 1 >= minv)
            },
        )
    }
    /// `ranges` of code points; surrogates are never matched
    pub fn utf8(ranges: &[(u32, u32)]) -> Dfa {
        static CACHE: OnceLock<Mutex<BTreeMap<Vec<(u32, u32)>, Dfa>>> = OnceLock::new();
        let cache = CACHE.get_or_init(|| Mutex::new(BTreeMap::new()));
        if let Some(d) = cache.lock().unwrap().get(ranges) {
            return d.clone();
        }
        // nodes: 0 dead, 1 accept; memo by (continuation bytes left, ranges within block)
        struct B {
            rows: Vec<[u32; 256]>,
            memo: BTreeMap<(u32, Vec<(u32, u32)>), u32>,
        }
        fn clip(r: &[(u32, u32)], lo: u32, hi: u32) -> Vec<(u32, u32)> {
            let mut v: Vec<(u32, u32)> = vec![];
            for &(a, b) in r {
                let (a, b) = (a.max(lo), b.min(hi));
                if a <= b {
                    match v.last_mut() {
                        Some(l) if l.1 + 1 == a - lo => l.1 = b - lo,
                        _ => v.push((a - lo, b - lo)),
                    }
                }
            }
            v
        }
        fn node(b: &mut B, left: u32, r: Vec<(u32, u32)>) -> u32 {
            if r.is_empty() {
                return 0;
            }
            if left == 0 {
                return 1;
            }
            if let Some(x) = b.memo.get(&(left, r.clone())) {
                return *x;
            }
            let mut row = [0u32; 256];
            let size = 1u32 << (6 * (left - 1));
            for c in 0..64u32 {
                row[0x80 + c as usize] = node(b, left - 1, clip(&r, c * size, (c + 1) * size - 1));
            }
            b.rows.push(row);
            let id = b.rows.len() as u32 - 1;
            b.memo.insert((left, r), id);
            id
        }
        let mut b = B { rows: vec![[0; 256], [0; 256]], memo: BTreeMap::new() };
        let mut row = [0u32; 256];
        for lead in 0..256usize {
            let l = lead as u32;
            let (left, lo, hi) = match lead {
                0..=0x7F => (0, l, l),
                0xC2..=0xDF => (1, (l & 0x1F) << 6, ((l & 0x1F) << 6) + 0x3F),
                0xE0..=0xEF => (2, (l & 0xF) << 12, ((l & 0xF) << 12) + 0xFFF),
                0xF0..=0xF4 => (3, (l & 7) << 18, ((l & 7) << 18) + 0x3FFFF),
                _ => continue,
            };
            // minimal values for the length, surrogates, maximum
            let minv = [0, 0x80, 0x800, 0x10000][left as usize];
            let mut r: Vec<(u32, u32)> = vec![];
            for &(a, z) in ranges {
                let (a, z) = (a.max(minv).max(lo), z.min(0x10FFFF).min(hi));
                if a > z {
                    continue;
                }
                for (a, z) in [(a, z.min(0xD7FF)), (a.max(0xE000), z)] {
                    if a <= z && !(r.last() == Some(&(a - lo, z - lo))) {
                        r.push((a - lo, z - lo));
                    }
                }
            }
            r.sort_unstable();
            row[lead] = node(&mut b, left, r);
        }
        b.rows.push(row);
        let n = b.rows.len();
        let mut trans = Vec::with_capacity(n * 256);
        for r in &b.rows {
            trans.extend_from_slice(r);
        }
        let mut acc = vec![false; n];
        acc[1] = true;
        let d = Dfa { class: (0..=255).collect(), k: 256, n, trans, acc, live: vec![], start: n as u32 - 1 }.canon();
        cache.lock().unwrap().insert(ranges.to_vec(), d.clone());
        d
    }

    /// [ab]*a[ab]{n}: 2^(n+1) states; built directly
    /// [ab]{n}a
    /// many repetitions of one symbol: a counter
    fn counter(e: &Dfa, min: u32, max: Option<u32>) -> Option<Dfa> {
        let top = max.unwrap_or(min);
        let one = |c: usize| {
            let t = e.stepc(e.start, c as u8);
            let leaf = (0..e.k).all(|d| !e.is_live(e.stepc(t, d as u8)));
            (e.is_live(t), e.is_acc(t) && leaf)
        };
        if top < 300 || top > 200_000 || top < min || (0..e.k).any(|c| matches!(one(c as usize), (true, false))) {
            return None;
        }
        let mut seen: Vec<Option<bool>> = vec![];
        let mut class = vec![0u8; 256];
        for b in 0..256 {
            let l = Some(one(e.class[b] as usize).0);
            if !seen.contains(&l) {
                seen.push(l);
            }
            class[b] = seen.iter().position(|x| *x == l).unwrap() as u8;
        }
        if !seen.contains(&Some(true)) {
            return None;
        }
        let k = seen.len();
        let has_dead = seen.contains(&Some(false)) || max.is_some();
        let n = top as usize + 1 + has_dead as usize;
        let dead = top + 1;
        let mut trans = Vec::with_capacity(n * k);
        for s in 0..=top {
            for l in &seen {
                trans.push(if *l == Some(false) {
                    dead
                } else if s < top {
                    s + 1
                } else if max.is_some() {
                    dead
                } else {
                    top
                });
            }
        }
        if has_dead {
            trans.extend(vec![dead; k]);
        }
        let acc = (0..n).map(|s| s >= min as usize && s <= top as usize).collect();
        let live = (0..n).map(|s| s <= top as usize).collect();
        Some(Dfa { class, k: k as _, n, trans, acc, live, start: 0 })
    }

    pub fn chain(n: u32) -> Dfa {
        let mut class = vec![2u8; 256];
        class[b'a' as usize] = 1;
        class[b'b' as usize] = 0;
        let dead = n + 2;
        let mut trans = vec![];
        for s in 0..n {
            trans.extend([s + 1, s + 1, dead]);
        }
        trans.extend([dead, n + 1, dead]);
        trans.extend([dead; 6]);
        let size = n as usize + 3;
        let mut acc = vec![false; size];
        acc[n as usize + 1] = true;
        let mut live = vec![true; size];
        live[size - 1] = false;
        Dfa { class, k: 3, n: size, trans, acc, live, start: 0 }
    }

    pub fn window(n: u32) -> Dfa {
        let size = 1usize << (n + 1);
        let mut class = vec![2u8; 256];
        class[b'a' as usize] = 1;
        class[b'b' as usize] = 0;
        let dead = size as u32;
        let mut trans = Vec::with_capacity((size + 1) * 3);
        let mut acc = Vec::with_capacity(size + 1);
        for s in 0..size {
            let t = (s << 1) & (size - 1);
            trans.extend([t as u32, t as u32 | 1, dead]);
            acc.push(s >> n & 1 == 1);
        }
        trans.extend([dead, dead, dead]);
        acc.push(false);
        let mut live = vec![true; size + 1];
        live[size] = false;
        Dfa { class, k: 3, n: size + 1, trans, acc, live, start: 0 }
    }

    /// a shortest accepted string from `s`
    pub fn witness(&self, s: u32) -> Option<Vec<u8>> {
        let mut rep = vec![0u8; self.k];
        for b in (0..=255u8).rev() {
            rep[self.class[b as usize] as usize] = b;
        }
        let mut from: Vec<Option<(u32, u8)>> = vec![None; self.n];
        let mut seen = vec![false; self.n];
        let mut q = std::collections::VecDeque::from([s]);
        seen[s as usize] = true;
        while let Some(x) = q.pop_front() {
            if self.is_acc(x) {
                let mut v = vec![];
                let mut y = x;
                while let Some((p, b)) = from[y as usize] {
                    v.push(b);
                    y = p;
                    if y == s {
                        break;
                    }
                }
                if x == s {
                    v.clear();
                }
                v.reverse();
                return Some(v);
            }
            for c in 0..self.k {
                let t = self.trans[x as usize * self.k + c];
                if !seen[t as usize] {
                    seen[t as usize] = true;
                    from[t as usize] = Some((x, rep[c]));
                    q.push_back(t);
                }
            }
        }
        None
    }
    pub fn bytes_of_class(&self, c: usize) -> Vec<u8> {
        (0..=255u8).filter(|b| self.class[*b as usize] as usize == c).collect()
    }
}

// ---------------------------------------------------------------------------------------------

pub type M = Arc<Model>;
#[derive(Debug, Clone, PartialEq)]
pub enum Node {
    Empty,
    None,
    Set(Set256),
    Bytes(Vec<u8>),
    Utf8(Vec<(u32, u32)>),
    Concat(Vec<M>),
    Or(Vec<M>),
    And(Vec<M>),
    Not(M),
    Repeat(M, u32, Option<u32>),
    Prefixes(M),
    Look(M),
    /// [ab]*a[ab]{n}
    Window(u32),
    /// language given by a DFA already (JSON quoting)
    Given(Arc<DfaBox>),
}
pub struct DfaBox(pub Dfa);
impl std::fmt::Debug for DfaBox {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "<dfa:{}>", self.0.n)
    }
}
impl PartialEq for DfaBox {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
pub struct Model {
    pub node: Node,
    pub has_look: bool,
    /// contains and/not
    pub has_bool: bool,
    pub has_prefixes: bool,
    pub size: usize,
    dfa: OnceLock<Result<Arc<Dfa>, TooBig>>,
}
impl std::fmt::Debug for Model {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.node.fmt(f)
    }
}
impl PartialEq for Model {
    fn eq(&self, o: &Self) -> bool {
        self.node == o.node
    }
}

pub fn m(node: Node) -> M {
    let mut has_look = false;
    let mut has_bool = false;
    let mut has_prefixes = false;
    let mut size = 1;
    {
        let mut add = |x: &M| {
            has_look |= x.has_look;
            has_bool |= x.has_bool;
            has_prefixes |= x.has_prefixes;
            size += x.size;
        };
        match &node {
            Node::Concat(v) | Node::Or(v) | Node::And(v) => v.iter().for_each(&mut add),
            Node::Not(x) | Node::Repeat(x, _, _) | Node::Prefixes(x) | Node::Look(x) => add(x),
            _ => {}
        }
    }
    match &node {
        Node::And(_) | Node::Not(_) => has_bool = true,
        Node::Look(_) => has_look = true,
        Node::Prefixes(_) => has_prefixes = true,
        _ => {}
    }
    Arc::new(Model { node, has_look, has_bool, has_prefixes, size, dfa: OnceLock::new() })
}

impl Model {
    pub fn dfa(&self) -> Result<Arc<Dfa>, TooBig> {
        self.dfa.get_or_init(|| self.build().map(Arc::new)).clone()
    }
    fn build(&self) -> Result<Dfa, TooBig> {
        let list = |v: &Vec<M>| -> Result<Vec<Arc<Dfa>>, TooBig> { v.iter().map(|x| x.dfa()).collect() };
        match &self.node {
            Node::Empty => Ok(Dfa::epsilon()),
            Node::None => Ok(Dfa::none()),
            Node::Set(s) => Ok(Dfa::set(s)),
            Node::Bytes(b) => Dfa::literal(b),
            Node::Utf8(r) => Ok(Dfa::utf8(r)),
            Node::Concat(v) => {
                let ds = list(v)?;
                let mut acc = Dfa::epsilon();
                // right to left keeps chains cheap
                for d in ds.iter().rev() {
                    acc = Dfa::concat2(d, &acc)?;
                }
                Ok(acc)
            }
            Node::Or(v) => {
                let ds = list(v)?;
                Dfa::or(&ds.iter().map(|d| &**d).collect::<Vec<_>>())
            }
            Node::And(v) => {
                let ds = list(v)?;
                Dfa::and(&ds.iter().map(|d| &**d).collect::<Vec<_>>())
            }
            Node::Not(x) => Ok(x.dfa()?.not()),
            Node::Repeat(x, a, b) => Dfa::repeat(&*x.dfa()?, *a, *b),
            Node::Prefixes(x) => Ok(x.dfa()?.prefixes()),
            Node::Look(x) => Ok(x.dfa()?.prefix_free()),
            Node::Window(n) if *n == u32::MAX => Err(TooBig),
            Node::Window(n) if *n > 20 => Ok(Dfa::chain(*n)),
            Node::Window(n) if *n <= 10 => Ok(Dfa::window(*n).canon()),
            Node::Window(n) => Ok(Dfa::window(*n)),
            Node::Given(d) => Ok(d.0.clone()),
        }
    }
    /// (A, B) pairs of an expression A(?P<stop>B) or an alternation of such.
    /// None if there is a lookahead elsewhere, or branches with and without lookahead are mixed.
    pub fn look_pairs(self: &Arc<Self>) -> Option<Vec<(Vec<M>, M)>> {
        if !self.has_look {
            return None;
        }
        match &self.node {
            Node::Look(b) if !b.has_look => Some(vec![(vec![], b.clone())]),
            Node::Or(v) => {
                let mut r = vec![];
                for x in v {
                    // an alternative that matches nothing does not matter
                    if !x.has_look && x.dfa().ok()?.is_empty_lang() {
                        continue;
                    }
                    r.extend(x.look_pairs()?);
                }
                Some(r)
            }
            Node::Concat(v) if !v.is_empty() => {
                let (last, init) = v.split_last().unwrap();
                if init.iter().any(|x| x.has_look) {
                    return None;
                }
                let mut r = last.look_pairs()?;
                for (a, _) in r.iter_mut() {
                    let mut p = init.to_vec();
                    p.append(a);
                    *a = p;
                }
                Some(r)
            }
            _ => None,
        }
    }
}

/// Shortest-lookahead tracker for a list of (A, B) pairs.
pub struct LookSpec {
    pub pairs: Vec<(Arc<Dfa>, Arc<Dfa>)>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct LookTrack {
    a: Vec<u32>,
    /// per pair: B state -> largest split offset
    b: Vec<BTreeMap<u32, usize>>,
    pos: usize,
}
impl LookSpec {
    pub fn new(m: &M) -> Option<Result<LookSpec, TooBig>> {
        let p = m.look_pairs()?;
        let f = || -> Result<LookSpec, TooBig> {
            let mut pairs = vec![];
            for (a, b) in p {
                let a = self::m(Node::Concat(a)).dfa()?;
                let b = Arc::new(b.dfa()?.prefix_free());
                pairs.push((a, b));
            }
            Ok(LookSpec { pairs })
        };
        Some(f())
    }
    pub fn start(&self) -> LookTrack {
        let mut t = LookTrack { a: vec![], b: vec![], pos: 0 };
        for (a, b) in &self.pairs {
            t.a.push(a.start);
            let mut mb = BTreeMap::new();
            if a.is_acc(a.start) {
                mb.insert(b.start, 0);
            }
            t.b.push(mb);
        }
        t
    }
    pub fn step(&self, t: &mut LookTrack, byte: u8) {
        t.pos += 1;
        for (i, (a, b)) in self.pairs.iter().enumerate() {
            t.a[i] = a.step(t.a[i], byte);
            let mut nb: BTreeMap<u32, usize> = BTreeMap::new();
            for (&s, &off) in &t.b[i] {
                let ns = b.step(s, byte);
                if b.is_live(ns) {
                    let e = nb.entry(ns).or_insert(off);
                    *e = (*e).max(off);
                }
            }
            if a.is_acc(t.a[i]) {
                let e = nb.entry(b.start).or_insert(t.pos);
                *e = (*e).max(t.pos);
            }
            t.b[i] = nb;
        }
    }
    pub fn len(&self, t: &LookTrack) -> Option<usize> {
        let mut best = None;
        for (i, (_, b)) in self.pairs.iter().enumerate() {
            for (&s, &off) in &t.b[i] {
                if b.is_acc(s) {
                    let l = t.pos - off;
                    best = Some(best.map_or(l, |x: usize| x.min(l)));
                }
            }
        }
        best
    }
}

// ---------------------------------------------------------------------------------------------
// regex strings

#[derive(Debug, Clone, PartialEq)]
pub enum PatErr {
    Syntax,
    Look,
}

pub fn model_of_pattern(p: &mut regex_syntax::Parser, rx: &str) -> Result<M, PatErr> {
    let hir = p.parse(rx).map_err(|_| PatErr::Syntax)?;
    of_hir(&hir, true, true)
}

fn of_hir(h: &regex_syntax::hir::Hir, s: bool, e: bool) -> Result<M, PatErr> {
    use regex_syntax::hir::{Class, HirKind, Look};
    Ok(match h.kind() {
        HirKind::Empty => m(Node::Empty),
        HirKind::Literal(l) => m(Node::Bytes(l.0.to_vec())),
        HirKind::Class(Class::Bytes(c)) => {
            let mut set = [0; 4];
            for r in c.ranges() {
                for b in r.start()..=r.end() {
                    set_add(&mut set, b);
                }
            }
            m(Node::Set(set))
        }
        HirKind::Class(Class::Unicode(c)) => {
            m(Node::Utf8(c.ranges().iter().map(|r| (r.start() as u32, r.end() as u32)).collect()))
        }
        // the whole text is matched, so these hold where nothing precedes / follows
        HirKind::Look(Look::Start) if s => m(Node::Empty),
        HirKind::Look(Look::End) if e => m(Node::Empty),
        HirKind::Look(_) => return Err(PatErr::Look),
        HirKind::Repetition(r) => m(Node::Repeat(of_hir(&r.sub, false, false)?, r.min, r.max)),
        HirKind::Capture(c) => {
            let x = of_hir(&c.sub, s, e)?;
            if c.name.as_deref() == Some("stop") {
                m(Node::Look(x))
            } else {
                x
            }
        }
        HirKind::Concat(v) => {
            let l = v.len();
            let mut r = vec![];
            for (i, x) in v.iter().enumerate() {
                r.push(of_hir(x, s && i == 0, e && i == l - 1)?);
            }
            m(Node::Concat(r))
        }
        HirKind::Alternation(v) => m(Node::Or(v.iter().map(|x| of_hir(x, s, e)).collect::<Result<_, _>>()?)),
    })
}
