//! Execution of the contracts on the real crate: choice sources, enumeration, shrinking.
use std::fmt::Display;
use std::panic::{self, AssertUnwindSafe};
use std::time::{Duration, Instant};

pub type R = Result<(), String>;

#[macro_export]
macro_rules! ck {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
#[macro_export]
macro_rules! eqv {
    ($a:expr, $b:expr, $($m:tt)*) => { match (&$a, &$b) { (a, b) => if *a != *b { return Err(format!("{}: got {:?}, contract says {:?}", format!($($m)*), a, b)); } } };
}

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Random,
    Replay,
    Exhaust,
}

pub struct Src {
    mode: Mode,
    rng: u64,
    pub data: Vec<(u64, u64)>, // (choice, bound)
    pos: usize,
    pub notes: Vec<String>,
    long: bool,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        let mut s = Src { mode: Mode::Random, rng: seed ^ 0x9E3779B97F4A7C15, data: vec![], pos: 0, notes: vec![], long: false };
        s.next();
        s.next();
        s.long = s.next() % 40 == 0;
        s
    }
    pub fn replay(data: Vec<(u64, u64)>) -> Self {
        Src { mode: Mode::Replay, rng: 1, data, pos: 0, notes: vec![], long: false }
    }
    fn next(&mut self) -> u64 {
        self.rng = self.rng.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.rng;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// A value in 0..n (n == 0 means the whole of u64).
    pub fn choose(&mut self, n: u64) -> u64 {
        let v = match self.mode {
            Mode::Random => {
                let x = self.next();
                if n == 0 { x } else { x % n }
            }
            Mode::Replay | Mode::Exhaust => {
                let x = self.data.get(self.pos).map(|c| c.0).unwrap_or(0);
                if n == 0 { x } else { x.min(n - 1) }
            }
        };
        if self.pos < self.data.len() {
            self.data[self.pos] = (v, n);
        } else {
            self.data.push((v, n));
        }
        self.pos += 1;
        v
    }
    /// The length of a text or list: at most `max`, in a few random cases up to six times as long.
    pub fn size(&mut self, max: usize) -> usize {
        let most = (max * 6) as u64;
        let v = match self.mode {
            Mode::Exhaust => return self.choose(max as u64 + 1) as usize,
            Mode::Random => {
                let x = self.next();
                x % if self.long { most + 1 } else { max as u64 + 1 }
            }
            Mode::Replay => self.data.get(self.pos).map(|c| c.0).unwrap_or(0).min(most),
        };
        if self.pos < self.data.len() {
            self.data[self.pos] = (v, most + 1);
        } else {
            self.data.push((v, most + 1));
        }
        self.pos += 1;
        v as usize
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.choose(n as u64) as usize
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.choose(hi - lo + 1)
    }
    pub fn bool(&mut self) -> bool {
        self.choose(2) == 1
    }
    pub fn one_in(&mut self, n: u64) -> bool {
        self.choose(n) == n - 1
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
    /// u64 with mass on the edges of the machine types and on powers of two.
    pub fn u64e(&mut self) -> u64 {
        match self.choose(6) {
            0 => self.choose(12),
            1 => self.choose(100_000),
            2 => {
                let k = self.choose(64);
                let d = self.choose(5);
                (1u64 << k).wrapping_add(d).wrapping_sub(2)
            }
            3 => *self.pick(&[u64::MAX, u64::MAX - 1, u32::MAX as u64, i64::MAX as u64, i64::MAX as u64 + 1, u16::MAX as u64, 255, 256, 65536, 1 << 53, (1 << 53) + 1]),
            _ => self.choose(0),
        }
    }
    pub fn str_of(&mut self, alphabet: &[char], max: usize) -> String {
        let n = self.size(max);
        (0..n).map(|_| *self.pick(alphabet)).collect()
    }
    /// A string assembled from fragments.
    pub fn frags(&mut self, frags: &[&str], max: usize) -> String {
        let n = self.size(max);
        let mut o = String::new();
        for _ in 0..n {
            o.push_str(self.pick(frags));
        }
        o
    }
    pub fn any_char(&mut self) -> char {
        match self.choose(8) {
            0 => char::from_u32(self.choose(0x80) as u32).unwrap(),
            1 => char::from_u32(0x80 + self.choose(0x80) as u32).unwrap(),
            2 => char::from_u32(0x100 + self.choose(0x300) as u32).unwrap(),
            3 => *self.pick(&['\u{122}', '\u{15c}', '\u{1F600}', '\u{131}', '\u{17f}', '\u{212a}', '\u{ff1b}', '\u{2028}', '\u{1c}', '\u{85}', '\u{a0}', '\u{feff}', '\0']),
            _ => char::from_u32(0x20 + self.choose(0x5f) as u32).unwrap(),
        }
    }
    pub fn any_str(&mut self, max: usize) -> String {
        let n = self.size(max);
        (0..n).map(|_| self.any_char()).collect()
    }
    pub fn ascii_str(&mut self, max: usize) -> String {
        let n = self.size(max);
        (0..n).map(|_| if self.one_in(6) { char::from_u32(self.choose(0x80) as u32).unwrap() } else { char::from_u32(0x20 + self.choose(0x5f) as u32).unwrap() }).collect()
    }
    /// Identifies the case: its recorded input, or its choices when it records none.
    pub fn digest(&self) -> u64 {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        if self.notes.is_empty() {
            self.data[..self.pos.min(self.data.len())].hash(&mut h);
        } else {
            self.notes.hash(&mut h);
        }
        h.finish()
    }
    /// The text between random blanks.
    pub fn padded(&mut self, t: &str) -> String {
        const B: &[&str] = &["", "", "", " ", "\t", "  "];
        format!("{}{}{}", self.pick(B), t, self.pick(B))
    }
    pub fn note(&mut self, what: &str, v: impl Display) {
        self.notes.push(format!("{} = {}", what, v));
    }
    pub fn dbg(&mut self, what: &str, v: impl std::fmt::Debug) {
        self.notes.push(format!("{} = {:?}", what, v));
    }
}

#[derive(Clone, Copy)]
pub enum How {
    /// enumerate every choice sequence (up to the cap; reported when the cap is hit)
    All(u64),
    /// this many random cases (scaled up in the thorough tier)
    Rand(u64),
}

#[derive(Clone, Copy)]
pub struct C {
    pub id: &'static str,
    /// the contract clause(s) this executes
    pub clause: &'static str,
    pub how: How,
    pub f: fn(&mut Src) -> R,
}

pub struct Fail {
    pub detail: String,
    pub choices: Vec<(u64, u64)>,
    pub notes: Vec<String>,
}

pub struct Outcome {
    pub cases: u64,
    pub distinct: u64,
    pub samples: Vec<Vec<String>>,
    pub exhaustive: bool,
    pub fail: Vec<Fail>,
    pub wall: Duration,
}

pub fn run_once(c: &C, s: &mut Src) -> R {
    s.pos = 0;
    s.notes.clear();
    match panic::catch_unwind(AssertUnwindSafe(|| (c.f)(s))) {
        Ok(r) => r,
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "?".into());
            Err(format!("panicked: {}", m))
        }
    }
}

/// Failure class: the part of the detail before the first `:` `got` ... is used so that
/// shrinking does not slip from one failure to another.
fn class(d: &str) -> String {
    d.chars().take_while(|c| *c != ':' && *c != '=' && *c != '"').take(40).collect()
}

fn shrink(c: &C, start: Vec<(u64, u64)>, detail: String) -> Fail {
    let cls = class(&detail);
    let mut best = start;
    let mut det = detail;
    let mut notes;
    {
        let mut s = Src::replay(best.clone());
        let _ = run_once(c, &mut s);
        notes = s.notes.clone();
    }
    let t0 = Instant::now();
    let mut changed = true;
    while changed && t0.elapsed() < Duration::from_secs(4) {
        changed = false;
        let attempt = |cand: Vec<(u64, u64)>, best: &mut Vec<(u64, u64)>, det: &mut String, notes: &mut Vec<String>| -> bool {
            let mut s = Src::replay(cand);
            if let Err(d) = run_once(c, &mut s) {
                if class(&d) == cls {
                    let used: Vec<(u64, u64)> = s.data[..s.pos].to_vec();
                    let simpler = used.len() < best.len() || (used.len() == best.len() && used.iter().map(|x| x.0).lt(best.iter().map(|x| x.0)));
                    if simpler {
                        *best = used;
                        *det = d;
                        *notes = s.notes.clone();
                        return true;
                    }
                }
            }
            false
        };
        let mut size = best.len().max(1) / 2;
        while size >= 1 {
            let mut i = 0;
            while i + size <= best.len() && t0.elapsed() < Duration::from_secs(4) {
                let mut cand = best.clone();
                cand.drain(i..i + size);
                if attempt(cand, &mut best, &mut det, &mut notes) {
                    changed = true;
                } else {
                    i += size;
                }
            }
            size /= 2;
        }
        let mut i = 0;
        while i < best.len() && t0.elapsed() < Duration::from_secs(4) {
            let v = best[i].0;
            for nv in [0, 1, v / 2, v.saturating_sub(1)] {
                if nv < best.get(i).map(|x| x.0).unwrap_or(0) {
                    let mut cand = best.clone();
                    cand[i].0 = nv;
                    if attempt(cand, &mut best, &mut det, &mut notes) {
                        changed = true;
                    }
                }
            }
            i += 1;
        }
    }
    Fail { detail: det, choices: best, notes }
}

fn sample(out: &mut Outcome, notes: &[String]) {
    if matches!(out.cases, 1 | 17 | 170) {
        out.samples.push(notes.iter().map(|n| n.chars().take(300).collect()).collect());
    }
}

/// What each worker is executing now: contract, since when, and the seed or choices of the case.
pub type Slot = std::sync::Mutex<Option<(&'static str, Instant, Option<u64>, Vec<(u64, u64)>)>>;

pub fn run(c: &C, slot: &Slot, seed: u64, scale: u64, max_wall: Duration, known: &dyn Fn(&str) -> bool) -> Outcome {
    let t0 = Instant::now();
    let mut dist: std::collections::HashSet<u64> = std::collections::HashSet::new();
    let mut out = Outcome { cases: 0, distinct: 0, samples: vec![], exhaustive: false, fail: vec![], wall: Duration::ZERO };
    let mut seen: Vec<String> = vec![];
    let mut record = |out: &mut Outcome, data: Vec<(u64, u64)>, d: String| -> bool {
        if known(&d) {
            let k = d.clone();
            if !seen.contains(&k) {
                seen.push(k);
                out.fail.push(Fail { detail: d, choices: data, notes: vec![] });
            }
            return false;
        }
        let f = shrink(c, data.clone(), d.clone());
        // a shrunk case may have become a listed finding: then report the original
        let f = if known(&f.detail) {
            let mut s = Src::replay(data.clone());
            let _ = run_once(c, &mut s);
            Fail { detail: d, choices: data, notes: s.notes }
        } else {
            f
        };
        out.fail.push(f);
        true
    };
    match c.how {
        How::All(cap) => {
            let mut s = Src { mode: Mode::Exhaust, rng: 1, data: vec![], pos: 0, notes: vec![], long: false };
            loop {
                *slot.lock().unwrap() = Some((c.id, Instant::now(), None, s.data.clone()));
                let r = run_once(c, &mut s);
                out.cases += 1;
                s.data.truncate(s.pos);
                dist.insert(s.digest());
                sample(&mut out, &s.notes);
                if let Err(d) = r {
                    let data = s.data.clone();
                    if record(&mut out, data, d) {
                        break;
                    }
                }
                // odometer
                let mut done = true;
                while let Some((v, n)) = s.data.pop() {
                    if n == 0 || v + 1 < n {
                        s.data.push((v + 1, n));
                        done = false;
                        break;
                    }
                }
                if done {
                    out.exhaustive = true;
                    break;
                }
                if out.cases >= cap.saturating_mul(scale) || t0.elapsed() > max_wall {
                    break;
                }
            }
        }
        How::Rand(n) => {
            let n = n.saturating_mul(scale);
            let h = c.id.bytes().fold(seed.wrapping_mul(0x100000001b3), |a, b| (a ^ b as u64).wrapping_mul(0x100000001b3));
            for i in 0..n {
                let cs = h.wrapping_add(i.wrapping_mul(0x9E3779B97F4A7C15));
                let mut s = Src::random(cs);
                *slot.lock().unwrap() = Some((c.id, Instant::now(), Some(cs), vec![]));
                let r = run_once(c, &mut s);
                out.cases += 1;
                dist.insert(s.digest());
                sample(&mut out, &s.notes);
                if let Err(d) = r {
                    let data = s.data[..s.pos].to_vec();
                    if record(&mut out, data, d) {
                        break;
                    }
                }
                if i % 64 == 0 && t0.elapsed() > max_wall {
                    break;
                }
            }
        }
    }
    *slot.lock().unwrap() = None;
    out.distinct = dist.len() as u64;
    out.wall = t0.elapsed();
    out
}

/// An empty header map (`Headers::new` is not public).
/// Headers that may already hold an older value under the name.
pub fn old(s: &mut Src, name: &str) -> http_types::headers::Headers {
    let mut h = hs();
    for _ in 0..s.below(3) {
        let _ = h.append(name, "older");
    }
    h
}
/// The headers after applying a typed header, to a map that may hold older values of it.
pub fn written<T: http_types::headers::Header>(s: &mut Src, name: &str, x: &T) -> Result<http_types::headers::Headers, String> {
    let mut h = old(s, name);
    let _ = h.insert("x-other", "kept");
    x.apply_header(&mut h);
    let got: Vec<(String, Vec<String>)> = {
        let mut v: Vec<_> = h.iter().map(|(n, v)| (n.to_string(), v.iter().map(|v| v.to_string()).collect())).collect();
        v.sort();
        v
    };
    let mut want = vec![(name.to_string(), vec![x.header_value().as_str().to_string()]), ("x-other".to_string(), vec!["kept".to_string()])];
    want.sort();
    crate::eqv!(got, want, "headers after applying {}", name);
    Ok(h)
}
pub fn hs() -> http_types::headers::Headers {
    let mut h = AsRef::<http_types::headers::Headers>::as_ref(&http_types::Response::new(200)).clone();
    h.remove("content-type");
    h
}
