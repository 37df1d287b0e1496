//! Support for the replay programs: arguments, a seeded generator, reporting.
//! usage: BIN SEED SECONDS HUNT
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::panic::{self, AssertUnwindSafe};
use std::time::{Duration, Instant};

pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03 | 1)
    }
    pub fn next(&mut self) -> u64 {
        let mut x = self.0;
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        self.0 = x;
        x.wrapping_mul(0x2545_F491_4F6C_DD1D)
    }
    pub fn below(&mut self, n: usize) -> usize {
        ((self.next() >> 33) as usize) % n.max(1)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn any_char(&mut self) -> char {
        loop {
            if let Some(c) = std::char::from_u32(self.below(0x11_0000) as u32) {
                return c;
            }
        }
    }
}

pub struct Run {
    pub seed: u64,
    pub secs: u64,
    pub hunt: bool,
    pub rng: Rng,
    start: Instant,
    deadline: Instant,
    evaluations: u64,
    nontrivial: u64,
    samples: Vec<String>,
    fails: BTreeMap<String, usize>,
    parts: Vec<String>,
}

impl Run {
    pub fn start() -> Run {
        let a: Vec<String> = std::env::args().collect();
        let num = |i: usize, d: u64| a.get(i).and_then(|x| x.parse().ok()).unwrap_or(d);
        panic::set_hook(Box::new(|_| {}));
        let (seed, secs) = (num(1, 1), num(2, 10));
        let now = Instant::now();
        Run {
            seed,
            secs,
            hunt: num(3, 0) == 1,
            rng: Rng::new(seed),
            start: now,
            deadline: now + Duration::from_secs(secs),
            evaluations: 0,
            nontrivial: 0,
            samples: vec![],
            fails: BTreeMap::new(),
            parts: vec![],
        }
    }
    /// Is there time left, counting `share` (0..=100) percent of the budget?
    pub fn time(&self, share: u64) -> bool {
        Instant::now() < self.start + Duration::from_millis(self.secs * 10 * share) && !self.enough()
    }
    pub fn over(&self) -> bool {
        Instant::now() >= self.deadline
    }
    pub fn enough(&self) -> bool {
        self.fails.values().sum::<usize>() >= 40
    }
    /// Count one evaluation. Callers make each case new (enumeration or fresh random draw).
    pub fn count(&mut self, nontrivial: bool) {
        self.evaluations += 1;
        if nontrivial {
            self.nontrivial += 1;
        }
    }
    pub fn part(&mut self, s: &str) {
        self.parts.push(s.to_string());
    }
    pub fn sample<T: Debug>(&mut self, s: T) {
        if self.samples.len() < 5 {
            self.samples.push(format!("{:?}", s));
        }
    }
    pub fn fail(&mut self, class: &str, input: String, detail: String) {
        let n = self.fails.entry(class.to_string()).or_insert(0);
        *n += 1;
        if *n <= 5 {
            println!("FAIL {{\"class\":{},\"input\":{},\"detail\":{}}}", q(class), q(&input), q(&detail));
        }
    }
    /// expect(real == reference)
    pub fn same<I: Debug, T: PartialEq + Debug>(&mut self, class: &str, input: I, real: T, want: T) -> bool {
        if real != want {
            self.fail(class, format!("{:?}", input), format!("got {:?}, must be {:?}", real, want));
            return false;
        }
        true
    }
    pub fn check<I: Debug>(&mut self, class: &str, input: I, ok: bool, why: &str) -> bool {
        if !ok {
            self.fail(class, format!("{:?}", input), why.to_string());
        }
        ok
    }
    /// Run real code; a panic is a failure.
    pub fn real<I: Debug, T>(&mut self, class: &str, input: I, f: impl FnOnce() -> T) -> Option<T> {
        match panic::catch_unwind(AssertUnwindSafe(f)) {
            Ok(v) => Some(v),
            Err(e) => {
                let m = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                self.fail(class, format!("{:?}", input), format!("panicked: {}", m));
                None
            }
        }
    }
    pub fn finish(self) -> ! {
        let samples: Vec<String> = self.samples.iter().map(|s| q(s)).collect();
        let parts: Vec<String> = self.parts.iter().map(|s| q(s)).collect();
        println!(
            "SUMMARY {{\"evaluations\":{},\"distinct_nontrivial\":{},\"samples\":[{}],\"parts\":[{}],\"failures\":{}}}",
            self.evaluations,
            self.nontrivial,
            samples.join(","),
            parts.join(","),
            self.fails.values().sum::<usize>()
        );
        std::process::exit(if self.fails.is_empty() { 0 } else { 1 })
    }
}

/// The value or None when it panicked (no failure recorded).
pub fn quiet<T>(f: impl FnOnce() -> T) -> Option<T> {
    panic::catch_unwind(AssertUnwindSafe(f)).ok()
}

pub fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7E => {
                let mut b = [0; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{:04x}", u));
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

// -- the data of the Unicode version the tables are for

/// FNV-1a, 64 bits
pub struct Fnv(pub u64);

impl Fnv {
    pub fn bytes(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100_0000_01B3);
        }
    }
    pub fn num(&mut self, n: u64) {
        self.bytes(&n.to_le_bytes());
    }
    pub fn str(&mut self, s: &str) {
        self.bytes(s.as_bytes());
        self.bytes(&[0xFF]);
    }
    pub fn chars(&mut self, s: Option<&[char]>) {
        match s {
            None => self.num(u64::max_value()),
            Some(s) => {
                for c in s {
                    self.num(*c as u64);
                }
                self.num(u64::max_value() - 1);
            }
        }
    }
}

impl std::fmt::Write for Fnv {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.bytes(s.as_bytes());
        Ok(())
    }
}

/// Do the tables of /repo say they are for Unicode 10.0.0, the version data/ucd10.txt records?
fn recorded_version() -> bool {
    let t = std::fs::read_to_string("/repo/unic/ucd/version/tables/unicode_version.rsv").unwrap_or_default();
    let n: Vec<&str> = t.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).collect();
    n == ["10", "0", "0"]
}

/// The value `f` reports for each character against the one recorded for Unicode 10.0.0, by digests of 256 characters each.
pub fn data(r: &mut Run, prop: &str, f: impl Fn(char, &mut Fnv)) {
    let digest = |b: u32| {
        let mut h = Fnv(0xCBF2_9CE4_8422_2325);
        for u in b * 256..b * 256 + 256 {
            if let Some(c) = std::char::from_u32(u) {
                f(c, &mut h);
                h.bytes(&[0xFE]);
            }
        }
        (h.0 ^ h.0 >> 32) as u32
    };
    if std::env::var_os("REPLAY_RECORD").is_some() {
        let mut runs: Vec<(u32, u32)> = vec![];
        for b in 0..0x1100 {
            let d = digest(b);
            match runs.last_mut() {
                Some(l) if l.1 == d => l.0 += 1,
                _ => runs.push((1, d)),
            }
        }
        let t: Vec<String> = runs.iter().map(|(n, d)| if *n == 1 { format!("{:x}", d) } else { format!("{:x}*{:x}", d, n) }).collect();
        println!("RECORD {} {}", prop, t.join(" "));
        return;
    }
    if !recorded_version() {
        return;
    }
    let line = include_str!("../data/ucd10.txt").lines().find(|l| l.split(' ').next() == Some(prop)).unwrap_or_else(|| panic!("no record of {}", prop));
    let mut b = 0;
    for w in line.split(' ').skip(1) {
        let mut p = w.split('*').map(|x| u32::from_str_radix(x, 16).unwrap());
        let d = p.next().unwrap();
        for _ in 0..p.next().unwrap_or(1) {
            r.count(true);
            match panic::catch_unwind(AssertUnwindSafe(|| digest(b))) {
                Ok(x) if x == d => {}
                Ok(_) => r.fail("data", format!("{} of U+{:04X}..U+{:04X}", prop, b * 256, b * 256 + 255), "some value here differs from the one recorded for Unicode 10.0.0".into()),
                Err(_) => r.fail("data", format!("{} of U+{:04X}..U+{:04X}", prop, b * 256, b * 256 + 255), "panicked".into()),
            }
            if r.enough() {
                return;
            }
            b += 1;
        }
    }
}
