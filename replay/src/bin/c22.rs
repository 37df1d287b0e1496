//! C22: the documented written forms.
use replay::Run;
use std::fmt::{self, Write};
use unic_bidi::level::Level;
use unic_bidi::BidiInfo;
use unic_char_basics::notation::unicode_notation;
use unic_ucd::normal::CanonicalCombiningClass as CCC;
use unic_ucd::UnicodeVersion;

/// Takes `left` bytes, then fails; notes what comes after a failure.
struct Short {
    left: usize,
    got: String,
    failed: bool,
    after: bool,
}

impl Write for Short {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.failed {
            self.after = true;
            return Err(fmt::Error);
        }
        if s.len() > self.left {
            self.failed = true;
            return Err(fmt::Error);
        }
        self.left -= s.len();
        self.got.push_str(s);
        Ok(())
    }
}

// digits, one at a time
fn digits(mut n: u32, base: u32, least: usize) -> String {
    let mut out = vec![];
    while n > 0 || out.is_empty() || out.len() < least {
        out.push(b"0123456789ABCDEF"[(n % base) as usize] as char);
        n /= base;
    }
    out.iter().rev().collect()
}

fn form<T: fmt::Display, I: fmt::Debug + Clone>(r: &mut Run, class: &str, x: &T, input: I, want: &str) {
    r.same(class, input.clone(), x.to_string(), want.to_string());
    for left in 0..=want.len() {
        let mut s = Short { left, got: String::new(), failed: false, after: false };
        let res = write!(s, "{}", x).is_ok();
        r.same("failing-write", (class, input.clone(), left), (res, want.starts_with(&s.got), s.after), (left == want.len(), true, false));
    }
}

fn main() {
    let mut r = Run::start();
    r.part("every character: its notation; of every 97th and of the boundaries, with writes that fail at every length");
    for c in (0..=0x10_FFFFu32).filter_map(std::char::from_u32) {
        let want = format!("U+{}", digits(c as u32, 16, 4));
        r.count(c as u32 >= 0x10000);
        if c as u32 % 97 == 0 || (c as u32 & 0xFFF) < 2 || (c as u32 & 0xFFF) == 0xFFF {
            form(&mut r, "notation", &unicode_notation(c), c, &want);
        } else {
            r.same("notation", c, unicode_notation(c).to_string(), want);
        }
    }
    r.part("versions: each number from 0 to 255 in each place, and random ones");
    for i in 0..2000u32 {
        let v = r.rng.next();
        let (a, b, c) = if i < 768 {
            let n = (i % 256) as u8;
            match i / 256 {
                0 => (n, v as u8, 0),
                1 => (v as u8, n, 1),
                _ => (v as u8, 2, n),
            }
        } else {
            (v as u8, (v >> 8) as u8, (v >> 16) as u8)
        };
        r.count(true);
        let want = format!("{}.{}.{}", digits(a as u32, 10, 1), digits(b as u32, 10, 1), digits(c as u32, 10, 1));
        form(&mut r, "version", &UnicodeVersion { major: a, minor: b, micro: c }, (a, b, c), &want);
    }
    r.part("the combining class of every character that has one");
    let mut seen = [false; 256];
    for c in (0..=0x10_FFFFu32).filter_map(std::char::from_u32) {
        let k = CCC::of(c);
        if !seen[k.number() as usize] {
            seen[k.number() as usize] = true;
            r.count(true);
            form(&mut r, "ccc", &k, c, &digits(k.number() as u32, 10, 1));
        }
    }
    r.part("every level: its text, and comparison with the texts of all numbers, with x and with texts near them");
    for n in 0..=126u8 {
        let l = Level::new(n).unwrap();
        form(&mut r, "level", &l, n, &digits(n as u32, 10, 1));
        let mut texts: Vec<String> = (0..256u32).map(|m| digits(m, 10, 1)).collect();
        for t in ["x", "X", "", " x", "xx", "-1"] {
            texts.push(t.to_string());
        }
        for t in [format!("0{}", n), format!("{} ", n), format!(" {}", n), format!("+{}", n), format!("{}x", n), format!("{}", n as u32 + 256)] {
            texts.push(t);
        }
        for t in texts {
            r.count(true);
            let want = t == "x" || t == digits(n as u32, 10, 1);
            r.same("level-text", (n, t.clone()), (l == t.as_str(), l == t), (want, want));
        }
    }
    r.part("random short texts: the bidi information's own text");
    let alpha = ['a', '\u{5D0}', '1', ' ', '\u{2029}', '\n', '\u{202B}', '\u{202C}', '\u{2067}', '\u{661}', '\u{202E}'];
    let mut n = 0;
    while n < 3000 && !r.over() {
        n += 1;
        let t: String = (0..r.rng.next() % 12).map(|_| alpha[(r.rng.next() % alpha.len() as u64) as usize]).collect();
        let info = BidiInfo::new(&t, None);
        let top = info.levels.iter().map(|l| l.number()).fold(0, |a, b| if b > a { b } else { a });
        r.count(top > 0);
        let want = format!("{} paragraphs with a maximum bidirectional level of {}", digits(info.paragraphs.len() as u32, 10, 1), digits(top as u32, 10, 1));
        form(&mut r, "info", &info, t.clone(), &want);
    }
    r.finish()
}
