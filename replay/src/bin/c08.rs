//! C08: an embedding level is a number in 0..=126 and every operation keeps it there.
use replay::{quiet, Run};
use unic_bidi::level::{self, Level};
use unic_bidi::BidiClass;

fn main() {
    let mut r = Run::start();
    r.part("all 256 numbers, all operations with all 256 amounts (exhaustive)");
    for n in 0..=255u8 {
        let made = Level::new(n);
        r.count(true);
        r.same("new", n, made.map(|l| l.number()).ok(), if n <= 126 { Some(n) } else { None });
        r.same("new-explicit", n, Level::new_explicit(n).map(|l| l.number()).ok(), if n <= 125 { Some(n) } else { None });
        r.same("from", n, quiet(|| Level::from(n).number()), if n <= 126 { Some(n) } else { None });
        r.same("vec", n, quiet(|| Level::vec(&[0, n])).map(|v| v.iter().map(|l| l.number()).collect::<Vec<_>>()), if n <= 126 { Some(vec![0, n]) } else { None });
        let l = match made {
            Ok(l) if n <= 126 => l,
            _ => continue,
        };
        r.same("ltr", n, l.is_ltr(), n % 2 == 0);
        r.same("rtl", n, l.is_rtl(), n % 2 == 1);
        r.same("class", n, l.bidi_class(), if n % 2 == 0 { BidiClass::LeftToRight } else { BidiClass::RightToLeft });
        let u: u8 = l.into();
        r.same("into", n, u, n);
        r.same("display", n, l.to_string(), n.to_string());
        let ne = if n % 2 == 0 { n + 2 } else { n + 1 };
        let no = if n % 2 == 0 { n + 1 } else { n + 2 };
        let lim = |x: u8, m: u8| if x <= m { Some(x) } else { None };
        r.same("next-ltr", n, quiet(|| l.new_explicit_next_ltr().map(|l| l.number()).ok()), Some(lim(ne, 125)));
        r.same("next-rtl", n, quiet(|| l.new_explicit_next_rtl().map(|l| l.number()).ok()), Some(lim(no, 125)));
        r.same("lowest-ge-rtl", n, quiet(|| l.new_lowest_ge_rtl().map(|l| l.number()).ok()), Some(lim(n + (1 - n % 2), 126)));
        for a in 0..=255u8 {
            r.count(true);
            let apply = |f: &dyn Fn(&mut Level) -> bool| {
                quiet(|| {
                    let mut m = l;
                    let ok = f(&mut m);
                    (ok, m.number())
                })
            };
            let s = n as u32 + a as u32;
            r.same("raise", (n, a), apply(&|m| m.raise(a).is_ok()), Some(if s <= 126 { (true, s as u8) } else { (false, n) }));
            r.same("raise-explicit", (n, a), apply(&|m| m.raise_explicit(a).is_ok()), Some(if s <= 125 { (true, s as u8) } else { (false, n) }));
            r.same("lower", (n, a), apply(&|m| m.lower(a).is_ok()), Some(if a <= n { (true, n - a) } else { (false, n) }));
            if let Ok(m) = Level::new(a) {
                r.same("order", (n, a), l.cmp(&m), n.cmp(&a));
                r.same("eq", (n, a), l == m, n == a);
                r.same("has-rtl", (n, a), level::has_rtl(&[l, m, l]), n % 2 == 1 || a % 2 == 1);
            }
        }
    }
    r.same("consts", (), (Level::ltr().number(), Level::rtl().number(), level::LTR_LEVEL.number(), level::RTL_LEVEL.number()), (0, 1, 0, 1));
    r.same("consts", (), (Level::max_implicit_depth(), Level::max_explicit_depth(), level::MAX_EXPLICIT_DEPTH, level::MAX_IMPLICIT_DEPTH), (126, 125, 125, 126));
    r.same("has-rtl", "empty", level::has_rtl(&[]), false);
    r.part("levels of the library's own results are in range: random texts");
    let cs = ['a', '\u{5D0}', '\u{202B}', '\u{202A}', '\u{2067}', '\u{2066}', '\u{2069}', '\u{202C}', '1', ' '];
    while r.time(60) {
        let n = r.rng.below(300);
        let t: String = (0..n).map(|_| *r.rng.pick(&cs)).collect();
        let p = r.rng.below(4) as u8;
        r.count(n > 0);
        if let Some(ls) = r.real("bidi-panic", &t, || unic_bidi::BidiInfo::new(&t, Level::new(p).ok().filter(|_| p < 2)).levels) {
            r.check("range", &t, ls.iter().all(|l| l.number() <= 126), "a level above 126");
        }
    }
    r.sample("raise(125, 1) = 126; raise(125, 2) fails and leaves 125");
    r.finish()
}
