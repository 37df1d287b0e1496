//! C16: Punycode, RFC 3492 sections 6.1 to 6.3, in unbounded integers.
use replay::Run;
use unic_idna_punycode::{decode, decode_to_string, encode, encode_str};

const MAX: i128 = u32::max_value() as i128;

fn thr(k: i128, bias: i128) -> i128 {
    (k - bias).max(1).min(26)
}
fn adapt(delta: i128, n: i128, first: bool) -> i128 {
    let mut d = if first { delta / 700 } else { delta / 2 };
    d += d / n;
    let mut k = 0;
    while d > 455 {
        d /= 35;
        k += 36;
    }
    k + 36 * d / (d + 38)
}
fn digit(b: u8) -> Option<i128> {
    match b {
        b'0'..=b'9' => Some(b as i128 - 0x30 + 26),
        b'A'..=b'Z' => Some(b as i128 - 0x41),
        b'a'..=b'z' => Some(b as i128 - 0x61),
        _ => None,
    }
}
fn dec(s: &str) -> Option<Vec<char>> {
    let b = s.as_bytes();
    let (mut out, mut p): (Vec<char>, usize) = match b.iter().rposition(|&x| x == b'-') {
        None => (vec![], 0),
        Some(p) => {
            if b[..p].iter().any(|x| *x >= 128) {
                return None;
            }
            (b[..p].iter().map(|&x| x as char).collect(), if p == 0 { 0 } else { p + 1 })
        }
    };
    let (mut n, mut i, mut bias) = (128i128, 0i128, 72i128);
    while p < b.len() {
        let old = i;
        let (mut w, mut k) = (1i128, 36i128);
        loop {
            let d = digit(*b.get(p)?)?;
            p += 1;
            i += d * w;
            if i > MAX {
                return None;
            }
            let t = thr(k, bias);
            if d < t {
                break;
            }
            w *= 36 - t;
            if w > MAX {
                return None;
            }
            k += 36;
        }
        let l = out.len() as i128 + 1;
        bias = adapt(i - old, l, old == 0);
        n += i / l;
        if n > MAX {
            return None;
        }
        i %= l;
        out.insert(i as usize, std::char::from_u32(n as u32)?);
        i += 1;
    }
    Some(out)
}
fn dchar(v: i128) -> char {
    (if v < 26 { v as u8 + b'a' } else { v as u8 - 26 + b'0' }) as char
}
fn enc(s: &[char]) -> Option<String> {
    let mut out: String = s.iter().filter(|c| (**c as u32) < 128).collect();
    let b = out.len() as i128;
    if b > 0 {
        out.push('-');
    }
    let (mut n, mut delta, mut bias, mut h) = (128i128, 0i128, 72i128, b);
    while (h as usize) < s.len() {
        let m = s.iter().map(|&c| c as i128).filter(|&c| c >= n).min().unwrap();
        delta += (m - n) * (h + 1);
        if delta > MAX {
            return None;
        }
        n = m;
        for &c in s {
            let c = c as i128;
            if c < n {
                delta += 1;
                if delta > MAX {
                    return None;
                }
            }
            if c == n {
                let (mut q, mut k) = (delta, 36);
                loop {
                    let t = thr(k, bias);
                    if q < t {
                        break;
                    }
                    out.push(dchar(t + (q - t) % (36 - t)));
                    q = (q - t) / (36 - t);
                    k += 36;
                }
                out.push(dchar(q));
                bias = adapt(delta, h + 1, h == b);
                delta = 0;
                h += 1;
            }
        }
        delta += 1;
        n += 1;
    }
    Some(out)
}

/// A string whose generalized integers are the given deltas (as far as they go), behind `basic`.
fn deltas(basic: &str, ds: &[i128]) -> String {
    let mut s = if basic.is_empty() { String::new() } else { format!("{}-", basic) };
    let (mut l, mut i, mut bias) = (basic.chars().count() as i128, 0i128, 72i128);
    for &d in ds {
        let (mut q, mut k) = (d, 36);
        loop {
            let t = thr(k, bias);
            if q < t {
                break;
            }
            s.push(dchar(t + (q - t) % (36 - t)));
            q = (q - t) / (36 - t);
            k += 36;
        }
        s.push(dchar(q));
        l += 1;
        bias = adapt(d.max(0), l, i == 0);
        i = (i + d) % l + 1;
    }
    s
}

fn one_dec(r: &mut Run, s: &str) {
    let w = dec(s);
    r.count(w.is_some());
    if let Some(g) = r.real("decode-panic", s, || (decode(s), decode_to_string(s))) {
        r.same("decode_to_string", s, g.1, w.as_ref().map(|v| v.iter().collect::<String>()));
        r.same("decode", s, g.0, w);
    }
}
fn one_enc(r: &mut Run, s: &[char]) {
    let w = enc(s);
    r.count(s.iter().any(|c| !c.is_ascii()));
    let st: String = s.iter().collect();
    if let Some(g) = r.real("encode-panic", s, || (encode(s), encode_str(&st))) {
        r.same("encode_str", s, &g.1, &w);
        r.same("encode", s, &g.0, &w);
        if let Some(e) = g.0 {
            if let Some(d) = r.real("decode-panic", &e, || decode(&e)) {
                r.same("roundtrip", s, d, Some(s.to_vec()));
            }
        }
    }
}

fn main() {
    let mut r = Run::start();
    r.part("every string over 14 bytes, up to length 4: decode");
    let al = ["-", "0", "9", "a", "b", "k", "y", "z", "A", "Z", "/", "[", "\u{e9}", "{"];
    let mut all: Vec<String> = vec![String::new()];
    let mut lo = 0;
    for _ in 0..4 {
        let hi = all.len();
        for i in lo..hi {
            for a in &al {
                all.push(all[i].clone() + a);
            }
        }
        lo = hi;
    }
    for s in &all {
        one_dec(&mut r, s);
    }
    for &c in &["-", "a-", "--", "bcher-kva", "ihqwcrb4cv8a8dqg056pqjye", "99999999", "zzzzzzzzz", "99999a", "a-99999999", "ls8h=", "\u{ff}-a", "Pact-\u{e9}-a"] {
        one_dec(&mut r, c);
    }
    r.part("every sequence over 9 characters, up to length 5: encode and back");
    let cs = ['a', '-', '\u{7f}', '\u{80}', '\u{e9}', '\u{d7ff}', '\u{e000}', '\u{10fffe}', '\u{10ffff}'];
    let mut lev: Vec<Vec<char>> = vec![vec![]];
    for _ in 0..=5 {
        for v in &lev {
            one_enc(&mut r, v);
        }
        lev = lev.iter().flat_map(|v| cs.iter().map(move |&c| { let mut v = v.clone(); v.push(c); v })).collect();
        if !r.time(60) {
            break;
        }
    }
    r.part("long inputs near the overflow of delta");
    for &n in &[1000usize, 2048, 3853, 3854, 3855, 4000, 8000, 8900] {
        for &(x, y) in &[('a', '\u{10ffff}'), ('a', '\u{10fffe}'), ('\u{80}', '\u{10ffff}'), ('\u{80}', '\u{81}'), ('\u{10fff0}', '\u{10ffff}')] {
            let mut v: Vec<char> = vec![x; n];
            v.push(y);
            one_enc(&mut r, &v);
            v.insert(n / 2, '\u{10fffd}');
            one_enc(&mut r, &v);
        }
    }
    r.part("chosen deltas: around 2^32, around the end of the code space and the surrogates, zero");
    while r.time(78) {
        let basic = *r.rng.pick(&["", "a", "ab", "abcdefghij", "-", "--a"]);
        let n = 1 + r.rng.below(4);
        let mut l = basic.len() as i128;
        let ds: Vec<i128> = (0..n)
            .map(|_| {
                l += 1;
                let e = r.rng.below(400) as i128 - 200;
                let d = match r.rng.below(8) {
                    0 | 1 => MAX + e,
                    2 => 0x10_FFFF * l + e,
                    3 => 0xD800 * l + e,
                    4 => r.rng.below(0x10_FFFF) as i128 * l,
                    5 => 0,
                    6 => e,
                    _ => (r.rng.next() & 0xFFFF_FFFF) as i128,
                };
                d.max(0)
            })
            .collect();
        one_dec(&mut r, &deltas(basic, &ds));
        let d = MAX - r.rng.below(300) as i128;
        one_dec(&mut r, &deltas("", &[d]));
    }
    r.part("random strings and mutated encodings");
    while r.time(90) {
        let n = r.rng.below(12);
        let kind = r.rng.below(4);
        let v: Vec<char> = (0..n)
            .map(|_| match (kind, r.rng.below(3)) {
                (0, _) => r.rng.any_char(),
                (1, 0) => (r.rng.below(128) as u8) as char,
                (1, _) => std::char::from_u32(0x80 + r.rng.below(0x800) as u32).unwrap(),
                (2, _) => std::char::from_u32(0x4E00 + r.rng.below(0x5000) as u32).unwrap(),
                (_, 0) => r.rng.any_char(),
                _ => *r.rng.pick(&cs),
            })
            .collect();
        one_enc(&mut r, &v);
        if let Some(e) = enc(&v) {
            let mut b: Vec<char> = e.chars().collect();
            if !b.is_empty() {
                for _ in 0..1 + r.rng.below(2) {
                    let i = r.rng.below(b.len());
                    b[i] = *r.rng.pick(&['a', 'z', '9', '0', 'A', '-', 'm', '\u{e9}', '!']);
                }
            }
            one_dec(&mut r, &b.iter().collect::<String>());
        }
        let m = r.rng.below(14);
        let s: String = (0..m).map(|_| *r.rng.pick(&['a', 'b', 'q', 'z', '0', '9', 'Z', '-', 'g'])).collect();
        one_dec(&mut r, &s);
    }
    r.sample(("b\u{fc}cher", enc(&"b\u{fc}cher".chars().collect::<Vec<_>>())));
    r.finish()
}
