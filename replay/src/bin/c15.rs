//! C15: grapheme cluster boundaries by the rules of UAX #29, the iterators and the cursor in every way of use.
use replay::Run;
use unic_segment::{GraphemeCursor, GraphemeIncomplete, GraphemeIndices, Graphemes};
use unic_ucd::segment::GraphemeClusterBreak::{self as G, *};

/// Boundaries, as byte offsets.
fn bounds(s: &str, ext: bool) -> Vec<usize> {
    let t: Vec<(usize, G)> = s.char_indices().map(|(i, c)| (i, G::of(c))).collect();
    let ctl = |c: G| c == CR || c == LF || c == Control;
    let mut out = vec![0];
    for i in 1..t.len() {
        let (a, b) = (t[i - 1].1, t[i].1);
        let base = t[..i].iter().rev().find(|x| x.1 != Extend).map_or(false, |x| x.1 == EBase || x.1 == EBaseGAZ);
        let ri = t[..i].iter().rev().take_while(|x| x.1 == RegionalIndicator).count();
        let join = if a == CR && b == LF {
            true
        } else if ctl(a) || ctl(b) {
            false
        } else {
            a == L && (b == L || b == V || b == LV || b == LVT)
                || (a == LV || a == V) && (b == V || b == T)
                || (a == LVT || a == T) && b == T
                || b == Extend
                || b == ZWJ
                || ext && (b == SpacingMark || a == Prepend)
                || base && b == EModifier
                || a == ZWJ && (b == GlueAfterZwj || b == EBaseGAZ)
                || b == RegionalIndicator && ri % 2 == 1
        };
        if !join {
            out.push(t[i].0);
        }
    }
    if !s.is_empty() {
        out.push(s.len());
    }
    out
}
fn new(ext: bool, o: usize, n: usize) -> GraphemeCursor {
    if ext {
        GraphemeCursor::new(o, n)
    } else {
        GraphemeCursor::new_legacy(o, n)
    }
}
fn iters(r: &mut Run, s: &str, ext: bool) {
    let w = bounds(s, ext);
    let mk = || if ext { Graphemes::new(s) } else { Graphemes::new_legacy(s) };
    let mi = || if ext { GraphemeIndices::new(s) } else { GraphemeIndices::new_legacy(s) };
    r.count(w.len() > 2 && w.len() <= s.chars().count());
    let pieces: Vec<(usize, &str)> = w.windows(2).map(|p| (p[0], &s[p[0]..p[1]])).collect();
    let f = r.real("graphemes", (s, ext), || mi().collect::<Vec<_>>());
    let b = r.real("graphemes", (s, ext), || {
        let mut v: Vec<_> = mi().rev().collect();
        v.reverse();
        v
    });
    if let (Some(f), Some(b)) = (f, b) {
        r.same("graphemes", (s, ext), f, pieces.clone());
        r.same("graphemes-back", (s, ext), b, pieces.clone());
    }
    // from both ends
    let (bits, mut lo, mut hi) = (r.rng.next(), 0, pieces.len());
    let ok = r.real("graphemes-mixed", (s, ext), || {
        let (mut g, mut x) = (mk(), mi());
        for k in 0..pieces.len() + 2 {
            let rest: String = pieces[lo..hi].iter().map(|p| p.1).collect();
            let h = g.size_hint();
            if g.as_str() != rest || x.as_str() != rest || h.0 > hi - lo || h.1.map_or(true, |h| h < hi - lo) || x.size_hint() != h {
                return false;
            }
            let back = bits >> (k % 64) & 1 == 1;
            let (p, q) = if back { (g.next_back(), x.next_back()) } else { (g.next(), x.next()) };
            let want = if lo == hi {
                None
            } else if back {
                hi -= 1;
                Some(pieces[hi])
            } else {
                lo += 1;
                Some(pieces[lo - 1])
            };
            if p != want.map(|w| w.1) || q != want {
                return false;
            }
        }
        true
    });
    if let Some(ok) = ok {
        r.check("graphemes-mixed", (s, ext, bits), ok, "iterating from both ends yields other clusters");
    }
}
/// The cursor, fed by chunks cut at random; what is asked for is given, as the documentation says.
fn cursor(r: &mut Run, s: &str, ext: bool, whole: bool) {
    let w = bounds(s, ext);
    let n = s.len();
    let marks: Vec<usize> = s.char_indices().map(|x| x.0).chain(Some(n)).collect();
    let seed = r.rng.next();
    let mut log: Vec<String> = vec![];
    let out = r.real("cursor", (s, ext, whole, seed), || {
        let mut g = replay::Rng::new(seed);
        let mut k = g.below(marks.len());
        let mut c = new(ext, marks[k], n);
        // a chunk with the characters from a to b
        let mut near = |g: &mut replay::Rng, lo: usize, hi: usize| {
            if whole {
                (0, marks.len() - 1)
            } else {
                let d = g.below(4);
                (lo - g.below(d + 1).min(lo), (hi + g.below(d + 1)).min(marks.len() - 1))
            }
        };
        for _ in 0..12 {
            if c.cur_cursor() != marks[k] {
                return Some(format!("at {} and not {}", c.cur_cursor(), marks[k]));
            }
            let op = g.below(5);
            if op == 0 {
                k = g.below(marks.len());
                c.set_cursor(marks[k]);
                log.push(format!("set_cursor({})", marks[k]));
                continue;
            }
            let last = marks.len() - 1;
            if g.below(4) == 0 && last > 1 {
                // a chunk that does not contain the cursor
                let x = 1 + g.below(last);
                let y = g.below(x);
                if x < k || y > k {
                    let res = c.is_boundary(&s[marks[y]..marks[x]], marks[y]);
                    log.push(format!("is_boundary({:?}, {}) = {:?}", &s[marks[y]..marks[x]], marks[y], res));
                    if res != Err(GraphemeIncomplete::InvalidOffset) && res != Ok(w.contains(&marks[k])) {
                        return Some(format!("neither right nor InvalidOffset; {}", log.join("; ")));
                    }
                }
            }
            let (mut a, mut b) = match op {
                1 | 2 => near(&mut g, k, (k + 1).min(last)),
                3 => near(&mut g, k, (k + 1).min(last)),
                _ => near(&mut g, k, k),
            };
            if a == b && n > 0 {
                if a > 0 { a -= 1 } else { b += 1 }
            }
            for _ in 0..4 * marks.len() + 8 {
                let chunk = &s[marks[a]..marks[b]];
                let res = match op {
                    1 => c.is_boundary(chunk, marks[a]).map(|x| if x { Some(1) } else { None }),
                    2 | 3 => c.next_boundary(chunk, marks[a]),
                    _ => c.prev_boundary(chunk, marks[a]),
                };
                log.push(format!("{}({:?}, {}) = {:?}", ["", "is_boundary", "next_boundary", "next_boundary", "prev_boundary"][op], chunk, marks[a], res));
                if res.is_err() && !whole && g.below(4) == 0 {
                    // in between, a chunk that does not contain the cursor
                    let x = 1 + g.below(last);
                    let y = g.below(x);
                    let here = c.cur_cursor();
                    if marks[x] < here || marks[y] > here {
                        let res = c.is_boundary(&s[marks[y]..marks[x]], marks[y]);
                        log.push(format!("is_boundary({:?}, {}) = {:?}", &s[marks[y]..marks[x]], marks[y], res));
                        if res != Err(GraphemeIncomplete::InvalidOffset) && res != Ok(w.contains(&here)) {
                            return Some(format!("neither right nor InvalidOffset; {}", log.join("; ")));
                        }
                    }
                }
                match res {
                    Ok(x) => {
                        let want = match op {
                            1 => if w.contains(&marks[k]) { Some(1) } else { None },
                            2 | 3 => w.iter().copied().find(|&x| x > marks[k]),
                            _ => w.iter().rev().copied().find(|&x| x < marks[k]),
                        };
                        // an empty text has one boundary, at both ends
                        if x != want && !(n == 0 && op == 1) {
                            return Some(format!("{:?} and not {:?}; {}", x, want, log.join("; ")));
                        }
                        if op > 1 {
                            if let Some(x) = x {
                                k = marks.iter().position(|m| *m == x).unwrap();
                            }
                        }
                        break;
                    }
                    Err(e) if whole => return Some(format!("{:?} for the whole text", e)),
                    Err(GraphemeIncomplete::PreContext(p)) => {
                        let e = match marks.iter().position(|m| *m == p) {
                            Some(e) if e > 0 => e,
                            _ => return Some(format!("context to {} asked for; {}", p, log.join("; "))),
                        };
                        let f = e - 1 - g.below(3).min(e - 1);
                        log.push(format!("provide_context({:?}, {})", &s[marks[f]..p], marks[f]));
                        if g.below(16) > 0 {
                            c.provide_context(&s[marks[f]..p], marks[f]);
                        } else {
                            // or leave the query and go elsewhere
                            let here = marks.iter().position(|m| *m == c.cur_cursor()).unwrap();
                            let there = g.below(marks.len());
                            if there != here {
                                log.push(format!("set_cursor({})", marks[there]));
                                c.set_cursor(marks[there]);
                                k = there;
                                break;
                            }
                            c.provide_context(&s[marks[f]..p], marks[f]);
                        }
                    }
                    Err(GraphemeIncomplete::NextChunk) => {
                        if b == last {
                            return Some(format!("a chunk after the end asked for; {}", log.join("; ")));
                        }
                        a = b;
                        b = (a + 1 + g.below(3)).min(last);
                    }
                    Err(GraphemeIncomplete::PrevChunk) => {
                        if a == 0 {
                            return Some(format!("a chunk before the start asked for; {}", log.join("; ")));
                        }
                        b = a;
                        a = b - 1 - g.below(3).min(b - 1);
                    }
                    Err(e) => return Some(format!("{:?}; {}", e, log.join("; "))),
                }
            }
        }
        None
    });
    r.count(true);
    match out {
        Some(Some(why)) => {
            r.fail("cursor", format!("{:?}", (s, "extended", ext)), why);
        }
        None => r.fail("cursor-panic", format!("{:?}", (s, "extended", ext)), log.join("; ")),
        _ => {}
    }
}
fn main() {
    let mut r = Run::start();
    r.part("the properties this rests on, of every character, against the values recorded for Unicode 10.0.0 (digests of 256 characters)");
    replay::data(&mut r, "grapheme_cluster_break", |c, h| {
        let _ = std::fmt::Write::write_fmt(h, format_args!("{:?}", unic_ucd::GraphemeClusterBreak::of(c)));
    });
    let mut of: Vec<Vec<char>> = vec![];
    let mut kinds: Vec<G> = vec![];
    for c in (0..=0x10_FFFFu32).filter_map(std::char::from_u32) {
        let k = G::of(c);
        match kinds.iter().position(|x| *x == k) {
            Some(i) => of[i].push(c),
            None => {
                kinds.push(k);
                of.push(vec![c])
            }
        }
    }
    let m = kinds.len();
    r.part("one character of each class, all texts of up to 4 characters (exhaustive), extended and legacy, forwards, backwards and from both ends");
    for n in 0..5u32 {
        for x in 0..m.pow(n) {
            let mut y = x;
            let s: String = (0..n).map(|_| { let c = of[y % m][0]; y /= m; c }).collect();
            iters(&mut r, &s, true);
            iters(&mut r, &s, false);
        }
        if !r.time(50) {
            break;
        }
    }
    r.part("random texts of up to 16 characters of few classes; the cursor over the whole text and over chunks, every request answered, and moved while a query waits");
    while !r.over() && !r.enough() {
        let set: Vec<usize> = (0..1 + r.rng.below(4)).map(|_| r.rng.below(m)).collect();
        let len = r.rng.below(17);
        let s: String = (0..len).map(|_| { let i = if r.rng.below(6) == 0 { r.rng.below(m) } else { *r.rng.pick(&set) }; *r.rng.pick(&of[i]) }).collect();
        r.sample(&s);
        for ext in [true, false].iter() {
            iters(&mut r, &s, *ext);
            cursor(&mut r, &s, *ext, true);
            cursor(&mut r, &s, *ext, false);
            cursor(&mut r, &s, *ext, false);
        }
    }
    r.finish()
}
