//! C20: Display and Debug print every element once, row by row.
use matreex::{Matrix, Order};
use mxv::engine::guard;
use mxv::*;
use std::fmt::{self, Debug, Display, Write};

/// An element with chosen renderings.
#[derive(Clone, PartialEq)]
struct Txt {
    display: String,
    debug: String,
    chunks: u8,
}
impl Txt {
    /// in one piece, in several, or through the formatter's own machinery
    fn put(&self, f: &mut fmt::Formatter<'_>, s: &str) -> fmt::Result {
        match self.chunks {
            0 => f.write_str(s),
            1 => s.chars().try_for_each(|c| f.write_char(c)),
            _ => write!(f, "{s}"),
        }
    }
}
impl Display for Txt {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.put(f, &self.display)
    }
}
impl Debug for Txt {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.put(f, &self.debug)
    }
}

/// A matrix with these elements (row by row), whose accessors agree that it is.
fn make<T: Clone>(order: Order, nr: usize, nc: usize, d: &[T], path: usize, eq: impl Fn(&T, &T) -> bool) -> Option<Matrix<T>> {
    let m = guard(|| {
        let mut mem = Vec::with_capacity(d.len());
        for k in 0..d.len() {
            let (r, c) = pos(order, nr, nc, k);
            mem.push(d[r * nc + c].clone());
        }
        let mut m = Matrix::from_row(mem);
        if order == Order::RowMajor {
            m.reshape((nr, nc)).ok()?;
        } else {
            m.reshape((nc, nr)).ok()?;
            if path == 0 { m.switch_order_without_rearrangement() } else { m.transpose().switch_order() };
        }
        Some(m)
    })
    .ok()??;
    if (m.nrows(), m.ncols(), m.order()) != (nr, nc, order) || m.size() != d.len() {
        return None;
    }
    (0..d.len()).all(|k| m.get((k / nc, k % nc)).is_ok_and(|e| eq(e, &d[k]))).then_some(m)
}

fn coloured() -> bool {
    std::env::var("FORCE_COLOR").is_ok()
}
/// The text without colours.
fn plain(s: String) -> String {
    if !coloured() {
        return s;
    }
    let mut o = String::with_capacity(s.len());
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\u{1b}' && it.peek() == Some(&'[') {
            for c in it.by_ref() {
                if c == 'm' {
                    break;
                }
            }
        } else {
            o.push(c);
        }
    }
    o
}

fn shown(s: &str) -> String {
    if s.len() <= 1200 { s.to_string() } else { format!("({} bytes)", s.len()) }
}

/// Labels and elements of a text: maximal runs of digits and of the letters used for elements.
fn runs(s: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let mut last = 0;
    for c in s.chars() {
        let kind = if c.is_ascii_digit() { 1 } else if c.is_alphabetic() || c > '\u{1000}' { 2 } else { 0 };
        if kind != 0 {
            if kind == last { v.last_mut().unwrap().push(c) } else { v.push(c.to_string()) }
        }
        last = kind;
    }
    v
}

struct Text<'a> {
    what: &'a str,
    debug: bool,
    order: Order,
    nr: usize,
    nc: usize,
    /// renderings of the elements, row by row
    d: &'a [String],
    /// every rendering consists of letters only
    letters: bool,
}

impl Text<'_> {
    fn check(&self, s: &str) -> R {
        self.check_inner(s).map_err(|e| format!("{} of a {}x{} {:?} matrix {e}\n{}", self.what, self.nr, self.nc, self.order, shown(s)))
    }
    fn check_inner(&self, s: &str) -> R {
        let (nr, nc) = (self.nr, self.nc);
        if nr * nc == 0 {
            ensure!(s.chars().all(|c| c == '[' || c == ']' || c.is_whitespace()), "prints more than brackets");
            return Ok(());
        }
        if self.d.iter().any(|e| e.contains(['\n', '\r'])) {
            return self.tall(s);
        }
        let mut lines: Vec<&str> = s.split('\n').collect();
        if lines.first().is_some_and(|l| l.trim() == "[") {
            lines.remove(0);
        }
        if lines.last().is_some_and(|l| l.trim() == "]") {
            lines.pop();
        }
        if self.debug {
            // the line with the column numbers is the one without a bracket
            let head: Vec<&&str> = lines.iter().filter(|l| !l.contains('[')).collect();
            ensure!(head.len() == 1, "has {} lines without brackets instead of one with the column numbers", head.len());
            let want: Vec<String> = (0..nc).map(|c| c.to_string()).collect();
            ensure!(head[0].split_whitespace().eq(want.iter()), "numbers the columns {:?}", head[0].trim());
            lines.retain(|l| l.contains('['));
        }
        ensure!(lines.len() == nr, "has {} row lines", lines.len());
        let width = lines[0].chars().count();
        for (r, l) in lines.iter().enumerate() {
            let w = l.chars().count();
            ensure!(w == width, "has row lines of {width} (row 0) and {w} (row {r}) characters");
            let t = l.trim();
            let Some(at) = t.find('[') else { return Err(format!("has no bracket in row line {r}")) };
            ensure!(t.len() > at + 1 && t.ends_with(']'), "does not bracket row line {r}");
            let (before, inner) = (t[..at].trim(), &t[at + 1..t.len() - 1]);
            if self.debug {
                ensure!(before == r.to_string(), "numbers row {r} {before:?}");
            } else {
                ensure!(before.is_empty(), "has {before:?} before row {r}");
            }
            let label = |c: usize| flat(self.order, nr, nc, r, c).to_string();
            if self.letters {
                let mut want = vec![];
                for c in 0..nc {
                    if self.debug {
                        want.push(label(c));
                    }
                    if !self.d[r * nc + c].is_empty() {
                        want.push(self.d[r * nc + c].clone());
                    }
                }
                let got = runs(inner);
                ensure!(got == want, "has {got:?} in row {r} instead of {want:?}");
            } else {
                // in order, without overlap, with nothing but space and labels between them
                let mut rest = inner;
                for c in 0..nc {
                    if self.debug {
                        rest = self.skip(rest, &label(c)).ok_or_else(|| format!("does not label ({r},{c}) with {}", label(c)))?;
                    }
                    let e = &self.d[r * nc + c];
                    rest = self.skip(rest, e).ok_or_else(|| format!("does not have {e:?} at ({r},{c})"))?;
                }
                ensure!(rest.trim().is_empty(), "has {rest:?} at the end of row {r}");
            }
        }
        Ok(())
    }
    /// What follows `e` in `s`, if only spaces and separators precede it.
    fn skip<'s>(&self, s: &'s str, e: &str) -> Option<&'s str> {
        if e.is_empty() {
            return Some(s);
        }
        let mut s = s;
        loop {
            if let Some(rest) = s.strip_prefix(e) {
                return Some(rest);
            }
            let c = s.chars().next()?;
            if !matches!(c, ' ' | ',' | ':' | '|' | ';') {
                return None;
            }
            s = &s[1..];
        }
    }
    /// Multi-line renderings made of letters: every line of every element once, rows in order,
    /// the k-th lines of a row's elements in column order on one line.
    fn tall(&self, s: &str) -> R {
        if !self.letters {
            return Ok(());
        }
        let mut seen: Vec<(usize, usize, String)> = vec![];
        for (k, l) in s.split('\n').enumerate() {
            for (p, r) in runs(l).into_iter().enumerate() {
                if !r.starts_with(|c: char| c.is_ascii_digit()) {
                    seen.push((k, p, r));
                }
            }
        }
        let find = |t: &str| -> Result<(usize, usize), String> {
            let v: Vec<_> = seen.iter().filter(|x| x.2 == t).collect();
            ensure!(v.len() == 1, "prints {t:?} {} times", v.len());
            Ok((v[0].0, v[0].1))
        };
        let mut total = 0;
        let mut below = 0;
        for r in 0..self.nr {
            let mut at: Vec<(usize, usize)> = vec![];
            for c in 0..self.nc {
                let mut line = None;
                for (k, t) in self.d[r * self.nc + c].lines().enumerate() {
                    if t.is_empty() {
                        continue;
                    }
                    let p = find(t)?;
                    total += 1;
                    if let Some((k0, l0)) = line {
                        ensure!(p.0 - l0 == k - k0, "breaks the element ({r},{c}) apart");
                    } else {
                        line = Some((k, p.0));
                    }
                    at.push(p);
                }
            }
            for a in &at {
                ensure!(a.0 >= below, "mixes row {r} with the rows before it");
            }
            below = at.iter().map(|a| a.0 + 1).max().unwrap_or(below).max(below);
            // column order within each printed line
            for w in 0..at.len() {
                for v in w + 1..at.len() {
                    ensure!(at[w].0 != at[v].0 || at[w].1 < at[v].1, "permutes the elements of row {r}");
                }
            }
        }
        ensure!(total == seen.len(), "prints {} tokens instead of {total}", seen.len());
        Ok(())
    }
}

/// A sink that fails after some bytes.
struct Narrow(usize);
impl Write for Narrow {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0 = self.0.checked_sub(s.len()).ok_or(fmt::Error)?;
        Ok(())
    }
}

/// Everything asked of one matrix and the same matrix in the other order.
fn judge<T: Clone + Debug + Display>(
    cx: &mut Cx,
    (order, nr, nc): (Order, usize, usize),
    d: &[T],
    letters: bool,
    path: usize,
    cut: usize,
    eq: impl Fn(&T, &T) -> bool,
) -> R {
    let m = made!(cx, make(order, nr, nc, d, path, &eq));
    let n = made!(cx, make(other(order), nr, nc, d, path, &eq));
    let display: Vec<String> = d.iter().map(|e| format!("{e}")).collect();
    let debug: Vec<String> = d.iter().map(|e| format!("{e:?}")).collect();
    let size = format!("{nr}x{nc} {order:?}");
    let a = guard(|| format!("{m}")).map_err(|p| format!("Display of {size} panics: {p}"))?;
    let b = guard(|| format!("{n}")).map_err(|p| format!("Display of {size}, order switched, panics: {p}"))?;
    ensure!(a == b, "Display of equal {nr}x{nc} matrices differs:\n{} ({order:?})\n{} (the other)", shown(&a), shown(&b));
    Text { what: "Display", debug: false, order, nr, nc, d: &display, letters }.check(&a)?;
    let x = plain(guard(|| format!("{m:?}")).map_err(|p| format!("Debug of {size} panics: {p}"))?);
    Text { what: "Debug", debug: true, order, nr, nc, d: &debug, letters }.check(&x)?;
    let y = plain(guard(|| format!("{n:?}")).map_err(|p| format!("Debug of {size}, order switched, panics: {p}"))?);
    Text { what: "Debug", debug: true, order: n.order(), nr, nc, d: &debug, letters }.check(&y)?;
    // flags, nesting and failing sinks: nothing panics, and the orders do not differ
    for k in 0..4 {
        let f = |m: &Matrix<T>| match k {
            0 => format!("{m:#?}"),
            1 => format!("{m:12.3?}{m:<3}"),
            2 => format!("{:?}", Some(m)),
            _ => format!("{:#?}", [m, m]),
        };
        guard(|| f(&m)).map_err(|p| format!("format {k} of {size} panics: {p}"))?;
    }
    for (flags, p) in [
        ("{:12.3}", guard(|| (format!("{m:12.3}"), format!("{n:12.3}")))),
        ("{:#^+9}", guard(|| (format!("{m:#^+9}"), format!("{n:#^+9}")))),
    ] {
        let (a, b) = p.map_err(|p| format!("{flags} of {size} panics: {p}"))?;
        ensure!(a == b, "{flags} of equal {nr}x{nc} matrices differs:\n{}\n{}", shown(&a), shown(&b));
    }
    let cut = if a.is_empty() { 0 } else { cut % (a.len() + 4) };
    guard(|| write!(Narrow(cut), "{m}").is_ok()).map_err(|p| format!("Display of {size} to a failing sink panics: {p}"))?;
    guard(|| write!(Narrow(cut), "{m:?}").is_ok()).map_err(|p| format!("Debug of {size} to a failing sink panics: {p}"))?;
    cx.evals += 10;
    cx.dump(|| format!("{a}\u{1}{x}\u{1}{y}"));
    Ok(())
}

const LETTERS: [char; 12] = ['a', 'b', 'q', 'Z', 'é', 'λ', 'ß', 'ж', '漢', '字', 'ア', '🦀'];

/// A word of letters that says which element and which line it is.
fn word(src: &mut Src, k: usize, line: usize, what: char, len: usize) -> String {
    let mut s = String::new();
    let mut v = k * 8 + line;
    s.push(what);
    loop {
        s.push((b'a' + (v % 26) as u8) as char);
        v /= 26;
        if v == 0 {
            break;
        }
    }
    s.push('X');
    let pad = *src.pick(&LETTERS);
    for _ in 0..len {
        s.push(pad);
    }
    s
}

const ODD: [&str; 26] = [
    "", " ", "  x", "x  ", "a b", "[", "]", "[]", "[[", "]]", "[1, 2]", "0", "1", "12", "-7", "0 1", "\t", "e\u{301}", "\u{200d}", "👩‍👩‍👧", "ש", "\u{2028}",
    "\u{1b}[31mred", "\\n", "{}", "\u{0}",
];

fn shape(src: &mut Src, cx: &Cx, big: bool) -> (usize, usize) {
    if big && !cx.miri && src.chance(1, 12) {
        // labels of several digits
        return match src.idx(12) {
            11 => {
                let n = src.range(100, 1100);
                if src.flip() { (n, 1) } else { (1, n) }
            }
            0..=3 => (src.range(1, 12), src.range(8, 110)),
            4..=7 => (src.range(8, 110), src.range(1, 12)),
            _ => (src.range(3, 36), src.range(3, 36)),
        };
    }
    let max = if cx.miri { 2 } else { 5 };
    draw_shape(src, max)
}

fn words(src: &mut Src, cx: &mut Cx) -> R {
    cx.evals = 0;
    let (nr, nc) = shape(src, cx, true);
    let order = draw_order(src);
    let (path, cut) = (src.idx(2), src.idx(4000));
    let (blank, long) = (src.idx(4), 1 + src.idx(14));
    let d: Vec<Txt> = (0..nr * nc)
        .map(|k| {
            let mut one = |what: char| {
                if blank > 0 && src.chance(blank as u64, 8) {
                    return String::new();
                }
                let n = src.idx(long);
                word(src, k, 0, what, n)
            };
            let (display, debug) = (one('p'), one('d'));
            Txt { display, debug, chunks: src.idx(3) as u8 }
        })
        .collect();
    cx.note(|| format!("{nr}x{nc} {order:?}, {d:?}"));
    cx.nontrivial = nr >= 2 && nc >= 2;
    cx.label_if(nr * nc == 0, "no elements");
    cx.label_if(nr * nc >= 100, "labels of three digits or more");
    cx.label_if(d.iter().any(|t| t.display.is_empty()), "empty renderings");
    judge(cx, (order, nr, nc), &d, true, path, cut, |a, b| a == b)
}

/// Renderings with spaces, brackets, digits, combining and control characters.
fn odd(src: &mut Src, cx: &mut Cx) -> R {
    cx.evals = 0;
    let (nr, nc) = shape(src, cx, false);
    let order = draw_order(src);
    let (path, cut) = (src.idx(2), src.idx(2000));
    let d: Vec<Txt> = (0..nr * nc)
        .map(|_| {
            let mut one = || {
                let n = src.idx(3) + 1;
                let mut s = String::new();
                for _ in 0..n {
                    s.push_str(src.pick(&ODD));
                }
                s
            };
            let (display, debug) = (one(), one());
            Txt { display, debug, chunks: src.idx(3) as u8 }
        })
        .collect();
    cx.note(|| format!("{nr}x{nc} {order:?}, {d:?}"));
    cx.nontrivial = nr >= 2 && nc >= 2;
    if coloured() {
        // escape sequences inside elements could not be told from labels'
        let esc = |t: &Txt| t.debug.contains('\u{1b}') || t.display.contains('\u{1b}');
        if d.iter().any(esc) {
            return Ok(());
        }
    }
    judge(cx, (order, nr, nc), &d, false, path, cut, |a, b| a == b)
}

/// Renderings of several lines, also empty ones and trailing line ends.
fn lines(src: &mut Src, cx: &mut Cx) -> R {
    cx.evals = 0;
    let (nr, nc) = shape(src, cx, false);
    let order = draw_order(src);
    let (path, cut) = (src.idx(2), src.idx(4000));
    let end = *src.pick(&["\n", "\n", "\r\n"]);
    let d: Vec<Txt> = (0..nr * nc)
        .map(|k| {
            let mut one = |what: char| {
                let n = src.idx(5);
                let mut s = String::new();
                for line in 0..n {
                    if line > 0 {
                        s.push_str(end);
                    }
                    if !src.chance(1, 5) {
                        let len = src.idx(9);
                        s.push_str(&word(src, k, line, what, len));
                    }
                }
                if n > 0 && src.chance(1, 5) {
                    s.push_str(end);
                }
                s
            };
            let (display, debug) = (one('p'), one('d'));
            Txt { display, debug, chunks: src.idx(3) as u8 }
        })
        .collect();
    cx.note(|| format!("{nr}x{nc} {order:?}, {d:?}"));
    cx.nontrivial = nr * nc >= 2;
    cx.label_if(d.iter().any(|t| t.display.contains('\n') && t.debug.contains('\n')), "several lines");
    judge(cx, (order, nr, nc), &d, true, path, cut, |a, b| a == b)
}

/// Renderings wider than 65535 characters, or taller.
fn long(src: &mut Src, cx: &mut Cx) -> R {
    cx.evals = 0;
    let (nr, nc) = (src.range(1, 3), src.range(1, 3));
    let order = draw_order(src);
    let tall = src.chance(1, 4);
    let len = *src.pick(&[65533usize, 65534, 65535, 65536, 65537, 70000, 131072]);
    let at = src.idx(nr * nc);
    let glyph = *src.pick(&['q', 'é', '漢', '🦀']);
    let d: Vec<Txt> = (0..nr * nc)
        .map(|k| {
            let one = |src: &mut Src, what: char| {
                let s = word(src, k, 0, what, 2);
                if k != at {
                    s
                } else if tall {
                    s + &"\n".repeat(len) + &word(src, k, 1, what, 0)
                } else {
                    let n = len - s.chars().count();
                    s + &glyph.to_string().repeat(n)
                }
            };
            let (display, debug) = (one(src, 'p'), one(src, 'd'));
            Txt { display, debug, chunks: 0 }
        })
        .collect();
    let cut = src.idx(1 << 20);
    cx.note(|| format!("{nr}x{nc} {order:?}, element {at} has {len} {}", if tall { "lines" } else { "characters" }));
    cx.nontrivial = true;
    judge(cx, (order, nr, nc), &d, true, 0, cut, |a, b| a == b)
}

/// Element types of everyday use.
fn typed(src: &mut Src, cx: &mut Cx) -> R {
    cx.evals = 0;
    let (nr, nc) = shape(src, cx, true);
    let order = draw_order(src);
    let (path, cut) = (src.idx(2), src.idx(4000));
    let kind = src.idx(7);
    let s = (order, nr, nc);
    let n = nr * nc;
    let names = ["i32", "f64", "String", "char", "&str", "bool", "Matrix<u8>"];
    cx.note(|| format!("{nr}x{nc} {order:?} of {}", names[kind]));
    cx.nontrivial = nr >= 2 && nc >= 2;
    cx.label(names[kind]);
    match kind {
        0 => {
            let d: Vec<i32> = (0..n).map(|_| if src.flip() { src.idx(20) as i32 - 10 } else { src.u64() as i32 }).collect();
            judge(cx, s, &d, false, path, cut, |a, b| a == b)
        }
        1 => {
            let d: Vec<f64> = (0..n)
                .map(|_| match src.idx(6) {
                    0 => f64::NAN,
                    1 => -0.0,
                    2 => f64::INFINITY,
                    3 => f64::MAX,
                    4 => src.idx(100) as f64 / 8.0,
                    _ => f64::from_bits(src.u64()),
                })
                .collect();
            judge(cx, s, &d, false, path, cut, |a, b| a.to_bits() == b.to_bits())
        }
        2 => {
            let d: Vec<String> = (0..n).map(|_| src.pick(&ODD).to_string()).collect();
            if coloured() && d.iter().any(|t| t.contains('\u{1b}')) {
                return Ok(());
            }
            judge(cx, s, &d, false, path, cut, |a, b| a == b)
        }
        3 => {
            let d: Vec<char> = (0..n).map(|_| *src.pick(&['a', ' ', '[', ']', '"', '\'', '漢', '\u{301}', '5'])).collect();
            judge(cx, s, &d, false, path, cut, |a, b| a == b)
        }
        4 => {
            let d: Vec<&str> = (0..n).map(|_| *src.pick(&["", "x", "a longer one", "\"quoted\""])).collect();
            judge(cx, s, &d, false, path, cut, |a, b| a == b)
        }
        5 => {
            let d: Vec<bool> = (0..n).map(|_| src.flip()).collect();
            judge(cx, s, &d, false, path, cut, |a, b| a == b)
        }
        _ => {
            // a matrix of matrices: multi-line renderings
            let d: Vec<Matrix<u8>> = (0..n.min(30))
                .map(|_| {
                    let (a, b) = (src.idx(3), src.idx(3));
                    let mut m = Matrix::from_row((0..a * b).map(|_| src.u64() as u8).collect::<Vec<u8>>());
                    let _ = m.reshape((a, b));
                    m
                })
                .collect();
            if d.len() < n {
                return Ok(());
            }
            judge(cx, s, &d, false, path, cut, |a, b| (a.nrows(), a.ncols()) == (b.nrows(), b.ncols()) && a.iter_elements().eq(b.iter_elements()))
        }
    }
}

fn main() {
    main_entry(&[
        Suite { name: "words", f: words },
        Suite { name: "odd", f: odd },
        Suite { name: "lines", f: lines },
        Suite { name: "long", f: long },
        Suite { name: "typed", f: typed },
    ])
}
