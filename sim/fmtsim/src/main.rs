//! C20: element types with a rendering of their own, sinks that give out, and
//! terminals that do or do not support colours, against Display and Debug.

use matreex::{Matrix, Order};
use simrt::runner::{self, Prop, Tier};
use simrt::*;
use std::fmt::{self, Debug, Display, Write};

#[global_allocator]
static HEAP: heap::SimHeap = heap::SimHeap;

/// An element that renders as it was told, in as many pieces as it likes.
#[derive(Clone, PartialEq)]
struct Cell {
    id: usize,
    display: String,
    debug: String,
    pieces: usize,
}
fn emit(f: &mut fmt::Formatter<'_>, s: &str, pieces: usize) -> fmt::Result {
    match pieces {
        0 => f.write_str(s),
        1 => s.chars().try_for_each(|c| f.write_char(c)),
        2 => write!(f, "{s}"),
        // honours width and precision, were it given any
        _ => f.pad(s),
    }
}
impl Display for Cell {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        cb("cb_display");
        emit(f, &self.display, self.pieces)
    }
}
impl Debug for Cell {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        cb("cb_debug");
        emit(f, &self.debug, self.pieces)
    }
}

/// Accepts so many bytes or calls, then fails, for good or for a while.
struct Sink {
    got: String,
    bytes: usize,
    calls: usize,
    failed: bool,
    recovers: bool,
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.failed && !self.recovers {
            return Err(fmt::Error);
        }
        if self.calls == 0 || s.len() > self.bytes {
            self.failed = true;
            self.calls = usize::MAX;
            return Err(fmt::Error);
        }
        self.calls -= 1;
        self.bytes -= s.len();
        self.got.push_str(s);
        Ok(())
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum How {
    Display,
    Debug,
}

/// Colours: as the terminal and the environment have it, or forced by the application.
#[derive(Clone, Copy, PartialEq)]
enum Colour {
    Env,
    #[cfg_attr(not(feature = "full-set"), allow(dead_code))]
    Off,
    #[cfg_attr(not(feature = "full-set"), allow(dead_code))]
    On,
}

fn colour(c: Colour) {
    #[cfg(feature = "full-set")]
    match c {
        Colour::Env => owo_colors::unset_override(),
        Colour::Off => owo_colors::set_override(false),
        Colour::On => owo_colors::set_override(true),
    }
    #[cfg(not(feature = "full-set"))]
    let _ = c;
}

fn text<T: Display + Debug>(m: &Matrix<T>, how: How, flags: usize) -> Option<String> {
    let r = attempt(|| {
        let mut s = String::new();
        let r = match (how, flags) {
            (How::Display, 0) => write!(s, "{m}"),
            (How::Display, 1) => write!(s, "{m:#}"),
            (How::Display, 2) => write!(s, "{m:>12.3}"),
            (How::Display, 3) => write!(s, "{m:*^+30}"),
            (How::Display, 4) => write!(s, "{m:07}"),
            (How::Display, _) => write!(s, "{:>1$}", m, 65_535),
            (How::Debug, 0) => write!(s, "{m:?}"),
            (How::Debug, 1) => write!(s, "{m:#?}"),
            (How::Debug, 2) => write!(s, "{m:>12.3?}"),
            (How::Debug, 3) => write!(s, "{m:*^+30?}"),
            (How::Debug, 4) => write!(s, "{m:02x?}"),
            (How::Debug, _) => write!(s, "{:>1$?}", m, 65_535),
        };
        (r, s)
    });
    match r {
        Ok((Ok(()), s)) => Some(s),
        Ok((Err(_), _)) => {
            violate("format-failed", &format!("{how:?} (flags {flags}) of {} failed though the sink did not", desc(m)));
            stop_if_violated();
            None
        }
        Err(p) => {
            violate("format-panicked", &format!("{how:?} (flags {flags}) of {} panicked: {}", desc(m), payload_str(&*p)));
            stop_if_violated();
            None
        }
    }
}

fn desc<T>(m: &Matrix<T>) -> String {
    format!("{}x{} {:?}", m.nrows(), m.ncols(), m.order())
}

fn clip(s: &str) -> String {
    let mut t: String = s.chars().take(900).collect();
    if t.len() < s.len() {
        t.push('…');
    }
    t
}

// ---------------------------------------------------------------- the elements

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    /// One line, no white space, each unlike all others.
    Words,
    /// One line; possibly empty, blank, with spaces inside, repeated.
    Loose,
    /// Lines that are each unlike all others, possibly empty ones between.
    Lines,
    /// Very wide.
    Wide,
    /// Anything at all, brackets and all kinds of line ends.
    Wild,
}

const ALPHABETS: [&[char]; 8] = [
    &['a', 'b', 'z', 'Q', '-', '.'],
    &['é', 'ß', 'a', 'ñ'],
    &['漢', '字', 'か', 'な'],
    &['🦀', '🎉', 'x'],
    // combining marks and joiners count as characters of their own
    &['e', '\u{301}', '\u{200d}', 'o', '\u{308}'],
    &['٣', 'ש', 'ل'],
    &['\u{1b}', '{', '}', '%', '\\', '"'],
    &['a'],
];

fn word(alphabet: &[char], max: usize) -> String {
    let n = range(0, max);
    (0..n).map(|_| alphabet[choose(alphabet.len())]).collect()
}

fn cell(kind: Kind, id: usize, alphabet: &[char]) -> (String, String) {
    let name = |s: &str, tag: char| format!("{s}{tag}{id}");
    match kind {
        Kind::Words => {
            let w = word(alphabet, 8);
            (name(&w, 'd'), name(&word(alphabet, 8), 'g'))
        }
        Kind::Loose => {
            let one = |tag: char| match choose(6) {
                0 => name(&word(alphabet, 5), tag),
                1 => String::new(),
                2 => " ".repeat(range(1, 6)),
                3 => format!("{}{tag} {id}", word(alphabet, 3)),
                4 => word(alphabet, 4),
                _ => format!("{tag}{}", "0".repeat(choose(12))),
            };
            (one('d'), one('g'))
        }
        Kind::Lines => {
            let one = |tag: char| {
                let n = [1, 2, 3, 1, 4, 0][choose(6)];
                let mut s = String::new();
                for k in 0..n {
                    if k > 0 {
                        s.push('\n');
                    }
                    if choose(6) == 1 {
                        continue;
                    }
                    write!(s, "{}{tag}{id}_{k}", word(alphabet, 5)).unwrap();
                }
                if choose(5) == 1 {
                    s.push('\n');
                }
                s
            };
            (one('d'), one('g'))
        }
        Kind::Wide => {
            let one = |tag: char| {
                if chance(1, 3) {
                    let n = pick(&[255, 256, 300, 65_535, 65_536, 70_000]);
                    format!("{}{tag}{id}", alphabet[choose(alphabet.len())].to_string().repeat(n))
                } else {
                    name("", tag)
                }
            };
            (one('d'), one('g'))
        }
        Kind::Wild => {
            let one = |tag: char| {
                let mut s = String::new();
                for _ in 0..choose(6) {
                    s.push_str(pick(&["\n", "[", "]", " ", "a", "é", "\r\n", "\r", "\t", "\u{2028}", "0", "[\n]", "\u{0}", "\n\n"]));
                }
                if choose(3) == 0 {
                    s.push(tag);
                }
                s
            };
            (one('d'), one('g'))
        }
    }
}

/// Brings a row-major matrix into one of its possible states.
fn disturb<T>(m: &mut Matrix<T>) {
    for _ in 0..choose(4) {
        match choose(4) {
            0 => {
                m.switch_order();
            }
            1 => {
                m.switch_order_without_rearrangement();
            }
            2 => {
                m.transpose();
            }
            _ => {
                m.set_order(if choose(2) == 0 { Order::RowMajor } else { Order::ColMajor });
            }
        }
    }
}

fn dims(tier: Tier) -> (usize, usize) {
    let k = if tier == Tier::Thorough { 36 } else { 14 };
    match weighted(&[200, 40, 30, 30, 30, 2]) {
        0 => (range(1, 5), range(1, 5)),
        1 => (range(1, k), range(1, k)),
        2 => {
            let n = pick(&[9, 10, 11, 99, 100, 101, 12, 33]);
            if chance(1, 2) { (1, n) } else { (n, 1) }
        }
        3 => {
            if chance(1, 2) { (choose(5), 0) } else { (0, choose(5)) }
        }
        4 => pick(&[(3, 3), (2, 5), (10, 10), (4, 25), (5, 2), (1, 1), (11, 9), (16, 16), (17, 3)]),
        // past the next powers of ten and two
        _ => pick(&[(1, 1000), (1001, 1), (2, 600), (33, 32), (64, 17), (3, 400), (9, 120), (40, 26), (1, 257), (256, 2)]),
    }
}

fn build<T>(nr: usize, nc: usize, mut f: impl FnMut(usize) -> T) -> Matrix<T> {
    let mut m = Matrix::from_row((0..nr * nc).map(&mut f).collect::<Vec<T>>());
    m.reshape((nr, nc)).unwrap();
    m
}

/// Position in memory of every logical position.
fn grid<T>(m: &Matrix<T>) -> Vec<Vec<usize>> {
    let (nr, nc) = (m.nrows(), m.ncols());
    (0..if m.is_empty() { 0 } else { nr })
        .map(|r| {
            (0..nc)
                .map(|c| match m.order() {
                    Order::RowMajor => r * nc + c,
                    Order::ColMajor => c * nr + r,
                })
                .collect()
        })
        .collect()
}

// ------------------------------------------------------------------ the judges

/// Lines that hold a row: a bracket opens and a bracket closes.
fn row_lines(text: &str) -> Vec<&str> {
    text.split('\n').filter(|l| l.contains('[') && l.trim_end().ends_with(']')).collect()
}

fn single_line<T: Display + Debug>(m: &Matrix<T>, how: How, text: &str, own: &[String]) {
    let what = || format!("{how:?} of {}:\n{}", desc(m), clip(text));
    let rows = row_lines(text);
    let g = grid(m);
    if g.is_empty() {
        return;
    }
    ensure(rows.len() == g.len(), "wrong-rows", || format!("{} row lines for {} rows in {}", rows.len(), g.len(), what()));
    stop_if_violated();
    let widths: Vec<usize> = rows.iter().map(|l| l.chars().count()).collect();
    ensure(widths.iter().all(|w| *w == widths[0]), "uneven-rows", || format!("row lines of widths {widths:?} in {}", what()));
    for (r, line) in rows.iter().enumerate() {
        let open = line.find('[').unwrap();
        let close = line.rfind(']').unwrap();
        let label: Vec<&str> = line[..open].split_whitespace().collect();
        let got: Vec<&str> = line[open + 1..close].split_whitespace().collect();
        let mut want: Vec<String> = vec![];
        for &at in &g[r] {
            if how == How::Debug {
                want.push(at.to_string());
            }
            want.extend(own[at].split_whitespace().map(|s| s.to_string()));
        }
        ensure(got == want, if how == How::Debug { "wrong-row-or-labels" } else { "wrong-row" }, || {
            format!("row {r} should read {want:?}, reads {got:?} in {}", what())
        });
        if how == How::Debug {
            ensure(label == [r.to_string()], "wrong-row-number", || format!("row {r} is labelled {label:?} in {}", what()));
        } else {
            ensure(label.is_empty(), "stray-text", || format!("row {r} is preceded by {label:?} in {}", what()));
        }
        stop_if_violated();
    }
    if how == How::Debug {
        let want: Vec<String> = (0..m.ncols()).map(|c| c.to_string()).collect();
        let head = text.split('\n').take_while(|l| *l != rows[0]).any(|l| {
            let got: Vec<&str> = l.split_whitespace().collect();
            got == want
        });
        ensure(head, "wrong-column-numbers", || format!("no line with the column numbers above the rows in {}", what()));
        stop_if_violated();
    }
}

/// Several lines per element: every piece of text appears exactly once, those
/// of a row before those of the next.
fn multi_line<T: Display + Debug>(m: &Matrix<T>, how: How, text: &str, own: &[String]) {
    use std::collections::HashMap;
    let flat: String = text.chars().map(|c| if c == '[' || c == ']' { ' ' } else { c }).collect();
    let mut at: HashMap<&str, Vec<usize>> = HashMap::new();
    for (i, t) in flat.split_whitespace().enumerate() {
        at.entry(t).or_default().push(i);
    }
    let mut end = 0;
    for (r, row) in grid(m).iter().enumerate() {
        let begin = end;
        for &e in row {
            for t in own[e].split_whitespace() {
                let n = at.get(t).map_or(0, |v| v.len());
                ensure(n == 1, "not-exactly-once", || format!("{t:?} of the element at memory position {e} appears {n} times in {how:?} of {}:\n{}", desc(m), clip(text)));
                stop_if_violated();
                let i = at[t][0];
                ensure(i >= begin, "rows-mixed", || format!("{t:?} of row {r} appears before the end of row {} in {how:?} of {}:\n{}", r.wrapping_sub(1), desc(m), clip(text)));
                stop_if_violated();
                end = end.max(i + 1);
            }
        }
    }
}

/// Formatting into sinks that fail after so much must not panic.
fn sinks<T: Display + Debug>(m: &Matrix<T>, how: How, full: &str) {
    for _ in 0..range(1, 3) {
        let mut s = Sink {
            got: String::new(),
            bytes: if choose(2) == 0 { choose(full.len() + 2) } else { usize::MAX },
            calls: choose(pick(&[3, 12, 60, 400])),
            failed: false,
            recovers: choose(2) == 1,
        };
        let r = attempt(|| match how {
            How::Display => write!(s, "{m}"),
            How::Debug => write!(s, "{m:?}"),
        });
        count(if s.failed { "sink_failed" } else { "sink_sufficed" }, 1);
        match r {
            Err(p) => violate("format-panicked", &format!("{how:?} of {} into a failing sink panicked: {}", desc(m), payload_str(&*p))),
            Ok(r) if !s.failed => {
                ensure(r.is_ok() && s.got == full, "unstable-text", || format!("{how:?} of {} differs when formatted again:\n{}\nand\n{}", desc(m), clip(full), clip(&s.got)));
            }
            Ok(_) => {}
        }
        stop_if_violated();
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Judge {
    Single,
    Multi,
    NoPanic,
}

fn party<T: Display + Debug + Clone + PartialEq>(m: &Matrix<T>, judge: Judge, what: &str, tier: Tier) {
    note(|| format!("{what}, {}", desc(m)));
    event("matrix", (m.nrows() * 10_000 + m.ncols()) as u64, (m.order() == Order::ColMajor) as u64);
    count("nontrivial", (m.size() > 1) as u64);
    let mut other = m.clone();
    other.switch_order();
    for how in [How::Display, How::Debug] {
        // the terminal does not support colours, whoever says so
        let c = if choose(2) == 0 { Colour::Env } else { Colour::Off };
        colour(c);
        let own: Vec<String> = m
            .iter_elements()
            .map(|e| if how == How::Display { format!("{e}") } else { format!("{e:?}") })
            .collect();
        let Some(t) = text(m, how, 0) else { return };
        // the state of the run is what was printed: it must be the same in every configuration
        state(hash_str(&t));
        event("text", hash_str(&t), 0);
        note(|| format!("{how:?}:\n{}", clip(&t)));
        let single = own.iter().all(|s| !s.contains(['\n', '\r']));
        match judge {
            Judge::Single if single => single_line(m, how, &t, &own),
            Judge::Multi => multi_line(m, how, &t, &own),
            _ => {}
        }
        stop_if_violated();
        // the other storage order
        if let Some(o) = text(&other, how, 0) {
            state(hash_str(&o));
            if how == How::Display {
                ensure(o == t, "orders-differ", || format!("Display of {} and of the same in {:?} differ:\n{}\nand\n{}", desc(m), other.order(), clip(&t), clip(&o)));
            } else if judge == Judge::Single && single {
                let own: Vec<String> = other.iter_elements().map(|e| format!("{e:?}")).collect();
                single_line(&other, how, &o, &own);
            }
            stop_if_violated();
        }
        if chance(1, 3) {
            sinks(m, how, &t);
        }
        if chance(1, 4) {
            let flags = range(1, if tier == Tier::Thorough { 5 } else { 4 });
            count("sink_flags", 1);
            let a = text(m, how, flags);
            let b = text(&other, how, flags);
            state(mix(flags as u64, a.as_deref().map_or(0, hash_str)));
            if how == How::Display {
                ensure(a == b, "orders-differ", || {
                    format!("Display (flags {flags}) of {} and of the same in {:?} differ:\n{}\nand\n{}", desc(m), other.order(), clip(&a.unwrap_or_default()), clip(&b.unwrap_or_default()))
                });
                stop_if_violated();
            }
        }
        // a terminal that does support colours: still no panic, and Display is not coloured differently by order
        if chance(1, 4) {
            colour(Colour::On);
            count("env_colour_on", 1);
            let a = text(m, how, 0);
            let b = text(&other, how, 0);
            if how == How::Display {
                ensure(a == b, "orders-differ", || format!("with colours, Display of {} differs from that of the same in {:?}", desc(m), other.order()));
            }
            colour(Colour::Env);
            stop_if_violated();
        }
    }
    colour(Colour::Env);
}

fn cells(tier: Tier) {
    let kind = [Kind::Words, Kind::Loose, Kind::Lines, Kind::Wild, Kind::Wide][weighted(&[40, 24, 24, 12, 1])];
    let (mut nr, mut nc) = dims(tier);
    if kind == Kind::Wide {
        nr = nr.min(3);
        nc = nc.min(3);
    }
    let alphabet = ALPHABETS[choose(ALPHABETS.len())];
    let mixed = chance(1, 4);
    let plain = chance(1, 8);
    let mut m = build(nr, nc, |id| {
        let alphabet = if mixed { ALPHABETS[choose(ALPHABETS.len())] } else { alphabet };
        let (display, debug) = if plain { (format!("d{id}"), format!("g{id}")) } else { cell(kind, id, alphabet) };
        Cell { id, display, debug, pieces: choose(4) }
    });
    disturb(&mut m);
    let judge = match kind {
        Kind::Words | Kind::Loose | Kind::Wide => Judge::Single,
        Kind::Lines => Judge::Multi,
        Kind::Wild => Judge::NoPanic,
    };
    party(&m, judge, &format!("{kind:?}"), tier);
}

fn usual(tier: Tier) {
    let (nr, nc) = dims(tier);
    macro_rules! go {
        ($what:literal, $judge:expr, |$i:ident| $e:expr) => {{
            let mut m = build(nr, nc, |$i: usize| { let _ = $i; $e });
            disturb(&mut m);
            party(&m, $judge, $what, tier);
        }};
    }
    match choose(11) {
        0 => go!("i64", Judge::Single, |i| i as i64 * pick(&[1, -1, 1000, -7, i64::MAX / 5000])),
        1 => go!("f64", Judge::Single, |i| i as f64 * pick(&[1.0, -0.1, 1e300, 1e-300, f64::NAN, f64::INFINITY])),
        2 => go!("&str", Judge::Single, |_i| pick(&["", "a", "é", "two words", "漢字"])),
        3 => go!("String", Judge::NoPanic, |i| "x\n".repeat(i % 3)),
        4 => go!("bool", Judge::Single, |i| i % 3 == 0),
        5 => go!("char", Judge::Single, |i| pick(&['a', '漢', 'z', '7'])),
        6 => go!("u8", Judge::Single, |i| i as u8),
        7 => {
            // equal renderings everywhere
            go!("unit cells", Judge::Single, |_i| Cell { id: 0, display: String::new(), debug: String::new(), pieces: 0 })
        }
        8 => {
            let (k, l) = (choose(4), choose(4));
            go!("matrices", Judge::NoPanic, |i| build(k, l, |j| (i * 100 + j) as u32))
        }
        9 => go!("i128", Judge::Single, |i| i as i128 * (i128::MAX / 10_000)),
        _ => go!("matrices of cells", Judge::NoPanic, |i| {
            let mut inner = build(1 + i % 2, 2, |j| Cell { id: i, display: format!("d{i}_{j}"), debug: format!("g{i}_{j}"), pieces: 0 });
            disturb(&mut inner);
            inner
        }),
    }
}

fn c20(tier: Tier) {
    colour(Colour::Env);
    for _ in 0..range(1, 3) {
        if weighted(&[3, 1]) == 0 {
            cells(tier);
        } else {
            usual(tier);
        }
    }
}

fn main() {
    runner::main(&[Prop { id: "C20", scenario: c20, enumerate_faults: false }]);
}
