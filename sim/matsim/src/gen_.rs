//! Generators built on `choose`.
use simrt::*;

/// A small dimension; biased to 0, 1 and small numbers.
pub fn dim() -> usize {
    if cfg!(miri) {
        return pick(&[2, 3, 1, 0, 2, 3, 4, 1]);
    }
    match weighted(&[30, 12, 14, 40, 4]) {
        0 => range(1, 4),
        1 => 0,
        2 => 1,
        3 => range(2, 6),
        _ => range(5, 12),
    }
}

pub fn shape() -> (usize, usize) {
    match weighted(&[20_000, 3_000, 2_000, 2_000, if cfg!(miri) { 0 } else { 300 }, if cfg!(miri) { 0 } else { 1 }]) {
        0 => (dim(), dim()),
        1 => {
            let n = dim();
            (n, n)
        }
        2 => (1, range(1, if cfg!(miri) { 9 } else { 40 })),
        3 => (range(1, if cfg!(miri) { 9 } else { 40 }), 1),
        4 => large(),
        _ => huge(),
    }
}

/// More elements than 16 bits can count.
pub fn huge() -> (usize, usize) {
    count("huge_shapes", 1);
    pick(&[(256, 257), (257, 256), (257, 257), (1, 65_537), (65_537, 1), (2, 32_800), (32_800, 2), (300, 220)])
}

/// A shape past plausible block sizes, inline buffers and small-number paths.
pub fn large() -> (usize, usize) {
    match choose(5) {
        0 => (range(10, 70), range(10, 70)),
        1 => {
            let n = range(16, 70);
            (n, n)
        }
        2 => (range(1, 5), range(60, 1100)),
        3 => (range(60, 1100), range(1, 5)),
        _ => {
            let d = [15, 16, 17, 31, 32, 33, 63, 64, 65];
            (pick(&d), pick(&d))
        }
    }
}

pub const EXTREMES: [usize; 12] = [
    usize::MAX,
    usize::MAX - 1,
    isize::MAX as usize,
    isize::MAX as usize + 1,
    isize::MAX as usize - 1,
    1 << 32,
    (1 << 32) + 1,
    (1 << 32) - 1,
    1 << 63,
    usize::MAX / 2,
    usize::MAX / 3,
    1 << 62,
];

/// A number below `n` mostly, otherwise just past it or extreme.
pub fn index_near(n: usize, valid_in_10: usize) -> usize {
    if n > 0 && !chance(10 - valid_in_10, 10) {
        choose(n)
    } else {
        match choose(4) {
            0 | 1 => n,
            2 => n.saturating_add(1),
            _ => pick(&EXTREMES),
        }
    }
}

pub fn fresh_val(counter: &mut u64) -> u64 {
    *counter += 1;
    *counter
}
