//! Union orders built from small blocks: which member of a block stands for it in the next union, on which side,
//! and whether the block meets the newest or the oldest one, decides how deep a careless implementation gets.
use crate::rng::Rng;

/// Number of orders `blocks` knows.
pub const BLOCKS: usize = 2 * 16 + 6 + 3 + 8;

/// Pairs below n, about n of them.
pub fn blocks(kind: usize, n: usize, r: &mut Rng, f: &mut dyn FnMut(usize, usize)) {
    let mut join = |x: usize, y: usize, flip: bool| if flip { f(y, x) } else { f(x, y) };
    if kind < 32 {
        // blocks of 2 or 4: (newest | oldest block) x (first | last member) x (first | last member) x side
        let g = if kind < 16 { 2 } else { 4 };
        let (oldest, old_last, new_last, flip) = (kind & 1 == 1, kind & 2 != 0, kind & 4 != 0, kind & 8 != 0);
        for b in 0..n / g {
            for i in 1..g { join(b * g, b * g + i, flip) }
            if b > 0 {
                let o = if oldest { 0 } else { (b - 1) * g };
                join(o + if old_last { g - 1 } else { 0 }, b * g + if new_last { g - 1 } else { 0 }, flip);
            }
        }
    } else if kind < 38 {
        // random sizes, random members: a growing block meets a new one
        let (far, back) = (kind % 2 == 1, kind >= 35);
        let mut done = 0;
        while done < n {
            let g = (1 + r.us(5)).min(n - done);
            for i in 1..g { join(done + r.us(i), done + i, r.chance(1, 2)) }
            if done > 0 {
                let o = if far { r.us(done) } else { done - 1 - r.us(done.min(3)) };
                let m = done + r.us(g);
                let (o, m) = if back { (n - 1 - o, n - 1 - m) } else { (o, m) };
                join(o, m, r.chance(1, 2));
            }
            done += g;
        }
    } else if kind >= 41 {
        // stars, each one element larger than the one before (or all of about the same size), joined centre to
        // centre or leaf to leaf: overestimated ranks put the large tree below the small one
        let (leaf, flip, same) = (kind & 1 == 0, (kind - 41) & 2 != 0, kind >= 45);
        let root = (n as f64).sqrt() as usize;
        let (mut at, mut k, mut last) = (0, 1, None);
        while at + k + 1 < n {
            for i in 1..=k { join(at, at + i, flip) }
            if let Some(l) = last { join(if leaf { at + k } else { at }, l, flip) }
            last = Some(if leaf { at + 1 } else { at });
            at += k + 1;
            k = if same { root.max(1) } else { k + 1 };
        }
        while at < n { join(last.unwrap_or(0), at, flip); at += 1 }
    } else {
        // pairs joined again and again before they meet the next: repeating a union must not matter (kinds 38 to 40)
        let mut k = 0;
        let mut left = n;
        while 2 * k + 1 < n && left > 4 * k + 8 {
            let (x, y) = (2 * k, 2 * k + 1);
            join(x, y, false);
            for _ in 0..=k {
                match kind {
                    38 => { join(x, x, false); join(y, y, false); join(x, y, false); join(y, x, false) }
                    39 => for _ in 0..4 { join(y, x, false) },
                    _ => for _ in 0..4 { join(x, y, false) },
                }
            }
            left -= 4 * k + 5;
            if k > 0 { join(x, x - 2, kind == 39) }
            k += 1;
        }
    }
}
