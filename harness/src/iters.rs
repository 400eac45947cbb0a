//! Runs an iterator through the provided methods of `Iterator`. The same driver runs over
//! a model iterator that defines only `next`; both must observe the same and consume the same.
pub const KINDS: u64 = 14;

/// `total`: how many items are left (for judging size hints).
pub fn drive<I: Iterator>(mut it: I, kind: u64, n: usize, total: usize, id: impl Fn(I::Item) -> u64) -> Vec<u64> {
    let mut out: Vec<u64> = Vec::new();
    // a broken iterator must not hang the monitor
    let cap = total + 3;
    macro_rules! hint { ($left:expr) => {{
        let (lo, hi) = it.size_hint();
        out.push((lo <= $left && hi.map_or(true, |h| h >= $left)) as u64);
    }} }
    match kind % KINDS {
        0 => {
            out.extend(it.nth(n).map(&id));
            out.extend(it.next().map(&id));
        }
        1 => out.extend(it.skip(n).take(cap).map(&id)),
        2 => out.extend(it.step_by(n + 1).take(cap).map(&id)),
        3 => out.push(it.count() as u64),
        4 => out.extend(it.last().map(&id)),
        5 => out.push(it.fold(7, |a: u64, x| a.wrapping_mul(31).wrapping_add(id(x)))),
        6 => {
            hint!(total);
            out.extend(it.by_ref().take(n).map(&id));
            hint!(total.saturating_sub(n));
            out.extend(it.take(cap).map(&id));
        }
        7 => it.for_each(|x| out.push(id(x))),
        8 => {
            let a = it.nth(n).map(&id);
            let b = it.nth(n).map(&id);
            out.extend(a);
            out.extend(b);
            hint!(total.saturating_sub(2 * (n + 1)));
        }
        9 => {
            let mut k = 0;
            out.push(it.position(|x| { out_of(&id, x); k += 1; k > n }).map_or(u64::MAX, |p| p as u64));
            out.extend(it.next().map(&id));
        }
        10 => {
            for i in 0..n.min(total) {
                hint!(total - i);
                out.extend(it.next().map(&id));
            }
        }
        11 => {
            let mut k = 0;
            let r = it.try_fold(0u64, |a, x| { k += 1; let a = a ^ id(x); if k > n { Err(a) } else { Ok(a) } });
            out.push(r.unwrap_or_else(|e| !e));
            out.extend(it.next().map(&id));
        }
        12 => out.extend(it.zip(0..n).map(|(x, i)| id(x) ^ i as u64)),
        _ => out.extend(it.map(&id).collect::<Vec<u64>>()),
    }
    out
}
fn out_of<T>(id: &impl Fn(T) -> u64, x: T) { let _ = id(x); }

/// The same for the back end.
pub fn drive_back<I: DoubleEndedIterator>(mut it: I, kind: u64, n: usize, id: impl Fn(I::Item) -> u64) -> Vec<u64> {
    let mut out: Vec<u64> = Vec::new();
    match kind % 5 {
        0 => {
            out.extend(it.nth_back(n).map(&id));
            out.extend(it.next().map(&id));
            out.extend(it.next_back().map(&id));
        }
        1 => out.push(it.rfold(7, |a: u64, x| a.wrapping_mul(31).wrapping_add(id(x)))),
        2 => {
            out.extend(it.nth(n).map(&id));
            out.extend(it.rev().map(&id));
        }
        3 => {
            let mut k = 0;
            out.extend(it.rfind(|_| { k += 1; k > n }).map(&id));
            out.extend(it.map(&id));
        }
        _ => out.extend(it.rev().skip(n).step_by(2).map(&id)),
    }
    out
}

/// A queue's front, with nothing but `next`.
pub struct Front<'a>(pub &'a mut std::collections::VecDeque<u64>);
impl Iterator for Front<'_> {
    type Item = u64;
    fn next(&mut self) -> Option<u64> { self.0.pop_front() }
}
