//! collection of interesting cells
use crate::util::*;
use crate::vx::*;
use cres::cell::Cell;
use cres::cell_collector::CellCollector;
use cres::event::Event;
use cres::traits::NeighbourSearch;
use noisy_float::prelude::*;
use rand::RngCore;

struct Ns(Vec<(usize, N64)>);
impl NeighbourSearch for Ns {
    type Iter = std::vec::IntoIter<(usize, N64)>;
    fn nearest(self, _: &usize) -> Self::Iter {
        self.0.into_iter()
    }
}
struct Fixed(u64);
impl RngCore for Fixed {
    fn next_u32(&mut self) -> u32 {
        (self.0 >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.0
    }
    fn fill_bytes(&mut self, b: &mut [u8]) {
        for x in b {
            *x = (self.0 >> 56) as u8
        }
    }
}
#[derive(Clone, Copy)]
struct Spec {
    r: N64,
    n: usize,
    w: N64,
}
// random numbers that are not rejected, and lead to the first and last value of a small range
const LOW: u64 = 1 << 60;
const HIGH: u64 = !0 - (1 << 58);
const NC: usize = 10;
/// is cell i among the ten largest? `ge` ranks a tied cell as smaller
fn top(cells: &[Spec], i: usize, f: &dyn Fn(&Spec, &Spec) -> bool) -> bool {
    (0..cells.len()).filter(|j| *j != i && f(&cells[*j], &cells[i])).count() < NC
}
/// the cell seeded by event i, with n members in total (the others are shared events without weight)
fn feed(c: &mut CellCollector, evs: &[Event], ncells: usize, i: usize, s: Spec, k: u64) {
    let mut nb = vec![];
    for j in 1..s.n {
        nb.push((ncells + j, s.r));
    }
    let cell = Cell::new(evs, i, Ns(nb));
    check(cell.nmembers() == s.n, "members");
    c.collect(&cell, Fixed(k));
}
/// n cells; one property of the last nsym of them is symbolic
fn specs(n: usize, nsym: usize) -> Vec<Spec> {
    let which = pick("property", 0, 2);
    (0..n)
        .map(|i| {
            let k = i as i64;
            let mut s = Spec { r: n64(((k * 7) % 11 + 2) as f64), n: 2 + ((k * 3) % 4) as usize, w: n64(-(((k * 5) % 13 + 1) as f64)) };
            if i + nsym >= n {
                s = Spec { r: n64(1.), n: 2, w: n64(-90.) };
                match which {
                    0 => s.r = grid_n("r", 1, 100, 4),
                    1 => s.n = pick("n", 2, 5),
                    _ => s.w = grid_n("w", -100, -1, 4),
                }
            }
            s
        })
        .collect()
}
fn verify(c: &CellCollector, cells: &[Spec], first: usize, nothing_else: bool) {
    let m = c.event_cells();
    let saved = |i: usize| m.get(&i).is_some_and(|v| v.contains(&i));
    for i in 0..cells.len() {
        let r = top(cells, i, &|a, b| cases(a.r >= b.r));
        let n = top(cells, i, &|a, b| a.n >= b.n);
        let w = top(cells, i, &|a, b| cases(a.w >= b.w));
        if i < first {
            check(saved(i), "early cell lost");
        }
        if r {
            check(saved(i), "cell with large radius lost");
        }
        if n {
            check(saved(i), "cell with many members lost");
        }
        if w {
            check(saved(i), "cell with large weight lost");
        }
        if nothing_else && i >= first && saved(i) {
            let r = top(cells, i, &|a, b| cases(a.r > b.r));
            let n = top(cells, i, &|a, b| a.n > b.n);
            let w = top(cells, i, &|a, b| cases(a.w > b.w));
            check(r || n || w, "uninteresting cell kept");
            cover("late cell kept");
        }
        if !saved(i) {
            cover("cell dropped");
        }
        // all members refer to the cell
        if saved(i) {
            for j in 1..cells[i].n {
                check(m.get(&(cells.len() + j)).is_some_and(|v| v.contains(&i)), "member lost");
            }
        }
    }
    for (e, v) in &m {
        for id in v {
            check(*id < cells.len(), "no such cell");
            check(*e == *id || (*e > cells.len() && *e - cells.len() < cells[*id].n), "event of another cell");
        }
    }
}
/// n cells one after another, the last nsym of them symbolic
#[no_mangle]
pub extern "C" fn h_collect(n: u64, nsym: u64, _: u64, _: u64) {
    let n = n as usize;
    let cells = specs(n, nsym as usize);
    let mut evs: Vec<Event> = cells.iter().enumerate().map(|(i, s)| ev1(i, &[s.w], n64(1.))).collect();
    for j in 0..6 {
        evs.push(ev1(n + j, &[n64(0.)], n64(1.)));
    }
    let lucky = flag("lucky");
    let mut c = CellCollector::new();
    for i in 0..n {
        feed(&mut c, &evs, n, i, cells[i], if lucky { LOW } else { HIGH });
    }
    verify(&c, &cells, NC, !lucky);
    if lucky {
        let m = c.event_cells();
        check(m.get(&(n - 1)).is_some_and(|v| v.contains(&(n - 1))), "lucky cell lost");
    }
}
/// two collectors with a and b cells, combined
#[no_mangle]
pub extern "C" fn h_combine(a: u64, b: u64, nsym: u64, _: u64) {
    let (a, b) = (a as usize, b as usize);
    let n = a + b;
    let cells = specs(n, nsym as usize);
    let mut evs: Vec<Event> = cells.iter().enumerate().map(|(i, s)| ev1(i, &[s.w], n64(1.))).collect();
    for j in 0..6 {
        evs.push(ev1(n + j, &[n64(0.)], n64(1.)));
    }
    let (mut x, mut y) = (CellCollector::new(), CellCollector::new());
    for i in 0..a {
        feed(&mut x, &evs, n, i, cells[i], HIGH);
    }
    for i in a..n {
        feed(&mut y, &evs, n, i, cells[i], HIGH);
    }
    let c = x.combine(y, &mut Fixed(HIGH));
    verify(&c, &cells, a.min(NC), false);
}
