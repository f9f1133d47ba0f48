//! selection of cell seeds

use crate::util::*;
use crate::vx::*;
use cres::event::Event;
use cres::seeds::{SelectSeeds, StrategicSelector};
use noisy_float::prelude::*;
use rayon::prelude::*;

#[no_mangle]
pub extern "C" fn h_seeds(n: u64, w: u64, _: u64, _: u64) {
    init();
    let n = n as usize;
    let k = pick("strategy", 0, 2);
    let scale = [1., 2f64.powi(-90), 2f64.powi(90)][pick("scale", 0, 2)];
    let ws: Vec<Vec<N64>> = (0..n).map(|_| (0..w).map(|_| grid_n("w", -64, 64, 8) * scale).collect()).collect();
    let evs: Vec<Event> = (0..n).map(|i| ev1(i, &ws[i], n64(1.))).collect();
    let s = if k == 0 && flag("default") { StrategicSelector::default() } else { StrategicSelector::new(strategy(k)) };
    let sel: Vec<usize> = s.select_seeds(&evs).collect();
    verify(&evs, &ws, &sel, k);
}
const B: &[u8] = &[0, 1, 2, 4, 7, 8, 9, 12, 15, 16, 17, 18, 24, 30, 31, 32];
/// many events, one with a symbolic weight
#[no_mangle]
pub extern "C" fn h_seeds_big(n: u64, _: u64, _: u64, _: u64) {
    init();
    let n = n as usize;
    let k = pick("strategy", 0, 2);
    // mostly negative, many of them equal
    let mut ws: Vec<Vec<N64>> = (0..n).map(|i| vec![n64((((i * 389) % 31) as f64 - 24.) * 16. + 8.)]).collect();
    ws[pick("place", 0, 2) * (n - 1) / 2][0] = n64(byte("w", B) as f64 - 16.) * 24.;
    let evs: Vec<Event> = (0..n).map(|i| ev1(i, &ws[i], n64(1.))).collect();
    let sel: Vec<usize> = StrategicSelector::new(strategy(k)).select_seeds(&evs).collect();
    verify(&evs, &ws, &sel, k);
}
fn verify(evs: &[Event], ws: &[Vec<N64>], sel: &[usize], k: usize) {
    let n = evs.len();
    let mut seen = vec![false; n];
    for i in sel {
        check(*i < n, "no such event");
        check(!seen[*i], "selected twice");
        seen[*i] = true;
        check(ws[*i][0] < 0., "weight not negative");
    }
    for i in 0..n {
        check(seen[i] || ws[i][0] >= 0., "negative weight not selected");
    }
    for p in sel.windows(2) {
        let (a, b) = (ws[p[0]][0], ws[p[1]][0]);
        check(
            match k {
                0 => a <= b,
                1 => a >= b,
                _ => p[0] < p[1],
            },
            "order",
        );
    }
    for i in 0..n {
        check(evs[i].weight() == ws[i][0], "weight changed");
    }
    if sel.len() == n {
        cover("all negative");
    }
}
