//! whole-sample resampling through the public builder interface
use crate::util::*;
use crate::vx::*;
use cres::event::Event;
use cres::neighbour_search::{NaiveNeighbourSearch, TreeSearch};
use cres::resampler::DefaultResamplerBuilder;
use cres::seeds::Strategy;
use cres::traits::Resample;
use noisy_float::prelude::*;


/// resample with the default resampler
pub fn run(evs: Vec<Event>, tree: bool, st: Strategy, max: Option<f64>) -> Vec<Event> {
    let b = DefaultResamplerBuilder::default().strategy(st).max_cell_size(max);
    if tree {
        b.neighbour_search::<TreeSearch>().build().resample(evs).unwrap()
    } else {
        b.neighbour_search::<NaiveNeighbourSearch>().build().resample(evs).unwrap()
    }
}
/// ids of the events need neither start from zero nor be sorted
pub fn id(n: usize, k: usize, i: usize) -> usize {
    match k {
        0 => i,
        1 => (n - 1 - i) * 3 + 2,
        _ => (i + 1) % n,
    }
}
/// n events with w weights, one particle each along a line
pub fn sample(n: usize, w: usize, ids: usize, wscale: f64, xscale: f64) -> (Vec<Event>, Vec<Vec<N64>>, Vec<N64>) {
    let (mut evs, mut ow, mut ox) = (vec![], vec![], vec![]);
    for i in 0..n {
        let ws: Vec<N64> = (0..w).map(|_| grid_n("w", -64, 64, 8) * wscale).collect();
        let x = grid_n("x", -64, 64, 8) * xscale;
        evs.push(ev1(id(n, ids, i), &ws, x));
        ow.push(ws);
        ox.push(x);
    }
    (evs, ow, ox)
}
/// n events, w weights, tree search?, limited cell size?
#[no_mangle]
pub extern "C" fn h_resample(n: u64, w: u64, tree: u64, limited: u64) {
    init();
    let (n, w) = (n as usize, w as usize);
    let st = strategy(pick("strategy", 0, 2));
    let ids = st as usize;
    // numbers far from one, for one strategy
    let (ws, xs) = [(1., 1.), (2f64.powi(-80), 2f64.powi(60)), (2f64.powi(70), 2f64.powi(-40))][ids];
    let max = if limited > 0 { Some(grid("max", 1, 64, 8) * xs) } else { None };
    let (evs, ow, ox) = sample(n, w, ids, ws, xs);
    let out = run(evs, tree > 0, st, max);
    check(out.len() == n, "number of events");
    let mut neg0 = n64(0.);
    let mut neg1 = n64(0.);
    let mut tot = n64(0.);
    for i in 0..n {
        let e = &out[i];
        check(e.id() == id(n, ids, i), "order");
        check(e.n_weights() == w, "number of weights");
        let o = e.outgoing();
        check(o.len() == 1 && o[0].0 == pid(21) && o[0].1.len() == 1, "kinematics");
        check(eqv(&o[0].1[0], &px(ox[i])), "kinematics");
        let z = n64(0.);
        neg0 += ow[i][0].min(z);
        neg1 += e.weight().min(z);
        tot += ow[i][0];
    }
    for j in 0..w {
        let mut s = n64(0.);
        for i in 0..n {
            s += ow[i][j];
        }
        check(close(s.raw(), total(&out, j)), "total weight");
    }
    check(neg1 >= neg0, "negative weight grows");
    if limited == 0 && cases(tot >= 0.) {
        cover("total non-negative");
        for e in &out {
            check(e.weight() >= 0., "negative weight left");
        }
    }
}

/// many events on a line, one with a symbolic weight
#[no_mangle]
pub extern "C" fn h_resample_big(n: u64, tree: u64, limited: u64, _: u64) {
    init();
    let n = n as usize;
    let st = strategy(pick("strategy", 0, 2));
    let max = if limited > 0 { Some(4.25) } else { None };
    // about half of the weights are negative, and so is the total at first
    let mut ow: Vec<N64> = (0..n).map(|i| n64(((i * 389) % 251) as f64 / 8. - 16.)).collect();
    let k = pick("place", 0, 2) * (n - 1) / 2;
    ow[k] = n64(byte("w", &[0, 1, 2, 3, 5, 8, 15, 16]) as f64 * 256. - 64.);
    let ox: Vec<N64> = (0..n).map(|i| n64(((i * 173) % 1009) as f64)).collect();
    let evs = (0..n).map(|i| ev1(i, &[ow[i], n64(i as f64)], ox[i])).collect();
    let out = run(evs, tree > 0, st, max);
    check(out.len() == n, "number of events");
    let z = n64(0.);
    let (mut neg0, mut neg1, mut tot, mut second) = (z, z, z, z);
    for i in 0..n {
        let e = &out[i];
        check(e.id() == i, "order");
        let o = e.outgoing();
        check(o.len() == 1 && o[0].1.len() == 1 && eqv(&o[0].1[0], &px(ox[i])), "kinematics");
        neg0 += ow[i].min(z);
        neg1 += e.weight().min(z);
        tot += ow[i];
        second += i as f64;
    }
    check(near(tot.raw(), total(&out, 0)), "total weight");
    check(near(second.raw(), total(&out, 1)), "total of the second weight");
    check(neg1 >= neg0 - n64(1e-6), "negative weight grows");
    if limited == 0 && cases(tot >= 0.) {
        cover("total non-negative");
        for e in &out {
            check(e.weight() >= -1e-6, "negative weight left");
        }
    }
}

// ---- composition of a single cell ----
use cres::cell::Cell;
use cres::resampler::ResamplerBuilder;
use cres::traits::{Distance, ObserveCell, SelectSeeds};
use std::cell::RefCell;
use std::rc::Rc;

pub struct Seeds(pub Vec<usize>);
impl SelectSeeds for Seeds {
    type ParallelIter = rayon::vec::IntoIter<usize>;
    fn select_seeds(&self, _: &[Event]) -> Self::ParallelIter {
        use rayon::prelude::*;
        self.0.clone().into_par_iter()
    }
}
/// distances between events by their ids
pub struct EvDist(pub Table);
impl Distance for EvDist {
    fn distance(&self, a: &Event, b: &Event) -> N64 {
        self.0.d[a.id()][b.id()]
    }
}
#[derive(Clone, Debug)]
pub struct SeenCell {
    pub members: Vec<usize>,
    pub radius: N64,
    pub sum: N64,
    pub nmembers: usize,
    pub nneg: usize,
}
#[derive(Clone, Default)]
pub struct Watch(pub Rc<RefCell<Vec<SeenCell>>>);
// the harness runs in a single thread
unsafe impl Send for Watch {}
unsafe impl Sync for Watch {}
impl ObserveCell for Watch {
    fn observe_cell(&self, c: &Cell) {
        self.0.borrow_mut().push(SeenCell {
            members: c.iter().map(|e| e.id()).collect(),
            radius: c.radius(),
            sum: c.weight_sum(),
            nmembers: c.nmembers(),
            nneg: c.nneg_weights(),
        })
    }
}
pub fn run_watched(evs: Vec<Event>, seeds: Vec<usize>, t: Table, tree: bool, max: Option<f64>) -> (Vec<Event>, Vec<SeenCell>) {
    let w = Watch::default();
    let b = ResamplerBuilder::default().seeds(Seeds(seeds)).distance(EvDist(t)).observer(w.clone()).max_cell_size(max);
    let out = if tree { b.neighbour_search::<TreeSearch>().build().resample(evs).unwrap() } else { b.neighbour_search::<NaiveNeighbourSearch>().build().resample(evs).unwrap() };
    let c = w.0.borrow().clone();
    (out, c)
}
/// one seed among n events in an arbitrary metric space
#[no_mangle]
pub extern "C" fn h_grow(n: u64, tree: u64, limited: u64, _: u64) {
    init();
    let n = n as usize;
    let ws: Vec<N64> = (0..n).map(|_| grid_n("w", -64, 64, 8)).collect();
    let evs: Vec<Event> = (0..n).map(|i| ev1(i, &[ws[i]], n64(1.))).collect();
    let t = Table::metric(n);
    let d = t.d.clone();
    let seed = pick("seed", 0, n as u64 - 1);
    assume(ws[seed] < 0.);
    let max = if limited > 0 { Some(grid("max", 0, 64, 8)) } else { None };
    let (out, cells) = run_watched(evs, vec![seed], t, tree > 0, max);
    check(cells.len() == 1, "one cell");
    verify_cell(&ws, &d, seed, max, &out, &cells[0]);
}
/// many events, distances between points on a line, any weight of the seed
#[no_mangle]
pub extern "C" fn h_grow_big(n: u64, tree: u64, limited: u64, _: u64) {
    init();
    let n = n as usize;
    // integers in no particular order
    let x: Vec<f64> = (0..n).map(|i| ((i * 389) % 1009) as f64).collect();
    let mut ws: Vec<N64> = (0..n).map(|i| n64([1., 0.5, -0.25, 0.][i % 4])).collect();
    let seed = pick("seed", 0, 2) * (n - 1) / 2;
    ws[seed] = n64(-0.125 - 0.25 * byte("w", &[0, 1, 2, 4, 8, 16, 32, 64, 96, 128, 255]) as f64);
    let evs: Vec<Event> = (0..n).map(|i| ev1(i, &[ws[i], n64(i as f64)], n64(1.))).collect();
    let d: Vec<Vec<N64>> = x.iter().map(|x1| x.iter().map(|x2| n64((x1 - x2).abs())).collect()).collect();
    let max = if limited > 0 { Some([3.5, 200., 500.][pick("max", 0, 2)]) } else { None };
    let (out, cells) = run_watched(evs, vec![seed], Table { d: d.clone() }, tree > 0, max);
    check(cells.len() == 1, "one cell");
    let k = cells[0].members.len();
    let second: f64 = cells[0].members.iter().map(|i| *i as f64).sum::<f64>() / k as f64;
    for (i, e) in out.iter().enumerate() {
        let want = if cells[0].members.contains(&i) { second } else { i as f64 };
        check((weights(e)[1] - want).abs() < 1e-9, "second weight");
    }
    verify_cell(&ws, &d, seed, max, &out, &cells[0]);
}
fn verify_cell(ws: &[N64], d: &[Vec<N64>], seed: usize, max: Option<f64>, out: &[Event], c: &SeenCell) {
    let n = ws.len();
    let same = if n > 10 { near } else { close };
    let m = |i: usize| c.members.contains(&i);
    check(m(seed), "seed in cell");
    check(c.nmembers == c.members.len(), "member count");
    let mut sorted = c.members.clone();
    sorted.sort();
    sorted.dedup();
    check(sorted.len() == c.members.len(), "duplicate member");
    let mut sum = n64(0.);
    let mut rad = n64(0.);
    for i in 0..n {
        if m(i) {
            sum += ws[i];
            rad = rad.max(d[seed][i]);
        }
    }
    check(same(c.sum.raw(), sum.raw()), "cell weight");
    check(c.radius == rad, "radius");
    if let Some(x) = max {
        check(rad <= x, "cell exceeds maximum size");
    }
    for i in 0..n {
        if !m(i) {
            check(d[seed][i] >= rad, "nearer event left out");
            // growth stops only at a non-negative sum or at the maximum size
            check(or(sum >= 0., max.is_some_and(|x| d[seed][i] > x)), "stopped early");
        } else if i != seed {
            // without the events at the largest distance the sum is negative
            let mut inner = n64(0.);
            for j in 0..n {
                if m(j) && (j == seed || cases(d[seed][j] < d[seed][i])) {
                    inner += ws[j];
                }
            }
            check(inner < 0., "grown although non-negative");
        }
    }
    for i in 0..n {
        if m(i) {
            check(same(out[i].weight().raw(), (sum / c.members.len() as f64).raw()), "mean");
        } else {
            check(out[i].weight() == ws[i], "weight outside the cell changed");
        }
    }
    if c.members.len() == n {
        cover("all events");
    }
    if c.members.len() == 1 {
        cover("only the seed");
    }
}
/// seeds with non-negative weight are ignored
#[no_mangle]
pub extern "C" fn h_nonneg_seed(n: u64, tree: u64, _: u64, _: u64) {
    init();
    let n = n as usize;
    let ws: Vec<N64> = (0..n).map(|_| grid_n("w", -64, 64, 8)).collect();
    let evs: Vec<Event> = (0..n).map(|i| ev1(i, &[ws[i]], n64(1.))).collect();
    let t = Table::line(n);
    let s1 = pick("seed", 0, n as u64 - 1);
    assume(ws[s1] >= 0.);
    let (out, cells) = run_watched(evs, vec![s1], t, tree > 0, None);
    check(cells.is_empty(), "cell around a non-negative seed");
    for i in 0..n {
        check(out[i].weight() == ws[i], "weight changed");
    }
    if cases(ws[s1] == 0.) {
        cover("zero weight");
    }
}
/// a seed may have become non-negative, through the cell of an earlier seed
#[no_mangle]
pub extern "C" fn h_seed_turn(n: u64, tree: u64, _: u64, _: u64) {
    init();
    let n = n as usize;
    let ws: Vec<N64> = (0..n).map(|_| grid_n("w", -64, 64, 8)).collect();
    let evs: Vec<Event> = (0..n).map(|i| ev1(i, &[ws[i]], n64(1.))).collect();
    let t = Table::line(n);
    let s = vec![0, pick("seed", 0, n as u64 - 1), pick("seed", 0, n as u64 - 1)];
    let (out, cells) = run_watched(evs, s.clone(), t, tree > 0, None);
    let mut w = ws.clone();
    let mut c = 0;
    for s in s {
        if cases(w[s] >= 0.) {
            continue;
        }
        check(c < cells.len(), "no cell for a negative seed");
        let m = &cells[c].members;
        check(m.contains(&s), "seed in cell");
        let mut sum = n64(0.);
        for i in m {
            sum += w[*i];
        }
        for i in m {
            w[*i] = sum / m.len() as f64;
        }
        c += 1;
    }
    check(cells.len() == c, "cell around a non-negative seed");
    for i in 0..n {
        check(close(out[i].weight().raw(), w[i].raw()), "weight changed");
    }
    if c == 1 {
        cover("one cell");
    }
    if c == 2 {
        cover("two cells");
    }
}

// ---- builders ----
use cres::distance::EuclWithScaledPt;
use cres::seeds::StrategicSelector;

/// the options take effect in whatever order they are given to the builders
#[no_mangle]
pub extern "C" fn h_builder(n: u64, full: u64, _: u64, _: u64) {
    init();
    let n = n as usize;
    let tau = [0., 2.][pick("tau", 0, 1)];
    let st = pick("strategy", 0, 2);
    let max = if flag("limited") { Some(grid("max", 0, 64, 8)) } else { None };
    let naive = flag("naive");
    // ways to order the four calls
    let mut left = vec![0, 1, 2, 3];
    let mut order = vec![];
    if full == 0 {
        // each two calls in either order
        order = [[3, 0, 1, 2], [0, 1, 2, 3], [2, 3, 1, 0], [1, 3, 2, 0], [0, 3, 2, 1], [2, 1, 0, 3]][pick("order", 0, 5)].to_vec();
        left.clear();
    }
    while !left.is_empty() {
        order.push(left.remove(pick("call", 0, left.len() as u64 - 1)));
    }
    let ws: Vec<N64> = (0..n).map(|_| grid_n("w", -64, 64, 8)).collect();
    let mk = || (0..n).map(|i| {
        // the distances with and without transverse momentum are ordered in different ways
        let mut b = cres::event::EventBuilder::new();
        b.add_weight(ws[i]);
        let (x, z) = ([0., 1., 0., 3.][i], [0., 0., 2., 3.][i]);
        b.add_outgoing(pid(21), p4(n64(5.), n64(x), n64(0.), n64(z)));
        let mut e = b.build();
        e.id = i;
        e
    }).collect::<Vec<_>>();
    let mut b = DefaultResamplerBuilder::default();
    // the type of the builder depends on the search, which is set first, in between or last
    macro_rules! set {
        ($b:expr, $o:expr) => {
            match $o {
                0 => $b.ptweight(tau),
                1 => $b.strategy(strategy(st)),
                _ => $b.max_cell_size(max),
            }
        };
    }
    let at = order.iter().position(|o| *o == 3).unwrap();
    for o in &order[..at] {
        b = set!(b, *o);
    }
    let d = if naive {
        let mut b = b.neighbour_search::<NaiveNeighbourSearch>();
        for o in &order[at + 1..] {
            b = set!(b, *o);
        }
        b.build().resample(mk()).unwrap()
    } else {
        let mut b = b.neighbour_search::<TreeSearch>();
        for o in &order[at + 1..] {
            b = set!(b, *o);
        }
        b.build().resample(mk()).unwrap()
    };
    // the same by hand, in two orders
    let dist = EuclWithScaledPt::new(n64(tau));
    let sel = StrategicSelector::new(strategy(st));
    let r = ResamplerBuilder::default();
    let r = match (naive, order[0] > order[1]) {
        (true, true) => r.max_cell_size(max).neighbour_search::<NaiveNeighbourSearch>().distance(dist).seeds(sel).observer(Watch::default()).build().resample(mk()),
        (true, false) => r.observer(Watch::default()).seeds(sel).distance(dist).neighbour_search::<NaiveNeighbourSearch>().max_cell_size(max).build().resample(mk()),
        (false, true) => r.max_cell_size(max).neighbour_search::<TreeSearch>().distance(dist).seeds(sel).observer(Watch::default()).build().resample(mk()),
        (false, false) => r.observer(Watch::default()).seeds(sel).distance(dist).neighbour_search::<TreeSearch>().max_cell_size(max).build().resample(mk()),
    }
    .unwrap();
    // and with the pieces
    let s = run_by_hand(mk(), tau, st, max);
    for i in 0..n {
        check(close(d[i].weight().raw(), r[i].weight().raw()), "both builders agree");
        check(close(d[i].weight().raw(), s[i].raw()), "options of the builder take effect");
    }
    if cases(d[0].weight() != ws[0]) {
        cover("weights change");
    }
}
/// cells around the seeds in the order of the strategy, by definition
fn run_by_hand(e: Vec<Event>, tau: f64, st: usize, max: Option<f64>) -> Vec<N64> {
    let n = e.len();
    let mut w: Vec<N64> = e.iter().map(|e| e.weight()).collect();
    let mut seeds: Vec<usize> = (0..n).filter(|i| cases(w[*i] < 0.)).collect();
    // events with equal weights may come in any order
    for i in 0..n {
        for j in 0..i {
            assume(w[i] != w[j]);
        }
    }
    for i in 1..seeds.len() {
        for j in (1..=i).rev() {
            let (a, b) = (w[seeds[j - 1]], w[seeds[j]]);
            let swap = match st {
                0 => cases(b < a),
                1 => cases(b > a),
                _ => false,
            };
            if !swap {
                break;
            }
            seeds.swap(j - 1, j);
        }
    }
    let d = EuclWithScaledPt::new(n64(tau));
    for s in seeds {
        if cases(w[s] >= 0.) {
            continue;
        }
        let mut m = vec![s];
        let mut sum = w[s];
        loop {
            if cases(sum >= 0.) {
                break;
            }
            let mut best: Option<(usize, N64)> = None;
            for i in 0..n {
                let x = d.distance(&e[s], &e[i]);
                if !m.contains(&i) && max.is_none_or(|m| cases(x <= m)) && best.is_none_or(|b| x < b.1) {
                    best = Some((i, x));
                }
            }
            let Some((i, _)) = best else { break };
            m.push(i);
            sum += w[i];
        }
        for i in &m {
            w[*i] = sum / m.len() as f64;
        }
    }
    w
}
