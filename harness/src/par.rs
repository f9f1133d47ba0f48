//! resampling with several threads
use crate::util::*;
use crate::vx::*;
use cres::cell::Cell;
use cres::distance::Distance;
use cres::event::Event;
use cres::neighbour_search::{NaiveNeighbourSearch, TreeSearch};
use cres::resampler::ResamplerBuilder;
use cres::traits::{NeighbourSearchAlgo, ObserveCell, Resample, SelectSeeds};
use noisy_float::prelude::*;
use rayon::iter::plumbing::{Consumer, Folder, Reducer, UnindexedConsumer};
use rayon::prelude::*;
use std::sync::{Arc, Mutex};

/// the seeds of each thread, and the number of switches between threads
#[derive(Clone)]
pub struct Seeds(pub Vec<Vec<usize>>, pub usize);
impl SelectSeeds for Seeds {
    type ParallelIter = Seeds;
    fn select_seeds(&self, _: &[Event]) -> Self {
        self.clone()
    }
}
impl ParallelIterator for Seeds {
    type Item = usize;
    fn drive_unindexed<C: UnindexedConsumer<usize>>(self, c: C) -> C::Result {
        let mut res: Vec<Option<C::Result>> = self.0.iter().map(|_| None).collect();
        let mut fs: Vec<_> = self
            .0
            .into_iter()
            .zip(&mut res)
            .map(|(s, r)| {
                let c = c.split_off_left();
                let mut c = Some((c, s));
                move || {
                    let (c, s) = c.take().unwrap();
                    *r = Some(c.into_folder().consume_iter(s).complete());
                }
            })
            .collect();
        run_threads(fs.iter_mut().map(|f| f as &mut dyn FnMut()).collect(), self.1);
        drop(fs);
        res.into_iter().map(|r| r.unwrap()).reduce(|a, b| c.to_reducer().reduce(a, b)).unwrap()
    }
}
pub struct EvDist(pub Table);
impl Distance for EvDist {
    fn distance(&self, a: &Event, b: &Event) -> N64 {
        self.0.d[a.id()][b.id()]
    }
}
/// number of cells and of cells with negative weight
#[derive(Clone, Default)]
struct Watch(Arc<Mutex<(usize, usize)>>);
impl ObserveCell for Watch {
    fn observe_cell(&self, c: &Cell) {
        let neg = cases(c.weight_sum() < 0.);
        yield_now();
        let mut g = self.0.lock().unwrap();
        g.0 += 1;
        g.1 += neg as usize;
    }
}
fn resample<N>(evs: Vec<Event>, t: Table, s: Seeds, max: Option<f64>, w: &Watch) -> Vec<Event>
where
    cres::resampler::Resampler<EvDist, N, Watch, Seeds>: Resample,
    <cres::resampler::Resampler<EvDist, N, Watch, Seeds> as Resample>::Error: std::fmt::Debug,
    N: NeighbourSearchAlgo,
{
    ResamplerBuilder::default().seeds(s).distance(EvDist(t)).observer(w.clone()).max_cell_size(max).neighbour_search::<N>().build().resample(evs).unwrap()
}
/// n events, w weights, switches, bits: tree search, limited cells, three threads
#[no_mangle]
pub extern "C" fn h_par(n: u64, w: u64, switches: u64, how: u64) {
    init_threads();
    let (n, w) = (n as usize, w as usize);
    let ws: Vec<Vec<N64>> = (0..n).map(|_| (0..w).map(|_| grid_n("w", -64, 64, 8)).collect()).collect();
    let evs: Vec<Event> = (0..n).map(|i| ev1(i, &ws[i], n64(i as f64))).collect();
    let t = Table::line(n);
    let max = (how & 2 != 0).then(|| grid("max", 0, 64, 8));
    let nt = if how & 4 != 0 { 3 } else { 2 };
    let seeds = (0..nt).map(|k| (k..n).step_by(nt).collect()).collect();
    let watch = Watch::default();
    let s = Seeds(seeds, switches as usize);
    let out = if how & 1 != 0 { resample::<TreeSearch>(evs, t, s, max, &watch) } else { resample::<NaiveNeighbourSearch>(evs, t, s, max, &watch) };
    check(out.len() == n, "number of events");
    let z = n64(0.);
    let (mut neg0, mut neg1, mut tot) = (z, z, z);
    for i in 0..n {
        let e = &out[i];
        check(e.id() == i, "order");
        check(e.n_weights() == w, "number of weights");
        check(e.outgoing().len() == 1 && eqv(&e.outgoing()[0].1[0], &px(n64(i as f64))), "kinematics");
        neg0 += ws[i][0].min(z);
        neg1 += e.weight().min(z);
        tot += ws[i][0];
    }
    for j in 0..w {
        let mut s = z;
        for i in 0..n {
            s += ws[i][j];
        }
        check(close(s.raw(), total(&out, j)), "total weight");
    }
    check(neg1 >= neg0, "negative weight grows");
    let c = *watch.0.lock().unwrap();
    if c.0 > 1 {
        cover("several cells");
    }
    if max.is_none() && cases(tot >= 0.) {
        for e in &out {
            check(e.weight() >= 0., "negative weight left");
        }
        check(c.1 == 0, "cell with negative weight");
        cover("total non-negative");
    }
}
