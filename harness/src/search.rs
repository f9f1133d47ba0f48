//! nearest-neighbour searches over an arbitrary metric
use crate::util::*;
use crate::vx::*;
use cres::neighbour_search::{NaiveNeighbourSearch, NeighbourSearch, NeighbourSearchAlgo, TreeSearch};
use cres::traits::Distance;
use cres::vptree::VPTree;
use noisy_float::prelude::*;

/// n points; naive (0), tree through the search interface (1), sequential tree with query outside (2),
/// depth-limited tree (3); args: n, kind, max_dist limited?, 1-D metric?
#[no_mangle]
pub extern "C" fn h_search(n: u64, kind: u64, limited: u64, line: u64) {
    init();
    let n = n as usize;
    let t = if line > 0 { Table::line(n) } else { Table::metric(n) };
    let max = if limited > 0 { grid_n("max", 0, 64, 8) } else { n64(f64::MAX) };
    let q = pick("query", 0, n as u64 - 1);
    let mut found: Vec<(usize, N64)> = vec![];
    match kind {
        0 => found.extend(NaiveNeighbourSearch::new_with_dist(n, &t, max).nearest(&q)),
        1 => found.extend(TreeSearch::new_with_dist(n, &t, max).nearest(&q)),
        2 => {
            // the query is no node of the tree, and the nodes come in another order
            let nodes: Vec<usize> = (0..n).rev().filter(|i| *i != q).collect();
            found.extend(VPTree::seq_new(nodes, &t).with_max_dist(max).nearest_in(&q))
        }
        _ => {
            let nodes: Vec<usize> = (0..n).collect();
            found.extend(VPTree::new(nodes, &t).with_max_dist(max).nearest_in(&q))
        }
    }
    let mut seen = vec![false; n];
    let mut last = n64(0.);
    for (i, d) in &found {
        check(*i != q, "query returned");
        check(!seen[*i], "duplicate");
        seen[*i] = true;
        check(*d == t.d[q][*i], "distance");
        check(*d >= last, "order");
        check(*d <= max, "beyond maximum distance");
        last = *d;
    }
    for i in 0..n {
        if i != q && !seen[i] {
            check(t.d[q][i] > max, "neighbour missed");
        }
    }
    if found.len() == n - 1 {
        cover("all found");
    }
    if limited > 0 && found.is_empty() {
        cover("none found");
    }
    log("found", found.len() as u64);
}

/// points on a line
struct Line(Vec<N64>);
impl cres::traits::Distance<usize> for &Line {
    fn distance(&self, a: &usize, b: &usize) -> N64 {
        (self.0[*a] - self.0[*b]).abs()
    }
}
/// many given points, built in parallel: the nearest ones up to any maximum distance
#[no_mangle]
pub extern "C" fn h_search_big(n: u64, kind: u64, line: u64, _: u64) {
    init();
    let n = n as usize;
    // integers in no particular order, some of them twice
    let mut l = Line((0..n).map(|i| n64(((i * 389) % 1009 / (1 + i % 2)) as f64)).collect());
    if line > 0 {
        l.0[n / 3] = grid_n("x", 400, 400 + 4 * line as i64, 4);
    }
    let (tree, search);
    let q;
    let (max, found): (N64, Vec<(usize, N64)>);
    let limit = || if flag("limited") { grid_n("max", 0, 12, 4) } else { n64(f64::MAX) };
    const K: usize = 6;
    if kind == 0 {
        tree = VPTree::new((0..n).collect(), &l);
        q = pick("query", 0, 7) * (n - 1) / 7;
        max = limit();
        let tree = tree.with_max_dist(max);
        found = tree.nearest_in(&q).take(K).collect();
    } else {
        max = limit();
        search = TreeSearch::new_with_dist(n, &l, max);
        q = pick("query", 0, 7) * (n - 1) / 7;
        found = search.nearest(&q).take(K).collect();
    }
    let mut want: Vec<N64> = (0..n).filter(|i| *i != q).map(|i| (&l).distance(&q, &i)).collect();
    want.sort_unstable();
    want.truncate(K);
    let mut seen = vec![false; n];
    for (k, (i, d)) in found.iter().enumerate() {
        check(*i != q, "query returned");
        check(!seen[*i], "duplicate");
        seen[*i] = true;
        check(*d == (&l).distance(&q, i), "distance");
        check(*d == want[k], "order");
        check(*d <= max, "beyond maximum distance");
    }
    for w in &want[found.len()..] {
        check(*w > max, "neighbour missed");
    }
    if found.len() == K {
        cover("all found");
    }
    if found.is_empty() {
        cover("none found");
    }
    log("found", found.len() as u64);
}
