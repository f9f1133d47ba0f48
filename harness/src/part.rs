//! partitions of phase space
use crate::util::*;
use crate::vx::*;
use cres::partition::{VPBisection, VPTreePartition};
use cres::traits::Distance;
use cres::vptree::VPTree;
use noisy_float::prelude::*;
use rayon::prelude::*;

fn walk(tree: &[VPBisection<usize>], dist: &dyn Fn(usize) -> N64) -> usize {
    let mut i = 0;
    while i < tree.len() {
        i = if cases(dist(tree[i].pt) <= tree[i].r) { 2 * i + 1 } else { 2 * i + 2 };
    }
    i - tree.len()
}
/// each bisection has half of the points of its region below its radius
fn balanced(tree: &[VPBisection<usize>], i: usize, mut set: Vec<usize>, dist: &dyn Fn(usize, usize) -> N64) {
    let Some(b) = tree.get(i) else { return };
    let before = set.len();
    set.retain(|p| *p != b.pt);
    check(set.len() + 1 == before, "bisection at an event outside of its region");
    let (mut below, mut upto) = (vec![], 0);
    let mut rest = vec![];
    let n = set.len();
    for p in set {
        upto += cases(dist(b.pt, p) <= b.r) as usize;
        if cases(dist(b.pt, p) < b.r) {
            below.push(p)
        } else {
            rest.push(p)
        }
    }
    check(below.len() <= n / 2 && upto > n / 2, "unbalanced bisection");
    // with several events at the radius the region of those is not fixed
    if below.len() == n / 2 {
        balanced(tree, 2 * i + 1, below, dist);
        balanced(tree, 2 * i + 2, rest, dist);
    }
}
/// partition built from n points, depth layers, sequential or parallel construction
#[no_mangle]
pub extern "C" fn h_partition(n: u64, depth: u64, par: u64, _: u64) {
    init();
    let n = n as usize;
    let t = Table::metric(n);
    let tree = if par > 0 {
        VPTree::from_par_iter_with_dist_and_depth((0..n).into_par_iter(), &t, depth as usize)
    } else {
        VPTree::from_iter_with_dist_and_depth(0..n, &t, depth as usize)
    };
    let part = VPTreePartition::from(tree);
    check(part.len() == 1 << depth, "number of regions");
    let vp = part.clone().into_tree();
    check(vp.len() + 1 == part.len(), "number of bisections");
    let mut seen = vec![false; n];
    for b in &vp {
        check(b.pt < n && !seen[b.pt], "vantage point used twice");
        seen[b.pt] = true;
    }
    let mut used = vec![0; 1 << depth];
    for i in 0..n {
        let r = part.region(&i);
        check(r < 1 << depth, "no such region");
        check(r == walk(&vp, &|j| t.d[j][i]), "region of a point");
        used[r] += 1;
    }
    check(used.iter().sum::<usize>() == n, "every point in one region");
    balanced(&vp, 0, (0..n).collect(), &|i, j| t.d[i][j]);
    if used.iter().all(|u| *u > 0) {
        cover("all regions used");
    }
}
/// a partition given by its bisections
#[no_mangle]
pub extern "C" fn h_region(depth: u64, _: u64, _: u64, _: u64) {
    init();
    let m = (1usize << depth) - 1;
    let d: Vec<N64> = (0..m).map(|_| grid_n("d", 0, 64, 8)).collect();
    let vp: Vec<VPBisection<usize>> = (0..m).map(|i| VPBisection { pt: i, r: grid_n("r", 0, 64, 8) }).collect();
    struct D(Vec<N64>);
    impl Distance<usize> for D {
        fn distance(&self, a: &usize, b: &usize) -> N64 {
            // from vantage point a to the query, whose number is irrelevant
            if *b >= self.0.len() {
                self.0[*a]
            } else {
                self.0[*b]
            }
        }
    }
    let p = unsafe { VPTreePartition::from_vp(vp.clone(), D(d.clone())) };
    let r = p.region(&m);
    check(p.len() == m + 1, "number of regions");
    check(r <= m, "no such region");
    check(r == walk(&vp, &|j| d[j]), "region of a point");
    if r == m {
        cover("last region");
    }
}

struct Line(Vec<N64>);
impl Distance<usize> for &Line {
    fn distance(&self, a: &usize, b: &usize) -> N64 {
        (self.0[*a] - self.0[*b]).abs()
    }
}
/// many given points, parallel construction, and a point anywhere
#[no_mangle]
pub extern "C" fn h_partition_big(n: u64, depth: u64, _: u64, _: u64) {
    init();
    let n = n as usize;
    let x = grid_n("x", -400, 4800, 4);
    // distinct positions in no particular order
    let l = Line((0..n).map(|i| n64((i * 389 % 1009) as f64)).chain([x]).collect());
    let part = VPTreePartition::from(VPTree::from_par_iter_with_dist_and_depth((0..n).into_par_iter(), &l, depth as usize));
    check(part.len() == 1 << depth, "number of regions");
    let vp = part.clone().into_tree();
    let dist = |i: usize, j: usize| (&l).distance(&i, &j);
    balanced(&vp, 0, (0..n).collect(), &dist);
    let r = part.region(&n);
    check(r == walk(&vp, &|j| dist(j, n)), "region of a point");
    if r + 1 == 1 << depth {
        cover("last region");
    }
    log("region", r as u64);
}
