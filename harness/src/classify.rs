//! the program that sorts events into the regions of a partition
use crate::argfile::run;
use crate::fio::*;
use crate::util::*;
use crate::vx::*;
use cres::cluster::{DefaultClustering, JetAlgorithm, JetDefinition};
use cres::distance::{Distance, EuclWithScaledPt};
use cres::event::{Event, EventBuilder};
use cres::io::*;
use cres::partition::{VPBisection, VPTreePartition};
use cres::traits::*;
use noisy_float::prelude::*;

/// event with one jet
fn jet(x: f64) -> Event {
    let mut b = EventBuilder::new();
    b.add_outgoing(pid(81), px(n64(x)));
    b.build()
}
const EXT: [&str; 4] = ["hepmc", "lhef", "xml", "hepmc"];

/// n files of up to maxev events on a line, symbolic positions: each record goes to the file of its region
#[no_mangle]
pub extern "C" fn h_classify(fmt: u64, depth: u64, n: u64, tau: u64) {
    init();
    let (fmt, n) = (fmt as usize, n as usize);
    // regions
    let c: &[f64] = [&[][..], &[100.][..], &[100., 40., 160.][..]][depth as usize];
    let r: &[f64] = [&[][..], &[40.][..], &[40., 24., 16.][..]][depth as usize];
    let dist = EuclWithScaledPt::new(n64(tau as f64));
    let tree: Vec<_> = c.iter().zip(r).map(|(c, r)| VPBisection { pt: jet(*c), r: n64(*r) }).collect();
    let part = unsafe { VPTreePartition::from_vp(tree, dist) };
    let regions = part.len();
    check(regions == 1 << depth, "number of regions");
    let clus = DefaultClustering::new(JetDefinition { algorithm: JetAlgorithm::AntiKt, radius: 0.4, min_pt: 20. });
    let text = serde_yaml_text(&(clus, part));
    put_file("part", text.as_bytes());
    // events
    let xs: Vec<N64> = (0..n).map(|_| grid_n("x", 30, 220, 1)).collect();
    let ws: Vec<String> = (0..n).map(|_| num("w", 1).0).collect();
    let (h, mut e, _) = file(fmt, &ws, 7);
    for (i, e) in e.iter_mut().enumerate() {
        let x = xs[i].to_string();
        *e = match fmt {
            0 | 1 | 3 => e.replace("1 2 3 4", &format!("{x} 0 0 {x}")).replace("25 1 1 2", "21 1 1 2"),
            _ => e.replace("4,1,2,3", &format!("{x},{x},0,0")),
        };
    }
    let ftr = ["HepMC::IO_GenEvent-END_EVENT_LISTING\n", "\n</LesHouchesEvents>\n", "</Eventrecord>\n", ""][fmt];
    // markers of the format inside an event
    if n > 0 && flag("comment") {
        let k = pick("commented event", 0, n as u64 - 1);
        e[k] = match fmt {
            0 | 3 => e[k].replace("P 10", "C HepMC::IO_GenEvent-END_EVENT_LISTING E 1\nP 10"),
            1 => e[k].replace("</event>", "# </LesHouchesEvents> <init> </init>\n</event>"),
            _ => e[k].replace("</se>", "<!-- </Eventrecord> nevents -->\n</se>"),
        };
    }
    let name = format!("in.{}", EXT[fmt]);
    put_file(&name, [h.clone(), e.concat(), ftr.to_string()].concat().as_bytes());
    let res = run(["classify", "-p", "part", "-o", "dir", &name]);
    check(res.is_ok(), "the program succeeds");
    // where the events belong: follow the bisections
    let mut want = vec![vec![]; regions];
    let d = EuclWithScaledPt::new(n64(tau as f64));
    for i in 0..n {
        let mut b = EventBuilder::new();
        b.add_outgoing(pid(81), px(xs[i]));
        let ev = b.build();
        // the children of a node follow the scheme of a heap
        let mut k = 0;
        while k < c.len() {
            k = 2 * k + if cases(d.distance(&ev, &jet(c[k])) <= n64(r[k])) { 1 } else { 2 };
        }
        let lo = k - c.len();
        want[lo].push(i);
    }
    for k in 0..regions {
        let f = format!("dir/in.{k}.{}", EXT[fmt]);
        let g = get_file(&f);
        check(g.is_some(), "file of the region");
        let g = g.unwrap();
        let mut p = &g[..];
        eat(&mut p, &h);
        for i in &want[k] {
            // white space around records does not matter
            while !p.is_empty() && b" \n".contains(&p[0]) {
                p = &p[1..];
            }
            eat(&mut p, e[*i].trim());
        }
        let rest: Vec<u8> = p.iter().copied().filter(|b| !b" \n".contains(b)).collect();
        check(rest == ftr.trim().as_bytes(), "end of the file");
        if want[k].is_empty() {
            cover("empty region");
        }
        // the file can be read
        let rd = FileReader::try_new(f.into());
        check(rd.is_ok(), "file of the region can be opened");
        let mut m = 0;
        for r in rd.unwrap() {
            check(r.is_ok(), "record of the region");
            m += 1;
        }
        check(m == want[k].len(), "number of events in the region");
    }
    let mut all = 0;
    for w in &want {
        all += w.len();
    }
    check(all == n, "every event is in one region");
}
fn serde_yaml_text<T: serde::Serialize>(x: &T) -> String {
    serde_yaml::to_string(x).unwrap()
}

/// if not everything can be written, this is reported
#[no_mangle]
pub extern "C" fn h_classify_fail(fmt: u64, n: u64, _: u64, _: u64) {
    init();
    let (fmt, n) = (fmt as usize, n as usize);
    let dist = EuclWithScaledPt::new(n64(0.));
    let part = unsafe { VPTreePartition::from_vp(vec![VPBisection { pt: jet(100.), r: n64(40.) }], dist) };
    let clus = DefaultClustering::new(JetDefinition { algorithm: JetAlgorithm::AntiKt, radius: 0.4, min_pt: 20. });
    put_file("part", serde_yaml_text(&(clus, part)).as_bytes());
    let ws: Vec<String> = (0..n).map(|_| "1.5".into()).collect();
    let (h, e, _) = file(fmt, &ws, 7);
    put_file("in", [h, e.concat()].concat().as_bytes());
    let lim = int("file limit", 0, 2000);
    file_limit(lim);
    let res = run(["classify", "-p", "part", "-o", "dir", "in"]);
    file_limit(u64::MAX);
    if res.is_ok() {
        cover("everything is written");
        let (mut len, mut k) = (0, 0);
        while let Some(f) = get_file(&format!("dir/in.{k}.")) {
            for e in &e {
                len += f.windows(e.trim().len()).any(|w| w == e.trim().as_bytes()) as usize;
            }
            k += 1;
        }
        check(k == 2 && len == n, "all events are written");
        let foot = ["HepMC::IO_GenEvent-END_EVENT_LISTING\n", "</LesHouchesEvents>\n", "</Eventrecord>\n", ""][fmt];
        for k in 0..2 {
            check(get_file(&format!("dir/in.{k}.")).unwrap().ends_with(foot.as_bytes()), "file is complete");
        }
    } else {
        cover("failure is reported");
    }
}
/// several input files: those whose output would collide are refused, the others are all classified
#[no_mangle]
pub extern "C" fn h_classify_many(_: u64, _: u64, _: u64, _: u64) {
    init();
    let dist = EuclWithScaledPt::new(n64(0.));
    let part = unsafe { VPTreePartition::from_vp(vec![], dist) };
    let clus = DefaultClustering::new(JetDefinition { algorithm: JetAlgorithm::AntiKt, radius: 0.4, min_pt: 20. });
    put_file("part", serde_yaml_text(&(clus, part)).as_bytes());
    let _ = std::fs::create_dir("a");
    let _ = std::fs::create_dir("b");
    let names = [["a/x.e", "a/y.e", "a/x"][pick("first", 0, 2)], ["b/x.e", "b/y.e", "b/x.", "b/x.0.e", "a/x.0.e", "a/x.1.e"][pick("second", 0, 5)]];
    let dir = ["dir", "a", "b"][pick("directory", 0, 2)];
    let mut recs = vec![];
    let mut texts = vec![];
    for (i, f) in names.iter().enumerate() {
        let (h, e, _) = file(i, &[num("w", 1).0], 7);
        let t = [h, e.concat()].concat();
        put_file(f, t.as_bytes());
        texts.push(t);
        recs.push(e.concat());
    }
    let outs: Vec<String> = names
        .iter()
        .map(|n| {
            let n = &n[2..];
            let (a, b) = n.split_once('.').unwrap_or((n, ""));
            format!("{dir}/{a}.0.{b}")
        })
        .collect();
    let clash = outs[0] == outs[1] || outs.iter().any(|o| names.contains(&o.as_str()));
    let res = run(["classify", "-p", "part", "-o", dir, names[0], names[1]]);
    for (f, t) in names.iter().zip(&texts) {
        check(get_file(f).as_deref() == Some(t.as_bytes()), "input files are left alone");
    }
    check(res.is_err() == clash, "only overwriting files is refused");
    if res.is_ok() {
        for (o, r) in outs.iter().zip(&recs) {
            let g = get_file(o).unwrap_or_default();
            let r = r.trim().as_bytes();
            let found = (0..g.len()).any(|k| g[k..].len() >= r.len() && g[k] == r[0] && &g[k..k + r.len()] == r);
            check(found, "all events are written");
        }
    }
    cover(if res.is_err() { "refused" } else { "accepted" });
}
