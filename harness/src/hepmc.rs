//! HepMC2 files: reading and rewriting
use crate::util::*;
use crate::vx::*;
use cres::event::{Event, Weights};
use cres::hepmc2::{FileIO, FileReader, HepMCParser};
use cres::io::{Converter, EventFileReader, EventRecord};
use cres::traits::{Rewind, UpdateWeights};
use noisy_float::prelude::*;
use std::path::PathBuf;

const TOK: &[u8] = b"0123456789.-+e_abN";
pub const HEAD: &[u8] = b"\nHepMC::Version 2.06.11\nHepMC::IO_GenEvent-START_EVENT_LISTING\n";

fn tok(t: &str, n: usize) -> Vec<u8> {
    (0..n).map(|_| byte(t, TOK)).collect()
}
pub fn io(weight_names: &[&str]) -> FileIO {
    FileIO::try_new(PathBuf::from("in"), PathBuf::from("out"), None, weight_names.iter().map(|s| s.to_string()).collect()).unwrap()
}
/// all weights, different from each other
pub fn lit(i: usize) -> (&'static str, f64) {
    [("1.5", 1.5), ("-2.5e-3", -2.5e-3), ("+3", 3.), ("4.25E+2", 425.), ("-.5", -0.5), ("6.", 6.), ("7e0", 7.), ("-8.125", -8.125), ("9", 9.), ("1e1", 10.)][i % 10]
}

/// nev events; weights replaced one by one; everything else verbatim
#[no_mangle]
pub extern "C" fn h_hepmc_update(nev: u64, nw: u64, nsym: u64, _: u64) {
    let nw = nw as usize;
    let nsym = nsym as usize;
    let mut file: Vec<u8> = vec![];
    let mut want: Vec<Part> = vec![];
    let head: &[u8] = if flag("header") { HEAD } else { b"\n" };
    let text = |t: &[u8]| Part::Text(t.to_vec());
    file.extend(head);
    want.push(text(head));
    let mut ws = vec![];
    for _ in 0..nev {
        let nrand = [0, 1, 2, 5][pick("random states", 0, 3) as usize];
        let mut l = b"E".to_vec();
        for i in 0..10 {
            l.push(b' ');
            l.extend(tok("e", if i == 3 { nsym } else { 1 }));
        }
        l.push(b' ');
        l.push(b'0' + nrand as u8);
        for i in 0..nrand {
            l.push(b' ');
            // a token may also start with the letter that starts events
            l.extend(if i == 0 && flag("random state starts with E") { b"E1".to_vec() } else { tok("r", 1) });
        }
        l.push(b' ');
        l.push(b'0' + nw as u8);
        l.push(b' ');
        file.extend(&l);
        want.push(text(&l));
        let w = new_weight();
        for i in 0..nw {
            let t = tok("w", 2);
            if i > 0 {
                file.push(b' ');
                want.push(text(b" "));
            }
            file.extend(&t);
            want.push(match w {
                Some(w) if i == 0 => Part::Num(w),
                _ => text(&t),
            });
        }
        ws.push(w.map(Weights::new_single).unwrap_or_default());
        let mut l = b"\nU GEV MM\nP 1 21 ".to_vec();
        l.extend(tok("p", nsym));
        l.push(b'\n');
        file.extend(&l);
        want.push(text(&l));
    }
    if flag("footer") {
        let f = b"HepMC::IO_GenEvent-END_EVENT_LISTING\n";
        file.extend(f);
        want.push(text(f));
    }
    put_file("in", &file);
    {
        let mut io = io(&[]);
        let n = io.update_all_weights(&ws);
        check(n.is_ok() && n.unwrap() == nev as usize, "all events updated");
    }
    let got = get_file("out");
    check(got.is_some(), "output exists");
    compare(&got.unwrap(), &want);
}

const STATUS: [&str; 5] = ["1", "2", "11", "0", "-1"];
const PDG: [i32; 3] = [21, -13, 2212];

/// reading an event record: particles with status 1, units, central weight
#[no_mangle]
pub extern "C" fn h_hepmc_read(npart: u64, nw: u64, _: u64, _: u64) {
    let shape = pick("notation", 0, 6);
    let nrand = [1, 2, 0, 3, 12, 5, 4][shape];
    // ten entries before the random states
    let mut r = String::from("E");
    for i in 0..10 {
        r += &format!(" {i}");
    }
    r += &format!(" {nrand}");
    for i in 0..nrand {
        r += &format!(" {}", 77 + i);
    }
    r += &format!(" {nw}");
    let (t, w) = num("w", shape);
    r += " ";
    r += &t;
    for i in 1..nw as usize {
        r += &format!(" {}", lit(i).0);
    }
    r += "\n";
    let unit = pick("units", 0, 3);
    let order = unit > 0 && flag("units last");
    let u = ["", "U GEV MM\n", "U MEV CM\n", "U MEV MM\n"][unit];
    let scale = n64(if unit >= 2 { 1e-3 } else { 1. });
    if shape % 2 == 0 {
        r += "N 1 \"a b\"\nC 1.0 2.0\nH 1 2 3\nF 0 0\n";
    }
    if !order {
        r += u;
    }
    let mut want: Vec<(i32, [N64; 4])> = vec![];
    let same = npart > 1 && flag("same type");
    let mut id = 0;
    for i in 0..npart as usize {
        if i % 2 == 0 {
            r += "V -1 0 0 0 0 0 1 2 0\n";
        }
        id = if i == 0 { pick("type", 0, 2) } else if same { id } else { (id + 1) % 3 };
        let st = STATUS[pick("status", 0, if i == 0 { 4 } else { 1 })];
        let (a, b, c, d) = momentum(shape + i, same);
        let id = PDG[id];
        r += &format!("P {} {id} {} {} {} {} 0.1 {st} 0 0 -1 1 1 5\n", 10001 + i, a.0, b.0, c.0, d.0);
        if st == "1" {
            want.push((id, [d.1 * scale, a.1 * scale, b.1 * scale, c.1 * scale]));
        }
    }
    if order {
        r += u;
    }
    if shape == 3 {
        r.pop();
    }
    let ev = Converter::new().parse_hepmc(&r);
    check(ev.is_ok(), "record is accepted");
    let ev = ev.unwrap();
    check(ev.n_weights() == 1, "number of weights");
    check(alike(ev.weight().raw(), w.raw()), "central weight");
    check(ev.id() == 0, "id");
    check_particles(&ev, &want);
    if want.is_empty() {
        cover("no outgoing particles");
    }
    if want.len() == npart as usize {
        cover("all particles outgoing");
    }
    log("particles", want.len() as u64);
}

const NAMES: [&str; 3] = ["a", "b c", "Ex"];
const PERMS: [[usize; 3]; 6] = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];

/// named weights: read from and written to the entries with their names
#[no_mangle]
pub extern "C" fn h_hepmc_named(nev: u64, _: u64, _: u64, _: u64) {
    let nev = nev as usize;
    // which names are asked for, in which order
    let nreq = pick("requested", 0, 3);
    let rp = PERMS[pick("requested order", 0, 5)];
    let req: Vec<&str> = rp[..nreq].iter().map(|i| NAMES[*i]).collect();
    let mut file = HEAD.to_vec();
    let mut want = vec![Part::Text(HEAD.to_vec())];
    let mut ws: Vec<Vec<N64>> = vec![];
    let mut olds: Vec<Vec<N64>> = vec![];
    let mut orders = vec![];
    for e in 0..nev {
        let order = PERMS[pick("names in the record", 0, 5)];
        orders.push(order);
        let new: Vec<N64> = (0..=nreq).map(|_| grid_n("new", -64, 64, 8)).collect();
        let mut l = String::from("E 0 1 2 3 4 5 6 7 8 9 0 3");
        want.push(Part::Text(l.clone().into()));
        let mut old = vec![];
        for i in 0..3 {
            let (t, w) = num("w", e + i);
            old.push(w);
            l += &format!(" {t}");
            want.push(Part::Text(b" ".to_vec()));
            // of two new weights for one entry, the named one counts
            want.push(match rp[..nreq].iter().position(|r| *r == order[i]) {
                Some(j) => Part::Num(new[j + 1]),
                None if i == 0 => Part::Num(new[0]),
                None => Part::Text(t.into()),
            });
        }
        let t = format!("\nU GEV MM\nN 3 \"{}\" \"{}\" \"{}\"\nV -1 0 0 0 0 0 0 1 0\nP 1 21 1 2 3 4 0 1 0 0 0 0\n", NAMES[order[0]], NAMES[order[1]], NAMES[order[2]]);
        file.extend(l.as_bytes());
        file.extend(t.as_bytes());
        want.push(Part::Text(t.into()));
        ws.push(new);
        olds.push(old);
    }
    put_file("in", &file);
    let conv = Converter::with_weights(req.iter().map(|s| s.to_string()).collect());
    let mut n = 0;
    let mut io = io(&req);
    while let Some(r) = io.next() {
        check(r.is_ok(), "record can be read");
        let ev = cres::traits::TryConvert::try_convert(&conv, r.unwrap());
        check(ev.is_ok(), "record can be converted");
        let w = weights(&ev.unwrap());
        check(w.len() == nreq + 1, "number of weights");
        check(alike(w[0].raw(), olds[n][0].raw()), "central weight");
        for j in 0..nreq {
            let i = orders[n].iter().position(|o| *o == rp[j]).unwrap();
            check(alike(w[j + 1].raw(), olds[n][i].raw()), "named weight");
        }
        n += 1;
    }
    check(n == nev, "number of records");
    let ws: Vec<Weights> = ws.iter().map(|w| multi(w)).collect();
    let n = io.update_all_weights(&ws);
    check(n.is_ok() && n.unwrap() == nev, "all events updated");
    drop(io);
    compare(&get_file("out").unwrap(), &want);
}
/// a record that lacks one of the names is rejected, on reading as well as on writing
#[no_mangle]
pub extern "C" fn h_hepmc_missing(_: u64, _: u64, _: u64, _: u64) {
    let (t, _) = num("w", pick("shape", 0, 6));
    let k = pick("kind", 0, 4);
    let names = ["N 2 \"0\" \"b\"\n", "", "N 1 \"a\"\n", "N 2 \"0\" \"aa\"\n", "N 3 \"0\" \"b\" \"a\"\n"][k];
    let file = format!("{}E 0 1 2 3 4 5 6 7 8 9 0 2 {t} 2.5\n{names}P 1 21 1 2 3 4 0 1 0 0 0 0\n", std::str::from_utf8(HEAD).unwrap());
    put_file("in", file.as_bytes());
    let req = ["a"];
    let conv = Converter::with_weights(vec!["a".to_string()]);
    let mut io = io(&req);
    let r = io.next().unwrap().unwrap();
    let ev = cres::traits::TryConvert::try_convert(&conv, r);
    check(ev.is_ok() == (k == 2), "missing name");
    let w = grid_n("new", -64, 64, 8);
    let r = io.update_all_weights(&[multi(&[w, w])]);
    // the writer ignores names it does not find
    if k == 1 || k == 4 {
        check(r.is_err(), "missing name");
    }
}
pub fn multi(w: &[N64]) -> Weights {
    let mut b = cres::event::EventBuilder::new();
    for w in w {
        b.add_weight(*w);
    }
    b.build().weights.into_inner()
}
/// many particles, many named weights
#[no_mangle]
pub extern "C" fn h_hepmc_big(np: u64, nw: u64, _: u64, _: u64) {
    let (np, nw) = (np as usize, nw as usize);
    let shape = pick("notation", 0, 6);
    let k = pick("requested", 0, nw as u64 - 1);
    let twin = (k + 7) % nw;
    // names that are parts of each other
    let name = |i: usize| format!("w{}", i * 5);
    let mut file = format!("{}E 0 1 2 3 4 5 6 7 8 9 12 0 0 0 0 0 0 0 0 0 0 0 0 {nw}", std::str::from_utf8(HEAD).unwrap());
    let mut want = vec![Part::Text(file.clone().into())];
    let mut old = vec![];
    for i in 0..nw {
        let (t, w) = if i == k { num("w", shape) } else { (format!("{i}.5"), n64(i as f64 + 0.5)) };
        file += &format!(" {t}");
        want.push(Part::Text(b" ".to_vec()));
        want.push(if i == k {
            Part::Num(n64(-3.5))
        } else if i == twin {
            Part::Num(n64(1e-7))
        } else if i == 0 {
            Part::Num(n64(25.))
        } else {
            Part::Text(t.into())
        });
        old.push(w);
    }
    let mut t = format!("\nN {nw}");
    for i in 0..nw {
        t += &format!(" \"{}\"", name(i));
    }
    t += "\nU GEV CM\n";
    let mut ps = vec![];
    for i in 0..np {
        if i % 10 == 0 {
            t += "V -1 0 0 0 0 0 1 10 0\n";
        }
        let st = [1, 1, 2, 1, 11][i % 5];
        let id = [21, -13, 2212, 2, -211][(i * 2) % 5];
        t += &format!("P {} {id} {i} -{i}.5 {}.25 {}e3 0 {st} 0 0 -1 0\n", 10001 + i, i % 7, i + 1);
        if st == 1 {
            let x = i as f64;
            ps.push((id, [n64(1e3 * (x + 1.)), n64(x), n64(-x - 0.5), n64((i % 7) as f64 + 0.25)]));
        }
    }
    file += &t;
    want.push(Part::Text(t.into()));
    put_file("in", file.as_bytes());
    let req = [name(twin), name(k)];
    let mut io = io(&[&req[0], &req[1]]);
    let ev = cres::traits::TryConvert::try_convert(&Converter::with_weights(req.to_vec()), io.next().unwrap().unwrap()).unwrap();
    let w = weights(&ev);
    check(w.len() == 3, "number of weights");
    for (w, i) in w.iter().zip([0, twin, k]) {
        check(alike(w.raw(), old[i].raw()), "weight");
    }
    check_particles(&ev, &ps);
    check(io.next().is_none(), "number of records");
    let n = io.update_all_weights(&[multi(&[n64(25.), n64(1e-7), n64(-3.5)])]);
    check(n.is_ok() && n.unwrap() == 1, "all events updated");
    drop(io);
    compare(&get_file("out").unwrap(), &want);
}
