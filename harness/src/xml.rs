//! STRIPPER XML files: reading, rewriting, normalisation
use crate::fio::write_norm;
use crate::util::*;
use crate::vx::*;
use cres::event::Weights;
use cres::io::{Converter, EventRecord, FileIO, IOBuilder};
use cres::stripper_xml::StripperXmlParser;
use cres::traits::*;
use noisy_float::prelude::*;
use std::path::PathBuf;

const STATUS: [&str; 4] = ["0", "1", "-1", "10"];
const PDG: [i32; 3] = [21, -13, 25];

/// reading an event record: outgoing particles, central weight
#[no_mangle]
pub extern "C" fn h_xml_read(npart: u64, _: u64, _: u64, _: u64) {
    let shape = pick("notation", 0, 6);
    let (t, w) = num("w", shape);
    let sp = ["\n", "", "\n\t "][shape % 3];
    let mut r = format!("<se {}w=\"{t}\" muR=\"1.5\" x1=\"0.1\">", ["", " "][shape % 2]);
    let mut want: Vec<(i32, [N64; 4])> = vec![];
    let same = npart > 1 && flag("same type");
    let mut id = 0;
    for i in 0..npart as usize {
        id = if i == 0 { pick("type", 0, 2) } else if same { id } else { (id + 1) % 3 };
        let st = STATUS[pick("status", 0, if i == 0 { 3 } else { 1 })];
        let (a, b, c, d) = momentum(shape + i, same);
        let pad = ["", " ", ""][(shape + i) % 3];
        r += &format!("{sp}<p id=\"{st},{}\">{pad}{},{},{},{}{pad}</p>", PDG[id], d.0, a.0, b.0, c.0);
        if st == "0" {
            want.push((PDG[id], [d.1, a.1, b.1, c.1]));
        }
    }
    r += sp;
    r += "<rw ch=\"1\"> 2.5,3 </rw>\n</se>\n";
    r += ["</e>\n<e>\n", "</e>\n</Eventrecord>\n", ""][shape % 3];
    let ev = Converter::new().parse_stripper_xml(&r);
    check(ev.is_ok(), "record is accepted");
    let ev = ev.unwrap();
    check(ev.n_weights() == 1, "number of weights");
    check(alike(ev.weight().raw(), w.raw()), "central weight");
    check_particles(&ev, &want);
    if want.is_empty() {
        cover("no outgoing particles");
    }
    if want.len() == npart as usize {
        cover("all particles outgoing");
    }
}
const TOK: &[u8] = b"0123456789.-+ea,sN";
fn tok(t: &str, n: usize) -> String {
    unsafe { String::from_utf8_unchecked((0..n).map(|_| byte(t, TOK)).collect()) }
}
fn head(name: &str, n: u64, k: usize) -> String {
    format!("{}<?xml version=\"1.0\"?>\n<Eventrecord {}nevents=\"{n}\" nsubevents=\"{n}\" as=\"2\" name=\"{name}\">\n<e>\n", ["", "\n "][k], ["alphaspower=\"2.0\" ", ""][k])
}
/// cross sections that can be divided by small numbers without rounding
const XS: [(&str, f64); 3] = [("60", 60.), ("7.5", 7.5), ("-1.2e2", -120.)];

/// weights replaced one by one, in the normalisation of the file; everything else verbatim
#[no_mangle]
pub extern "C" fn h_xml_update(nev: u64, nsym: u64, _: u64, _: u64) {
    let nsym = nsym as usize;
    let k = pick("header", 0, 1);
    let xs = pick("cross section", 0, 2);
    let h = head("B0", nev, k);
    let mut parts: Vec<(String, String, Option<(N64, String)>)> = vec![];
    let mut file = h.clone();
    let mut ws = vec![];
    for i in 0..nev {
        let l = format!("<se {}w=\"", ["", " "][k]);
        let t = num("old", k + i as usize).0;
        let r = format!("\" muR=\"{}\">\n<p id=\"0,{}\"> 1,2,3,4 </p></se>{}", tok("muR", nsym), tok("id", 1), ["\n</e>\n<e>\n", "</e></Eventrecord>"][(i + 1 == nev) as usize]);
        file += &l;
        file += &t;
        file += &r;
        if flag("no particles") {
            parts.push((l + &t + &r, String::new(), None));
            ws.push(Weights::default());
        } else {
            let w = grid_n("new", -64, 64, 8);
            parts.push((l, r, Some((w, t))));
            ws.push(Weights::new_single(w));
        }
    }
    put_file("in", file.as_bytes());
    write_norm("B0", XS[xs].0);
    {
        let mut io = IOBuilder::default().build_from_files_iter([("in", "out"), ("norm", "nout")]).unwrap();
        let n = io.update_all_weights(&ws);
        check(n.is_ok() && n.unwrap() == nev as usize, "all events updated");
    }
    check(get_file("nout").is_none(), "normalisation is not an event file");
    let got = get_file("out");
    check(got.is_some(), "output exists");
    let got = got.unwrap();
    let mut p = &got[..];
    let mut eat = |p: &mut &[u8], s: &str| {
        check(p.len() >= s.len(), "output length");
        check(&p[..s.len()] == s.as_bytes(), "output");
        *p = &p[s.len()..];
    };
    eat(&mut p, &h);
    for (l, r, w) in &parts {
        eat(&mut p, l);
        if let Some((w, _)) = w {
            let Some(n) = p.iter().position(|b| *b == b'"') else {
                check(false, "output");
                return;
            };
            let x = std::str::from_utf8(&p[..n]).unwrap().parse::<f64>();
            check(x.is_ok(), "weight is a number");
            check(alike(x.unwrap() * XS[xs].1 / nev as f64, w.raw()), "weight in the normalisation of the file");
            p = &p[n..];
        }
        eat(&mut p, r);
    }
    check(p.is_empty(), "output length");
}
/// the weights read are those of the file, times cross section over the number of events of all files of that name
#[no_mangle]
pub extern "C" fn h_xml_scale(nfiles: u64, nev: u64, _: u64, _: u64) {
    let nfiles = nfiles as usize;
    let names = ["B0", "V1&amp;"];
    let xs = [pick("cross section", 0, 2), pick("cross section", 0, 2)];
    write_norm(names[0], XS[xs[0]].0);
    std::fs::rename("norm", "norm0").unwrap();
    write_norm(names[1], XS[xs[1]].0);
    let mut files: Vec<(PathBuf, PathBuf)> = vec![];
    let mut tot = [0u64; 2];
    let mut all = vec![];
    for f in 0..nfiles {
        let c = if f == 0 { 0 } else { pick("contribution", 0, 1) };
        // the number of events need not be that of the records
        let n = pick("number of events", 1, if nfiles > 2 { 2 } else { 3 }) as u64;
        tot[c] += n;
        let mut t = head(names[c], n, f % 2).replace("nsubevents=\"", "nsubevents=\"0");
        for i in 0..nev {
            let w = grid_n("w", -64, 64, 8);
            t += &format!("<se w=\"{w}\" a=\"{i}\">\n<p id=\"0,21\"> 1,1,0,0 </p></se>\n");
            all.push((c, w));
        }
        let name = ["a", "b", "c"][f];
        put_file(name, t.as_bytes());
        files.push((name.into(), format!("{name}.out").into()));
    }
    let k = pick("normalisation", 0, files.len() as u64);
    files.insert(k, ("norm0".into(), "n0".into()));
    let k = if k == 0 { files.len() } else { 0 };
    files.insert(k, ("norm".into(), "n1".into()));
    let mut io = IOBuilder::default().build_from_files_iter(files).unwrap();
    let c = Converter::new();
    for (f, w) in &all {
        let r = io.next();
        check(r.is_some(), "number of records");
        let r = r.unwrap();
        check(r.is_ok(), "record can be read");
        let e = c.try_convert(r.unwrap());
        check(e.is_ok(), "record can be converted");
        let e = e.unwrap();
        check(alike(e.weight().raw(), (*w * XS[xs[*f]].1 / tot[*f] as f64).raw()), "scaled weight");
    }
    check(io.next().is_none(), "number of records");
}
/// without the cross section a file is rejected
#[no_mangle]
pub extern "C" fn h_xml_missing(_: u64, _: u64, _: u64, _: u64) {
    put_file("in", (head("B0", 1, pick("header", 0, 1)) + "<se w=\"1\">\n<p id=\"0,21\"> 1,1,0,0 </p></se>\n</e></Eventrecord>").as_bytes());
    let k = pick("normalisation", 0, 2);
    let mut files = vec![("in", "out")];
    if k > 0 {
        write_norm(["", "B1", "B"][k], "3");
        files.push(("norm", "nout"));
    }
    check(IOBuilder::default().build_from_files_iter(files).is_err(), "missing cross section");
    let _ = |x: FileIO, y: EventRecord| (x, y);
}
/// many particles in each of many subevents
#[no_mangle]
pub extern "C" fn h_xml_big(np: u64, nev: u64, _: u64, _: u64) {
    let (np, nev) = (np as usize, nev as usize);
    let shape = pick("notation", 0, 6);
    let (t, w) = num("w", shape);
    let free = pick("which", 0, 2) * (nev - 1) / 2;
    let h = head("B0", nev as u64, 0);
    let mut parts = vec![Part::Text(h.clone().into())];
    let mut file = h;
    let mut want = vec![];
    for i in 0..nev {
        let l = "<se w=\"";
        let old = if i == free { t.clone() } else { format!("{i}.5") };
        let mut r = String::from("\" muR=\"1\">\n");
        let mut ps = vec![];
        for j in 0..np {
            let st = [0, 0, 1, -1, 10][(i + j) % 5];
            let id = [21, -13, 25, 2, -211, 22][(j * 2 + j / 6) % 6];
            r += &format!("<p id=\"{st},{id}\">{}e1,{j},-{j}.5,{}.25</p>\n", j + 1, i % 7);
            if st == 0 {
                let x = j as f64;
                ps.push((id, [n64(10. * x + 10.), n64(x), n64(-x - 0.5), n64((i % 7) as f64 + 0.25)]));
            }
        }
        r += ["</se>\n", "</se>\n</e>\n<e>\n", "</se>\n</e>\n</Eventrecord>"][if i + 1 == nev { 2 } else { i % 2 }];
        file += &[l, &old, &r].concat();
        parts.push(Part::Text(l.into()));
        parts.push(Part::Num(n64(-2. - i as f64)));
        parts.push(Part::Text(r.into()));
        want.push((if i == free { w } else { n64(i as f64 + 0.5) }, ps));
    }
    put_file("in", file.as_bytes());
    // the sum of weights is the cross section
    write_norm("B0", &nev.to_string());
    let mut io = IOBuilder::default().build_from_files_iter([("in", "out"), ("norm", "nout")]).unwrap();
    let c = Converter::new();
    for (w, ps) in &want {
        let e = c.try_convert(io.next().unwrap().unwrap()).unwrap();
        check(alike(e.weight().raw(), w.raw()), "weight");
        check_particles(&e, ps);
    }
    check(io.next().is_none(), "number of records");
    let ws: Vec<_> = (0..nev).map(|i| Weights::new_single(n64(-2. - i as f64))).collect();
    let n = io.update_all_weights(&ws);
    check(n.is_ok() && n.unwrap() == nev, "all events updated");
    drop(io);
    compare(&get_file("out").unwrap(), &parts);
}
