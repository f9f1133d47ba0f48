//! Les Houches Event Files: reading and rewriting
use crate::util::*;
use crate::vx::*;
use cres::event::Weights;
use cres::io::Converter;
use cres::lhef::{FileIO, LHEFParser};
use cres::traits::UpdateWeights;
use noisy_float::prelude::*;
use std::path::PathBuf;

const STATUS: [&str; 5] = ["1", "2", "-1", "3", "11"];
const PDG: [i32; 3] = [21, -13, 25];

/// reading an event record: outgoing particles, central weight
#[no_mangle]
pub extern "C" fn h_lhef_read(npart: u64, _: u64, _: u64, _: u64) {
    let shape = pick("notation", 0, 6);
    let mut r = ["", "\n", "\n  \n\t"][pick("leading space", 0, 2)].to_string();
    r += if shape % 2 == 0 { "<event>" } else { "<event npLO=\"1\" npNLO=\"-1\">" };
    r += ["\n", "\n ", "\n    "][shape % 3];
    let (t, w) = num("w", shape);
    let all = pick("listed", 0, npart) as usize;
    r += &format!("{all}  1 {t} 91.2 0.0075 0.118\n");
    let mut want: Vec<(i32, [N64; 4])> = vec![];
    let same = all > 1 && flag("same type");
    let mut id = 0;
    for i in 0..npart as usize {
        id = if i == 0 { pick("type", 0, 2) } else if same { id } else { (id + 1) % 3 };
        let st = STATUS[pick("status", 0, if i == 0 { 4 } else { 1 })];
        let (a, b, c, d) = momentum(shape + i, same);
        r += &format!("{}{} {st} 1 2 501   0 {} {}  {} {} 0.5 0. 9.\n", ["", "    "][(shape + i) % 2], PDG[id], a.0, b.0, c.0, d.0);
        // lines beyond the number of particles are something else
        if st == "1" && i < all {
            want.push((PDG[id], [d.1, a.1, b.1, c.1]));
        }
    }
    r += ["", "#aMCatNLO 1 2 3\n", "<rwgt>\n<wgt id='1'> 1.5 </wgt>\n</rwgt>\n"][shape % 3];
    r += "</event>";
    let ev = Converter::new().parse_lhef(&r);
    check(ev.is_ok(), "record is accepted");
    let ev = ev.unwrap();
    check(ev.n_weights() == 1, "number of weights");
    check(alike(ev.weight().raw(), w.raw()), "central weight");
    check_particles(&ev, &want);
    if want.is_empty() {
        cover("no outgoing particles");
    }
    if want.len() == npart as usize {
        cover("all particles outgoing");
    }
}
const TOK: &[u8] = b"0123456789.-+e_abN>";
fn tok(t: &str, n: usize) -> String {
    unsafe { String::from_utf8_unchecked((0..n).map(|_| byte(t, TOK)).collect()) }
}
fn plain(t: &str, n: usize) -> String {
    unsafe { String::from_utf8_unchecked((0..n).map(|_| byte(t, &TOK[..18])).collect()) }
}
/// weights replaced one by one; everything else verbatim
#[no_mangle]
pub extern "C" fn h_lhef_update(nev: u64, nsym: u64, _: u64, _: u64) {
    let nsym = nsym as usize;
    let head = ["<LesHouchesEvents version=\"3.0\">\n<!-- a > b -->\n<init>\n2212 2212\n</init>", "<LesHouchesEvents version=\"1.0\">\n<header>\n</header>\n<init a=\"b\">\n</init>"][pick("header", 0, 1)];
    let mut file = String::from(head);
    let mut want = vec![Part::Text(head.into())];
    let mut ws = vec![];
    let k0 = pick("format", 0, 2);
    for i in 0..nev as usize {
        // the first event has all options, others are simpler
        let k = (k0 + i) % 3;
        let tok = |t: &str, n: usize| if i == 0 { tok(t, n) } else { plain(t, n) };
        let l = format!("{}<event{}>\n{}{} {} ", ["\n", "", "\n\n "][k], [" a='1'", "", ""][k], ["", " ", "   "][k], tok("nup", 1), tok("idrup", nsym));
        let (t, _) = num("w", k);
        let r = format!(" {} {}\n21 1 {} >\n<x/>\n</event>", tok("scale", 1), tok("alpha", nsym), tok("p", 1));
        let w = if i == 0 {
            new_weight()
        } else if flag("keep") {
            None
        } else {
            Some(grid_n("new", -64, 64, 8))
        };
        file += &format!("{l}{t}{r}");
        want.push(Part::Text(l.into()));
        want.push(match w {
            Some(w) => Part::Num(w),
            None => Part::Text(t.into()),
        });
        want.push(Part::Text(r.into()));
        ws.push(w.map(Weights::new_single).unwrap_or_default());
    }
    file += ["\n</LesHouchesEvents>\n", "\n</LesHouchesEvents>", ""][pick("end", 0, 2)];
    want.push(Part::Text(b"\n</LesHouchesEvents>\n".to_vec()));
    put_file("in", file.as_bytes());
    {
        let mut io = FileIO::try_new(PathBuf::from("in"), PathBuf::from("out"), None, vec![]).unwrap();
        let one = flag("one by one");
        if one {
            for w in &ws {
                check(matches!(io.update_next_weights(w), Ok(true)), "event updated");
            }
            check(matches!(io.update_next_weights(&Weights::new_single(n64(1.))), Ok(false)), "no further event");
            check(io.finish_weight_update().is_ok(), "finished");
        } else {
            let n = io.update_all_weights(&ws);
            check(n.is_ok() && n.unwrap() == nev as usize, "all events updated");
        }
    }
    let got = get_file("out");
    check(got.is_some(), "output exists");
    compare(&got.unwrap(), &want);
}
/// many particles
#[no_mangle]
pub extern "C" fn h_lhef_big(np: u64, _: u64, _: u64, _: u64) {
    let np = np as usize;
    let shape = pick("notation", 0, 6);
    let (t, w) = num("w", shape);
    let (p, x) = num("p", shape);
    let free = pick("which", 0, 2) * (np - 1) / 2;
    let start = format!("\n<event>\n{np} 1 ");
    let mut r = String::from(" 91.2 0.0075 0.118\n");
    let mut want = vec![];
    for i in 0..np {
        let st = if i == free { 1 } else { [1, 1, 2, -1, 3][i % 5] };
        let id = [21, -13, 25, 2, -211, 22][(i * 2 + i / 6) % 6];
        let z = if i == free { p.clone() } else { format!("{}.25", i % 7) };
        r += &format!("{id} {st} 1 2 501 0 {i}. -{i}.5 {z} {}e1 0.5 0. 9.\n", i + 1);
        if st == 1 {
            want.push((id, [n64(10. * (i + 1) as f64), n64(i as f64), n64(-0.5 - i as f64), if i == free { x } else { n64((i % 7) as f64 + 0.25) }]));
        }
    }
    r += "</event>";
    let ev = Converter::new().parse_lhef(&[&start, t.as_str(), &r].concat());
    check(ev.is_ok(), "record is accepted");
    let ev = ev.unwrap();
    check(alike(ev.weight().raw(), w.raw()), "central weight");
    check_particles(&ev, &want);
    let head = "<LesHouchesEvents version=\"1.0\">\n<init>\n2212 2212\n</init>";
    let end = "\n</LesHouchesEvents>\n";
    put_file("in", [head, &start, &t, &r, end].concat().as_bytes());
    let mut io = FileIO::try_new(PathBuf::from("in"), PathBuf::from("out"), None, vec![]).unwrap();
    check(io.update_all_weights(&[Weights::new_single(n64(-3.5))]).is_ok(), "all events updated");
    drop(io);
    compare(&get_file("out").unwrap(), &[Part::Text([head, &start].concat().into()), Part::Num(n64(-3.5)), Part::Text([&r, end].concat().into())]);
}
