//! Decks: C10, C11, C13, C14, C15 and parts of C09 and C17
use crate::p_ckt::branch_indices;
use crate::util::*;
use crate::{desc, guarded, Ctx};
use std::collections::{BTreeMap, HashMap};
use std::path::Path;
use tiny_spice::analysis::*;
use tiny_spice::circuit::*;
use tiny_spice::engine::Engine;
use tiny_spice::spice::Reader;

#[derive(Clone)]
enum Val { Lit(String, f64), Id(String) }
impl Val {
    fn txt(&self) -> String { match self { Val::Lit(t, _) => t.clone(), Val::Id(n) => format!("{{{}}}", n) } }
}
#[derive(Clone)]
enum Item {
    Prim(String, Vec<String>, Vec<Val>),
    /// name, nets, kind (I V S s P), numbers, delay/repeat texts
    Src(String, Vec<String>, char, Vec<(String, f64)>, Option<(String, f64)>, Option<(String, f64)>),
    Inst(String, usize, Vec<String>, Vec<(String, Val)>),
}
#[derive(Clone, Default)]
struct Sub { name: String, ports: Vec<String>, params: Vec<(String, String, f64)>, body: Vec<Item> }

#[derive(Clone, Debug, PartialEq)]
struct Flat { kind: char, name: String, nets: Vec<String>, vals: Vec<f64> }

fn lit(r: &mut Rng, positive: bool) -> (String, f64) {
    let sg = if positive || r.chance(2, 3) { "" } else { "-" };
    let (a, b) = (r.range(1, 999), r.range(1, 99));
    let (body, e): (String, i32) = match r.below(3) { 0 => (format!("{}", a), 0), 1 => (format!("{}.{:02}", a % 100 + 1, b), 0), _ => (format!("{}e{}", a, r.range(-4, 4)), 1) };
    let (sfx, m) = if e == 1 { ("", 1.0) } else { *r.pick(&[("", 1.0), ("k", 1e3), ("m", 1e-3), ("u", 1e-6), ("n", 1e-9), ("p", 1e-12), ("kOhm", 1e3), ("uF", 1e-6)]) };
    let v = format!("{}{}", sg, body).parse::<f64>().unwrap() * m;
    (format!("{}{}{}", sg, body, sfx), v)
}

const PNAMES: [&str; 4] = ["p", "q", "val", "p1"];

/// names that are easily taken for one another
fn family(r: &mut Rng, n: usize, stems: &[&str], more: &[char]) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    while out.len() < n {
        let mut s = if out.is_empty() || r.chance(1, 2) { r.pick(stems).to_string() } else {
            let o = r.pick(&out).clone();
            match r.below(14) {
                0 => o + "1",
                1 => o + "0",
                2 => o + "0001",
                3 => format!("0{}", o),
                4 => format!("x{}", o),
                5 => o.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
                6 => { let mut c: Vec<char> = o.chars().collect(); c[0] = c[0].to_ascii_uppercase(); c.into_iter().collect() }
                7 => format!("{}{}", o, o),
                8 => o[..o.len() - 1].to_string(),
                9 => o.chars().rev().collect(),
                10 => o + "gnd",
                11 => format!("{}{}", o, "y".repeat(r.below(40))),
                12 if !more.is_empty() => format!("{}{}", o, r.pick(more)),
                13 if !more.is_empty() => format!("{}{}", r.pick(more), o),
                _ => o + "a",
            }
        };
        if s.len() > 60 { s.truncate(60); }
        if s.is_empty() || is_gnd(&s) || out.contains(&s) { continue; }
        out.push(s);
    }
    out
}
const STEMS: [&str; 14] = ["a", "b", "n1", "n11", "out", "in_", "1", "2", "11", "q", "Gnd", "00", "vdd", "e1"];

fn gen_body(r: &mut Rng, subs: &[Sub], me: usize, ports: &[String], params: &[String], o: &Opts) -> Vec<Item> {
    let mut nets: Vec<String> = ports.to_vec();
    for _ in 0..r.below(if o.prims > 9 { 20 } else { 4 }) { let n = r.pick(&o.nets).to_string(); if !nets.contains(&n) { nets.push(n); } }
    if nets.is_empty() { nets.push("a".into()); }
    let mut items = vec![];
    let mut pick = |r: &mut Rng| if r.chance(1, 5) { r.pick(&["0", "gnd", "GND"]).to_string() } else { r.pick(&nets).clone() };
    let mut k = 0;
    let val = |r: &mut Rng, pos: bool| if !params.is_empty() && r.chance(1, 2) { Val::Id(r.pick(params).clone()) } else { let (t, v) = lit(r, pos); Val::Lit(t, v) };
    // every net is visible through one element at least
    for n in nets.clone() { items.push(Item::Prim(format!("R{}", k), vec![n, pick(r)], vec![val(r, true)])); k += 1; }
    for _ in 0..r.below(o.prims + 1) {
        k += 1;
        match r.below(5) {
            0 => items.push(Item::Prim(format!("R{}", k), vec![pick(r), pick(r)], vec![val(r, true)])),
            1 => items.push(Item::Prim(format!("C{}x", k), vec![pick(r), pick(r)], vec![val(r, true)])),
            2 => items.push(Item::Prim(format!("D{}", k), vec![pick(r), pick(r)], vec![])),
            3 => items.push(Item::Prim(format!("E{}", k), vec![pick(r), pick(r), pick(r), pick(r)], vec![val(r, false)])),
            _ => items.push(Item::Prim(format!("G{}", k), vec![pick(r), pick(r), pick(r), pick(r)], vec![val(r, false)])),
        }
    }
    for _ in 0..r.below(o.srcs + 1) {
        k += 1;
        let nets = vec![pick(r), pick(r)];
        match r.below(5) {
            0 => items.push(Item::Src(format!("I{}", k), nets, 'I', vec![lit(r, false)], None, None)),
            1 => items.push(Item::Src(format!("V{}", k), nets, 'V', vec![lit(r, false)], None, None)),
            2 => items.push(Item::Src(format!("I{}s", k), nets, 's', { let pos = r.chance(5, 6); vec![lit(r, false), lit(r, false), lit(r, pos)] }, None, None)),
            3 => items.push(Item::Src(format!("V{}s", k), nets, 'S', { let pos = r.chance(5, 6); vec![lit(r, false), lit(r, false), lit(r, pos)] }, None, None)),
            _ => {
                let mut v = vec![];
                for _ in 0..1 + r.below(4) { let pos = r.chance(5, 6); v.push(lit(r, pos)); v.push(lit(r, false)); }
                let pos = r.chance(3, 4);
                let td = if r.chance(1, 3) { Some(lit(r, pos)) } else { None };
                let rp = if r.chance(1, 3) { Some(if r.chance(1, 2) { ("0".to_string(), 0.0) } else { lit(r, pos) }) } else { None };
                items.push(Item::Src(format!("V{}p", k), nets, 'P', v, td, rp));
            }
        }
    }
    let callees: Vec<usize> = (0..subs.len()).filter(|&j| j > me && (!o.chain || j == me + 1)).collect();
    if !callees.is_empty() {
        for _ in 0..if o.chain { 1 + r.below(2) / (me + 1) } else { r.below(o.insts + 1) } {
            k += 1;
            let j = *r.pick(&callees);
            let s = &subs[j];
            let np = if o.unconnected && r.chance(1, 6) { r.below(s.ports.len() + 1) } else { s.ports.len() };
            let conns = (0..np).map(|_| pick(r)).collect();
            let mut ov = vec![];
            for p in &s.params { if r.chance(1, 2) { ov.push((p.0.clone(), val(r, true))); } }
            r.shuffle(&mut ov);
            items.push(Item::Inst(format!("X{}{}", r.pick(&["", "a", "1"]), k), j, conns, ov));
        }
    }
    r.shuffle(&mut items);
    // names stay unique
    let mut seen = HashMap::new();
    for (i, it) in items.iter_mut().enumerate() {
        let n = match it { Item::Prim(n, ..) | Item::Src(n, ..) | Item::Inst(n, ..) => n };
        if seen.insert(n.clone(), ()).is_some() { *n = format!("{}_{}", n, i); }
    }
    items
}

#[derive(Clone)]
struct Opts { subs: usize, prims: usize, srcs: usize, insts: usize, unconnected: bool, chain: bool, nets: Vec<String> }
fn opts(subs: usize, prims: usize, srcs: usize, insts: usize, unconnected: bool) -> Opts { Opts { subs, prims, srcs, insts, unconnected, chain: false, nets: vec![] } }

/// subs[0] is the top level
fn gen(r: &mut Rng, o: &Opts) -> Vec<Sub> {
    let mut o = o.clone();
    let n = if o.subs == 0 { 0 } else if r.chance(1, 10) { o.chain = true; 4 + r.below(6) } else { r.below(o.subs + 1) };
    if r.chance(1, 12) { o.prims = 30; o.srcs *= 3; }
    o.nets = family(r, 10, &STEMS, &['_']);
    if o.prims > 9 { o.nets = family(r, 40, &STEMS, &['_']); }
    let o = &o;
    let names = family(r, n.max(1), &["sub", "sub1", "amp", "rc_load", "1", "inv"], &['_', '-', '+', '#', '/', ':', '!', ',', '*', '(']);
    let pnames = if r.chance(1, 2) { family(r, 4, &["p", "q", "val", "p1", "1"], &[]) } else { PNAMES.iter().map(|s| s.to_string()).collect() };
    let mut subs: Vec<Sub> = vec![Sub::default(); n + 1];
    for i in 1..=n {
        subs[i].name = names[i - 1].to_string();
        let mut pool: Vec<String> = o.nets.clone();
        r.shuffle(&mut pool);
        subs[i].ports = pool[..1 + r.below(4)].iter().map(|s| s.to_string()).collect();
        let mut pp: Vec<String> = pnames.clone();
        r.shuffle(&mut pp);
        subs[i].params = pp[..r.below(4)].iter().map(|s| { let (t, v) = lit(r, true); (s.to_string(), t, v) }).collect();
    }
    for i in (0..=n).rev() {
        let (ports, params): (Vec<String>, Vec<String>) = (subs[i].ports.clone(), subs[i].params.iter().map(|p| p.0.clone()).collect());
        let me = i;
        let view: Vec<Sub> = subs.clone();
        subs[i].body = gen_body(r, &view, me, &ports, &params, o);
    }
    subs
}

fn src_tokens(it: &Item, noisy: bool, r: &mut Rng) -> Vec<String> {
    if let Item::Src(n, nets, k, v, td, rp) = it {
        let mut t = vec![n.clone(), nets[0].clone(), nets[1].clone()];
        match k {
            'I' | 'V' => t.push(v[0].0.clone()),
            's' | 'S' => match if noisy { r.below(3) } else { 0 } {
                0 => { t.push(format!("SIN({}", v[0].0)); t.push(v[1].0.clone()); t.push(format!("{})", v[2].0)); }
                1 => { t.push("SIN(".into()); for x in v { t.push(x.0.clone()); } t.push(")".into()); }
                _ => { t.push(format!("SIN({}", v[0].0)); t.push(v[1].0.clone()); t.push(v[2].0.clone()); t.push(")".into()); }
            },
            _ => {
                let parts: Vec<String> = v.chunks(2).map(|c| if noisy && r.chance(1, 2) { format!("{}, {}", c[0].0, c[1].0) } else { format!("{},{}", c[0].0, c[1].0) }).collect();
                let s = format!("PWL( {} )", parts.join(", "));
                for w in s.split_whitespace() { t.push(w.to_string()); }
                let mut ps = vec![];
                if let Some(x) = td { ps.push(format!("td={}", x.0)); }
                if let Some(x) = rp { ps.push(format!("r={}", x.0)); }
                if noisy && r.chance(1, 2) { ps.reverse(); }
                t.extend(ps);
            }
        }
        return t;
    }
    vec![]
}

fn tokens(it: &Item, subs: &[Sub], noisy: bool, r: &mut Rng) -> Vec<String> {
    match it {
        Item::Prim(n, nets, v) => {
            let mut t = vec![n.clone()];
            t.extend(nets.clone());
            t.extend(v.iter().map(|x| x.txt()));
            if v.is_empty() && r.chance(1, 3) { t.push("dmodel".into()); }
            t
        }
        Item::Src(..) => src_tokens(it, noisy, r),
        Item::Inst(n, j, conns, ov) => {
            let mut t = vec![n.clone()];
            t.extend(conns.clone());
            t.push(subs[*j].name.clone());
            t.extend(ov.iter().map(|(p, v)| format!("{}={}", p, v.txt())));
            t
        }
    }
}

fn line(t: &[String], noisy: bool, r: &mut Rng) -> String {
    if !noisy { return t.join(" "); }
    let mut s = (0..r.below(3)).map(|_| *r.pick(&[' ', '\t'])).collect::<String>();
    for (i, x) in t.iter().enumerate() {
        if i > 0 { for _ in 0..1 + r.below(2) { s.push(*r.pick(&[' ', ' ', '\t'])); } }
        s += x;
    }
    match r.below(8) {
        0 => s += " ; R99 a b 5k",
        1 => s += ";comment",
        2 => s += "   ",
        3 => s += " ;",
        4 => s += " ; one ; two",
        _ => {}
    }
    s
}

fn noise(r: &mut Rng) -> Option<String> {
    match r.below(12) {
        0 => Some(String::new()),
        1 => Some("* R77 a b 1k".into()),
        2 => Some("*R77 a b 1k".into()),
        3 => Some("  \t ".into()),
        4 => Some("  * V1 a b 3".into()),
        5 => Some("; R77 a b 1k".into()),
        6 => Some("   ;.ends".into()),
        _ => None,
    }
}

fn deck(subs: &[Sub], noisy: bool, r: &mut Rng) -> String {
    let mut blocks: Vec<Vec<String>> = vec![];
    for s in &subs[1..] {
        let mut b = vec![];
        let mut h = vec![".subckt".to_string(), s.name.clone()];
        // ports keep their order; parameters may stand anywhere among them
        let (mut ports, mut params) = (s.ports.iter().cloned().collect::<std::collections::VecDeque<_>>(), s.params.iter().map(|p| format!("{}={}", p.0, p.1)).collect::<std::collections::VecDeque<_>>());
        let mix = noisy && r.chance(1, 2);
        while !ports.is_empty() || !params.is_empty() {
            let take_param = ports.is_empty() || mix && !params.is_empty() && r.chance(1, 2);
            h.extend(if take_param { params.pop_front() } else { ports.pop_front() });
        }
        b.push(line(&h, noisy, r));
        for it in &s.body { let t = tokens(it, subs, noisy, r); b.push(line(&t, noisy, r)); }
        b.push(line(&[".ends".to_string()], noisy, r));
        blocks.push(b);
    }
    for it in &subs[0].body { let t = tokens(it, subs, noisy, r); blocks.push(vec![line(&t, noisy, r)]); }
    // definitions and uses in any order, the order among the top-level items kept
    let nsub = subs.len() - 1;
    let mut order: Vec<usize> = (nsub..blocks.len()).collect();
    for k in 0..nsub { let at = r.below(order.len() + 1); order.insert(at, k); }
    let mut out = vec![if noisy { r.pick(&["R1 a b 1k", "title", ".control", "Xbad", ""]).to_string() } else { "title".into() }];
    for k in order {
        for l in &blocks[k] {
            if noisy { if let Some(n) = noise(r) { out.push(n); } }
            out.push(l.clone());
        }
    }
    let mut s = out.join(if noisy && r.chance(1, 6) { "\r\n" } else { "\n" });
    if !noisy || r.chance(1, 2) { s.push('\n'); }
    s
}

fn is_gnd(n: &str) -> bool { n == "0" || n == "gnd" || n == "GND" }

fn flatten(subs: &[Sub], i: usize, path: &[String], ports: &BTreeMap<String, String>, params: &BTreeMap<String, f64>, out: &mut Vec<Flat>, pv: &mut BTreeMap<String, f64>) {
    let full = |n: &str| { let mut p = path.to_vec(); p.push(n.to_string()); p.join(".") };
    let net = |n: &String| if is_gnd(n) { "0".to_string() } else if let Some(x) = ports.get(n) { x.clone() } else { full(n) };
    let val = |v: &Val| match v { Val::Lit(_, x) => *x, Val::Id(n) => params[n] };
    for it in &subs[i].body {
        match it {
            Item::Prim(n, nets, v) => out.push(Flat { kind: n.chars().next().unwrap(), name: full(n), nets: nets.iter().map(net).collect(), vals: v.iter().map(val).collect() }),
            Item::Src(_, nets, k, v, td, rp) => {
                let mut vals: Vec<f64> = v.iter().map(|x| x.1).collect();
                if *k == 'P' { vals.push(td.as_ref().map_or(0.0, |x| x.1)); vals.push(rp.as_ref().map_or(-1.0, |x| x.1)); }
                out.push(Flat { kind: *k, name: String::new(), nets: nets.iter().map(net).collect(), vals })
            }
            Item::Inst(n, j, conns, ov) => {
                let s = &subs[*j];
                let mut p2 = path.to_vec();
                p2.push(n.clone());
                let m: BTreeMap<String, String> = s.ports.iter().cloned().zip(conns.iter().map(net)).collect();
                let mut pm = BTreeMap::new();
                for (pn, _, d) in &s.params {
                    let v = ov.iter().find(|o| o.0 == *pn).map_or(*d, |o| val(&o.1));
                    pm.insert(pn.clone(), v);
                    pv.insert(format!("{}.{}", p2.join("."), pn), v);
                }
                flatten(subs, *j, &p2, &m, &pm, out, pv);
            }
        }
    }
}

struct Got { kind: char, name: String, nets: Vec<usize>, vals: Vec<f64> }
fn got(e: &Element) -> Got {
    let g = |kind, name: &str, nets: &[usize], vals: &[f64]| Got { kind, name: name.to_string(), nets: nets.to_vec(), vals: vals.to_vec() };
    match e {
        Element::R(x) => g('R', &x.ident, &[x.a, x.b], &[x.value]),
        Element::C(x) => g('C', &x.ident, &[x.a, x.b], &[x.value]),
        Element::D(x) => g('D', &x.ident, &[x.p, x.n], &[]),
        Element::Vcvs(x) => g('E', &x.ident, &[x.p, x.n, x.cp, x.cn], &[x.k]),
        Element::Vccs(x) => g('G', &x.ident, &[x.p, x.n, x.cp, x.cn], &[x.k]),
        Element::I(x) => g('I', "", &[x.p, x.n], &[x.value]),
        Element::V(x) => g('V', "", &[x.p, x.n], &[x.value]),
        Element::Isin(x) => g('s', "", &[x.p, x.n], &[x.vo, x.va, x.freq]),
        Element::Vsin(x) => g('S', "", &[x.p, x.n], &[x.vo, x.va, x.freq]),
        Element::Vpwl(x) => { let mut v: Vec<f64> = x.pat.iter().flat_map(|p| [p.0, p.1]).collect(); v.push(x.t_delay); v.push(x.repeat); g('P', "", &[x.p, x.n], &v) }
    }
}
fn same(a: &[f64], b: &[f64]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| near(*x, *y, 1e-14, 0.0)) }

/// topology: which elements, names and nets. values: literals and parameters.
fn compare(ckt: &Circuit, want: &[Flat], topology: bool, values: bool) -> Result<(), String> {
    let mut g: Vec<Got> = ckt.elements.iter().map(got).collect();
    let mut m: HashMap<String, usize> = HashMap::new();
    m.insert("0".into(), 0);
    let mut back: HashMap<usize, String> = HashMap::new();
    back.insert(0, "0".into());
    if topology && g.len() != want.len() { return Err(format!("{} elements in the flattened circuit instead of {}", g.len(), want.len())); }
    // named elements first: they show where every net is
    for w in want.iter().filter(|w| !w.name.is_empty()) {
        let hits: Vec<usize> = (0..g.len()).filter(|&i| g[i].name == w.name && g[i].kind == w.kind).collect();
        if hits.len() != 1 { if topology { return Err(format!("{} copies of element {}", hits.len(), w.name)); } else { continue; } }
        let e = g.remove(hits[0]);
        if topology {
            if e.nets.len() != w.nets.len() { return Err(format!("element {} has {} terminals", w.name, e.nets.len())); }
            for (id, n) in e.nets.iter().zip(&w.nets) {
                if *m.entry(n.clone()).or_insert(*id) != *id || *back.entry(*id).or_insert(n.clone()) != *n {
                    return Err(format!("element {}: terminal on net {} is connected to node {} ({:?}), which is net {:?}; that net is node {:?}", w.name, n, id, ckt.node_id_lut.get(id), back.get(id), m.get(n)));
                }
            }
        }
        if values && !same(&e.vals, &w.vals) { return Err(format!("element {} has value {:?} instead of {:?}", w.name, e.vals, w.vals)); }
    }
    for w in want.iter().filter(|w| w.name.is_empty()) {
        let hit = (0..g.len()).find(|&i| g[i].kind == w.kind && same(&g[i].vals, &w.vals) && (!topology || g[i].nets.iter().zip(&w.nets).all(|(id, n)| m.get(n) == Some(id))));
        match hit { Some(i) => { g.remove(i); } None => return Err(format!("no {} source {:?} between {:?} in the circuit; there are {:?}", w.kind, w.vals, w.nets.iter().map(|n| (n, m.get(n))).collect::<Vec<_>>(), g.iter().map(|e| format!("{} {:?} {:?}", e.kind, e.nets, e.vals)).collect::<Vec<_>>())) }
    }
    if topology { if let Some(e) = g.first() { return Err(format!("extra element {} {:?}", e.kind, e.name)); } }
    Ok(())
}

fn read(dir: &str, file: &str, text: &str) -> (Reader, bool) {
    std::fs::create_dir_all(dir).unwrap();
    let p = Path::new(dir).join(file);
    std::fs::write(&p, text).unwrap();
    let mut rd = Reader::new();
    let e = rd.read(&p);
    (rd, e)
}

fn all_flat(subs: &[Sub]) -> (Vec<Flat>, BTreeMap<String, f64>) {
    let (mut out, mut pv) = (vec![], BTreeMap::new());
    flatten(subs, 0, &[], &BTreeMap::new(), &BTreeMap::new(), &mut out, &mut pv);
    (out, pv)
}

/// every instance is reachable and expansion does not blow up
fn pick_deck(r: &mut Rng, o: &Opts) -> (Vec<Sub>, Vec<Flat>, BTreeMap<String, f64>) {
    loop {
        let s = gen(r, o);
        let (f, p) = all_flat(&s);
        if f.len() < 400 { return (s, f, p); }
    }
}

pub fn c10(c: &mut Ctx) -> Result<(), String> {
    let r = &mut c.r;
    let o = opts(4, 3, 2, 3, true);
    let (mut subs, _, _) = pick_deck(r, &o);
    if r.chance(1, 8) {
        // a reference to a subcircuit that is not there
        let name = r.pick(&["nosuch", "su", "sub12", "SUB", "amp1", ""]).to_string();
        if name.is_empty() || subs.iter().any(|s| s.name == name) { return Ok(()); }
        subs.push(Sub { name, ports: vec!["a".into()], ..Default::default() });
        let j = subs.len() - 1;
        // inside something that is used, or at the top
        let used: Vec<usize> = std::iter::once(0).chain(subs[0].body.iter().filter_map(|i| if let Item::Inst(_, j, ..) = i { Some(*j) } else { None })).collect();
        let host = *r.pick(&used);
        subs[host].body.push(Item::Inst("Xundef".into(), j, vec!["a".into()], vec![]));
        let mut text = deck(&subs, false, r);
        let start = text.find(&format!(".subckt {} a\n", subs[j].name)).unwrap();
        let end = start + text[start..].find(".ends\n").unwrap() + 6;
        text.replace_range(start..end, "");
        desc(text.clone());
        let res = guarded(|| { let (rd, e) = read("d", "c10.spi", &text); if e { return None; } Some(rd.get_expanded_circuit().elements.len()) });
        if let Some(Some(n)) = res { return Err(format!("a reference to an undefined subcircuit is accepted ({} elements)", n)); }
        return Ok(());
    }
    let text = deck(&subs, false, r);
    desc(text.clone());
    let (f, _) = all_flat(&subs);
    c.nontrivial = f.iter().any(|x| x.name.matches('.').count() >= 1);
    let (rd, e) = read("d", "c10.spi", &text);
    if e { return Err("deck errors reported for a correct deck".into()); }
    let k = rd.get_expanded_circuit();
    compare(&k, &f, true, false)?;
    let k2 = rd.get_expanded_circuit();
    compare(&k2, &f, true, false).map_err(|e| format!("second expansion of the same circuits: {}", e))?;
    if k2.elements.len() != k.elements.len() || k2.params.len() != k.params.len() || k2.nodes.len() != k.nodes.len() { return Err("second expansion of the same circuits differs".into()); }
    Ok(())
}

pub fn c11(c: &mut Ctx) -> Result<(), String> {
    let r = &mut c.r;
    let o = opts(4, 3, 0, 3, false);
    let (mut subs, f, pv) = pick_deck(r, &o);
    if r.chance(1, 5) {
        // a value nobody defines, in the top level or in a subcircuit that is used
        let used: Vec<usize> = std::iter::once(0).chain(subs[0].body.iter().filter_map(|i| if let Item::Inst(_, j, ..) = i { Some(*j) } else { None })).collect();
        let host = *r.pick(&used);
        let cand: Vec<String> = PNAMES.iter().map(|s| s.to_string()).filter(|p| !subs[host].params.iter().any(|q| q.0 == *p)).collect();
        if cand.is_empty() { return Ok(()); }
        let id = r.pick(&cand).clone();
        let it = match r.below(5) {
            0 => Item::Prim("Rundef".into(), vec!["a".into(), "0".into()], vec![Val::Id(id)]),
            1 => Item::Prim("Cundef".into(), vec!["a".into(), "0".into()], vec![Val::Id(id)]),
            2 => Item::Prim("Eundef".into(), vec!["a".into(), "0".into(), "a".into(), "0".into()], vec![Val::Id(id)]),
            3 => Item::Prim("Gundef".into(), vec!["a".into(), "0".into(), "a".into(), "0".into()], vec![Val::Id(id)]),
            _ => {
                let callee: Vec<usize> = (host + 1..subs.len()).filter(|&j| !subs[j].params.is_empty()).collect();
                if callee.is_empty() { return Ok(()); }
                let j = *r.pick(&callee);
                let p = subs[j].params[0].0.clone();
                let conns = subs[j].ports.clone();
                Item::Inst("Xundef".into(), j, conns, vec![(p, Val::Id(id))])
            }
        };
        subs[host].body.push(it);
        let text = deck(&subs, false, r);
        desc(text.clone());
        let res = guarded(|| { let (rd, e) = read("d", "c11.spi", &text); if e { return None; } Some(rd.get_expanded_circuit()) });
        if let Some(Some(k)) = res {
            let l: Vec<String> = k.elements.iter().map(got).filter(|g| g.name.contains("undef")).map(|g| format!("{} = {:?}", g.name, g.vals)).collect();
            return Err(format!("an identifier that is not a parameter of its scope is accepted: {:?}", l));
        }
        c.nontrivial = true;
        return Ok(());
    }
    let text = deck(&subs, false, r);
    desc(text.clone());
    c.nontrivial = pv.len() > 1;
    let (rd, e) = read("d", "c11.spi", &text);
    if e { return Err("deck errors reported for a correct deck".into()); }
    let k = rd.get_expanded_circuit();
    compare(&k, &f, false, true)?;
    for w in &f { if !w.name.is_empty() && !k.elements.iter().map(got).any(|g| g.name == w.name) { return Err(format!("element {} is missing", w.name)); } }
    for (n, v) in &pv {
        match k.get_param_value(n) {
            Some(x) if near(x, *v, 1e-14, 0.0) => {}
            x => return Err(format!("parameter {} is {:?} instead of {:e}", n, x, v)),
        }
    }
    Ok(())
}

pub fn c09_deck(c: &mut Ctx) -> Result<(), String> {
    let r = &mut c.r;
    let o = opts(3, 4, 4, 3, false);
    let (subs, f, _) = pick_deck(r, &o);
    let text = deck(&subs, false, r);
    desc(text.clone());
    let (rd, _) = read("d", "c09.spi", &text);
    let k = rd.get_expanded_circuit();
    let nb = f.iter().filter(|x| matches!(x.kind, 'V' | 'S' | 'P' | 'E')).count();
    c.nontrivial = nb > 1;
    if k.count_voltage_sources() != nb { return Err(format!("{} branches counted, the deck has {}", k.count_voltage_sources(), nb)); }
    let mut ix = branch_indices(&k);
    ix.sort();
    if ix != (0..nb).collect::<Vec<_>>() { return Err(format!("branch indices are {:?}", ix)); }
    let max = k.elements.iter().flat_map(|e| got(e).nets).max().unwrap_or(0);
    if k.count_nodes() != max + 1 { return Err(format!("{} nodes counted, highest index used is {}", k.count_nodes(), max)); }
    Ok(())
}

pub fn c17_names(c: &mut Ctx) -> Result<(), String> {
    let r = &mut c.r;
    let o = opts(3, 1, 1, 3, false);
    let (subs, _, _) = pick_deck(r, &o);
    let text = deck(&subs, false, r);
    desc(text.clone());
    let mut first: Option<(BTreeMap<usize, String>, Vec<String>)> = None;
    for _ in 0..4 {
        let (rd, _) = read("d", "c17.spi", &text);
        let k = rd.get_expanded_circuit();
        let l: BTreeMap<usize, String> = k.node_id_lut.iter().map(|(a, b)| (*a, b.clone())).collect();
        let e: Vec<String> = k.elements.iter().map(|e| e.to_string()).collect();
        match &first {
            None => first = Some((l, e)),
            Some(f) => {
                if f.0 != l { return Err(format!("node names of the same deck read twice: {:?} and {:?}", f.0, l)); }
                if f.1 != e { return Err("the same deck read twice gives different elements".into()); }
            }
        }
    }
    Ok(())
}

pub fn c13(c: &mut Ctx) -> Result<(), String> {
    let r = &mut c.r;
    let o = opts(*r.pick(&[0, 1, 2]), 6, 6, 2, false);
    let (subs, f, _) = pick_deck(r, &o);
    let mut text = deck(&subs, true, r);
    if r.chance(1, 3) {
        // one line that can't be used
        let bad = *r.pick(&["R1bad a", "R1bad a b", "R1bad a b zz", "R1bad a! b 1k", "R1bad a b {", "C1bad a b", "C1bad a b F", "D1bad a", "D1bad", "E1bad a b c d", "E1bad a b 2", "G1bad a b c", "G1bad a b c d x",
            "V1bad a", "V1bad a b", "V1bad a b volts", "V1bad a b 1 2 3", "V1bad a-b c 1", "V1bad a b SIN(0 1", "V1bad a b SIN(0 1 x)", "V1bad a b PWL(1, 2, 3 )", "V1bad a b PWL( x,1, 2,2 )", "V1bad a b PWL( 0,1, 2,2 ) r={p}", "V1bad a b PWL( 0,1, 2,2 ) td=late",
            "I1bad a", "I1bad a b", "I1bad a b amps", "I1bad a b 1 2", "I1bad a+ b 1", "I1bad a b SIN(0 1", "I1bad a b SIN(0 y 1)", "Qbad a b c", "Lbad a b 1u", "abc", "1bad", ".ends", ".frob", ".subckt s a p=", ".subckt s a p=1=2", "M1 d g s b nmos"]);
        let lines: Vec<&str> = text.lines().collect();
        let at = if bad == ".ends" { 1 } else { lines.len() };
        let mut ls: Vec<String> = lines.iter().map(|s| s.to_string()).collect();
        ls.insert(at.max(1), bad.to_string());
        text = ls.join("\n") + "\n";
        desc(text.clone());
        c.nontrivial = true;
        let res = guarded(|| { let (rd, e) = read("d", "c13.spi", &text); if e { return None; } Some(rd.get_expanded_circuit()) });
        return match res { Some(Some(_)) => Err(format!("the line '{}' is accepted or dropped without an error", bad)), _ => Ok(()) };
    }
    desc(text.clone());
    c.nontrivial = f.len() > 2;
    let (rd, e) = read("d", "c13.spi", &text);
    if e { return Err("deck errors reported for a correct deck".into()); }
    let k = rd.get_expanded_circuit();
    compare(&k, &f, true, true)
}

fn show(c: &Configuration) -> String {
    format!("GMIN {:?} TDEGC {:?} RELTOL {:?} VNTOL {:?} ABSTOL {:?} ITL1 {:?} TSTART {:?} TSTOP {:?} TSTEP {:?} FS {:?} FT {:?} RMIN {:?}", c.GMIN, c.TDEGC, c.RELTOL, c.VNTOL, c.ABSTOL, c.ITL1, c.TSTART, c.TSTOP, c.TSTEP, c.FS, c.FT, c.RMIN)
        + &format!(" RMAX {:?} ITL3 {:?} ITL4 {:?} analysis {}", c.RMAX, c.ITL3, c.ITL4, c.kind.as_ref().map_or("none".into(), |k| k.to_string()))
}

/// what may follow a complete control line and is of no consequence
fn extra(r: &mut Rng) -> String { r.pick(&["", "", "", "", " ; tran 1 2", "   ", " 7", " uic", " 3u uic", " 5 6 ; x"]).to_string() }

pub fn c14(c: &mut Ctx) -> Result<(), String> {
    let r = &mut c.r;
    let mut w = Configuration::new();
    // the documented defaults, spelled out
    let d = "GMIN 1e-12 TDEGC 27.0 RELTOL 0.0001 VNTOL 1e-6 ABSTOL 1e-9 ITL1 50 TSTART 0.0 TSTOP 0.001 TSTEP 1e-6 FS 0.25 FT 0.25 RMIN 0.001 RMAX 5.0 ITL3 6 ITL4 50 analysis none";
    desc("Configuration::new()".into());
    if show(&w) != d { return Err(format!("defaults are {} instead of {}", show(&w), d)); }
    let body = ["V1 a 0 1", "R1 a b 1k", "R2 b 0 1k", "C1 b 0 1u"];
    let mut text = String::from("title\n");
    let nblocks = r.below(3);
    let at: Vec<usize> = { let mut v: Vec<usize> = (0..nblocks).map(|_| r.below(5)).collect(); v.sort(); v };
    let mut blk = 0;
    for i in 0..=body.len() {
        while blk < nblocks && at[blk] == i {
            text += ".control\n";
            for _ in 0..r.below(6) {
                match r.below(12) {
                    0 | 1 => { text += &format!("op{}\n", extra(r)); w.kind = Some(Kind::DcOperatingPoint); }
                    2 | 3 => {
                        let (a, b, s) = (lit(r, true), lit(r, true), lit(r, true));
                        let three = r.chance(1, 2);
                        let x = if three { extra(r) } else { String::new() };
                        let (s0, s1) = (*r.pick(&["", " ", "\t"]), *r.pick(&[" ", "  ", "\t"]));
                        text += &format!("{}tran{}{} {}{}{}\n", s0, s1, a.0, b.0, if three { format!(" {}", s.0) } else { String::new() }, x);
                        w.kind = Some(Kind::Transient);
                        w.TSTEP = a.1;
                        w.TSTOP = b.1;
                        if three { w.TSTART = s.1; }
                    }
                    4 | 5 | 6 | 7 => {
                        let v = lit(r, true);
                        let n = *r.pick(&["ABSTOL", "RELTOL", "RMAX"]);
                        let x = extra(r);
                        text += &format!("option {} = {}{}\n", n, v.0, x);
                        match n { "ABSTOL" => w.ABSTOL = v.1, "RELTOL" => w.RELTOL = v.1, _ => w.RMAX = v.1 }
                    }
                    8 => { let v = lit(r, true); text += &format!("option {} = {}\n", r.pick(&["ABSTOLX", "abstol", "reltol", "rmax", "Reltol", "RMaX", "RMA", "NOSUCH", "abstol_", "REL"]), v.0); }
                    9 => text += r.pick(&["option\n", "plot v(1)\n", "option ABSTOL 3\n", "option RELTOL =\n", "run\n"]),
                    10 => text += r.pick(&["R1 a b 47k\n", "V9 a 0 3\n", "Xfoo a b c\n", ".subckt s a b\n", ".ends\n", ".endl x\n", ".endcontrol\n", ".param k=3\n"]),
                    _ => text += r.pick(&["* op\n", "; tran 1 2\n", "\n"]),
                }
            }
            text += ".endc\n";
            blk += 1;
        }
        if i < body.len() { text += body[i]; text.push('\n'); }
    }
    desc(text.clone());
    c.nontrivial = nblocks > 0;
    let (rd, e) = read("d", "c14.spi", &text);
    if e { return Err("deck errors reported for a correct deck".into()); }
    let g = rd.configuration();
    let k = rd.get_expanded_circuit();
    if k.elements.len() != 4 { return Err(format!("{} elements instead of 4", k.elements.len())); }
    // numbers may differ in the last place
    let f = |c: &Configuration| vec![c.GMIN, c.TDEGC, c.RELTOL, c.VNTOL, c.ABSTOL, c.ITL1 as f64, c.TSTART, c.TSTOP, c.TSTEP, c.FS, c.FT, c.RMIN, c.RMAX, c.ITL3 as f64, c.ITL4 as f64];
    let kd = |c: &Configuration| c.kind.as_ref().map_or("none".to_string(), |k| k.to_string());
    if !f(g).iter().zip(&f(&w)).all(|(a, b)| near(*a, *b, 1e-14, 0.0)) || kd(g) != kd(&w) { return Err(format!("settings are {} instead of {}", show(g), show(&w))); }
    // dispatch
    let mut cfg = g.clone();
    cfg.wavefile = "w/c14.dat".into();
    cfg.TSTEP = 1.0;
    cfg.TSTOP = 4.0;
    cfg.TSTART = 0.0;
    cfg.RELTOL = 1e-4; cfg.ABSTOL = 1e-9; cfg.RMAX = 5.0;
    if r.chance(1, 5) { cfg.kind = Some(Kind::DcSweep); }
    let _ = std::fs::remove_file("w/c14.dat");
    let mut en = Engine::new();
    let res = en.go(&k, &cfg);
    let wave = Path::new("w/c14.dat").exists();
    match (&cfg.kind, res) {
        (None, None) | (Some(Kind::DcSweep), None) => if wave { return Err("a waveform file for an analysis that is not run".into()); },
        (Some(Kind::DcOperatingPoint), Some(s)) => if !matches!(s.kind, Kind::DcOperatingPoint) || wave { return Err(format!("op runs {}", s.kind)); },
        (Some(Kind::Transient), Some(s)) => if !matches!(s.kind, Kind::Transient) || !wave || s.end != 4.0 { return Err(format!("tran runs {} (ends at {})", s.kind, s.end)); },
        (k, s) => return Err(format!("analysis {} gives {}", k.as_ref().map_or("none".into(), |k| k.to_string()), s.map_or("nothing".into(), |s| s.to_string()))),
    }
    Ok(())
}

fn dump(k: &Circuit) -> Vec<String> {
    let mut v: Vec<String> = k.elements.iter().map(|e| { let g = got(e); format!("{} {} {:?} {:?}", g.kind, g.name, g.nets.iter().map(|n| k.node_id_lut.get(n).cloned()).collect::<Vec<_>>(), g.vals) }).collect();
    let mut p: Vec<String> = k.params.iter().map(|p| format!("{}={:?}", p.name, p.value)).collect();
    v.sort();
    p.sort();
    v.extend(p);
    v
}

pub fn c15(c: &mut Ctx) -> Result<(), String> {
    let r = &mut c.r;
    let names = ["TT", "TT1", "T", "tt", "SS", "FF"];
    let nsec = 1 + r.below(4);
    let mut secs: Vec<Vec<String>> = vec![];
    for k in 0..nsec {
        let mut l = vec![];
        for q in 0..1 + r.below(3) {
            let v = lit(r, true);
            match r.below(4) {
                0 | 1 => { l.push(format!(".subckt cell{}_{} a b p={}", k, q, v.0)); l.push(format!("R1 a m {}", lit(r, true).0)); l.push("R2 m b {p}".into()); if r.chance(1, 3) { l.push("* inner".into()); } l.push(".ends".into()); }
                2 => l.push(format!("R{}{} x{} gnd {}", k, q, r.below(3), v.0)),
                _ => { l.push(format!("V{}{} y{} gnd {}", k, q, r.below(3), v.0)); if r.chance(1, 3) { l.push(".control".into()); l.push(format!("option RMAX = {}", v.0)); l.push(".endc".into()); } }
            }
        }
        secs.push(l);
    }
    let junk = |r: &mut Rng| r.pick(&["R9junk x1 gnd 1", "Qgarbage here", ".endl", ".ends", ".subckt cell0_0 b a", "* .lib TT", ".lib", ".lib other.lib TT", "V8 x1 gnd 7", "", ".control"]).to_string();
    let mut lib = vec![r.pick(&[".lib TT", "title", "R0 x1 gnd 5"]).to_string()];
    let mut order: Vec<usize> = (0..nsec).collect();
    r.shuffle(&mut order);
    for &k in &order {
        for _ in 0..r.below(3) { let j = junk(r); lib.push(j); }
        lib.push(format!("{}.lib {}{}", r.pick(&["", " "]), names[k], r.pick(&["", " ; section", "  "])));
        lib.extend(secs[k].clone());
        lib.push(".endl".into());
    }
    for _ in 0..r.below(3) { let j = junk(r); lib.push(j); }
    // the importing deck, and the same deck with the lines in place
    let mut a = vec!["title".to_string(), "V1 top gnd 1".into(), "R1 top x1 1k".into()];
    let mut b = a.clone();
    let mut imported = vec![];
    let nimp = 1 + r.below(2);
    let dir = *r.pick(&["d/l", "d/l/m", "", "."]);
    let fname = *r.pick(&["cells.lib", "sub/cells.lib", "./cells.lib"]);
    let mut secs_left: Vec<usize> = (0..nsec).collect();
    r.shuffle(&mut secs_left);
    for k in secs_left.into_iter().take(nimp) {
        a.push(format!(".lib {} {}", fname, names[k]));
        b.extend(secs[k].clone());
        imported.push(k);
        let l = format!("R{}mid x{} gnd 3k", k, k % 3);
        a.push(l.clone());
        b.push(l);
    }
    for &k in &imported {
        for l in &secs[k] {
            if l.starts_with(".subckt") { let n = l.split_whitespace().nth(1).unwrap(); let x = format!("X{} top x1 {}{}", n, n, if r.chance(1, 2) { " p=9k" } else { "" }); a.push(x.clone()); b.push(x); }
        }
    }
    let libdir = Path::new(dir).join(fname);
    std::fs::create_dir_all(libdir.parent().unwrap()).unwrap();
    // decoys where the file must not be looked for
    std::fs::create_dir_all("sub").unwrap();
    std::fs::create_dir_all("d").unwrap();
    for p in ["cells.lib", "sub/cells.lib", "d/cells.lib"] { std::fs::write(p, names.iter().map(|n| format!("\n.lib {}\nRdecoy top gnd 1\n.endl\n", n)).collect::<String>()).unwrap(); }
    let (at, bt) = (a.join("\n") + "\n", b.join("\n") + "\n");
    if r.chance(1, 3) {
        // imports that have to abort
        let mut lib = lib.clone();
        let mut a = a.clone();
        let k = imported[0];
        let what = match r.below(6) {
            0 => { lib = lib.iter().enumerate().map(|(i, l)| if i > 0 && l.trim().split(';').next().unwrap().trim() == format!(".lib {}", names[k]) { format!(".lib {}9", names[k]) } else { l.clone() }).collect(); "a section that is missing" }
            1 => { let p = 1 + lib[1..].iter().position(|l| l.trim().split(';').next().unwrap().trim() == format!(".lib {}", names[k])).unwrap(); lib.truncate(p + 1 + secs[k].len()); "a section without its .endl" }
            2 => { a.push(".endl".into()); "an unexpected .endl" }
            4 => { lib.push(format!(".lib {}", names[k])); lib.push("R0again x1 gnd 5".into()); "a second section of the name without its .endl" }
            3 => { let p = 1 + lib[1..].iter().position(|l| l.trim().split(';').next().unwrap().trim() == format!(".lib {}", names[k])).unwrap(); lib.insert(p + 1, ".lib cells.lib T".into()); "a nested import" }
            _ => { a.push(".lib nofile.lib TT".into()); "a file that does not exist" }
        };
        let at = a.join("\n") + "\n";
        std::fs::write(&libdir, lib.join("\n") + "\n").unwrap();
        desc(format!("{}: deck {}:\n{}\n{}:\n{}", what, dir, at, fname, lib.join("\n")));
        c.nontrivial = true;
        if guarded(|| read(dir, "deck.spi", &at)).is_some() { return Err(format!("{} does not abort the run", what)); }
        return Ok(());
    }
    std::fs::write(&libdir, lib.join("\n") + "\n").unwrap();
    desc(format!("deck in {}:\n{}\n{}:\n{}\nsame as:\n{}", dir, at, fname, lib.join("\n"), bt));
    c.nontrivial = true;
    let (ra, ea) = read(dir, "deck.spi", &at);
    let (rb, eb) = read(dir, "plain.spi", &bt);
    if ea != eb { return Err(format!("deck errors: {} with the import, {} with the lines in place", ea, eb)); }
    if show(ra.configuration()) != show(rb.configuration()) { return Err(format!("settings are {} with the import, {} with the lines in place", show(ra.configuration()), show(rb.configuration()))); }
    let (ka, kb) = (dump(&ra.get_expanded_circuit()), dump(&rb.get_expanded_circuit()));
    if ka != kb { return Err(format!("circuit is {:?} with the import, {:?} with the lines in place", ka, kb)); }
    Ok(())
}
