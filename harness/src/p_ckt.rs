//! C08, C09 on the API
use crate::util::*;
use crate::{desc, guarded, Ctx};
use std::collections::HashMap;
use tiny_spice::circuit::*;

fn ground(n: &str) -> bool { let l = n.rsplit('.').next().unwrap(); l == "gnd" || l == "GND" || l == "0" }

pub fn c08(c: &mut Ctx) -> Result<(), String> {
    let r = &mut c.r;
    let pool = ["gnd", "GND", "0", "a", "b", "aa", "A", "00", "X1.a", "X1.b", "X1.gnd", "X1.X2.0", "X1.X2.a", "gnd.a", "0.b", "Gnd", "gnd1", "a.GND", "X2.a", "n1", ".", "", "a.", ".gnd", "1", "10"];
    let mut k = Circuit::new();
    let mut m: HashMap<String, usize> = HashMap::new();
    let mut next = 1;
    let mut log: Vec<String> = vec![];
    for _ in 0..1 + r.below(40) {
        let name = if r.chance(1, 5) { format!("n{}", r.below(6)) } else { r.pick(&pool).to_string() };
        let name = if r.chance(1, 5) {
            let x = *r.pick(&["+", "-", "_", " ", "#", "!", ":", "/", "0", "1", "x", "\t", "(", "é", "."]);
            match r.below(4) { 0 => format!("{}{}", x, name), 1 => format!("{}{}", name, x), 2 => name.repeat(1 + r.below(40)), _ => if name == name.to_lowercase() { name.to_uppercase() } else { name.to_lowercase() } }
        } else { name };
        let model = |m: &HashMap<String, usize>, n: &str| if ground(n) { Some(0) } else { m.get(n).copied() };
        match r.below(7) {
            0 | 1 | 2 => {
                log.push(format!("add_node({:?})", name));
                desc(log.join(" "));
                let id = k.add_node(&name);
                let want = model(&m, &name).unwrap_or(next);
                if model(&m, &name).is_none() { m.insert(name.clone(), next); next += 1; }
                if id != want { return Err(format!("gives node {} instead of {}", id, want)); }
            }
            3 | 4 => {
                let nid = r.below(next);
                log.push(format!("add_node_alias({:?}, {})", name, nid));
                desc(log.join(" "));
                let old = model(&m, &name);
                let res = guarded(|| k.add_node_alias(&name, nid));
                match (old, res) {
                    (Some(o), Some(())) if o != nid => return Err(format!("accepted although the name means node {}", o)),
                    (Some(o), None) if o == nid => return Err("refused although it agrees with the name".into()),
                    (None, None) => return Err("refused although the name is new".into()),
                    (None, Some(())) => { m.insert(name.clone(), nid); c.nontrivial = true; }
                    _ => {}
                }
            }
            5 => {
                log.push(format!("get_node_id({:?})", name));
                desc(log.join(" "));
                let (a, b) = (k.get_node_id(&name), model(&m, &name));
                if a != b { return Err(format!("gives {:?} instead of {:?}", a, b)); }
            }
            _ => {
                log.push("build_node_id_lut()".into());
                desc(log.join(" "));
                k.build_node_id_lut();
                for id in 0..next {
                    let n = k.node_id_lut.get(&id).ok_or(format!("node {} has no name", id))?;
                    if k.get_node_id(n) != Some(id) || model(&m, n) != Some(id) { return Err(format!("node {} is shown as {:?}, which is not one of its names", id, n)); }
                }
            }
        }
        // every name keeps its node
        for (n, id) in &m {
            if k.get_node_id(n) != Some(*id) { return Err(format!("{:?} now means {:?} instead of {}", n, k.get_node_id(n), id)); }
        }
    }
    Ok(())
}

pub fn branch_indices(k: &Circuit) -> Vec<usize> {
    k.elements.iter().filter_map(|e| match e {
        Element::V(x) => Some(x.idx),
        Element::Vsin(x) => Some(x.idx),
        Element::Vpwl(x) => Some(x.idx),
        Element::Vcvs(x) => Some(x.idx),
        _ => None,
    }).collect()
}

pub fn check_rows(k: &Circuit, els: &[E]) -> Result<(), String> {
    let max = els.iter().flat_map(|e| terminals(e)).max().unwrap_or(0);
    let nb = els.iter().filter(|e| is_branch(e)).count();
    if k.count_nodes() != max + 1 { return Err(format!("{} nodes counted, highest index used is {}", k.count_nodes(), max)); }
    if k.count_voltage_sources() != nb { return Err(format!("{} branches counted, there are {}", k.count_voltage_sources(), nb)); }
    let mut ix = branch_indices(k);
    ix.sort();
    if ix != (0..nb).collect::<Vec<_>>() { return Err(format!("branch indices are {:?}", ix)); }
    Ok(())
}

pub fn c09(c: &mut Ctx) -> Result<(), String> {
    let r = &mut c.r;
    if c.case % 2 == 1 { return crate::p_deck::c09_deck(c); }
    let top = 1 + r.below(30);
    let mut els = vec![];
    for _ in 0..r.below(12) {
        let mut n = || if r.chance(1, 4) { 0 } else { r.below(top + 1) };
        let (a, b, x, y) = (n(), n(), n(), n());
        els.push(match r.below(10) {
            0 => E::R(a, b, 1.0), 1 => E::I(a, b, 1.0), 2 => E::V(a, b, 1.0), 3 => E::D(a, b, 1e-9, 27.0), 4 => E::Isin(a, b, 0.0, 1.0, 1.0),
            5 => E::Vsin(a, b, 0.0, 1.0, 1.0), 6 => E::Vpwl(a, b, vec![(1.0, 1.0)], 0.0, -1.0), 7 => E::C(a, b, 1.0), 8 => E::E(a, b, x, y, 1.0), _ => E::G(a, b, x, y, 1.0),
        });
    }
    c.nontrivial = els.len() > 1;
    desc(format!("elements added through the API: {:?}", els));
    let tc = build(&els, r.below(top));
    check_rows(&tc.ckt, &els)
}
