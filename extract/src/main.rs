//! Mechanical extraction of functions of the crate under verification into one
//! Verus file per unit, with the unit's contracts spliced in.
//!
//! usage: extract <src-dir> <verus-dir> <unit> <out.rs> [--record]
//!
//! Every run parses the sources afresh. The text of each function is kept as it is
//! written, except for the listed rewrites (see DESIGN.md, "What extraction
//! changes"). Anything the contract file refers to that cannot be found (a lost
//! anchor) is reported on stdout as `LOST ...`; the caller then treats the unit
//! as undecided.

mod contract;
mod index;
mod normal;
mod render;

use contract::*;
use index::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::fs;
use std::path::Path;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let src = Path::new(&args[1]);
    let vdir = Path::new(&args[2]);
    let unit_name = &args[3];
    let out_path = &args[4];
    let record = args.iter().any(|a| a == "--record");

    let idx = match Index::load(src) {
        Ok(i) => i,
        Err(e) => {
            println!("LOST parse {}", e);
            std::process::exit(3);
        }
    };
    let mut unit = Unit::load(&vdir.join("units").join(format!("{}.vc", unit_name)), &vdir.join("units"));
    // reachability probes: with --probe K the K-th point of every function claims false.
    // A function in which that claim is accepted has a contradictory contract or invariant.
    let probe: Option<usize> = args.iter().position(|a| a == "--probe").map(|i| args[i + 1].parse().unwrap());
    let base_path = vdir.join("baseline").join(format!("{}.txt", unit_name));
    let baseline = Baseline::load(&base_path);
    let mut recorded = Baseline::default();

    let mut lost: Vec<String> = vec![];
    let mut literals: BTreeSet<String> = BTreeSet::new();
    let mut types: BTreeSet<String> = BTreeSet::new();
    let mut consts: BTreeSet<String> = BTreeSet::new();
    consts.extend(unit.consts.iter().cloned());
    for t in &unit.types {
        types.insert(t.clone());
    }

    // functions, grouped by impl type ("" for free functions)
    let mut groups: BTreeMap<String, Vec<(String, String)>> = BTreeMap::new();
    let mut notes: Vec<String> = vec![];
    if let Some(k) = probe {
        for fc in unit.fns.iter_mut().filter(|f| !f.assumed) {
            let loops = baseline.fns.get(&fc.full_key()).map_or(0, |b| b.loops);
            let what = match k { 0 => "begin".to_string(), k if k % 2 == 1 => format!("loop {} begin", k / 2), k => format!("loop {} after", k / 2 - 1) };
            if k == 0 || (k - 1) / 2 < loops {
                fc.anchors.push(Anchor { what, text: "assert(false); // probe\n".into(), ..Default::default() });
                println!("PROBE {}", fc.full_key());
            }
        }
    }
    if !unit.uses.is_empty() {
        let t = format!("broadcast use {};\n", unit.uses.join(", "));
        for fc in unit.fns.iter_mut().filter(|f| !f.assumed) {
            fc.anchors.insert(0, Anchor { what: "begin".into(), text: t.clone(), ..Default::default() });
        }
    }
    let mut calls: Vec<(String, String, bool, BTreeSet<String>)> = vec![];
    for fc in &unit.fns {
        let Some(f) = idx.find(&fc.file, &fc.key) else {
            lost.push(format!("function {} {}", fc.file, fc.key));
            continue;
        };
        let r = render::render_fn(&idx, &unit, fc, f, baseline.fns.get(&fc.full_key()));
        match r {
            Ok(r) => {
                for l in r.lost {
                    lost.push(format!("{} {}: {}", fc.file, fc.key, l));
                }
                literals.extend(r.literals);
                types.extend(r.types);
                consts.extend(r.consts);
                notes.extend(r.dropped.into_iter().map(|d| format!("DROPPED {} {}", fc.full_key(), d)));
                notes.extend(r.inlined.into_iter().map(|d| format!("INLINED {} {}", fc.full_key(), d)));
                let changed = match baseline.fns.get(&fc.full_key()) {
                    Some(b) => b.hash != r.base.hash,
                    None => true,
                };
                notes.push(format!(
                    "FN {} {}:{}-{} {}{}",
                    fc.full_key(), fc.file, r.lines.0, r.lines.1,
                    if changed { "changed" } else { "same" },
                    if fc.assumed { " assumed" } else { "" }
                ));
                if r.unmeasured { notes.push(format!("PARTIAL {} (a loop has no measure)", fc.full_key())); }
                if r.hint_lost { notes.push(format!("HINT {}", fc.full_key())); }
                recorded.fns.insert(fc.full_key(), r.base);
                if !f.self_ty.is_empty() {
                    types.insert(f.self_ty.clone());
                }
                if !fc.assumed { calls.push((fc.full_key(), f.name.clone(), fc.spec.contains("decreases"), render::called(&r.text))); }
                groups.entry(f.self_ty.clone()).or_default().push((fc.full_key(), r.text));
            }
            Err(e) => lost.push(format!("{} {}: {}", fc.file, fc.key, e)),
        }
    }

    // functions that may call themselves and say nothing of why that ends
    for (key, name, measured, direct) in &calls {
        let mut reach: BTreeSet<String> = direct.clone();
        loop {
            let more: BTreeSet<String> = calls.iter().filter(|c| reach.contains(&c.1)).flat_map(|c| c.3.iter().cloned()).collect();
            let n = reach.len();
            reach.extend(more);
            if reach.len() == n { break; }
        }
        if !measured && name != "new" && reach.contains(name) { notes.push(format!("PARTIAL {} (recursion has no measure)", key)); }
    }

    // close over the types that the extracted text mentions
    let mut done: BTreeSet<String> = BTreeSet::new();
    let mut type_text = String::new();
    loop {
        let next: Vec<String> = types.iter().filter(|t| !done.contains(*t)).cloned().collect();
        if next.is_empty() {
            break;
        }
        for t in next {
            done.insert(t.clone());
            if unit.opaque.contains(&t) {
                continue;
            }
            if let Some(ty) = idx.types.get(&t) {
                match render::render_type(&idx, &unit, ty) {
                    Ok((text, more, lits)) => {
                        type_text.push_str(&text);
                        types.extend(more);
                        literals.extend(lits);
                    }
                    Err(e) => lost.push(format!("type {}: {}", t, e)),
                }
            }
        }
    }
    let mut const_text = String::new();
    for c in &consts {
        if let Some(k) = idx.consts.get(c) {
            match render::render_const(&idx, &unit, c, k) {
                Ok((text, lits)) => {
                    const_text.push_str(&text);
                    literals.extend(lits);
                }
                Err(e) => lost.push(format!("const {}: {}", c, e)),
            }
        }
    }

    let mut o = String::new();
    o.push_str("#![allow(non_camel_case_types, non_snake_case, unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_assignments, unreachable_code, unused_labels, non_upper_case_globals, redundant_semicolons)]\n");
    o.push_str("use vstd::prelude::*;\nuse vstd::std_specs::ops::*;\nuse vstd::std_specs::cmp::*;\nuse core::ops::*;\nverus! {\n");
    let mut uses = String::from("use super::*;");
    for p in &unit.preludes {
        let text = fs::read_to_string(vdir.join("prelude").join(format!("{}.rs", p))).unwrap_or_else(|_| panic!("prelude {}", p));
        let _ = write!(o, "pub mod {} {{ {}\n{}\n", p, uses, text);
        if p == "f64s" {
            o.push_str("// literals of the source text\n");
            for l in &literals {
                o.push_str(&render::literal_fn(l));
            }
        }
        o.push_str("}\n");
        let _ = write!(uses, " use super::{}::*;", p);
    }
    let _ = write!(o, "pub mod code {{ {} use core::mem;\n", uses);
    if !unit.broadcasts.is_empty() {
        let _ = write!(o, "broadcast use {{ {} }};\n", unit.broadcasts.join(", "));
    }
    o.push_str("//@@ types\n");
    o.push_str(&type_text);
    o.push_str("//@@ consts\n");
    o.push_str(&const_text);
    o.push_str("//@@ spec\n");
    o.push_str(&unit.raw);
    o.push('\n');
    for (ty, fns) in &groups {
        if !ty.is_empty() {
            let _ = write!(o, "impl {} {{\n", idx.impl_header(ty));
        }
        for (key, text) in fns {
            let _ = write!(o, "//@@ fn {}\n{}\n//@@ end\n", key, text);
        }
        if !ty.is_empty() {
            o.push_str("}\n");
        }
    }
    o.push_str("}\n} // verus!\nfn main() {}\n");
    fs::write(out_path, o).unwrap();
    if record {
        fs::create_dir_all(vdir.join("baseline")).unwrap();
        recorded.save(&base_path);
    }
    for n in notes {
        println!("{}", n);
    }
    for l in &lost {
        println!("LOST {}", l.replace('\n', " "));
    }
    if !lost.is_empty() {
        std::process::exit(3);
    }
}
