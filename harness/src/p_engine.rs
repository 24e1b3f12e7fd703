//! C01-C05, C16, C17
use crate::util::*;
use crate::{desc, guarded, Ctx};
use std::path::Path;
use tiny_spice::analysis::*;
use tiny_spice::circuit::*;
use tiny_spice::engine::Engine;
use tiny_spice::wavewriter::WaveWriter;

fn all_finite(x: &[f64]) -> bool { x.iter().all(|v| v.is_finite()) }
fn text(tc: &Tc, cfg: &Configuration) -> String {
    format!("elements (nodes by index, 0 is ground): {:?}; settings: RELTOL={:e} VNTOL={:e} ABSTOL={:e} ITL1={} TSTART={} TSTOP={} TSTEP={} FS={} FT={} RMIN={} RMAX={} ITL3={} ITL4={}",
        tc.els, cfg.RELTOL, cfg.VNTOL, cfg.ABSTOL, cfg.ITL1, cfg.TSTART, cfg.TSTOP, cfg.TSTEP, cfg.FS, cfg.FT, cfg.RMIN, cfg.RMAX, cfg.ITL3, cfg.ITL4)
}

pub fn c01(c: &mut Ctx) -> Result<(), String> {
    let r = &mut c.r;
    let sel = r.below(6);
    let kinds: &'static [u8] = match sel { 0 => b"RIVEG", 1 => b"RIVivp", 2 => b"RIVEGDDC", 3 => b"IiC", 4 => b"VvpEEG", _ => b"RIVEGDivpC" };
    let o = GenOpts { kinds, max_nodes: if r.chance(1, 3) { 3 } else { 7 }, ..Default::default() };
    let (els, n) = random_els(r, &o);
    let tc = build(&els, n);
    let mut cfg = Configuration::new();
    if r.chance(1, 2) { cfg.RELTOL = 1e-7; cfg.VNTOL = 1e-9; cfg.ABSTOL = 1e-12; }
    cfg.ITL1 = 300;
    desc(text(&tc, &cfg));
    let (s, x) = dc(&tc, &cfg);
    if x.len() != tc.n_nodes + tc.n_br { return Err(format!("{} unknowns reported for {} nodes and {} branches", x.len(), tc.n_nodes, tc.n_br)); }
    let has_d = els.iter().any(|e| matches!(e, E::D(..)));
    // well-posed linear circuits have to be solved, and are solved correctly
    if let Some((a, b)) = system(&tc, 0.0) {
        if let Some((y, cond)) = full_pivot(&a, &b) {
            if cond < 1e7 {
                c.nontrivial = true;
                let m = y.iter().fold(0.0f64, |m, v| m.max(v.abs()));
                for i in 0..y.len() {
                    if !(x[i] - y[i]).abs().le(&(1e-15 * cond * 1e2 * m + 1e-6 * y[i].abs() + 1e-12)) {
                        return Err(format!("unknown {} is {:e}, the circuit equations give {:e}", i, x[i], y[i]));
                    }
                }
            }
        }
    }
    if s.iterations <= cfg.ITL1 && all_finite(&x) {
        if x[0] != 0.0 { return Err(format!("ground is at {:e} V", x[0])); }
        // (diodes forced far beyond their range have no solution worth the name)
        if !has_d || cfg.RELTOL < 1e-6 && x.iter().all(|v| v.abs() < 1e4) {
            c.nontrivial = true;
            check_residuals(&residuals(&tc, &x, 0.0, None), 1e-6, 1e-11, 0.0).map_err(|e| format!("{} at the reported solution {:?}", e, x))?;
        }
    }
    Ok(())
}

pub fn c02(c: &mut Ctx) -> Result<(), String> {
    let r = &mut c.r;
    if c.case % 40 == 7 {
        // many unknowns, few entries, every swap needed: a permuted triangular system, solved in integers
        let n = 8 + r.below(60);
        let mut p: Vec<usize> = (0..n).collect();
        r.shuffle(&mut p);
        let x: Vec<i64> = (0..n).map(|_| r.range(-9, 9)).collect();
        let mut els = vec![];
        for k in 0..n {
            let mut row = vec![(k, *r.pick(&[1i64, -1, 2]))];
            for _ in 0..r.below(4) { if k + 1 < n { let j = k + 1 + r.below(n - k - 1); if !row.iter().any(|q| q.0 == j) { row.push((j, r.range(-2, 2))); } } }
            let b: i64 = row.iter().map(|(j, v)| v * x[*j]).sum();
            for (j, v) in row { if v != 0 { els.push(E::G(p[k] + 1, 0, j + 1, 0, v as f64)); } }
            if b != 0 { els.push(E::I(p[k] + 1, 0, -b as f64)); }
        }
        els.push(E::I(n, 0, 0.0));
        r.shuffle(&mut els);
        let tc = build(&els, n + 1);
        let cfg = Configuration::new();
        desc(format!("{} unknowns, solution {:?}: {}", n, x, text(&tc, &cfg)));
        let (_, g) = dc(&tc, &cfg);
        c.nontrivial = true;
        // growth of the entries is bounded only if few rows follow one another
        let worst = (0..n).map(|i| (g[i + 1] - x[i] as f64).abs()).fold(0.0f64, f64::max);
        if g.len() != n + 1 || !(worst <= 1e-5) { return Err(format!("solution {:?} instead of {:?}", g, x)); }
        return Ok(());
    }
    // an integer system, row i: sum_j a_ij v_j = b_i
    let n = 1 + r.below(if c.case % 3 == 0 { 3 } else { 7 });
    let mode = r.below(8);
    let dens = 1 + r.below(4);
    let mut a = vec![vec![0i128; n]; n];
    let mut b = vec![0i128; n];
    for i in 0..n {
        for j in 0..n { if r.chance(dens, 4) { a[i][j] = r.range(-3, 3) as i128; } }
        b[i] = r.range(-4, 4) as i128;
    }
    match mode {
        0 => { for i in 0..n { a[i][i] = 0; } }
        1 | 2 => {
            // permuted triangular: unique solution, needs the right swaps
            let mut p: Vec<usize> = (0..n).collect();
            r.shuffle(&mut p);
            for i in 0..n { for j in 0..n { if j < i { a[p[i]][j] = 0; } } if a[p[i]][i] == 0 { a[p[i]][i] = 1 + (r.below(3) as i128); } }
        }
        3 if n > 1 => { let (i, j) = (r.below(n), r.below(n)); if i != j { let k = r.range(-2, 2) as i128; let row = a[j].clone(); for q in 0..n { a[i][q] = k * row[q]; } if r.chance(1, 2) { b[i] = k * b[j]; } } }
        4 => { let i = r.below(n); for q in 0..n { a[i][q] = 0; } if r.chance(1, 2) { b[i] = 0; } }
        5 => { let j = r.below(n); for q in 0..n { a[q][j] = 0; } }
        _ => {}
    }
    // the same solution at every scale: all equations times a power of two, which is exact
    let sc = if r.chance(1, 2) { 1.0 } else { 2f64.powi(r.range(-60, 40) as i32) };
    let mut els = vec![];
    for i in 0..n {
        for j in 0..n { if a[i][j] != 0 { els.push(E::G(i + 1, 0, j + 1, 0, sc * a[i][j] as f64)); } }
        if b[i] != 0 { els.push(E::I(i + 1, 0, -(b[i] as f64) * sc)); }
    }
    // keeps the highest node in the circuit without adding to its equation
    els.push(E::I(n, 0, 0.0));
    r.shuffle(&mut els);
    let tc = build(&els, n + 1);
    let cfg = Configuration::new();
    desc(format!("equations A v = b with A = {:?}, b = {:?}, all times {:e}, built from VCCS and current sources: {}", a, b, sc, text(&tc, &cfg)));
    let (_, x) = dc(&tc, &cfg);
    if x.len() != n + 1 { return Err(format!("{} unknowns for {} nodes", x.len(), n + 1)); }
    let d = det(&a);
    let fin = all_finite(&x);
    c.nontrivial = n > 1;
    if fin {
        for i in 0..n {
            let mut s = -(b[i] as f64);
            let mut m = (b[i] as f64).abs();
            for j in 0..n { s += a[i][j] as f64 * x[j + 1]; m += (a[i][j] as f64 * x[j + 1]).abs(); }
            if !(s.abs() <= 1e-9 * m + 1e-12 * x.iter().fold(0.0f64, |p, q| p.max(q.abs()))) { return Err(format!("finite solution {:?} violates equation {} by {:e} (determinant {})", x, i, s, d)); }
        }
    }
    if d != 0 {
        if !fin { return Err(format!("no finite solution {:?} although the determinant is {}", x, d)); }
        for j in 0..n {
            let mut m = a.clone();
            for i in 0..n { m[i][j] = b[i]; }
            let v = det(&m) as f64 / d as f64;
            if !near(x[j + 1], v, 1e-7, 1e-7) { return Err(format!("unknown {} is {:e} instead of {:e}", j + 1, x[j + 1], v)); }
        }
    }
    // and systems with branch equations
    let r = &mut c.r;
    let (els, n) = random_els(r, &GenOpts { kinds: b"VEVERIG", max_extra: 10, ..Default::default() });
    let tc = build(&els, n);
    desc(text(&tc, &cfg));
    let (_, x) = dc(&tc, &cfg);
    if let Some((a, b)) = system(&tc, 0.0) {
        if all_finite(&x) {
            for i in 1..a.len() {
                let s: f64 = (0..a.len()).map(|j| a[i][j] * x[j]).sum::<f64>() - b[i];
                let m: f64 = (0..a.len()).map(|j| (a[i][j] * x[j]).abs()).sum::<f64>() + b[i].abs();
                // rounding in an unknown that is 0 is relative to the others
                let am = a[i].iter().fold(0.0f64, |p, q| p.max(q.abs()));
                let xm = x.iter().fold(0.0f64, |p, q| p.max(q.abs()));
                if !(s.abs() <= 1e-7 * m + 1e-11 + 1e-12 * am * xm) { return Err(format!("finite solution {:?} violates equation {} by {:e}", x, i, s)); }
            }
        }
        if let Some((_, cond)) = full_pivot(&a, &b) {
            if cond < 1e7 && !all_finite(&x) { return Err(format!("no finite solution {:?} of a well-posed system", x)); }
        }
    }
    Ok(())
}

pub fn c03(c: &mut Ctx) -> Result<(), String> {
    let r = &mut c.r;
    // the tolerance test on its own, with values that are exact in binary
    let nn = 1 + r.below(4);
    let nv = r.below(4);
    let mut els = vec![];
    for i in 1..=nn { els.push(E::R(i, 0, 1.0)); }
    for k in 0..nv { els.push(E::V(1 + k % nn, 0, 1.0)); }
    let tc = build(&els, nn + 1);
    let mut cfg = Configuration::new();
    let dy = |r: &mut crate::util::Rng| 2f64.powi(-(r.range(2, 12) as i32));
    cfg.RELTOL = dy(r);
    cfg.VNTOL = dy(r);
    cfg.ABSTOL = dy(r);
    if r.chance(1, 6) { cfg.RELTOL = 0.0; }
    if r.chance(1, 6) { cfg.VNTOL = 0.0; }
    if r.chance(1, 6) { cfg.ABSTOL = 0.0; }
    let mut e = Engine::new();
    e.dc_operating_point(&tc.ckt, &Configuration::new());
    let n = nn + 1 + nv;
    let mut x = vec![0.0; n];
    let mut y = vec![0.0; n];
    let off = r.below(n + 3); // mostly one position out of tolerance or none
    for i in 0..n {
        x[i] = r.range(-64, 64) as f64 / 4.0;
        let lim = x[i].abs() * cfg.RELTOL + if i < nn + 1 { cfg.VNTOL } else { cfg.ABSTOL };
        let d = if i == off { lim + *r.pick(&[2f64.powi(-20), 1.0, 100.0]) } else { *r.pick(&[lim, lim, 0.0, lim / 2.0]) };
        y[i] = if r.chance(1, 2) { x[i] + d } else { x[i] - d };
    }
    let bad = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY];
    if r.chance(1, 4) { let i = r.below(n); x[i] = *r.pick(&bad); }
    if r.chance(1, 6) { let i = r.below(n); y[i] = *r.pick(&bad); }
    desc(format!("convergence_check(new={:?}, old={:?}) with {} nodes, {} branches, RELTOL={:e} VNTOL={:e} ABSTOL={:e}", x, y, nn + 1, nv, cfg.RELTOL, cfg.VNTOL, cfg.ABSTOL));
    let res = e.convergence_check(&x, &y, &cfg);
    let want = (0..n).all(|i| x[i].is_finite() && (x[i] - y[i]).abs() <= x[i].abs() * cfg.RELTOL + if i < nn + 1 { cfg.VNTOL } else { cfg.ABSTOL });
    c.nontrivial = true;
    match res {
        Ok(v) => {
            if !all_finite(&x) { return Err(format!("Ok({}) although an unknown is not finite", v)); }
            if v != want { return Err(format!("converged={} but should be {}", v, want)); }
        }
        Err(_) => if all_finite(&x) && all_finite(&y) { return Err("numerical failure reported for finite vectors".into()); }
    }
    // iterations of whole operating points
    let r = &mut c.r;
    let (els, n) = random_els(r, &GenOpts { kinds: b"RIVDDDVE", max_nodes: 5, ..Default::default() });
    let tc = build(&els, n);
    let mut cfg = Configuration::new();
    cfg.RELTOL = *r.pick(&[1e-2, 1e-4, 1e-7]);
    cfg.VNTOL = *r.pick(&[1e-3, 1e-6, 1e-9]);
    cfg.ABSTOL = *r.pick(&[1e-6, 1e-9, 1e-12]);
    cfg.ITL1 = *r.pick(&[0, 1, 2, 5, 40]);
    desc(text(&tc, &cfg));
    let (s, x) = dc(&tc, &cfg);
    if s.iterations > cfg.ITL1 + 1 { return Err(format!("{} iterations with ITL1={}", s.iterations, cfg.ITL1)); }
    if s.iterations == 0 { return Err("no iteration".into()); }
    let conv = |x: &[f64], y: &[f64]| (0..x.len()).all(|i| (x[i] - y[i]).abs() <= x[i].abs() * cfg.RELTOL + if i < tc.n_nodes { cfg.VNTOL } else { cfg.ABSTOL });
    let mut prev = vec![0.0; x.len()];
    for k in 1..=s.iterations {
        let mut cf = cfg.clone();
        cf.ITL1 = k - 1;
        let (sk, xk) = dc(&tc, &cf);
        if sk.iterations != k { return Err(format!("stopped after {} iterations with ITL1={}, but after {} with ITL1={}", sk.iterations, k - 1, s.iterations, cfg.ITL1)); }
        let stop = !all_finite(&xk) || conv(&xk, &prev);
        if k < s.iterations && stop { return Err(format!("went on after iteration {} although it had converged or failed: {:?} after {:?}", k, xk, prev)); }
        if k == s.iterations && k <= cfg.ITL1 && !stop { return Err(format!("stopped at iteration {} of {} without converging: {:?} after {:?}", k, cfg.ITL1 + 1, xk, prev)); }
        prev = xk;
    }
    if !(prev.iter().zip(&x).all(|(a, b)| a.to_bits() == b.to_bits())) { return Err("reported solution is not that of the last iteration".into()); }
    Ok(())
}

fn wave_path(c: u64) -> String { format!("w/{}/t.dat", c % 4) }

fn tran_cfg(r: &mut Rng, case: u64) -> Configuration {
    let mut cfg = Configuration::new();
    cfg.kind = Some(Kind::Transient);
    cfg.TSTEP = *r.pick(&[0.25, 0.5, 1.0]);
    cfg.TSTOP = cfg.TSTEP * *r.pick(&[0.125, 1.0, 3.0, 7.5, 10.0, 10.3, 20.0, 0.25]);
    cfg.TSTART = if r.chance(1, 3) { cfg.TSTOP * *r.pick(&[0.25, 0.5, 0.9, 1.0, 1.5]) } else { 0.0 };
    cfg.FS = *r.pick(&[0.25, 0.125, 1.0, 0.5, 2.0, 8.0]);
    cfg.FT = *r.pick(&[0.25, 0.5, 0.125, 0.75]);
    cfg.RMAX = *r.pick(&[5.0, 1.0, 0.5, 2.0, 0.1]);
    cfg.RMIN = *r.pick(&[1e-3, 0.015625, 1e-4]);
    cfg.ITL3 = *r.pick(&[6, 2, 3, 0, 50]);
    cfg.ITL4 = *r.pick(&[50, 2, 3, 10]);
    cfg.wavefile = wave_path(case);
    cfg
}

fn tran_kinds(r: &mut Rng) -> &'static [u8] { *r.pick(&[&b"RIVivpCC"[..], b"CCivpR", b"RVCGEvip", b"CvpV", b"CDvR", b"CDDvipR"]) }

pub fn c04(c: &mut Ctx) -> Result<(), String> {
    let r = &mut c.r;
    match r.below(4) {
        0 => return c04_fail(c),
        _ => {}
    }
    let kinds = tran_kinds(r);
    let (els, n) = random_els(r, &GenOpts { kinds, max_nodes: 4, max_extra: 5, ..Default::default() });
    let tc = build(&els, n);
    let mut cfg = tran_cfg(r, c.case);
    if r.chance(1, 4) { cfg.ITL4 = 1; let t = *r.pick(&[1e-1, 1e-2]); cfg.RELTOL = t; cfg.VNTOL = t; cfg.ABSTOL = t; }
    desc(text(&tc, &cfg));
    let linear = !els.iter().any(|e| matches!(e, E::D(..)));
    let (s, w) = match guarded(|| tran(&tc, &cfg)) { Some(w) => w?, None if !linear => return Ok(()), None => return Err("aborts".into()) };
    check_axis(&tc, &cfg, &s, &w)?;
    // step-control limits only hold back; linear circuits always get there
    // (a last step of rounding size need not)
    if linear && cfg.ITL4 >= 2 && !near(s.end, cfg.TSTOP, 0.0, 1e-9) { return Err(format!("ends at {} instead of TSTOP={} although every step of a linear circuit converges", s.end, cfg.TSTOP)); }
    c.nontrivial = w.rows.len() > 2;
    if cfg.TSTART > 0.0 {
        let mut cf = cfg.clone();
        cf.TSTART = 0.0;
        let (s0, w0) = tran(&tc, &cf)?;
        if s0.end != s.end || s0.iterations != s.iterations { return Err(format!("TSTART changes the analysis: end {} and {}, iterations {} and {}", s.end, s0.end, s.iterations, s0.iterations)); }
        // a printed time within rounding of TSTART may be on either side
        let lo: Vec<_> = w0.rows.iter().skip(1).filter(|x| x[0] >= cfg.TSTART - 1e-9).cloned().collect();
        let doubtful = lo.iter().filter(|x| x[0] <= cfg.TSTART + 1e-9).count();
        let ok = w.rows.first() == w0.rows.first() && (0..=doubtful).any(|k| w.rows[1..] == lo[k..]);
        if !ok { return Err(format!("samples recorded from TSTART={} on are not those of the full run: times {:?} of {:?}", cfg.TSTART, times(&w), times(&w0))); }
    }
    Ok(())
}

fn times(w: &Wave) -> Vec<f64> { w.rows.iter().map(|r| r[0]).collect() }

fn check_axis(tc: &Tc, cfg: &Configuration, s: &Statistics, w: &Wave) -> Result<(), String> {
    let eps = 2e-9;
    if w.rows.is_empty() || w.rows[0][0] != 0.0 { return Err("no sample at time 0".into()); }
    let mut cd = cfg.clone();
    cd.kind = Some(Kind::DcOperatingPoint);
    let (sd, xd) = dc(tc, &cd);
    for (i, v) in xd.iter().enumerate() {
        if v.is_finite() && !near(w.rows[0][i + 1], *v, 0.0, 6e-10 + v.abs() * 1e-14) { return Err(format!("the sample at time 0 has {} for unknown {}, the DC solution is {}", w.rows[0][i + 1], i, v)); }
    }
    if s.iterations < sd.iterations { return Err(format!("{} iterations in all, {} of them for the operating point", s.iterations, sd.iterations)); }
    let lim = cfg.TSTEP * cfg.RMAX.max(cfg.FS);
    for i in 1..w.rows.len() {
        let (a, b) = (w.rows[i - 1][0], w.rows[i][0]);
        // the last step may be shorter than the printed resolution
        if !(b > a || b == a && i == w.rows.len() - 1 && near(b, cfg.TSTOP, 0.0, eps)) { return Err(format!("times do not increase: {} after {}", b, a)); }
        if b < cfg.TSTART - eps { return Err(format!("sample at {} before TSTART={}", b, cfg.TSTART)); }
        if b > cfg.TSTOP + eps { return Err(format!("sample at {} after TSTOP={}", b, cfg.TSTOP)); }
        if (i > 1 || cfg.TSTART == 0.0) && b - a > lim * (1.0 + 1e-9) + eps { return Err(format!("samples at {} and {} are further apart than {}", a, b, lim)); }
    }
    let last = w.rows[w.rows.len() - 1][0];
    if s.end > cfg.TSTOP { return Err(format!("end time {} after TSTOP", s.end)); }
    if s.end >= cfg.TSTART && s.end > 0.0 && !near(last, s.end, 1e-12, eps) { return Err(format!("reported end {} but the last sample is at {}", s.end, last)); }
    if s.end < cfg.TSTART && w.rows.len() > 1 { return Err("samples recorded although the run ended before TSTART".into()); }
    Ok(())
}

fn c04_fail(c: &mut Ctx) -> Result<(), String> {
    let r = &mut c.r;
    let (els, n) = random_els(r, &GenOpts { kinds: b"RVRV", max_nodes: 4, max_extra: 4, ..Default::default() });
    let mut els = els;
    let kind = r.below(3);
    let mut cfg = tran_cfg(r, c.case);
    cfg.FT = *r.pick(&[0.25, 0.5]);
    cfg.RMIN = *r.pick(&[0.015625, 0.0009765625, 1e-3]);
    cfg.FS = *r.pick(&[0.25, 0.5, 1.0]);
    cfg.TSTOP = cfg.TSTEP * 10.0;
    cfg.TSTART = 0.0;
    let attempts = |mut g: f64, cfg: &Configuration| { let mut k = 1; loop { g *= cfg.FT; if g < cfg.TSTEP * cfg.RMIN { return k; } k += 1; } };
    if kind == 0 {
        // negative tolerances: nothing ever converges
        cfg.RELTOL = -1.0; cfg.VNTOL = -1.0; cfg.ABSTOL = -1.0;
        cfg.ITL1 = 3;
        cfg.ITL4 = 1 + r.below(5);
        let tc = build(&els, n);
        desc(text(&tc, &cfg));
        let (s, w) = tran(&tc, &cfg)?;
        c.nontrivial = true;
        let want = cfg.ITL1 + 1 + cfg.ITL4 * attempts(cfg.TSTEP * cfg.FS, &cfg);
        if s.end != 0.0 || w.rows.len() != 1 { return Err(format!("nothing converges but the run ends at {} with {} samples", s.end, w.rows.len())); }
        if s.iterations != want { return Err(format!("{} iterations; steps of {} shortened {}-fold down to {} at {} iterations each make {}", s.iterations, cfg.TSTEP * cfg.FS, 1.0 / cfg.FT, cfg.TSTEP * cfg.RMIN, cfg.ITL4, want)); }
        return Ok(());
    }
    // a source that is still until t1 and then moves by far more than the tolerance
    let t1 = cfg.TSTEP * *r.pick(&[1.0, 2.5, 4.0]);
    els.push(E::R(n, 0, 100.0));
    els.push(E::Vpwl(n, 0, vec![(t1, 0.0), (t1 + 1e-3, 5.0), (t1 + 2e-3, -5.0), (t1 + 3e-3, 7.0), (t1 + 1000.0, 1e9)], 0.0, -1.0));
    cfg.ITL4 = if kind == 1 { 1 } else { 2 };
    let tc = build(&els, n + 1);
    desc(text(&tc, &cfg));
    let (s, w) = tran(&tc, &cfg)?;
    check_axis(&tc, &cfg, &s, &w)?;
    c.nontrivial = true;
    if cfg.ITL4 == 2 && s.end != cfg.TSTOP { return Err(format!("ends at {} instead of {}", s.end, cfg.TSTOP)); }
    if cfg.ITL4 == 1 {
        if s.end == cfg.TSTOP { return Err("a step that moves an unknown by volts was accepted on its first iteration".into()); }
        if s.end > t1 + 4e-3 { return Err(format!("steps after {} never converge, but the run ends at {}", t1, s.end)); }
        let room = cfg.TSTEP * cfg.RMIN / (cfg.FT * cfg.FT);
        if t1 - s.end > room * (1.0 + 1e-6) { return Err(format!("the run gives up at {} although steps up to {} converge and may be as short as {}", s.end, t1, cfg.TSTEP * cfg.RMIN)); }
    }
    Ok(())
}

pub fn c05(c: &mut Ctx) -> Result<(), String> {
    let r = &mut c.r;
    let kinds = tran_kinds(r);
    let (els, n) = random_els(r, &GenOpts { kinds, max_nodes: 5, max_extra: 6, ..Default::default() });
    let tc = build(&els, n);
    let mut cfg = tran_cfg(r, c.case);
    cfg.TSTART = 0.0;
    let has_d = els.iter().any(|e| matches!(e, E::D(..)));
    if has_d { cfg.RELTOL = 1e-7; cfg.VNTOL = 1e-9; cfg.ABSTOL = 1e-12; cfg.ITL1 = 300; cfg.ITL4 = *r.pick(&[50, 50, 7, 5]); }
    else if r.chance(1, 2) { cfg.ITL4 = 1; let t = *r.pick(&[1e-1, 1e-2, 1.0]); cfg.RELTOL = t; cfg.VNTOL = t; cfg.ABSTOL = t; }
    desc(text(&tc, &cfg));
    let mut cd = cfg.clone();
    cd.kind = Some(Kind::DcOperatingPoint);
    let (sd, xd) = dc(&tc, &cd);
    if !all_finite(&xd) || sd.iterations > cfg.ITL1 { return Ok(()); }
    // diodes forced far beyond their range have no solution worth the name
    if has_d && xd.iter().any(|v| v.abs() > 1e4) { return Ok(()); }
    let (_, w) = match guarded(|| tran(&tc, &cfg)) { Some(w) => w?, None if has_d => return Ok(()), None => return Err("aborts".into()) };
    for k in 1..w.rows.len() {
        let (p, q) = (&w.rows[k - 1], &w.rows[k]);
        if has_d && q[1..].iter().any(|v| v.abs() > 1e4) { return Ok(()); }
        if !all_finite(q) { return Err(format!("sample at {} is not finite", q[0])); }
        let dt = q[0] - p[0];
        if dt < 1e-4 { continue; }
        if p[1] != 0.0 || q[1] != 0.0 { return Err("ground is not at 0 V".into()); }
        check_residuals(&residuals(&tc, &q[1..], q[0], Some((&p[1..], dt))), if has_d { 1e-4 } else { 1e-8 }, 1e-11, 4.0)
            .map_err(|e| format!("sample {} at t={} (previous at {}): {}; values {:?} after {:?}", k, q[0], p[0], e, &q[1..], &p[1..]))?;
        c.nontrivial = true;
    }
    Ok(())
}

pub fn c16(c: &mut Ctx) -> Result<(), String> {
    let r = &mut c.r;
    // the writer on its own
    let m = *r.pick(&[6, 6, 30, 120]);
    let nn = 1 + r.below(m);
    let m = *r.pick(&[4, 4, 25]);
    let nv = r.below(m);
    let mut lut = std::collections::HashMap::new();
    for i in 0..nn { lut.insert(i, format!("{}{}", *r.pick(&["n", "Xa.b", "in_", "z", "Xa.Xbuf.n", "X1.X2.X3.out"]), i * 7 % 127)); }
    // names of nodes beyond the columns
    for i in nn..nn + 3 { lut.insert(i, format!("other{}", i)); }
    let path = format!("w/c16/{}/x.dat", c.case % 3);
    let runs = 1 + r.below(2);
    let mut want = String::new();
    let mut log = vec![];
    for k in 0..=runs {
        let mut wr = WaveWriter::new(&path, &lut).ok_or("no writer")?;
        wr.header(nn, nv);
        want.clear();
        want += "Time";
        for i in 0..nn { want += &format!("\tv({})", lut[&i]); }
        for j in 0..nv { want += &format!("\ti({})", j); }
        want += "\ns";
        for _ in 0..nn { want += "\tV"; }
        for _ in 0..nv { want += "\tA"; }
        want += "\n";
        for _ in 0..(if k == runs { r.below(4) } else { 3 + r.below(4) }) {
            let t = r.logu(1e-9, 1e3);
            let xs: Vec<f64> = (0..nn + nv).map(|_| match r.below(6) { 0 => 0.0, 1 => -r.logu(1e-12, 1e-6), 2 => r.logu(1e3, 1e12), 3 => 1.0 / 3.0, _ => r.uniform(-10.0, 10.0) }).collect();
            log.push(format!("{} {:?}", t, xs));
            desc(format!("WaveWriter: {} nodes, {} branches, samples {:?}", nn, nv, log));
            wr.dump_vector(t, &xs);
            want += &format!("{:.9}", t);
            for x in xs { want += &format!("\t{:.9}", x); }
            want += "\n";
        }
    }
    let got = std::fs::read_to_string(&path).map_err(|e| e.to_string())?;
    if got != want { return Err(format!("file is {:?}, should be {:?}", got, want)); }
    c.nontrivial = true;
    if c.case % 2 == 1 { return Ok(()); }
    // and a whole analysis
    let r = &mut c.r;
    let (mut els, mut n) = random_els(r, &GenOpts { kinds: b"RIVvpCEG", max_nodes: 6, ..Default::default() });
    // now and then a circuit with many nodes
    if r.chance(1, 3) { let q = 1 + r.below(30); for i in 0..q { els.push(E::R(n + i - 1, n + i, 1.0 + i as f64)); } n += q; }
    let mut tc = build(&els, n);
    let hier = r.chance(1, 2);
    if hier { for (i, v) in tc.ckt.node_id_lut.iter_mut() { if *i > 0 { *v = format!("X{}.Xsub.{}", i % 3, v); } } }
    let cfg = tran_cfg(r, c.case);
    desc(text(&tc, &cfg));
    // something longer from an earlier run
    std::fs::create_dir_all(Path::new(&cfg.wavefile).parent().unwrap()).unwrap();
    std::fs::write(&cfg.wavefile, "old line\n".repeat(5000)).unwrap();
    let (s, w) = tran(&tc, &cfg)?;
    let mut names = vec!["Time".to_string()];
    for i in 0..tc.n_nodes { names.push(format!("v({})", if i == 0 { "gnd".into() } else if hier { format!("X{}.Xsub.n{}", i % 3, i) } else { format!("n{}", i) })); }
    for j in 0..tc.n_br { names.push(format!("i({})", j)); }
    if w.names != names { return Err(format!("columns {:?}, should be {:?}", w.names, names)); }
    let units: Vec<String> = (0..names.len()).map(|i| if i == 0 { "s" } else if i <= tc.n_nodes { "V" } else { "A" }.to_string()).collect();
    if w.units != units { return Err(format!("units {:?}, should be {:?}", w.units, units)); }
    for row in &w.rows { if row.len() != names.len() { return Err(format!("a row has {} of {} columns", row.len(), names.len())); } }
    for l in w.text.lines().skip(2) { for f in l.split('\t') { if f.rsplit_once('.').map_or(true, |p| p.1.len() != 9) && f != "NaN" && f != "inf" && f != "-inf" { return Err(format!("'{}' is not printed to nine decimals", f)); } } }
    check_axis(&tc, &cfg, &s, &w)
}

fn dump_ckt(k: &Circuit) -> String {
    let mut v: Vec<_> = k.nodes.iter().map(|(a, b)| format!("{}={}", a, b)).collect();
    v.sort();
    let mut l: Vec<_> = k.node_id_lut.iter().map(|(a, b)| format!("{}={}", a, b)).collect();
    l.sort();
    let mut s = format!("{} {} {} {:?} {:?}\n", k.name, k.nid_next, k.v_idx_next, v, l);
    for e in &k.elements {
        s += &format!("{}", e);
        match e {
            Element::V(x) => s += &format!(" idx {}", x.idx),
            Element::Vsin(x) => s += &format!(" idx {} {:?} {:?} {:?}", x.idx, x.vo, x.va, x.freq),
            Element::Vpwl(x) => s += &format!(" {:?}", x),
            Element::Vcvs(x) => s += &format!(" idx {}", x.idx),
            Element::D(d) => {
                // the state of a copy shows in what it does next
                let a = d.clone();
                let z: Vec<_> = [0.9, 0.95, 5.0].iter().map(|v| a.linearize(*v, 0.0)).collect();
                s += &format!(" {:?}", z);
            }
            _ => {}
        }
        s += "\n";
    }
    s
}
fn dump_cfg(c: &Configuration) -> String {
    format!("{} {:?}", c.wavefile, (c.GMIN, c.TDEGC, c.RELTOL, c.VNTOL, c.ABSTOL, c.ITL1, c.TSTART, c.TSTOP, c.TSTEP, c.FS, c.FT, c.RMIN))
        + &format!("{:?} {} {}", (c.RMAX, c.ITL3, c.ITL4), c.ckt_name, c.kind.as_ref().map_or("none".into(), |k| k.to_string()))
}

pub fn c17(c: &mut Ctx) -> Result<(), String> {
    let r = &mut c.r;
    let mut jobs = vec![];
    for k in 0..3 {
        let kinds = *r.pick(&[&b"RIVDDCvp"[..], b"DDCvR", b"RIVEGivpC"]);
        let (els, n) = random_els(r, &GenOpts { kinds, max_nodes: 5, max_extra: 6, ..Default::default() });
        let tc = build(&els, n);
        let mut cfg = tran_cfg(r, c.case);
        cfg.TSTOP = cfg.TSTEP * 3.0;
        cfg.RMIN = *r.pick(&[1e-2, 0.015625]);
        if r.chance(1, 2) { cfg.kind = Some(Kind::DcOperatingPoint); }
        cfg.wavefile = format!("w/c17/{}.dat", k);
        jobs.push((tc, cfg));
    }
    let order: Vec<usize> = (0..5).map(|_| r.below(3)).collect();
    desc(format!("analyses in order {:?} of: {}", order, jobs.iter().map(|(t, c)| format!("[{} {}] ", c.kind.as_ref().unwrap(), text(t, c))).collect::<String>()));
    let run = |e: &mut Engine, k: usize| -> Result<(usize, u64, String), String> {
        let (tc, cfg) = &jobs[k];
        let (a, b) = (dump_ckt(&tc.ckt), dump_cfg(cfg));
        let s = e.go(&tc.ckt, cfg).ok_or("no statistics")?;
        if dump_ckt(&tc.ckt) != a { return Err(format!("analysis of circuit {} changed the circuit: {} became {}", k, a, dump_ckt(&tc.ckt))); }
        if dump_cfg(cfg) != b { return Err(format!("analysis of circuit {} changed the settings", k)); }
        let w = match cfg.kind { Some(Kind::Transient) => { let t = std::fs::read_to_string(&cfg.wavefile).map_err(|e| e.to_string())?; std::fs::remove_file(&cfg.wavefile).unwrap(); t } _ => String::new() };
        Ok((s.iterations, s.end.to_bits(), w))
    };
    let mut fresh = vec![];
    for k in 0..3 {
        let mut e = Engine::new();
        // a circuit that can't be analysed at all says nothing
        let a = match guarded(|| run(&mut e, k)) { Some(a) => a?, None => return Ok(()) };
        let xa = e.dc().ok_or("no solution")?;
        fresh.push((a, xa));
    }
    for stop in 1..=order.len() {
        let mut e = Engine::new();
        let mut last = 0;
        for &k in &order[..stop] {
            let a = run(&mut e, k)?;
            if a != fresh[k].0 { return Err(format!("circuit {} gives {:?} in an engine used for {:?} and {:?} in a fresh one", k, short(&a), &order[..stop], short(&fresh[k].0))); }
            last = k;
        }
        let x = e.dc().ok_or("no solution")?;
        if x.len() != fresh[last].1.len() || !x.iter().zip(&fresh[last].1).all(|(a, b)| a.to_bits() == b.to_bits()) {
            return Err(format!("circuit {} has operating point {:?} in a used engine and {:?} in a fresh one", last, x, fresh[last].1));
        }
    }
    c.nontrivial = true;
    crate::p_deck::c17_names(c)
}
fn short(a: &(usize, u64, String)) -> String { format!("(iterations {}, end {}, waves {})", a.0, f64::from_bits(a.1), a.2.chars().take(2000).collect::<String>()) }

#[allow(dead_code)]
fn unused() { let _ = guarded(|| ()); }
