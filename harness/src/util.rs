//! Random numbers, circuits with an independent description, residuals.
use tiny_spice::circuit::*;
use tiny_spice::engine::Engine;
use tiny_spice::analysis::*;
use std::path::{Path, PathBuf};

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64, case: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ case.wrapping_mul(0xD1B54A32D192ED03) ^ 0x1234567);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 { lo + (self.next() % (hi - lo + 1) as u64) as i64 }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn unit(&mut self) -> f64 { (self.next() >> 11) as f64 / (1u64 << 53) as f64 }
    pub fn uniform(&mut self, a: f64, b: f64) -> f64 { a + (b - a) * self.unit() }
    pub fn logu(&mut self, a: f64, b: f64) -> f64 { (self.uniform(a.ln(), b.ln())).exp() }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() { let j = self.below(i + 1); v.swap(i, j); }
    }
}

#[derive(Clone, Debug)]
pub enum E {
    R(usize, usize, f64),
    I(usize, usize, f64),
    V(usize, usize, f64),
    D(usize, usize, f64, f64),
    Isin(usize, usize, f64, f64, f64),
    Vsin(usize, usize, f64, f64, f64),
    Vpwl(usize, usize, Vec<(f64, f64)>, f64, f64),
    C(usize, usize, f64),
    E(usize, usize, usize, usize, f64),
    G(usize, usize, usize, usize, f64),
}

/// A circuit and an independent description of it. Branch k belongs to the k-th
/// voltage-defined element of `els`.
pub struct Tc { pub ckt: Circuit, pub els: Vec<E>, pub n_nodes: usize, pub n_br: usize }

pub fn is_branch(e: &E) -> bool { matches!(e, E::V(..) | E::Vsin(..) | E::Vpwl(..) | E::E(..)) }

pub fn terminals(e: &E) -> Vec<usize> {
    match *e {
        E::R(a, b, _) | E::I(a, b, _) | E::V(a, b, _) | E::D(a, b, _, _) | E::Isin(a, b, ..) | E::Vsin(a, b, ..) | E::C(a, b, _) => vec![a, b],
        E::Vpwl(a, b, ..) => vec![a, b],
        E::E(a, b, c, d, _) | E::G(a, b, c, d, _) => vec![a, b, c, d],
    }
}

pub fn build(els: &[E], n_named: usize) -> Tc {
    let mut ckt = Circuit::new();
    for i in 1..n_named { ckt.add_node(&format!("n{}", i)); }
    let mut max = 0;
    let mut br = 0;
    for (i, e) in els.iter().enumerate() {
        for t in terminals(e) { max = max.max(t); }
        if is_branch(e) { br += 1; }
        match e.clone() {
            E::R(a, b, v) => ckt.add_r(format!("R{}", i), a, b, v),
            E::I(p, n, v) => ckt.add_i(p, n, v),
            E::V(p, n, v) => ckt.add_v(p, n, v),
            E::D(p, n, i_sat, tdeg) => ckt.add_d(Diode::new(&format!("D{}", i), p, n, i_sat, tdeg)),
            E::Isin(p, n, vo, va, freq) => ckt.add_i_sin(CurrentSourceSine { p, n, vo, va, freq }),
            E::Vsin(p, n, vo, va, freq) => ckt.add_v_sin(VoltageSourceSine { p, n, vo, va, freq, idx: 0 }),
            E::Vpwl(p, n, pat, t_delay, repeat) => ckt.add_v_pwl(VoltageSourcePwl { p, n, pat, t_delay, repeat, idx: 0 }),
            E::C(a, b, v) => ckt.add_c(format!("C{}", i), a, b, v),
            E::E(p, n, cp, cn, k) => {
                let idx = ckt.v_idx_next;
                ckt.v_idx_next += 1;
                ckt.elements.push(Element::Vcvs(Vcvs { ident: format!("E{}", i), p, n, cp, cn, k, idx }));
            }
            E::G(p, n, cp, cn, k) => ckt.elements.push(Element::Vccs(Vccs::new(&format!("G{}", i), p, n, cp, cn, k))),
        }
    }
    ckt.build_node_id_lut();
    Tc { ckt, els: els.to_vec(), n_nodes: max + 1, n_br: br }
}

pub fn vt(tdegc: f64) -> f64 { BOLTZMANN * (363.0 + tdegc) / CHARGE }
pub fn vcrit(i_sat: f64, tdegc: f64) -> f64 { let v = vt(tdegc); v * (v / (2.0f64.sqrt() * i_sat)).ln() }

/// PWL by definition. None where the definition is two-valued (a whole number of repeats).
pub fn pwl(pat: &[(f64, f64)], td: f64, rep: f64, t: f64) -> Option<f64> {
    if pat.is_empty() { return Some(0.0); }
    if t < td { return Some(0.0); }
    let (tl, vl) = pat[pat.len() - 1];
    let mut u = t - td;
    if rep < 0.0 {
        if u >= tl { return Some(vl); }
    } else {
        if tl <= 0.0 { return None; }
        let k = (u / tl).round();
        if k >= 1.0 && (u - k * tl).abs() <= 1e-7 * tl.max(u) { return None; }
        u -= (u / tl).floor() * tl;
    }
    let (mut a, mut b) = (0.0, 0.0);
    for &(x, y) in pat {
        if u <= x {
            if x <= a { return Some(y); }
            return Some(b + (y - b) * (u - a) / (x - a));
        }
        a = x;
        b = y;
    }
    Some(vl)
}

pub fn sine(vo: f64, va: f64, f: f64, t: f64) -> f64 { vo + va * (2.0 * std::f64::consts::PI * f * t).sin() }

/// One equation: residual, sum of magnitudes, error due to the 9 decimals of the
/// waveform file. Rows that depend on something that cannot be judged from outside
/// (a limited diode, a two-valued source instant) are None.
pub type Row = Option<(f64, f64, f64)>;
pub fn residuals(tc: &Tc, x: &[f64], t: f64, prev: Option<(&[f64], f64)>) -> Vec<Row> {
    let nn = tc.n_nodes;
    let n = nn + tc.n_br;
    let mut r: Vec<Row> = vec![Some((0.0f64, 0.0f64, 0.0f64)); n];
    let v = |k: usize| if k == 0 { 0.0 } else { x[k] };
    const Q: f64 = 1e-9;
    fn add(r: &mut Vec<Row>, k: usize, val: f64, sc: f64, q: f64) {
        if k != 0 { if let Some((a, s, c)) = &mut r[k] { *a += val; *s += sc; *c += q; } }
    }
    fn kill(r: &mut Vec<Row>, k: usize) { if k != 0 { r[k] = None; } }
    let mut br = nn;
    for e in &tc.els {
        match e {
            E::R(a, b, val) => {
                let i = (v(*a) - v(*b)) / val;
                let s = (v(*a).abs() + v(*b).abs()) / val.abs();
                add(&mut r, *a, i, s, Q / val.abs());
                add(&mut r, *b, -i, s, Q / val.abs());
            }
            E::I(p, q, val) => { add(&mut r, *p, *val, val.abs(), 0.0); add(&mut r, *q, -val, val.abs(), 0.0); }
            E::Isin(p, q, vo, va, f) => {
                let i = sine(*vo, *va, *f, t);
                let s = vo.abs() + va.abs();
                let z = va.abs() * f.abs() * 7.0 * Q;
                add(&mut r, *p, i, s, z);
                add(&mut r, *q, -i, s, z);
            }
            E::V(p, q, _) | E::Vsin(p, q, ..) | E::Vpwl(p, q, ..) => {
                let mut z = Q;
                let val = match e {
                    E::V(_, _, val) => Some(*val),
                    E::Vsin(_, _, vo, va, f) => { z += va.abs() * f.abs() * 7.0 * Q; Some(sine(*vo, *va, *f, t)) }
                    E::Vpwl(_, _, pat, td, rep) => {
                        let (mut a, mut b) = (0.0, 0.0);
                        for &(x, y) in pat { if x > a { z += Q * ((y - b) / (x - a)).abs(); } a = x; b = y; }
                        // near a jump at the delay, the printed time does not tell the side
                        if (t - td).abs() < 2e-9 && pat.first().map_or(false, |p| p.0 == 0.0) && *td != 0.0 { None } else { pwl(pat, *td, *rep, t) }
                    }
                    _ => None,
                };
                let i = x[br];
                add(&mut r, *p, i, i.abs(), Q);
                add(&mut r, *q, -i, i.abs(), Q);
                r[br] = val.map(|val| (v(*p) - v(*q) - val, v(*p).abs() + v(*q).abs() + val.abs(), z));
                br += 1;
            }
            E::E(p, q, cp, cn, k) => {
                let i = x[br];
                add(&mut r, *p, i, i.abs(), Q);
                add(&mut r, *q, -i, i.abs(), Q);
                r[br] = Some((v(*p) - v(*q) - k * (v(*cp) - v(*cn)), v(*p).abs() + v(*q).abs() + k.abs() * (v(*cp).abs() + v(*cn).abs()), Q * (1.0 + k.abs())));
                br += 1;
            }
            E::G(p, q, cp, cn, k) => {
                let i = k * (v(*cp) - v(*cn));
                let s = k.abs() * (v(*cp).abs() + v(*cn).abs());
                add(&mut r, *p, i, s, k.abs() * Q);
                add(&mut r, *q, -i, s, k.abs() * Q);
            }
            E::C(a, b, c) => {
                if let Some((xp, dt)) = prev {
                    let vp = |k: usize| if k == 0 { 0.0 } else { xp[k] };
                    let g = c / dt;
                    let i = g * ((v(*a) - v(*b)) - (vp(*a) - vp(*b)));
                    let s = g.abs() * (v(*a).abs() + v(*b).abs() + vp(*a).abs() + vp(*b).abs());
                    let z = 2.0 * g.abs() * Q + i.abs() * Q / dt;
                    add(&mut r, *a, i, s, z);
                    add(&mut r, *b, -i, s, z);
                }
            }
            E::D(p, q, is, td) => {
                let vd = v(*p) - v(*q);
                if vd > vcrit(*is, *td) - 0.03 {
                    kill(&mut r, *p);
                    kill(&mut r, *q);
                } else {
                    let ex = (vd / vt(*td)).exp();
                    let i = is * (ex - 1.0);
                    let g = (is / vt(*td) * ex).max(1e-12);
                    let s = is * (ex + 1.0) + g * (v(*p).abs() + v(*q).abs());
                    add(&mut r, *p, i, s, g * Q);
                    add(&mut r, *q, -i, s, g * Q);
                }
            }
        }
    }
    r[0] = None;
    r
}

pub fn check_residuals(r: &[Row], rel: f64, abs: f64, quant: f64) -> Result<(), String> {
    for (i, e) in r.iter().enumerate() {
        if let Some((v, s, q)) = e {
            if !(v.abs() <= rel * s + abs + quant * q) { return Err(format!("equation {} has residual {:e} (sum of magnitudes {:e})", i, v, s)); }
        }
    }
    Ok(())
}

/// The linear system of a circuit at time t, in the order of the statement
/// (unknown 0 fixed at 0), independent of the code under test. None with diodes.
pub fn system(tc: &Tc, t: f64) -> Option<(Vec<Vec<f64>>, Vec<f64>)> {
    let n = tc.n_nodes + tc.n_br;
    let mut a = vec![vec![0.0; n]; n];
    let mut b = vec![0.0; n];
    let mut br = tc.n_nodes;
    a[0][0] = 1.0;
    fn g(a: &mut Vec<Vec<f64>>, r: usize, c: usize, v: f64) { if r != 0 && c != 0 { a[r][c] += v; } }
    for e in &tc.els {
        match e {
            E::R(p, q, v) => { g(&mut a, *p, *p, 1.0 / v); g(&mut a, *q, *q, 1.0 / v); g(&mut a, *p, *q, -1.0 / v); g(&mut a, *q, *p, -1.0 / v); }
            E::I(p, q, v) => { if *p != 0 { b[*p] -= v; } if *q != 0 { b[*q] += v; } }
            E::Isin(p, q, vo, va, f) => { let v = sine(*vo, *va, *f, t); if *p != 0 { b[*p] -= v; } if *q != 0 { b[*q] += v; } }
            E::V(p, q, _) | E::Vsin(p, q, ..) | E::Vpwl(p, q, ..) => {
                b[br] = match e { E::V(_, _, v) => *v, E::Vsin(_, _, vo, va, f) => sine(*vo, *va, *f, t), E::Vpwl(_, _, pat, td, rep) => pwl(pat, *td, *rep, t)?, _ => 0.0 };
                g(&mut a, *p, br, 1.0); g(&mut a, *q, br, -1.0);
                g(&mut a, br, *p, 1.0); g(&mut a, br, *q, -1.0);
                br += 1;
            }
            E::E(p, q, cp, cn, k) => {
                g(&mut a, *p, br, 1.0); g(&mut a, *q, br, -1.0);
                g(&mut a, br, *p, 1.0); g(&mut a, br, *q, -1.0);
                g(&mut a, br, *cp, -k); g(&mut a, br, *cn, *k);
                br += 1;
            }
            E::G(p, q, cp, cn, k) => { g(&mut a, *p, *cp, *k); g(&mut a, *p, *cn, -k); g(&mut a, *q, *cp, -k); g(&mut a, *q, *cn, *k); }
            E::C(..) => {}
            E::D(..) => return None,
        }
    }
    Some((a, b))
}

/// Solution by full pivoting, with a condition estimate of the row-scaled matrix.
pub fn full_pivot(a0: &[Vec<f64>], b0: &[f64]) -> Option<(Vec<f64>, f64)> {
    let n = a0.len();
    let mut a: Vec<Vec<f64>> = a0.to_vec();
    let mut inv = vec![vec![0.0; n]; n];
    let mut norm: f64 = 0.0;
    let mut scale = vec![1.0; n];
    // scale rows, then columns, so the estimate is about the equations themselves
    for i in 0..n {
        let m = a[i].iter().fold(0.0f64, |m, x| m.max(x.abs()));
        if m == 0.0 { return None; }
        scale[i] = m;
        for x in &mut a[i] { *x /= m; }
        inv[i][i] = 1.0;
        norm = norm.max(a[i].iter().map(|x| x.abs()).sum());
    }
    let mut perm: Vec<usize> = (0..n).collect();
    for k in 0..n {
        let (mut pi, mut pj, mut best) = (k, k, 0.0);
        for i in k..n { for j in k..n { if a[i][j].abs() > best { best = a[i][j].abs(); pi = i; pj = j; } } }
        if best < 1e-14 { return None; }
        a.swap(k, pi);
        inv.swap(k, pi);
        for row in a.iter_mut() { row.swap(k, pj); }
        perm.swap(k, pj);
        let d = a[k][k];
        for x in &mut a[k] { *x /= d; }
        for x in &mut inv[k] { *x /= d; }
        for i in 0..n { if i != k { let f = a[i][k]; if f != 0.0 { for j in 0..n { let t = a[k][j]; a[i][j] -= f * t; let t = inv[k][j]; inv[i][j] -= f * t; } } } }
    }
    let ninv: f64 = inv.iter().map(|r| r.iter().map(|x| x.abs()).sum::<f64>()).fold(0.0, f64::max);
    let mut x = vec![0.0; n];
    for k in 0..n { x[perm[k]] = (0..n).map(|j| inv[k][j] * b0[j] / scale[j]).sum(); }
    Some((x, norm * ninv))
}

/// A generic network: every node has a path to ground.
pub fn random_els(r: &mut Rng, o: &GenOpts) -> (Vec<E>, usize) {
    let n = 2 + r.below(o.max_nodes - 1); // nodes including ground
    let mut els = vec![];
    // resistive tree
    for k in 1..n {
        let to = r.below(k);
        let v = r.logu(o.rmin, o.rmax);
        if r.chance(1, 2) { els.push(E::R(k, to, v)) } else { els.push(E::R(to, k, v)) }
    }
    let extra = 1 + r.below(o.max_extra);
    let mut vused = vec![false; n]; // at most one voltage-defined element per node keeps it solvable
    for _ in 0..extra {
        let a = r.below(n);
        let b = r.below(n);
        let kinds: &[u8] = if o.kinds.is_empty() { b"RIVEGDVI" } else { o.kinds };
        match *r.pick(kinds) {
            b'R' => els.push(E::R(a, b, r.logu(o.rmin, o.rmax))),
            b'I' => els.push(E::I(a, b, r.uniform(-o.i, o.i))),
            b'i' => els.push(E::Isin(a, b, r.uniform(-o.i, o.i), r.uniform(-o.i, o.i), r.logu(o.fmin, o.fmax))),
            b'C' => els.push(E::C(a, b, r.logu(o.cmin, o.cmax))),
            b'D' => els.push(E::D(a, b, r.logu(1e-12, 1e-9), 27.0)),
            b'G' => els.push(E::G(a, b, r.below(n), r.below(n), r.uniform(-0.5, 0.5) / o.rmax)),
            k => {
                // voltage-defined: from a not yet driven node towards an earlier node or ground
                let p = r.below(n);
                if p == 0 || vused[p] { continue; }
                let q = r.below(p);
                vused[p] = true;
                let (p, q) = if r.chance(1, 3) { (q, p) } else { (p, q) };
                match k {
                    b'V' => els.push(E::V(p, q, r.uniform(-o.v, o.v))),
                    b'v' => els.push(E::Vsin(p, q, r.uniform(-o.v, o.v), r.uniform(-o.v, o.v), r.logu(o.fmin, o.fmax))),
                    b'p' => {
                        let mut t = 0.0;
                        let mut pat = vec![];
                        if r.chance(1, 3) { pat.push((0.0, r.uniform(-o.v, o.v))); }
                        for _ in 0..1 + r.below(4) { t += r.range(1, 12) as f64 / 4.0 / o.fmax.max(1.0); pat.push((t, r.uniform(-o.v, o.v))); }
                        let rep = if r.chance(1, 2) { -1.0 } else { 0.0 };
                        let td = if r.chance(1, 2) { 0.0 } else { r.range(0, 8) as f64 / 4.0 };
                        els.push(E::Vpwl(p, q, pat, td, rep));
                    }
                    _ => els.push(E::E(p, q, r.below(n), r.below(n), r.uniform(-0.4, 0.4))),
                }
            }
        }
    }
    r.shuffle(&mut els);
    (els, n)
}

pub struct GenOpts { pub max_nodes: usize, pub max_extra: usize, pub kinds: &'static [u8], pub rmin: f64, pub rmax: f64, pub v: f64, pub i: f64, pub cmin: f64, pub cmax: f64, pub fmin: f64, pub fmax: f64 }
impl Default for GenOpts {
    fn default() -> Self { GenOpts { max_nodes: 6, max_extra: 8, kinds: b"", rmin: 10.0, rmax: 1e4, v: 5.0, i: 1e-3, cmin: 0.01, cmax: 2.0, fmin: 0.02, fmax: 0.3 } }
}

pub fn dc(tc: &Tc, cfg: &Configuration) -> (Statistics, Vec<f64>) {
    let mut e = Engine::new();
    let s = e.dc_operating_point(&tc.ckt, cfg);
    (s, e.dc().unwrap_or_default())
}

pub fn scratch() -> PathBuf { std::env::current_dir().unwrap() }

#[derive(Clone)]
pub struct Wave { pub names: Vec<String>, pub units: Vec<String>, pub rows: Vec<Vec<f64>>, pub text: String }
pub fn read_wave(p: &Path) -> Result<Wave, String> {
    let text = std::fs::read_to_string(p).map_err(|e| format!("waveform file unreadable: {}", e))?;
    let mut it = text.lines();
    let names = it.next().ok_or("waveform file empty")?.split('\t').map(String::from).collect();
    let units = it.next().ok_or("waveform file has no units row")?.split('\t').map(String::from).collect();
    let mut rows = vec![];
    for l in it {
        let mut v = vec![];
        for f in l.split('\t') { v.push(f.parse::<f64>().map_err(|_| format!("bad number '{}' in the waveform file", f))?); }
        rows.push(v);
    }
    Ok(Wave { names, units, rows, text })
}

pub fn tran(tc: &Tc, cfg: &Configuration) -> Result<(Statistics, Wave), String> {
    let mut e = Engine::new();
    let s = e.transient_analysis(&tc.ckt, cfg);
    let w = read_wave(Path::new(&cfg.wavefile))?;
    Ok((s, w))
}

/// Exact determinant of a small integer matrix (fraction-free elimination).
pub fn det(m: &[Vec<i128>]) -> i128 {
    let n = m.len();
    let mut a: Vec<Vec<i128>> = m.to_vec();
    let mut prev: i128 = 1;
    let mut sign = 1;
    for k in 0..n {
        if a[k][k] == 0 {
            match (k + 1..n).find(|&i| a[i][k] != 0) {
                Some(i) => { a.swap(i, k); sign = -sign; }
                None => return 0,
            }
        }
        for i in k + 1..n {
            for j in k + 1..n { a[i][j] = (a[i][j] * a[k][k] - a[i][k] * a[k][j]) / prev; }
            a[i][k] = 0;
        }
        prev = a[k][k];
    }
    if n == 0 { 1 } else { sign * a[n - 1][n - 1] }
}

pub fn near(a: f64, b: f64, rel: f64, abs: f64) -> bool { a == b || (a - b).abs() <= rel * a.abs().max(b.abs()) + abs }
