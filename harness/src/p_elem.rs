//! C06, C07, C12
use crate::util::*;
use crate::{desc, guarded, Ctx};
use tiny_spice::bracket_expression::{extract_expression, extract_value, Expression};
use tiny_spice::circuit::*;

pub fn c06(c: &mut Ctx) -> Result<(), String> {
    let r = &mut c.r;
    // sines
    let (vo, va, freq) = (r.uniform(-5.0, 5.0), r.uniform(-5.0, 5.0), r.logu(1e-3, 1e3));
    for _ in 0..6 {
        let t = *r.pick(&[0.0, 0.25 / freq, 0.5 / freq, 1.0 / freq, 7.3 / freq, 100.1 / freq]);
        desc(format!("SIN offset {} amplitude {} frequency {} at t={}", vo, va, freq, t));
        let a = VoltageSourceSine { p: 1, n: 0, vo, va, freq, idx: 0 }.evaluate(t);
        let b = CurrentSourceSine { p: 1, n: 0, vo, va, freq }.evaluate(t);
        let w = sine(vo, va, freq, t);
        if !near(a, w, 1e-9, 1e-9 * va.abs()) { return Err(format!("voltage source is {} instead of {}", a, w)); }
        if !near(b, w, 1e-9, 1e-9 * va.abs()) { return Err(format!("current source is {} instead of {}", b, w)); }
    }
    // PWL
    let scale = *r.pick(&[1.0, 1e-3, 1.0, 0.25]);
    let mut t = 0.0;
    let mut pat = vec![];
    if r.chance(1, 3) { pat.push((0.0, r.range(-20, 20) as f64 / 4.0)); }
    for _ in 0..r.below(6) { t += r.range(1, 9) as f64 / 4.0 * scale; pat.push((t, r.range(-20, 20) as f64 / 4.0)); }
    let td = if r.chance(1, 3) { 0.0 } else { r.range(-4, 12) as f64 / 4.0 * scale };
    let rep = *r.pick(&[-1.0, -1.0, -0.5, 0.0, 0.0, 1.0]);
    let src = VoltageSourcePwl { p: 1, n: 0, pat: pat.clone(), t_delay: td, repeat: rep, idx: 0 };
    let tl = pat.last().map_or(0.0, |p| p.0);
    if rep >= 0.0 && tl <= 0.0 { return Ok(()); }
    let mut steep: f64 = 0.0;
    let (mut a, mut b) = (0.0, 0.0);
    let mut vm: f64 = 0.0;
    for &(x, y) in &pat { if x > a { steep = steep.max(((y - b) / (x - a)).abs()); } a = x; b = y; vm = vm.max(y.abs()); }
    let mut ts = vec![0.0, td];
    let periods = if rep >= 0.0 { 4 } else { 1 };
    for k in 0..periods {
        for &(x, _) in &pat { ts.push(td + k as f64 * tl + x); }
        for w in pat.windows(2) { ts.push(td + k as f64 * tl + (w[0].0 + w[1].0) / 2.0); ts.push(td + k as f64 * tl + w[0].0 * 0.25 + w[1].0 * 0.75); }
        if let Some(f) = pat.first() { ts.push(td + k as f64 * tl + f.0 / 2.0); }
    }
    for _ in 0..10 { ts.push(td + r.uniform(-0.5, periods as f64 + 1.0) * tl.max(1.0)); }
    ts.push(td + tl * 100.0 + 0.3 * scale);
    c.nontrivial = pat.len() > 1;
    for t in ts {
        desc(format!("PWL {:?} td={} r={} at t={}", pat, td, rep, t));
        let v = src.evaluate(t);
        if !v.is_finite() { return Err(format!("value is {}", v)); }
        if let Some(w) = pwl(&pat, td, rep, t) {
            // a jump at the delay is resolved exactly, slopes to rounding
            let tol = 1e-9 * (vm + 1.0) + steep * 1e-12 * (t.abs() + td.abs() + tl);
            if (v - w).abs() > tol { return Err(format!("value is {} instead of {}", v, w)); }
        } else if v.abs() > vm * (1.0 + 1e-9) + 1e-9 {
            return Err(format!("value {} is outside the range of the points", v));
        }
    }
    Ok(())
}

pub fn c07(c: &mut Ctx) -> Result<(), String> {
    let r = &mut c.r;
    let i_sat = if r.chance(1, 4) { r.logu(1e-18, 1e-3) } else { r.logu(1e-15, 1e-6) };
    let tdegc = *r.pick(&[27.0, 27.0, 0.0, -40.0, 85.0, 150.0]);
    let (vt, vc) = (vt(tdegc), vcrit(i_sat, tdegc));
    let d = Diode::new("D1", 1, 0, i_sat, tdegc);
    let d = if r.chance(1, 4) { d.clone() } else { d };
    let mut used = 0.0;
    let mut log = vec![];
    c.nontrivial = true;
    for _ in 0..1 + r.below(12) {
        let v = match r.below(12) {
            9 => -r.logu(10.0, 1e6),
            10 => r.logu(10.0, 1e6),
            11 => *r.pick(&[0.0, -0.0, 1e-12, -1e-12, -1.0, 1.0, vt, -vt]),
            0 => used + r.uniform(-3.0, 3.0) * vt,
            1 => vc + r.uniform(-2.0, 2.0) * vt,
            2 => r.uniform(-10.0, 0.0),
            3 => r.uniform(0.0, 10.0),
            4 => used + r.uniform(-1.9, 1.9) * vt,
            5 => used + *r.pick(&[2.1, -2.1]) * vt,
            6 => vc + r.uniform(0.0, 1.0),
            7 => used - r.uniform(0.0, 30.0) * vt,
            _ => used,
        };
        log.push(v);
        desc(format!("diode i_sat={:e} tdegc={}, requested biases in order {:?}", i_sat, tdegc, log));
        let dv = v - used;
        if (v - vc).abs() < 1e-9 || (dv.abs() - 2.0 * vt).abs() < 1e-9 || (1.0 + dv / vt).abs() < 1e-9 { log.pop(); continue; }
        let w = if v < vc || dv.abs() <= 2.0 * vt { v }
            else if used <= 0.0 { vt * (v / vt).ln() }
            else if 1.0 + dv / vt <= 0.0 { vc }
            else { used + vt * (1.0 + dv / vt).ln() };
        if !(w / vt < 600.0) || w.is_nan() { return Ok(()); } // not in the range of f64
        let (g, i) = d.linearize(v, r.uniform(-1.0, 1.0));
        let e = (w / vt).exp();
        let gw = (i_sat / vt * e).max(GMIN);
        let iw = i_sat * (e - 1.0);
        if !near(g, gw, 1e-9, 0.0) { return Err(format!("conductance {:e} at bias {} instead of {:e}", g, w, gw)); }
        if g < GMIN { return Err(format!("conductance {:e} below GMIN", g)); }
        let at = g * w + i;
        if !((at - iw).abs() <= 1e-8 * (iw.abs() + (g * w).abs()) + 1e-25) { return Err(format!("companion model carries {:e} A at bias {} instead of {:e} A", at, w, iw)); }
        used = w;
    }
    Ok(())
}

/// The value of a text. Ok(v): must be read as v. Err(lenient set): not covered by the
/// grammar; may be rejected or read as one of these.
fn number(t: &str) -> Result<f64, Vec<f64>> {
    let b: Vec<char> = t.chars().collect();
    let dig = |i: usize| i < b.len() && b[i].is_ascii_digit();
    let mut i = 0;
    if i < b.len() && (b[i] == '+' || b[i] == '-') { i += 1; }
    let s0 = i;
    while dig(i) { i += 1; }
    let nint = i - s0;
    let mut strict = nint > 0;
    let mut nfrac = 0;
    if i < b.len() && b[i] == '.' {
        i += 1;
        let f0 = i;
        while dig(i) { i += 1; }
        nfrac = i - f0;
        if nfrac == 0 { strict = false; }
    }
    if nint + nfrac == 0 { return Err(vec![]); }
    let p = |s: &[char]| s.iter().collect::<String>().parse::<f64>().unwrap();
    let base = p(&b[..i]);
    if i == b.len() { return if strict { Ok(base) } else { Err(vec![base]) }; }
    let m = match b[i] { 'k' => 1e3, 'm' => 1e-3, 'u' => 1e-6, 'n' => 1e-9, 'p' => 1e-12, _ => 0.0 };
    if m != 0.0 { return if strict { Ok(base * m) } else { Err(vec![base * m]) }; }
    if b[i] == 'e' {
        let mut j = i + 1;
        if j < b.len() && (b[j] == '+' || b[j] == '-') { j += 1; }
        let e0 = j;
        while dig(j) { j += 1; }
        if j == e0 { return Err(vec![]); } // an exponent without digits
        let v = p(&b[..j]);
        return if strict && j == b.len() { Ok(v) } else { Err(vec![v]) };
    }
    // some other text after the number
    Err(vec![base])
}

pub fn c12(c: &mut Ctx) -> Result<(), String> {
    let r = &mut c.r;
    for k in 0..40 {
        let mut t = String::new();
        match (r.below(6), k % 4) {
            (0, _) => {
                // fuzz
                let pool: Vec<char> = "0123456789+-.ekmunpE{} \t_aXz\u{e9}\u{661}\u{2003}\u{1F600}=".chars().collect();
                for _ in 0..r.below(9) { t.push(*r.pick(&pool)); }
            }
            (1, 0) => {
                // expressions
                let ws = |r: &mut Rng| (0..r.below(3)).map(|_| *r.pick(&[' ', '\t', ' '])).collect::<String>();
                let pool: Vec<char> = "abcXYZ0129".chars().collect();
                let name: String = (0..1 + r.below(6)).map(|_| *r.pick(&pool)).collect();
                let t = format!("{{{}{}{}}}", ws(r), name, ws(r));
                desc(format!("extract_expression({:?})", t));
                match extract_expression(&t) {
                    Some(Expression::Identifier(ref n)) if *n == name => {}
                    o => return Err(format!("read as {:?} instead of identifier {}", o, name)),
                }
                // every truncation is handled
                let cs: Vec<char> = t.chars().collect();
                for n in 0..cs.len() {
                    let u: String = cs[..n].iter().collect();
                    desc(format!("extract_expression({:?})", u));
                    if guarded(|| extract_expression(&u)).is_none() { return Err("crash".into()); }
                    if let Some(o) = extract_expression(&u) { return Err(format!("unterminated expression read as {:?}", o)); }
                }
                continue;
            }
            _ => {
                if r.chance(1, 3) { t.push(*r.pick(&['+', '-'])); }
                let d = |r: &mut Rng, t: &mut String, lo: usize, hi: usize| for _ in 0..lo + r.below(hi) { t.push((b'0' + r.below(10) as u8) as char); };
                d(r, &mut t, 0, 5);
                if r.chance(1, 2) { t.push('.'); d(r, &mut t, 0, 5); }
                match r.below(4) {
                    0 => { t.push('e'); if r.chance(1, 2) { t.push(*r.pick(&['+', '-'])); } let m = r.below(3); for _ in 0..m { t.push((b'0' + r.below(10) as u8) as char); } }
                    1 | 2 => { t.push(*r.pick(&['k', 'm', 'u', 'n', 'p'])); if r.chance(1, 3) { t.push_str(*r.pick(&["F", "eg", "Ohm", "1", "e5", ".", "\u{3a9}"])); } }
                    _ => {}
                }
                if r.chance(1, 8) { t.push(*r.pick(&['x', 'K', 'E', '.', '-', '}', ' '])); }
            }
        }
        c.nontrivial = true;
        desc(format!("extract_value({:?})", t));
        let got = match guarded(|| extract_value(&t)) { Some(g) => g, None => return Err("crash".into()) };
        match (number(&t), got) {
            (Ok(v), Some(g)) => if !(g == v || (g - v).abs() <= 1e-15 * v.abs()) { return Err(format!("read as {:e} instead of {:e}", g, v)); },
            (Ok(v), None) => return Err(format!("rejected, but it spells {:e}", v)),
            (Err(_), None) => {}
            (Err(set), Some(g)) => if !set.iter().any(|v| *v == g || (g - *v).abs() <= 1e-15 * v.abs()) { return Err(format!("read as {:e}, but it is not a number{}", g, if set.is_empty() { "" } else { " of that value" })); },
        }
        if !t.starts_with('{') {
            let e = match guarded(|| extract_expression(&t)) { Some(e) => e, None => { desc(format!("extract_expression({:?})", t)); return Err("crash".into()) } };
            let ok = match (e, got) { (Some(Expression::Literal(a)), Some(b)) => a == b, (None, None) => true, _ => false };
            if !ok { return Err("extract_expression and extract_value disagree on a literal".into()); }
        } else if guarded(|| extract_expression(&t)).is_none() { desc(format!("extract_expression({:?})", t)); return Err("crash".into()); }
    }
    Ok(())
}
