// ------------------------------------------------------------ source waveforms --
pub open spec fn sine_val(vo: real, va: real, freq: real, t: real) -> real { vo + va * r_sin(2real * r_pi() * freq * t) }
pub open spec fn points_ok(pat: Seq<(f64, f64)>) -> bool {
    &&& forall|i: int| 0 <= i < pat.len() ==> fin((#[trigger] pat[i]).0) && fin(pat[i].1)
    &&& forall|i: int| 0 <= i < pat.len() ==> nm((#[trigger] pat[i]).0) >= 0real
    &&& forall|i: int, j: int| 0 <= i < j < pat.len() ==> nm((#[trigger] pat[i]).0) < nm((#[trigger] pat[j]).0)
}
pub open spec fn line(t1: real, v1: real, t2: real, v2: real, w: real) -> real { if t2 <= t1 { v2 } else { (v2 - v1) / (t2 - t1) * (w - t1) + v1 } }
// the polygon (0,0), points... at time w: on the way to the first point i or later that is not before w
pub open spec fn poly(pat: Seq<(f64, f64)>, i: int, w: real) -> real
    decreases pat.len() - i
{
    if i < 0 || i >= pat.len() { 0real }
    else if w <= nm(pat[i].0) {
        if i == 0 { line(0real, 0real, nm(pat[0].0), nm(pat[0].1), w) }
        else { line(nm(pat[i - 1].0), nm(pat[i - 1].1), nm(pat[i].0), nm(pat[i].1), w) }
    } else { poly(pat, i + 1, w) }
}
pub open spec fn pwl_val(pat: Seq<(f64, f64)>, td: real, rep: real, t: real) -> real {
    if pat.len() == 0 || t < td { 0real }
    else {
        let last = pat[pat.len() - 1];
        let period = nm(last.0);
        if rep < 0real {
            if t - td >= period { nm(last.1) } else { poly(pat, 0, t - td) }
        } else if period == 0real { nm(last.1) }
        else { poly(pat, 0, rrem(t - td, period)) }
    }
}
// what the statement says in so many words follows from that definition
pub proof fn lemma_pwl_points(pat: Seq<(f64, f64)>, td: real, rep: real, k: int)
    requires points_ok(pat), 0 <= k < pat.len(), rep < 0real
    ensures pwl_val(pat, td, rep, td + nm(pat[k].0)) == nm(pat[k].1)
{
    let w = nm(pat[k].0);
    if k < pat.len() - 1 {
        assert(nm(pat[k].0) < nm(pat[pat.len() - 1].0));
        lemma_poly_first(pat, 0, k, w);
        if k > 0 {
            let t1 = nm(pat[k - 1].0); let d = w - t1; let v1 = nm(pat[k - 1].1); let v2 = nm(pat[k].1);
            assert(nm(pat[k - 1].0) < nm(pat[k].0));
            assert((v2 - v1) / d * d == v2 - v1) by (nonlinear_arith) requires d > 0real;
        } else if w > 0real {
            let v2 = nm(pat[0].1);
            assert((v2 - 0real) / (w - 0real) * (w - 0real) == v2) by (nonlinear_arith) requires w > 0real;
        }
    }
}
pub proof fn lemma_poly_first(pat: Seq<(f64, f64)>, i: int, k: int, w: real)
    requires points_ok(pat), 0 <= i <= k < pat.len(), w <= nm(pat[k].0), k > 0 ==> w > nm(pat[k - 1].0)
    ensures poly(pat, i, w) == (if k == 0 { line(0real, 0real, nm(pat[0].0), nm(pat[0].1), w) }
        else { line(nm(pat[k - 1].0), nm(pat[k - 1].1), nm(pat[k].0), nm(pat[k].1), w) })
    decreases k - i
{
    if i < k {
        if i < k - 1 { assert(nm(pat[i].0) < nm(pat[k - 1].0)); }
        lemma_poly_first(pat, i + 1, k, w);
    }
}
// a repeating source restarts: one period later it has the same value
pub proof fn lemma_pwl_periodic(pat: Seq<(f64, f64)>, td: real, rep: real, t: real)
    requires points_ok(pat), pat.len() > 0, rep >= 0real, t >= td, nm(pat[pat.len() - 1].0) > 0real
    ensures pwl_val(pat, td, rep, t + nm(pat[pat.len() - 1].0)) == pwl_val(pat, td, rep, t)
{
    let p = nm(pat[pat.len() - 1].0);
    let u = t - td;
    ax_rrem(u, p);
    ax_rrem(u + p, p);
    let r1 = rrem(u, p); let r2 = rrem(u + p, p); let a = rquo(u, p); let b = rquo(u + p, p);
    assert(r2 - r1 == p * (a as real + 1real - b as real)) by (nonlinear_arith) requires u == p * (a as real) + r1, u + p == p * (b as real) + r2;
    let z = a + 1 - b;
    assert(z as real == a as real + 1real - b as real);
    if z >= 1 { assert(p * (z as real) >= p) by (nonlinear_arith) requires z as real >= 1real, p > 0real; }
    else if z <= -1 { assert(p * (z as real) <= -p) by (nonlinear_arith) requires z as real <= -1real, p > 0real; }
    else { assert(p * (z as real) == 0real) by (nonlinear_arith) requires z as real == 0real; }
    assert(r1 == r2);
    assert((t + p) - td == u + p);
}
