// ------------------------------------------------------------ diode equations --
// the bias actually used when v is asked for and prev was used before
pub open spec fn bias(v: real, prev: real, vt: real, vc: real) -> real {
    if v < vc || rabs(v - prev) <= 2real * vt { v }
    else if prev <= 0real { vt * r_ln(v / vt) }
    else if 1real + (v - prev) / vt <= 0real { vc }
    else { prev + vt * r_ln(1real + (v - prev) / vt) }
}
// there the logarithm is defined
pub open spec fn bias_defined(v: real, prev: real, vt: real, vc: real) -> bool {
    v < vc || rabs(v - prev) <= 2real * vt || prev > 0real || v > 0real
}
pub open spec fn diode_current(is: real, vt: real, v: real) -> real { is * (r_exp(v / vt) - 1real) }
pub open spec fn diode_slope(is: real, vt: real, v: real) -> real { (is / vt) * r_exp(v / vt) }
// conductance g with current source i: the tangent at w (or gmin through the same point)
pub open spec fn tangent(is: real, vt: real, gmin: real, w: real, g: real, i: real) -> bool {
    &&& g == rmax(diode_slope(is, vt, w), gmin)
    &&& g * w + i == diode_current(is, vt, w)
}
pub proof fn lemma_div_pos(a: real, b: real)
    requires b > 0real
    ensures a > 0real ==> a / b > 0real, a / b * b == a
{
    assert(a / b * b == a) by (nonlinear_arith) requires b > 0real;
    if a > 0real { assert(a / b > 0real) by (nonlinear_arith) requires a > 0real, b > 0real; }
}
pub proof fn lemma_sqrt2(is: real)
    requires is > 0real
    ensures r_sqrt(2real) * is > 0real, r_sqrt(2real) > 0real
{
    ax_sqrt(2real);
    let s = r_sqrt(2real);
    assert(s > 0real) by (nonlinear_arith) requires s >= 0real, s * s == 2real;
    assert(s * is > 0real) by (nonlinear_arith) requires s > 0real, is > 0real;
}
