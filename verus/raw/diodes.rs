pub open spec fn vt_of(tdegc: real) -> real { s_BOLTZMANN() * (363real + tdegc) / s_CHARGE() }
pub open spec fn vc_of(vt: real, is: real) -> real { vt * r_ln(vt / (r_sqrt(2real) * is)) }
pub open spec fn diode_ok(d: Diode) -> bool {
    &&& fin(d.i_sat) && nm(d.i_sat) > 0real
    &&& fin(d.v_thermal) && nm(d.v_thermal) > 0real
    &&& fin(d.v_crit)
    &&& fin(d.v_d_prev)
}
pub proof fn lemma_vt_pos(t: real)
    requires t > -363real ensures vt_of(t) > 0real
{
    let b = s_BOLTZMANN(); let c = s_CHARGE(); let k = 363real + t;
    assert(b > 0real && c > 0real);
    assert(b * k > 0real) by (nonlinear_arith) requires b > 0real, k > 0real;
    let x = b * k;
    assert(x / c > 0real) by (nonlinear_arith) requires x > 0real, c > 0real;
}
