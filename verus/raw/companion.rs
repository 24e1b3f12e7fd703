// a diode with a critical voltage above zero (saturation current below vt/sqrt(2))
pub open spec fn dio_wf(d: Diode) -> bool {
    &&& fin(d.i_sat) && nm(d.i_sat) > 0real
    &&& fin(d.v_thermal) && nm(d.v_thermal) > 0real
    &&& fin(d.v_crit) && nm(d.v_crit) > 0real
}
// the conductance and current are those of the companion model for the requested bias v,
// limited from some earlier bias
pub open spec fn comp_ok(d: Diode, v: real, g: real, i: real) -> bool {
    exists|prev: real| #[trigger] bias_from(d, v, prev, g, i)
}
pub open spec fn bias_from(d: Diode, v: real, prev: real, g: real, i: real) -> bool {
    tangent(nm(d.i_sat), nm(d.v_thermal), s_GMIN(), bias(v, prev, nm(d.v_thermal), nm(d.v_crit)), g, i)
}
