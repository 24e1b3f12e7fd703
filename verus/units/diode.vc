@prelude f64s cells strs dio
@broadcast super::f64s::group_f64
@celltypes Diode
@type NodeId
@rawfile diodes
@fn element/diode.rs Diode::linearize
@cellmut
@ret out
@spec
  requires diode_ok(*old(self)), fin(v_hat),
    bias_defined(nm(v_hat), nm(old(self).v_d_prev), nm(old(self).v_thermal), nm(old(self).v_crit))
  ensures
    ({ let w = bias(nm(v_hat), nm(old(self).v_d_prev), nm(old(self).v_thermal), nm(old(self).v_crit));
       &&& fin(out.0) && fin(out.1)
       &&& tangent(nm(old(self).i_sat), nm(old(self).v_thermal), s_GMIN(), w, nm(out.0), nm(out.1))
       &&& final(self).v_d_prev == num(w) }),
    nm(out.0) >= s_GMIN(),
    diode_ok(*final(self)), final(self).i_sat == old(self).i_sat, final(self).v_thermal == old(self).v_thermal, final(self).v_crit == old(self).v_crit,
    final(self).p == old(self).p, final(self).n == old(self).n
@begin
  broadcast use super::f64s::group_alg;
  proof { lemma_div_pos(nm(v_hat), nm(old(self).v_thermal)); }
@endfn
@fn element/diode.rs Diode::update_v_thermal
@cellmut
@spec
  requires fin(old(self).tdegc)
  ensures final(self).v_thermal == num(vt_of(nm(old(self).tdegc))),
    final(self).i_sat == old(self).i_sat, final(self).p == old(self).p, final(self).n == old(self).n, final(self).tdegc == old(self).tdegc,
    final(self).v_d_prev == old(self).v_d_prev, final(self).ident@ == old(self).ident@
@endfn
@fn element/diode.rs Diode::update_v_crit
@cellmut
@spec
  requires fin(old(self).v_thermal), fin(old(self).i_sat), nm(old(self).v_thermal) > 0real, nm(old(self).i_sat) > 0real
  ensures final(self).v_crit == num(vc_of(nm(old(self).v_thermal), nm(old(self).i_sat))),
    final(self).i_sat == old(self).i_sat, final(self).p == old(self).p, final(self).n == old(self).n, final(self).tdegc == old(self).tdegc,
    final(self).v_thermal == old(self).v_thermal, final(self).v_d_prev == old(self).v_d_prev, final(self).ident@ == old(self).ident@
@begin
  proof { lemma_sqrt2(nm(old(self).i_sat)); lemma_div_pos(nm(old(self).v_thermal), r_sqrt(2real) * nm(old(self).i_sat)); }
@endfn
@fn element/diode.rs Diode::new
@cellmut
@ret d
@spec
  requires fin(i_sat), nm(i_sat) > 0real, fin(tdegc), vt_of(nm(tdegc)) > 0real
  ensures diode_ok(d), d.p == p, d.n == n, d.i_sat == i_sat, d.tdegc == tdegc, d.ident@ == ident@,
    d.v_thermal == num(vt_of(nm(tdegc))), d.v_crit == num(vc_of(vt_of(nm(tdegc)), nm(i_sat))), d.v_d_prev == num(0real)
@endfn
