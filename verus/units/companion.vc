@prelude f64s cellinv strs dio
@broadcast super::f64s::group_f64
@type NodeId Diode Capacitor
@rawfile companion
@fn element/diode.rs Diode::linearize
@ret out
@spec
  requires dio_wf(*self), fin(v_hat)
  ensures fin(out.0), fin(out.1), nm(out.0) > 0real, comp_ok(*self, nm(v_hat), nm(out.0), nm(out.1)),
@begin
  proof { lemma_div_pos(nm(v_hat), nm(self.v_thermal)); }
@end
  proof { assert(bias_from(*self, nm(v_hat), nm(v_d_prev), nm(g_eq), nm(i_eq))); }
@endfn
@fn element/capacitor.rs Capacitor::linearize
@ret out
@spec
  requires fin(self.value), fin(v_prev), fin(t_delta), nm(t_delta) > 0real
  ensures out.0 == num(nm(self.value) / nm(t_delta)), out.1 == num(nm(self.value) / nm(t_delta) * nm(v_prev))
@endfn
