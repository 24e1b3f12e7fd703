@prelude f64s cells strs srcs
@broadcast super::f64s::group_f64
@type NodeId
@raw
pub proof fn lemma_rem_small(u: real, p: real)
    requires 0real <= u < p
    ensures rrem(u, p) == u
{
    ax_rrem(u, p);
    let q = rquo(u, p);
    if q >= 1 { assert(p * (q as real) >= p) by (nonlinear_arith) requires q as real >= 1real, p > 0real; }
    else if q <= -1 { assert(p * (q as real) <= -p) by (nonlinear_arith) requires q as real <= -1real, p > 0real; }
    else { assert(p * (q as real) == 0real) by (nonlinear_arith) requires q as real == 0real; }
}
@fn element/vsine.rs VoltageSourceSine::evaluate
@ret r
@spec
  requires fin(self.vo), fin(self.va), fin(self.freq), fin(t)
  ensures r == num(sine_val(nm(self.vo), nm(self.va), nm(self.freq), nm(t)))
@endfn
@fn element/isine.rs CurrentSourceSine::evaluate
@ret r
@spec
  requires fin(self.vo), fin(self.va), fin(self.freq), fin(t)
  ensures r == num(sine_val(nm(self.vo), nm(self.va), nm(self.freq), nm(t)))
@endfn
@fn element/vpwl.rs VoltageSourcePwl::evaluate
@ret r
@spec
  requires fin(t), fin(self.t_delay), fin(self.repeat), points_ok(self.pat@)
  ensures r == num(pwl_val(self.pat@, nm(self.t_delay), nm(self.repeat), nm(t)))
@loop 0
          invariant_except_break
            t2 == num(0real), v2 == num(0real),
            it0 == 0 ==> t1 == num(0real) && v1 == num(0real),
            it0 > 0 ==> t1 == self.pat@[it0 - 1].0 && v1 == self.pat@[it0 - 1].1,
            fin(t_cycle) ==> poly(self.pat@, 0, nm(t_cycle)) == poly(self.pat@, it0 as int, nm(t_cycle)),
            fin(t_cycle) && it0 > 0 ==> nm(t_cycle) > nm(self.pat@[it0 - 1].0),
            !fin(t_cycle) ==> it0 == 0,
          ensures
            1 <= it0 <= self.pat.len(),
            t2 == self.pat@[it0 - 1].0, v2 == self.pat@[it0 - 1].1,
            it0 == 1 ==> t1 == num(0real) && v1 == num(0real),
            it0 > 1 ==> t1 == self.pat@[it0 - 2].0 && v1 == self.pat@[it0 - 2].1,
            fin(t_cycle) ==> poly(self.pat@, 0, nm(t_cycle)) == poly(self.pat@, it0 - 1, nm(t_cycle)),
            fin(t_cycle) ==> nm(t_cycle) <= nm(t2),
@loop 0 before
        proof {
          let p = nm(self.pat@[self.pat.len() - 1].0);
          if p != 0real {
            let u = nm(t) - nm(self.t_delay);
            ax_rrem(u, p);
            if nm(self.repeat) < 0real { lemma_rem_small(u, p); }
          } else if self.pat.len() > 1 { assert(nm(self.pat@[0].0) < p); }
        }
@endfn
