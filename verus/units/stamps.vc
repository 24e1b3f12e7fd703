@prelude f64s cells linalg strs mna
@broadcast super::f64s::group_f64
@type NodeId
@rawfile dim
@fn engine.rs Engine::stamp_current_source
@spec
  requires dim(self) < usize::MAX, fin_mat(old(m)@, dim(self)), fin(isrc.value), isrc.p < self.c_nodes, isrc.n < self.c_nodes
  ensures fin_mat(final(m)@, dim(self)), row0(old(m)@, dim(self)) ==> row0(final(m)@, dim(self)),
    forall|x: Seq<real>, i: int| x.len() == dim(self) && 1 <= i < dim(self) ==> #[trigger] rrow(final(m)@, x, dim(self), i)
      == rrow(old(m)@, x, dim(self), i) + res_isrc(i, isrc.p as int, isrc.n as int, nm(isrc.value))
@end
  proof {
    assert(fin_mat(m@, dim(self)));
    assert forall|i: int, j: int| #![trigger m@[i]@[j]] 0 <= i < dim(self) && 0 <= j < dim(self) implies nm(m@[i]@[j]) == nm(old(m)@[i]@[j]) + (d_none())(i, j) by {}
    assert forall|i: int| #![trigger m@[i]] 0 <= i < dim(self) implies nm(m@[i]@[dim(self)]) == nm(old(m)@[i]@[dim(self)]) + (rhs_i(isrc.p as int, isrc.n as int, nm(isrc.value)))(i) by {}
    lemma_r_isrc(old(m)@, m@, dim(self), isrc.p as int, isrc.n as int, nm(isrc.value));
  }
@endfn
@fn engine.rs Engine::stamp_voltage_source
@spec
  requires dim(self) < usize::MAX, fin_mat(old(m)@, dim(self)), fin(vsrc.value), vsrc.p < self.c_nodes, vsrc.n < self.c_nodes, vsrc.idx < self.c_vsrcs
  ensures fin_mat(final(m)@, dim(self)), row0(old(m)@, dim(self)) ==> row0(final(m)@, dim(self)),
    forall|x: Seq<real>, i: int| x.len() == dim(self) && 1 <= i < dim(self) ==> #[trigger] rrow(final(m)@, x, dim(self), i)
      == rrow(old(m)@, x, dim(self), i) + res_vsrc(x, i, vsrc.p as int, vsrc.n as int, self.c_nodes + vsrc.idx, nm(vsrc.value))
@end
  proof {
    assert(fin_mat(m@, dim(self)));
    assert forall|i: int, j: int| #![trigger m@[i]@[j]] 0 <= i < dim(self) && 0 <= j < dim(self) implies nm(m@[i]@[j]) == nm(old(m)@[i]@[j]) + (d_vsrc(vsrc.p as int, vsrc.n as int, self.c_nodes + vsrc.idx))(i, j) by {}
    assert forall|i: int| #![trigger m@[i]] 0 <= i < dim(self) implies nm(m@[i]@[dim(self)]) == nm(old(m)@[i]@[dim(self)]) + (rhs_v(self.c_nodes + vsrc.idx, nm(vsrc.value)))(i) by {}
    lemma_r_vsrc(old(m)@, m@, dim(self), vsrc.p as int, vsrc.n as int, self.c_nodes + vsrc.idx, nm(vsrc.value));
  }
@endfn
@fn engine.rs Engine::stamp_resistor
@spec
  requires dim(self) < usize::MAX, fin_mat(old(m)@, dim(self)), fvdiv(FV::Num(1real), fv(r.value)) is Num, r.a < self.c_nodes, r.b < self.c_nodes
  ensures fin_mat(final(m)@, dim(self)), row0(old(m)@, dim(self)) ==> row0(final(m)@, dim(self)),
    forall|x: Seq<real>, i: int| x.len() == dim(self) && 1 <= i < dim(self) ==> #[trigger] rrow(final(m)@, x, dim(self), i)
      == rrow(old(m)@, x, dim(self), i) + res_cond(x, i, r.a as int, r.b as int, fvdiv(FV::Num(1real), fv(r.value))->Num_0)
@end
  proof {
    assert(fin_mat(m@, dim(self)));
    assert forall|i: int, j: int| #![trigger m@[i]@[j]] 0 <= i < dim(self) && 0 <= j < dim(self) implies nm(m@[i]@[j]) == nm(old(m)@[i]@[j]) + (d_cond(r.a as int, r.b as int, fvdiv(FV::Num(1real), fv(r.value))->Num_0))(i, j) by {}
    assert forall|i: int| #![trigger m@[i]] 0 <= i < dim(self) implies nm(m@[i]@[dim(self)]) == nm(old(m)@[i]@[dim(self)]) + (no_rhs())(i) by {}
    lemma_r_cond(old(m)@, m@, dim(self), r.a as int, r.b as int, fvdiv(FV::Num(1real), fv(r.value))->Num_0);
  }
@endfn
