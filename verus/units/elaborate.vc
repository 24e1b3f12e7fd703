@prelude f64s cellinv linalg strs mna dio srcs maps
@broadcast super::f64s::group_f64
@type NodeId Element Diode Capacitor Circuit Engine
@const GMIN
@rawfile dim elements branches companion engine nodes lists
@raw
// at most one element more than before
pub open spec fn grown(a: Seq<Element>, b: Seq<Element>) -> bool { a == b || b == a.push(b.last()) && b.len() == a.len() + 1 }
pub open spec fn gain(a: Seq<Element>, b: Seq<Element>, ps: Ps, x: Seq<real>, nc: int, i: int, j: int) -> real {
    if b.len() > a.len() { el_res(b.last(), ps, x, nc, i, j) } else { 0real }
}
pub proof fn lemma_grown(a: Seq<Element>, b: Seq<Element>, ps: Ps, x: Seq<real>, nc: int, i: int, j: int)
    requires grown(a, b), b.len() > a.len() && b.last() is D ==> j == nd(a, a.len() as int)
    ensures total(b, ps, x, nc, i) == total(a, ps, x, nc, i) + gain(a, b, ps, x, nc, i, j)
{
    reveal(el_res);
    if b.len() > a.len() { lemma_tot_push(a, b.last(), ps, x, nc, i); }
}
pub proof fn lemma_grown_nd(a: Seq<Element>, b: Seq<Element>)
    requires grown(a, b)
    ensures nd(b, b.len() as int) == nd(a, a.len() as int) + if b.len() > a.len() && b.last() is D { 1int } else { 0int }
{ if b.len() > a.len() { lemma_nd_ext(a, b, a.len() as int); } }
pub proof fn lemma_zero(m: Seq<Vec<f64>>, n: int)
    requires dims(m, n), forall|i: int, j: int| 0 <= i < n && 0 <= j <= n ==> #[trigger] m[i]@[j] == num(0real)
    ensures fin_mat(m, n), n > 0 ==> row0(m, n), forall|x: Seq<real>, i: int| #![trigger rrow(m, x, n, i)] x.len() == n && 1 <= i < n ==> rrow(m, x, n, i) == 0real
{
    assert forall|x: Seq<real>, i: int| #![trigger rrow(m, x, n, i)] x.len() == n && 1 <= i < n implies rrow(m, x, n, i) == 0real by {
        assert forall|j: int| 1 <= j < n implies nm(m[i]@[j]) == 0real by { assert(m[i]@[j] == num(0real)); }
        lemma_dot_zero(m[i]@, x, 1, n);
        assert(m[i]@[n] == num(0real));
    }
}
@assume_from stamps Engine::stamp_current_source Engine::stamp_voltage_source Engine::stamp_resistor
@assume_from counts Circuit::count_nodes Circuit::count_voltage_sources
@assumed engine.rs Engine::pp_matrix
@endfn
@fn engine.rs Engine::elaborate
@spec
  requires ckt_ok(ckt)
  ensures elaborated(final(self), ckt.elements@), same_diodes(final(self).nonlinear_elements@, ckt.elements@, ckt.elements.len() as int), final(self).dc_op == old(self).dc_op
@begin
    proof { let els = ckt.elements@; lemma_nbr_mono(els, 0, els.len() as int); lemma_branches(els); }
@loop 0 before
    proof { lemma_zero(m@, dim(self)); }
@loop 0
    invariant engine_ok(self), node_count(ckt.elements@, self.c_nodes as int), self.c_vsrcs == nbr(ckt.elements@, ckt.elements.len() as int),
      fin_mat(m@, dim(self)), row0(m@, dim(self)), covers(self, m@, ckt.elements@, it0 as int),
      same_diodes(self.nonlinear_elements@, ckt.elements@, it0 as int), self.dc_op == old(self).dc_op
@loop 0 begin
    let ghost mb = m@;
    let ghost sb = *self;
    let ghost e = ckt.elements@[it0 - 1];
    proof { assert(*el == e && val_ok(e)); lemma_touch(e); lemma_nd_ext(ckt.elements@, ckt.elements@, it0 - 1); lemma_branches(ckt.elements@); }
@loop 0 end
    proof {
      let els = ckt.elements@;
      let nc = self.c_nodes as int;
      let j = nd(els, it0 - 1);
      lemma_grown_nd(sb.nonlinear_elements@, self.nonlinear_elements@);
      assert(nd(els, it0 as int) == j + if e is D { 1int } else { 0int });
      assert forall|ps: Ps, x: Seq<real>, i: int| #![trigger tot(els, ps, x, nc, i, it0 as int)] x.len() == dim(self) && 1 <= i < dim(self) implies
        tot(els, ps, x, nc, i, it0 as int) == rrow(m@, x, dim(self), i)
          + total(self.independent_sources@, ps, x, nc, i)
          + total(self.v_dependent_sources@, ps, x, nc, i)
          + total(self.storage_elements@, ps, x, nc, i)
          + total(self.nonlinear_elements@, ps, x, nc, i) by {
        lemma_grown(sb.independent_sources@, self.independent_sources@, ps, x, nc, i, j);
        lemma_grown(sb.v_dependent_sources@, self.v_dependent_sources@, ps, x, nc, i, j);
        lemma_grown(sb.storage_elements@, self.storage_elements@, ps, x, nc, i, j);
        lemma_grown(sb.nonlinear_elements@, self.nonlinear_elements@, ps, x, nc, i, j);
        assert(tot(els, ps, x, nc, i, it0 - 1) == rrow(mb, x, dim(self), i)
          + total(sb.independent_sources@, ps, x, nc, i)
          + total(sb.v_dependent_sources@, ps, x, nc, i)
          + total(sb.storage_elements@, ps, x, nc, i)
          + total(sb.nonlinear_elements@, ps, x, nc, i));
        reveal(el_res);
      }
    }
@endfn
