@prelude f64s cellinv linalg strs mna dio srcs maps
@broadcast super::f64s::group_f64
@type NodeId Element Diode Capacitor Circuit Engine
@const GMIN
@rawfile dim elements companion engine nodes lists
@assume_from stamps Engine::stamp_current_source Engine::stamp_voltage_source Engine::stamp_resistor
@assume_from sources VoltageSourceSine::evaluate CurrentSourceSine::evaluate VoltageSourcePwl::evaluate
@assume_from companion Diode::linearize Capacitor::linearize
@fn engine.rs Engine::independent_source_stamp
@spec
  requires dim(self) < usize::MAX, fin_mat(old(m)@, dim(self)), ind_ok(self.independent_sources@, self.c_nodes as int, self.c_vsrcs as int), fin(t_now)
  ensures fin_mat(final(m)@, dim(self)), row0(old(m)@, dim(self)) ==> row0(final(m)@, dim(self)),
    forall|ps: Ps, x: Seq<real>, i: int| #![trigger rrow(final(m)@, x, dim(self), i), total(self.independent_sources@, ps, x, self.c_nodes as int, i)]
      x.len() == dim(self) && 1 <= i < dim(self) && ps.t == nm(t_now) ==>
      rrow(final(m)@, x, dim(self), i) == rrow(old(m)@, x, dim(self), i) + total(self.independent_sources@, ps, x, self.c_nodes as int, i)
@loop 0
    invariant fin_mat(m@, dim(self)), row0(old(m)@, dim(self)) ==> row0(m@, dim(self)),
      forall|ps: Ps, x: Seq<real>, i: int| #![trigger rrow(m@, x, dim(self), i), tot(self.independent_sources@, ps, x, self.c_nodes as int, i, it0 as int)]
        x.len() == dim(self) && 1 <= i < dim(self) && ps.t == nm(t_now) ==>
        rrow(m@, x, dim(self), i) == rrow(old(m)@, x, dim(self), i) + tot(self.independent_sources@, ps, x, self.c_nodes as int, i, it0 as int)
@loop 0 begin
    let ghost mb = m@;
    proof { let e = self.independent_sources@[it0 - 1]; assert(*el == e && is_ind(e) && el_ok(e, self.c_nodes as int, self.c_vsrcs as int)); lemma_touch(e); }
@loop 0 end
    proof {
      assert forall|ps: Ps, x: Seq<real>, i: int| #![trigger rrow(m@, x, dim(self), i), tot(self.independent_sources@, ps, x, self.c_nodes as int, i, it0 as int)]
        x.len() == dim(self) && 1 <= i < dim(self) && ps.t == nm(t_now) implies
        rrow(m@, x, dim(self), i) == rrow(old(m)@, x, dim(self), i) + tot(self.independent_sources@, ps, x, self.c_nodes as int, i, it0 as int) by {
          reveal(el_res);
          assert(rrow(mb, x, dim(self), i) == rrow(old(m)@, x, dim(self), i) + tot(self.independent_sources@, ps, x, self.c_nodes as int, i, it0 - 1));
        }
    }
@endfn
@fn engine.rs Engine::v_dependent_source_stamp
@celladd m
@spec
  requires dim(self) < usize::MAX, fin_mat(old(m)@, dim(self)), dep_ok(self.v_dependent_sources@, self.c_nodes as int, self.c_vsrcs as int)
  ensures fin_mat(final(m)@, dim(self)), row0(old(m)@, dim(self)) ==> row0(final(m)@, dim(self)),
    forall|ps: Ps, x: Seq<real>, i: int| #![trigger rrow(final(m)@, x, dim(self), i), total(self.v_dependent_sources@, ps, x, self.c_nodes as int, i)]
      x.len() == dim(self) && 1 <= i < dim(self) ==>
      rrow(final(m)@, x, dim(self), i) == rrow(old(m)@, x, dim(self), i) + total(self.v_dependent_sources@, ps, x, self.c_nodes as int, i)
@loop 0
    invariant fin_mat(m@, dim(self)), row0(old(m)@, dim(self)) ==> row0(m@, dim(self)),
      forall|ps: Ps, x: Seq<real>, i: int| #![trigger rrow(m@, x, dim(self), i), tot(self.v_dependent_sources@, ps, x, self.c_nodes as int, i, it0 as int)]
        x.len() == dim(self) && 1 <= i < dim(self) ==>
        rrow(m@, x, dim(self), i) == rrow(old(m)@, x, dim(self), i) + tot(self.v_dependent_sources@, ps, x, self.c_nodes as int, i, it0 as int)
@loop 0 begin
    let ghost mb = m@;
    let ghost e = self.v_dependent_sources@[it0 - 1];
    proof { assert(*el == e && is_dep(e) && el_ok(e, self.c_nodes as int, self.c_vsrcs as int)); lemma_touch(e); }
@loop 0 end
    proof {
      assert forall|ps: Ps, x: Seq<real>, i: int| #![trigger rrow(m@, x, dim(self), i), tot(self.v_dependent_sources@, ps, x, self.c_nodes as int, i, it0 as int)]
        x.len() == dim(self) && 1 <= i < dim(self) implies
        rrow(m@, x, dim(self), i) == rrow(old(m)@, x, dim(self), i) + tot(self.v_dependent_sources@, ps, x, self.c_nodes as int, i, it0 as int) by {
          reveal(el_res);
          assert(rrow(mb, x, dim(self), i) == rrow(old(m)@, x, dim(self), i) + tot(self.v_dependent_sources@, ps, x, self.c_nodes as int, i, it0 - 1));
          match e {
            Element::Vcvs(s) => { lemma_dist(nm(s.k), vx(x, s.cp as int), vx(x, s.cn as int)); }
            Element::Vccs(s) => { lemma_dist(nm(s.k), vx(x, s.cp as int), vx(x, s.cn as int)); }
            _ => {}
          }
        }
    }
@endfn
@fn engine.rs Engine::storage_stamp
@spec
  requires dim(self) < usize::MAX, fin_mat(old(m)@, dim(self)), sto_ok(self.storage_elements@, self.c_nodes as int, self.c_vsrcs as int),
    fin(t), nm(t) > 0real, n.len() == dim(self), all_fin(n@), nm(n[0]) == 0real
  ensures fin_mat(final(m)@, dim(self)), row0(old(m)@, dim(self)) ==> row0(final(m)@, dim(self)),
    forall|ps: Ps, x: Seq<real>, i: int| #![trigger rrow(final(m)@, x, dim(self), i), total(self.storage_elements@, ps, x, self.c_nodes as int, i)]
      x.len() == dim(self) && 1 <= i < dim(self) && ps.h == 1real / nm(t) && ps.xp == reals(n@) ==>
      rrow(final(m)@, x, dim(self), i) == rrow(old(m)@, x, dim(self), i) + total(self.storage_elements@, ps, x, self.c_nodes as int, i)
@loop 0
    invariant fin_mat(m@, dim(self)), row0(old(m)@, dim(self)) ==> row0(m@, dim(self)),
      forall|ps: Ps, x: Seq<real>, i: int| #![trigger rrow(m@, x, dim(self), i), tot(self.storage_elements@, ps, x, self.c_nodes as int, i, it0 as int)]
        x.len() == dim(self) && 1 <= i < dim(self) && ps.h == 1real / nm(t) && ps.xp == reals(n@) ==>
        rrow(m@, x, dim(self), i) == rrow(old(m)@, x, dim(self), i) + tot(self.storage_elements@, ps, x, self.c_nodes as int, i, it0 as int)
@loop 0 begin
    let ghost mb = m@;
    let ghost e = self.storage_elements@[it0 - 1];
    proof { assert(*el == e && e is C && el_ok(e, self.c_nodes as int, self.c_vsrcs as int)); lemma_touch(e); lemma_inv_inv(nm(e->C_0.value) / nm(t)); }
@loop 0 end
    proof {
      assert forall|ps: Ps, x: Seq<real>, i: int| #![trigger rrow(m@, x, dim(self), i), tot(self.storage_elements@, ps, x, self.c_nodes as int, i, it0 as int)]
        x.len() == dim(self) && 1 <= i < dim(self) && ps.h == 1real / nm(t) && ps.xp == reals(n@) implies
        rrow(m@, x, dim(self), i) == rrow(old(m)@, x, dim(self), i) + tot(self.storage_elements@, ps, x, self.c_nodes as int, i, it0 as int) by {
          reveal(el_res);
          assert(rrow(mb, x, dim(self), i) == rrow(old(m)@, x, dim(self), i) + tot(self.storage_elements@, ps, x, self.c_nodes as int, i, it0 - 1));
          let c = e->C_0;
          lemma_cap(nm(c.value), nm(t), ps.h, vx(x, c.a as int) - vx(x, c.b as int), vx(ps.xp, c.a as int) - vx(ps.xp, c.b as int));
          assert(vx(ps.xp, c.a as int) == nm(n[c.a as int]));
          assert(vx(ps.xp, c.b as int) == nm(n[c.b as int]));
        }
    }
@endfn
@fn engine.rs Engine::nonlinear_stamp
@spec
  requires dim(self) < usize::MAX, fin_mat(old(m)@, dim(self)), non_ok(self.nonlinear_elements@, self.c_nodes as int, self.c_vsrcs as int),
    n.len() == dim(self), all_fin(n@), nm(n[0]) == 0real
    , n_prev.len() == dim(self)
  ensures fin_mat(final(m)@, dim(self)), row0(old(m)@, dim(self)) ==> row0(final(m)@, dim(self)),
    exists|comp: Seq<(real, real)>| #[trigger] comps_ok(self.nonlinear_elements@, comp, reals(n@)) && adds_comp(old(m)@, final(m)@, dim(self), self.nonlinear_elements@, comp, self.c_nodes as int, self.nonlinear_elements.len() as int)
@begin
    let ghost mut comp: Seq<(real, real)> = seq![];
    let ghost els = self.nonlinear_elements@;
@loop 0
    invariant fin_mat(m@, dim(self)), row0(old(m)@, dim(self)) ==> row0(m@, dim(self)),
      comp.len() == it0, els == self.nonlinear_elements@,
      forall|k: int| 0 <= k < it0 ==> #[trigger] comp_of(els[k], reals(n@), comp[k]),
      adds_comp(old(m)@, m@, dim(self), els, comp, self.c_nodes as int, it0 as int)
@loop 0 begin
    let ghost mb = m@;
    let ghost e = els[it0 - 1];
    let ghost mut c1: (real, real) = (0real, 0real);
    proof { assert(*el == e && e is D && el_ok(e, self.c_nodes as int, self.c_vsrcs as int)); lemma_touch(e); lemma_nd_all(els, it0 - 1);
      assert forall|g: FV| g is Num implies #[trigger] fvdiv(FV::Num(1real), fvdiv(FV::Num(1real), g)) == g by { lemma_inv_inv(g->Num_0); } }
@loop 0 end
    proof {
      let y = reals(n@);
      let d = e->D_0;
      assert(vx(y, d.p as int) == nm(n[d.p as int]) && vx(y, d.n as int) == nm(n[d.n as int]));
      assert(exists|v: real, g: real, i: real| #[trigger] comp_ok(d, v, g, i) && v == vx(y, d.p as int) - vx(y, d.n as int) && adds_one(mb, m@, dim(self), d, (g, i)));
      let (v, g, i) = choose|v: real, g: real, i: real| #[trigger] comp_ok(d, v, g, i) && v == vx(y, d.p as int) - vx(y, d.n as int) && adds_one(mb, m@, dim(self), d, (g, i));
      let ghost cb = comp;
      comp = comp.push((g, i));
      lemma_comp_push(old(m)@, mb, m@, dim(self), els, cb, (g, i), self.c_nodes as int, it0 - 1);
    }
@end
    proof { assert forall|k: int| 0 <= k < els.len() && els[k] is D implies {
        let d = (#[trigger] els[k])->D_0;
        let j = nd(els, k);
        0 <= j < comp.len() && comp_ok(d, vx(reals(n@), d.p as int) - vx(reals(n@), d.n as int), comp[j].0, comp[j].1)
      } by { lemma_nd_all(els, k); assert(comp_of(els[k], reals(n@), comp[k])); }
      assert(comps_ok(self.nonlinear_elements@, comp, reals(n@)));
    }
@endfn
