@prelude f64s cellinv linalg strs mna dio srcs maps
@broadcast super::f64s::group_f64
@type NodeId Element Diode Capacitor Circuit Engine Configuration Kind
@const GMIN
@rawfile dim elements branches companion engine nodes lists conv
@assume_from elaborate Engine::elaborate
@assume_from engine Engine::independent_source_stamp Engine::v_dependent_source_stamp Engine::nonlinear_stamp
@assume_from solver Engine::solve
@fn engine.rs Engine::convergence_check
@ret r
@spec
  requires yv.len() >= xv.len(), cfg_ok(cfg)
  ensures match r {
      Ok(b) => all_fin(xv@) && b == settled(xv@, yv@, self.c_nodes as int, cfg, xv.len() as int),
      Err(_) => !all_fin(xv@),
    }
@begin
  broadcast use super::f64s::lemma_fvmul_comm;
@loop 0
    invariant res is Ok, forall|j: int| 0 <= j < it0 ==> fin(#[trigger] xv[j]),
      res->Ok_0 == settled(xv@, yv@, self.c_nodes as int, cfg, it0 as int)
@loop 0 begin
    let ghost rb = res->Ok_0;
@loop 0 end
    proof {
      let b = settled_at(xv@, yv@, self.c_nodes as int, cfg, it0 - 1);
      assert(settled(xv@, yv@, self.c_nodes as int, cfg, it0 as int) == (rb && b));
      assert(res->Ok_0 == (rb && b));
    }
@endfn
@fn engine.rs Engine::dc_solve
@ret r
@spec
  requires engine_ok(old(self)), fin_mat(mna@, dim(old(self))), row0(mna@, dim(old(self))), cfg_ok(cfg)
  ensures same_setup(old(self), final(self)),
    dc_ran(*final(self), mna@, cfg, final(self).dc_op@, r.iterations),
    r.kind is DcOperatingPoint, r.end == num(0real)
@begin
    let ghost mut q: Seq<Seq<f64>> = seq![];
    let ghost mut ma: Seq<Vec<f64>> = seq![];
    let ghost mut mb: Seq<Vec<f64>> = seq![];
@loop 0 before
    proof { q = seq![unknowns_prev@]; lemma_chain0(*self, mna@, cfg, unknowns_prev@); }
@loop 0
    invariant_except_break
      q.len() == c_iteration + 1, q.last() == unknowns_prev@, c_iteration > 0 ==> unknowns@ == unknowns_prev@,
      c_iteration == cfg.ITL1 + 1 ==> dc_ran(*self, mna@, cfg, unknowns@, c_iteration),
      q.len() > 1 ==> !settled(q.last(), q[q.len() - 2], self.c_nodes as int, cfg, dim(self)),
      dc_chain(*self, mna@, cfg, q),
      xvec(unknowns_prev@, dim(self)), all_fin(unknowns_prev@), unknowns_prev_prev.len() == dim(self),
    invariant c_iteration <= cfg.ITL1 + 1, *self == *old(self),
    ensures dc_ran(*self, mna@, cfg, unknowns@, c_iteration)
    decreases cfg.ITL1 + 1 - c_iteration
@loop 0 after
    proof {
      assert(dc_ran(*old(self), mna@, cfg, unknowns@, c_iteration));
      q = choose|qq: Seq<Seq<f64>>| #[trigger] dc_run(*old(self), mna@, cfg, qq, unknowns@, c_iteration);
    }
@after `unknowns = self.solve(`
    proof {
      let y = unknowns_prev@;
      let comp = choose|cc: Seq<(real, real)>| #[trigger] comps_ok(self.nonlinear_elements@, cc, reals(unknowns_prev@)) && adds_comp(ma, mb, dim(self), self.nonlinear_elements@, cc, self.c_nodes as int, self.nonlinear_elements.len() as int);
      if all_fin(unknowns@) {
        let x = reals(unknowns@);
        assert forall|ps: Ps, i: int| #![trigger total(self.nonlinear_elements@, ps, x, self.c_nodes as int, i)] 1 <= i < dim(self) && ps.t == 0real && ps.comp == comp implies
          rrow(mna@, x, dim(self), i) + total(self.independent_sources@, ps, x, self.c_nodes as int, i)
            + total(self.v_dependent_sources@, ps, x, self.c_nodes as int, i)
            + total(self.nonlinear_elements@, ps, x, self.c_nodes as int, i) == 0real by {
            assert(rrow(m@, x, dim(self), i) == 0real);
            assert(rrow(mb, x, dim(self), i) == rrow(ma, x, dim(self), i) + total(self.nonlinear_elements@, ps, x, self.c_nodes as int, i));
        }
        assert(dc_eqs(*self, mna@, x, comp));
      }
      assert(dc_iter(*self, mna@, y, unknowns@, comp));
      lemma_chain(*self, mna@, cfg, q, unknowns@, comp);
      q = q.push(unknowns@);
      if !all_fin(unknowns@) || settled(unknowns@, y, self.c_nodes as int, cfg, dim(self)) || c_iteration == cfg.ITL1 + 1 {
        lemma_ran(*self, mna@, cfg, q, unknowns@, c_iteration);
      }
    }
@before `self.nonlinear_stamp(`
    proof { ma = m@; }
@after `self.nonlinear_stamp(`
    proof { mb = m@; }
@end
    proof {
      lemma_run_moved(*old(self), *self, mna@, cfg, q, self.dc_op@, c_iteration);
      assert(dc_ran(*self, mna@, cfg, self.dc_op@, c_iteration));
    }
@endfn
@fn engine.rs Engine::dc_operating_point
@ret r
@spec
  requires ckt_ok(ckt), cfg_ok(cfg)
  ensures elaborated(final(self), ckt.elements@), same_diodes(final(self).nonlinear_elements@, ckt.elements@, ckt.elements.len() as int),
    dc_result(ckt.elements@, final(self).c_nodes as int, cfg, final(self).dc_op@, r.iterations), xvec(final(self).dc_op@, dim(final(self))),
    r.kind is DcOperatingPoint, r.end == num(0real), r.iterations <= cfg.ITL1 + 1
@end
    proof {
      assert forall|its: usize, e: Engine| #[trigger] dc_ran(e, e.base_matrix@, cfg, e.dc_op@, its)
        && elaborated(&e, ckt.elements@) && same_diodes(e.nonlinear_elements@, ckt.elements@, ckt.elements.len() as int) implies
        dc_result(ckt.elements@, e.c_nodes as int, cfg, e.dc_op@, its) && xvec(e.dc_op@, dim(&e)) && its <= cfg.ITL1 + 1 by {
          lemma_dc(e, ckt.elements@, cfg, e.dc_op@, its);
        }
    }
@endfn
