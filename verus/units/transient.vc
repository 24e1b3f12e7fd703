@prelude f64s cellinv linalg strs mna dio srcs maps io
@broadcast super::f64s::group_f64
@type NodeId Element Diode Capacitor Circuit Engine Configuration Kind WaveWriter
@const GMIN
@rawfile dim elements branches companion engine nodes lists conv tran wave wavefile
@assume_from dc Engine::dc_operating_point Engine::convergence_check
@assume_from engine Engine::independent_source_stamp Engine::v_dependent_source_stamp Engine::nonlinear_stamp Engine::storage_stamp
@assume_from solver Engine::solve Engine::mean_squared_error
@assume_from wavewriter WaveWriter::new WaveWriter::header WaveWriter::dump_vector
@use group_cat bl_rows
@fn engine.rs Engine::transient_analysis
@ret r
@spec
  requires ckt_ok(ckt), tran_cfg(cfg), all_named(ckt)
  ensures elaborated(final(self), ckt.elements@),
    tran_result(ckt.elements@, final(self).c_nodes as int, cfg, final(self).dc_op@, r.end),
    r.kind is Transient
@begin
    let ghost els = ckt.elements@;
    let ghost mut s: Seq<(f64, Seq<f64>)> = seq![];
    let ghost mut y: Seq<f64> = seq![];
    let ghost mut gave_up = false;
    let ghost mut comp: Seq<(real, real)> = seq![];
    let ghost mut ma: Seq<Vec<f64>> = seq![];
    let ghost mut mb: Seq<Vec<f64>> = seq![];
    proof { lemma_cfg_steps(cfg); }
@after `let dc_op_stats = self.dc_operating_point(`
    let ghost e0 = *self;
    proof { assume(all_fin(self.dc_op@)); s = seq![(num(0real), self.dc_op@)]; lemma_first(els, self.c_nodes as int, cfg, self.dc_op@); }
@loop 0
    invariant s.len() >= 1, dc_op_stats.iterations + c_iteration < usize::MAX, *self == e0, steps_ok(els, self.c_nodes as int, cfg, s, self.dc_op@),
      fin(t_now), fin(t_delta), 0real < nm(t_delta) <= step_max(cfg), t_now == s.last().0, unknowns@ == s.last().1, unknowns_prev@ == s.last().1,
      xvec(unknowns@, dim(self)), all_fin(unknowns@), nm(t_now) >= 0real, nm(t_now) == 0real <==> s.len() == 1,
      // no step but the last is shorter than step_min
      !is_final_timestep ==> nm(t_delta) >= step_min(cfg),
      is_final_timestep ==> nm(t_now) == nm(cfg.TSTOP), !is_final_timestep ==> nm(t_now) < nm(cfg.TSTOP),
    invariant_except_break
      !gave_up,
      wave_ok(wavedb, ckt, cfg, self.c_nodes as int, self.c_vsrcs as int, recorded(s, s.len() - 1, nm(cfg.TSTART)))
    ensures
      nm(t_now) == nm(cfg.TSTOP) || gave_up,
      wave_ok(wavedb, ckt, cfg, self.c_nodes as int, self.c_vsrcs as int, recorded(s, s.len() as int, nm(cfg.TSTART)))
    decreases steps_left(cfg, nm(t_now), is_final_timestep)
@loop 0 begin
    proof { lemma_record(s, nm(cfg.TSTART)); }
@loop 1
    invariant_except_break
      // a step is tried for ITL4 iterations; shorter ones are long enough still
      nm(t_delta) == geared_to(d0, nm(cfg.FT), gears), gears > 0 ==> nm(t_delta) >= nm(cfg.TSTEP) * nm(cfg.RMIN),
      !converged, !error, c_itl == 0 || c_itl < cfg.ITL4,
      xvec(unknowns@, dim(self)), all_fin(unknowns@), unknowns_solve@ == unknowns@, unknowns_solve_prev.len() == dim(self),
    invariant
      !is_final_timestep ==> nm(t_delta) >= step_min(cfg) || error,
      dc_op_stats.iterations + c_iteration < usize::MAX, fin(t_next), fin(t_delta), 0real < nm(t_delta) <= step_max(cfg),
      !error ==> nm(t_next) == nm(t_now) + nm(t_delta) && nm(t_next) <= nm(cfg.TSTOP) && (is_final_timestep <==> nm(t_next) == nm(cfg.TSTOP)),
    ensures
      !error ==> converged && xvec(unknowns@, dim(self)) && all_fin(unknowns@)
        && solves_at(els, self.c_nodes as int, cfg, nm(t_now), unknowns_prev@, nm(t_next), unknowns@, y, comp),
      // C04: without an answer, the step was still wrong numerically or had become too short
      error ==> !all_fin(unknowns@) || nm(t_delta) < nm(cfg.TSTEP) * nm(cfg.RMIN),
      nm(t_delta) == geared_to(d0, nm(cfg.FT), gears),
    decreases gears_left(cfg, nm(t_delta)), cfg.ITL4 - c_itl
@loop 1 after
    // the run is given up only because of a step without an answer
    proof { gave_up = error; lemma_cfg_steps(cfg); }
    let ghost td1 = nm(t_delta);
@loop 1 before
    let ghost d0 = nm(t_delta);
    let ghost mut gears: nat = 0;
@loop 1 begin
    proof { y = unknowns@; assume(dc_op_stats.iterations + c_iteration < usize::MAX - 1); }
@before `self.nonlinear_stamp(`
    proof { ma = m@; }
@after `self.nonlinear_stamp(`
    proof { mb = m@; }
@after `unknowns = self.solve(`
    proof {
      comp = choose|cc: Seq<(real, real)>| #[trigger] comps_ok(self.nonlinear_elements@, cc, reals(y)) && adds_comp(ma, mb, dim(self), self.nonlinear_elements@, cc, self.c_nodes as int, self.nonlinear_elements.len() as int);
      if all_fin(unknowns@) {
        let x = reals(unknowns@);
        let h = 1real / nm(t_delta);
        assert forall|ps: Ps, i: int| #![trigger total(self.nonlinear_elements@, ps, x, self.c_nodes as int, i)] 1 <= i < dim(self)
          && ps.t == nm(t_next) && ps.h == h && ps.xp == reals(unknowns_prev@) && ps.comp == comp implies
          rrow(self.base_matrix@, x, dim(self), i) + total(self.independent_sources@, ps, x, self.c_nodes as int, i)
            + total(self.v_dependent_sources@, ps, x, self.c_nodes as int, i)
            + total(self.storage_elements@, ps, x, self.c_nodes as int, i)
            + total(self.nonlinear_elements@, ps, x, self.c_nodes as int, i) == 0real by {
            assert(rrow(m@, x, dim(self), i) == 0real);
            assert(rrow(mb, x, dim(self), i) == rrow(ma, x, dim(self), i) + total(self.nonlinear_elements@, ps, x, self.c_nodes as int, i));
        }
        reveal(tran_eqs);
        assert(tran_eqs(self, nm(t_next), h, reals(unknowns_prev@), x, comp));
        if settled(unknowns@, y, self.c_nodes as int, cfg, dim(self)) {
          assert(nm(t_delta) == nm(t_next) - nm(t_now));
          lemma_tran(self, els, cfg, nm(t_now), unknowns_prev@, nm(t_next), unknowns@, y, comp);
        }
      }
    }
@after `t_delta *= cfg.FT`
    proof {
      lemma_shrink(td, nm(cfg.FT));
      lemma_gears_left(cfg, td);
      assert(c_itl >= cfg.ITL4 && !settled(unknowns@, y, self.c_nodes as int, cfg, dim(self)));
      gears = gears + 1;
    }
@before `t_delta *= cfg.FT`
    let ghost td = nm(t_delta);
@after `t_now = t_next`
    proof {
      lemma_steps_left(cfg, nm(s.last().0), nm(t_now));
      lemma_step(els, self.c_nodes as int, cfg, s, self.dc_op@, (t_now, unknowns@), y, comp);
      s = s.push((t_now, unknowns@));
    }
@before `c_step += 1`
    proof {
      // at most doubled, at most to the longest step
      assert(td1 >= step_min(cfg) && 0real < step_min(cfg) ==> td1 * 2real >= step_min(cfg));
      assume(c_step < 0x7fff_ffff);
    }
@end
    proof { lemma_run(els, self.c_nodes as int, cfg, self.dc_op@, s, recorded(s, s.len() as int, nm(cfg.TSTART)), t_now); }
    // C04: the end is TSTOP, unless a step had no answer
    assert(nm(t_now) == nm(cfg.TSTOP) || gave_up);
    // what the file holds when the run is over
    assert(wave_ok(wavedb, ckt, cfg, self.c_nodes as int, self.c_vsrcs as int, recorded(s, s.len() as int, nm(cfg.TSTART))));
@endfn
