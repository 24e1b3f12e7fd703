@prelude f64s cells strs maps nums io
@broadcast super::strs::group_strs
@use group_deck
@type Circuit Configuration Kind Instance Parameter Expression Element Reader ReadMode
@opaque Diode
@raw
pub struct Diode { x: usize }
use Expression::Literal;
@assume_from bracket extract_value extract_expression
@assume_from names Circuit::new Circuit::add_node Circuit::build_node_id_lut
@assumed circuit.rs Circuit::list_parameters
@endfn
@assumed circuit.rs Circuit::list_elements
@endfn
@assumed circuit.rs Circuit::list_nodes
@endfn
@assumed circuit.rs Circuit::list_instantiations
@endfn
@assumed analysis.rs Configuration::print_options
@endfn
@rawfile numbers names deck
@fn circuit.rs Instance::new
@ret r
@spec
  ensures iv(r) == (IV { name: name@, subckt: subckt@, conns: Seq::empty(), params: Seq::empty() })
@endfn
@fn circuit.rs Instance::add_connection
@spec
  ensures iv(*final(self)) == (IV { conns: old(self).conns@.push(nid), ..iv(*old(self)) })
@endfn
@fn circuit.rs Instance::add_parameter
@spec
  ensures iv(*final(self)) == (IV { params: pvs(old(self).params@).push(pv(*param)), ..iv(*old(self)) })
@endfn
@fn circuit.rs Circuit::add_instance
@spec
  requires ck_ok(*old(self))
  ensures ck_ok(*final(self)), cv(*final(self)) == in_added(cv(*old(self)), iv(inst))
@endfn
@fn circuit.rs Circuit::add_i
@spec
  requires ck_ok(*old(self))
  ensures ck_ok(*final(self)), cv(*final(self)) == el_added(cv(*old(self)), EV::I { p, n, v: value })
@endfn
@fn circuit.rs Circuit::add_i_sin
@spec
  requires ck_ok(*old(self))
  ensures ck_ok(*final(self)), cv(*final(self)) == el_added(cv(*old(self)), ev_isin(i_sin))
@endfn
@fn circuit.rs Circuit::add_v
@spec
  requires ck_ok(*old(self))
  ensures ck_ok(*final(self)), cv(*final(self)) == v_added(cv(*old(self)), EV::V { p, n, v: value, idx: 0 })
@begin
    proof { ax_vec_len(self.elements); }
@endfn
@fn circuit.rs Circuit::add_v_sin
@spec
  requires ck_ok(*old(self))
  ensures ck_ok(*final(self)), cv(*final(self)) == v_added(cv(*old(self)), ev_vsin(v_sin))
@begin
    proof { ax_vec_len(self.elements); }
@endfn
@fn circuit.rs Circuit::add_v_pwl
@spec
  requires ck_ok(*old(self))
  ensures ck_ok(*final(self)), cv(*final(self)) == v_added(cv(*old(self)), ev_vpwl(v_pwl))
@begin
    proof { ax_vec_len(self.elements); }
@endfn
@fn parameter.rs Parameter::override_from_expression
@ret r
@spec
  ensures pv(r) == (PV { name: name@, defval: None, expr: Some(xv(*expr)), value: None })
@endfn
@fn parameter.rs Parameter::default_from_expression
@ret r
@spec
  ensures pv(r) == (PV { name: name@, defval: Some(xv(*expr)), expr: None, value: None })
@endfn
@fn analysis.rs Configuration::set_wavefile
@spec
  ensures gv(*final(self)) == (GV { wavefile: filename@, ..gv(*old(self)) })
@endfn
@fn spice.rs Reader::extract_node
@ret r
@spec
  requires rd_ok(*old(self))
  ensures rd_ok(*final(self)), nodes_only(rst(*old(self)), rst(*final(self))),
    name_ok(text@) ==> r == nid(cur(rst(*old(self))), text@) && rst(*final(self)) == upd(rst(*old(self)), with_node(cur(rst(*old(self))), text@)),
    !name_ok(text@) ==> rst(*final(self)) == (St { err: true, ..rst(*old(self)) })
@begin
    proof { reveal(upd); reveal(nid); reveal(with_node); let s0 = rst(*self); lemma_err(s0, St { err: true, ..s0 }); if name_ok(text@) { lemma_only(s0, upd(s0, with_node(cur(s0), text@))); } lemma_same(s0); }
@loop 0
    invariant well_formed_node_name == (forall|i: int| 0 <= i < it0 ==> nc(#[trigger] text@[i])), *self == *old(self),
@endfn
@fn spice.rs Reader::extract_parameter
@ret r
@spec
  requires rd_ok(*old(self))
  ensures rd_ok(*final(self)), nodes_only(rst(*old(self)), rst(*final(self))), r is Some ==> *final(self) == *old(self) && pieces(text@, '=').len() == 2 && pv(r->0) == dflt(text@),
    r is None ==> !nv_ok(text@) && *final(self) == (Reader { there_are_errors: true, ..*old(self) })
@begin
    proof { lemma_err(rst(*self), St { err: true, ..rst(*self) }); }
@endfn
@fn spice.rs Reader::extract_override
@ret r
@spec
  requires rd_ok(*old(self))
  ensures rd_ok(*final(self)), nodes_only(rst(*old(self)), rst(*final(self))), r is Some ==> *final(self) == *old(self) && pieces(text@, '=').len() == 2 && pv(r->0) == ov(text@),
    r is None ==> !nv_ok(text@) && *final(self) == (Reader { there_are_errors: true, ..*old(self) })
@begin
    proof { lemma_err(rst(*self), St { err: true, ..rst(*self) }); }
@endfn
@fn spice.rs extract_identifier
@ret r
@spec
  ensures r@ == text@
@endfn
@fn spice.rs look_for_file
@ret r
@spec
  ensures r is Some == pdir(caller_filename.pv()) is Some, r is Some ==> r->0.pv() == pjoin(pdir(caller_filename.pv())->0, desired_filename@)
@endfn
@fn spice.rs Reader::extract_option
@panics option_aborts(sr(bits@))
@panicidx bits
@spec
  requires bits.len() > 0
  ensures *final(self) == (Reader { cfg: final(self).cfg, ..*old(self) }),
    // the named setting is given the value written, and no other changes
    opt_fits(sr(bits@)) ==> gv(final(self).cfg) == opt_act(gv(old(self).cfg), sr(bits@)),
    !opt_fits(sr(bits@)) ==> gv(final(self).cfg) == gv(old(self).cfg)
@begin
    proof { lemma_sr(bits@); }
@endfn
@fn spice.rs Reader::extract_i_sine
@panics !sin_ok(sr(bits@))
@panicidx bits all_bits
@strvars line
@ret r
@spec
  requires rd_ok(*old(self)), bits.len() > 3
  ensures rd_ok(*final(self)), nodes_only(rst(*old(self)), rst(*final(self))),
    sin_ok(sr(bits@)) ==> rst(*final(self)) == upd(rst(*old(self)), two(cur(rst(*old(self))), sr(bits@)))
      && ev_isin(r) == (EV::Isin { p: nid(cur(rst(*old(self))), bits@[1]@), n: nid(with_node(cur(rst(*old(self))), bits@[1]@), bits@[2]@),
         vo: val(sargs(sr(bits@))[0]), va: val(sargs(sr(bits@))[1]), f: val(sargs(sr(bits@))[2]) })
@begin
    proof { lemma_sr(bits@); reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); assert(sr(bits@).subrange(3, 3) =~= Seq::<Tx>::empty()); assert(sr(bits@).subrange(3, bits.len() as int) =~= sr(bits@).subrange(3, bits.len() as int)); }
@loop 0
    invariant line@ == spaced(sr(bits@).subrange(3, it0 as int)), rd_ok(*self)
@loop 0 begin
    proof { lemma_spaced(sr(bits@), 3, it0 as int); }
@after `let all_bits`
    proof { lemma_sr(all_bits@); assert(sin_ok(sr(bits@)) ==> sr(all_bits@) == sargs(sr(bits@))); }
@endfn
@fn spice.rs Reader::extract_v_sine
@panics !sin_ok(sr(bits@))
@panicidx bits all_bits
@strvars line
@ret r
@spec
  requires rd_ok(*old(self)), bits.len() > 3
  ensures rd_ok(*final(self)), nodes_only(rst(*old(self)), rst(*final(self))),
    sin_ok(sr(bits@)) ==> rst(*final(self)) == upd(rst(*old(self)), two(cur(rst(*old(self))), sr(bits@)))
      && ev_vsin(r) == (EV::Vsin { p: nid(cur(rst(*old(self))), bits@[1]@), n: nid(with_node(cur(rst(*old(self))), bits@[1]@), bits@[2]@),
         vo: val(sargs(sr(bits@))[0]), va: val(sargs(sr(bits@))[1]), f: val(sargs(sr(bits@))[2]), idx: 0 })
@begin
    proof { lemma_sr(bits@); reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); assert(sr(bits@).subrange(3, 3) =~= Seq::<Tx>::empty()); assert(sr(bits@).subrange(3, bits.len() as int) =~= sr(bits@).subrange(3, bits.len() as int)); }
@loop 0
    invariant line@ == spaced(sr(bits@).subrange(3, it0 as int)), rd_ok(*self)
@loop 0 begin
    proof { lemma_spaced(sr(bits@), 3, it0 as int); }
@after `let all_bits`
    proof { lemma_sr(all_bits@); assert(sin_ok(sr(bits@)) ==> sr(all_bits@) == sargs(sr(bits@))); }
@endfn
@fn spice.rs Reader::extract_v_pwl
@panics !pwl_ok(sr(bits@))
@panicidx bits all_bits tv_pair
@strvars line
@ret r
@spec
  requires rd_ok(*old(self)), bits.len() > 3
  ensures rd_ok(*final(self)), nodes_only(rst(*old(self)), rst(*final(self))),
    pwl_ok(sr(bits@)) ==> rst(*final(self)) == upd(rst(*old(self)), two(cur(rst(*old(self))), sr(bits@))) && ev_vpwl(r) == pwl(cur(rst(*old(self))), sr(bits@))
@begin
    broadcast use super::f64s::ax_mk;
    let ghost gb = sr(bits@);
    let ghost gn = gb.len() as int;
    proof { lemma_sr(bits@); lemma_opts(gb, gn); reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); assert(gb.subrange(3, 3) =~= Seq::<Tx>::empty()); reveal_strlit("r"); reveal_strlit("td"); assert("r"@.len() == 1 && "td"@.len() == 2); }
@before `let mut n_params`
    let ghost s1 = rst(*self);
@loop 0
    invariant_except_break it0 + n_params == gn
    invariant rd_ok(*self), nodes_only(rst(*old(self)), rst(*self)), 0 <= n_params <= gn, opts_at(gb, gn) == opts_at(gb, gn - n_params),
      pwl_ok(gb) ==> rst(*self) == s1 && src.repeat == opt(gb, gn - n_params, "r"@, num(-1real)) && src.t_delay == opt(gb, gn - n_params, "td"@, num(0real)),
      src.p == node1, src.n == node2, src.idx == 0,
    ensures opts_at(gb, gn) == gn - n_params
@loop 0 begin
    proof { lemma_opts(gb, it0 as int); if pwl_ok(gb) && has_eq(gb[it0 as int]) { assert(opt_ok(gb[it0 as int])); } }
@loop 1
    invariant pwl_ok(gb) ==> line@ == spaced(gb.subrange(3, it1 as int)), rd_ok(*self)
@loop 1 begin
    proof { if pwl_ok(gb) { lemma_spaced(gb, 3, it1 as int); } }
@after `let all_bits`
    proof { lemma_sr(all_bits@); assert(pwl_ok(gb) ==> sr(all_bits@) == pargs(gb)); }
@loop 2
    invariant tvs.len() == it2, pwl_ok(gb) ==> tvs@ == points(pargs(gb), it2 as int)
@loop 2 begin
    proof {
      let k = 2 * (it2 - 1);
      if pwl_ok(gb) { assert(sr(all_bits@)[k] == all_bits@[k]@); assert(sr(all_bits@)[k + 1] == all_bits@[k + 1]@); assert(proper(trim(pargs(gb)[k]))); assert(proper(trim(pargs(gb)[k + 1]))); }
    }
@loop 2 end
    proof { if pwl_ok(gb) { assert(tvs@ =~= points(pargs(gb), it2 as int)); } }
@endfn
@fn spice.rs Reader::extract_instance
@panics !inst_ok(sr(bits@))
@panicidx bits
@ret r
@spec
  requires rd_ok(*old(self)), bits.len() > 0
  ensures rd_ok(*final(self)), nodes_only(rst(*old(self)), rst(*final(self))),
    inst_ok(sr(bits@)) ==> rst(*final(self)) == upd(rst(*old(self)), with_nodes(cur(rst(*old(self))), sr(bits@).subrange(1, sub_at(sr(bits@), bits.len() as int)))) && iv(r) == inst(cur(rst(*old(self))), sr(bits@)),
@begin
    let ghost gb = sr(bits@);
    let ghost gn = gb.len() as int;
    let ghost s0 = rst(*self);
    proof { lemma_sr(bits@); lemma_sub(gb, gn); lemma_same(s0); assert(gb.subrange(1, 1) =~= Seq::<Tx>::empty()); }
@loop 0
    invariant_except_break sub_at(gb, gn) == sub_at(gb, it0 as int), subckt_id == 0, inst_ok(gb) ==> pvs(inst.params@) == ovs(gb, it0 as int)
    invariant rd_ok(*self), nodes_only(s0, rst(*self)), inst.name@ == gb[0], inst.conns@ == Seq::<usize>::empty(), inst_ok(gb) ==> rst(*self) == s0,
    ensures subckt_id == sub_at(gb, gn), inst_ok(gb) ==> pvs(inst.params@) == ovs(gb, subckt_id + 1)
@loop 0 begin
    proof { lemma_sub(gb, it0 as int); if inst_ok(gb) && has_eq(gb[it0 as int]) { assert(nv_ok(gb[it0 as int])); } }
@loop 1
    invariant rd_ok(*self), nodes_only(s0, rst(*self)), inst.name@ == gb[0], inst.subckt@ == gb[subckt_id as int], inst_ok(gb) ==> pvs(inst.params@) == ovs(gb, subckt_id + 1),
      inst_ok(gb) ==> rst(*self) == upd(s0, with_nodes(cur(s0), gb.subrange(1, it1 as int))) && inst.conns@ == nids(cur(s0), gb.subrange(1, it1 as int)),
@loop 1 begin
    proof { if inst_ok(gb) { let l = gb.subrange(1, it1 as int); assert(l.drop_last() =~= gb.subrange(1, it1 - 1)); assert(l.last() == gb[it1 - 1]); } }
    let ghost r2 = *self;
@loop 1 end
    proof { lemma_node(cv(r2.ckts@[r2.c as int]), gb[it1 - 1]); lemma_add(r2, *self, gb[it1 - 1]); }
@endfn
@fn spice.rs Reader::extract_primitive
@ret r
@spec
  requires rd_ok(*old(self)), bits.len() > 0, num_ports < 1000, min_num_params < 1000
  ensures rd_ok(*final(self)), nodes_only(rst(*old(self)), rst(*final(self))),
    r is None ==> *final(self) == *old(self) && bits.len() < 1 + num_ports + min_num_params,
    dev_ok(sr(bits@), num_ports as int, min_num_params as int) ==> r is Some && iv(r->0) == dev(cur(rst(*old(self))), sr(bits@), num_ports as int)
      && rst(*final(self)) == upd(rst(*old(self)), with_nodes(cur(rst(*old(self))), sr(bits@).subrange(1, 1 + num_ports))),
@begin
    let ghost gb = sr(bits@);
    let ghost gn = gb.len() as int;
    let ghost s0 = rst(*self);
    let ghost wf = dev_ok(gb, num_ports as int, min_num_params as int);
    proof { lemma_sr(bits@); lemma_same(s0); assert(gb.subrange(1, 1) =~= Seq::<Tx>::empty()); }
@loop 0
    invariant i == 1 + it0, rd_ok(*self), nodes_only(s0, rst(*self)), inst.name@ == gb[0], inst.subckt@ == "/device"@, pvs(inst.params@) == Seq::<PV>::empty(),
      wf ==> rst(*self) == upd(s0, with_nodes(cur(s0), gb.subrange(1, i as int))) && inst.conns@ == nids(cur(s0), gb.subrange(1, i as int)),
@loop 0 begin
    let ghost s2 = rst(*self);
    proof { let l = gb.subrange(1, it0 + 1); assert(l.drop_last() =~= gb.subrange(1, it0 as int)); assert(l.last() == gb[it0 as int]); assert(wf ==> name_ok(gb[it0 as int])); }
@loop 1
    invariant rd_ok(*self), nodes_only(s0, rst(*self)), inst.name@ == gb[0], inst.subckt@ == "/device"@, wf ==> pvs(inst.params@) == dev_pars(gb, num_ports as int, it1 - 1 - num_ports),
      wf ==> rst(*self) == upd(s0, with_nodes(cur(s0), gb.subrange(1, 1 + num_ports))) && inst.conns@ == nids(cur(s0), gb.subrange(1, 1 + num_ports)),
@loop 1 begin
    proof { assert(wf ==> expr_ok(gb[it1 - 1])); reveal_strlit("/param"); assert(Seq::<char>::empty() + "/param"@ =~= "/param"@); }
@loop 1 end
    proof { if wf { assert(pvs(inst.params@) =~= dev_pars(gb, num_ports as int, it1 - 1 - num_ports)); } }
@endfn
@fn spice.rs Reader::read_spice
@split 0 2
@attr #[verifier::rlimit(60)]
@panics gmay
@panicidx bits all_bits
@ret r
@spec
  requires rd_ok(*old(self)), !(readmode is Include)
  ensures rd_ok(*final(self)), old(self).there_are_errors ==> final(self).there_are_errors, r == final(self).there_are_errors, forall|i: int| 0 <= i < final(self).ckts.len() ==> lut_best(#[trigger] final(self).ckts[i]),
    // a deck of well-formed lines is read as it says
    whole(rst(*old(self)), filepath.pv(), readmode) is Some ==> rst(*final(self)) == leaving(whole(rst(*old(self)), filepath.pv(), readmode)->0, rst(*old(self))),
    // in any other no line is lost
    read_as(rst(*old(self)), filepath.pv(), readmode, rst(*final(self))),
  decreases (if readmode is TopLevel { 1int } else { 0int })
@begin
    let ghost path = filepath.pv();
    let ghost lib = lib_of(readmode);
    let ghost gmay = whole(rst(*self), path, readmode) is None;
    let ghost g0 = begun(rst(*self), path, readmode);
    let ghost mut tr: Seq<St> = Seq::empty();
    let ghost ls = file_lines(path)->0;
    broadcast use ax_lines, group_lines;
    proof { lemma_begin(rst(*self), path, readmode); }
@loop 0 leaf
    proof {
      let s9 = st_of(*self, in_control_block, in_subckt, in_libdef, lib_read_ok);
      if s0.ctl && !outside(s0, lib) {
        assert(rel(s0, path, lib, gb, s9)) by { reveal(rel); } // only C14
      } else if outside(s0, lib) || gb.len() > 0 && (gb[0] == ".lib"@ || gb[0] == ".endl"@) {
        assert(rel(s0, path, lib, gb, s9)) by { reveal(rel); } // only C15
      } else {
        assert(rel(s0, path, lib, gb, s9)) by { reveal(rel); } // only C13
      }
      if !gmay { lemma_follow(s0, path, lib, gb, s9); }
    }
@loop 0
    invariant old(self).there_are_errors ==> self.there_are_errors, ls.len() > 0 ==> lines_of(it0_v@) == ls.drop_first(), ls.len() == 0 ==> it0_v.len() == 0, rd_ok(*self),
      libname is Some == lib is Some, lib is Some ==> libname->0@ == lib->0,
      tr.len() == it0, trace(tr, ls, path, lib), it0 == 0 ==> st_of(*self, in_control_block, in_subckt, in_libdef, lib_read_ok) == g0,
      it0 > 0 ==> tr[0] == g0 && it0 < ls.len() && ls[it0 as int] is Some && rel(tr.last(), path, lib, bits(ls[it0 as int]->0), st_of(*self, in_control_block, in_subckt, in_libdef, lib_read_ok)),
      !gmay ==> run_deck(st_of(*self, in_control_block, in_subckt, in_libdef, lib_read_ok), ls, it0 + 1, path, lib) == run_deck(g0, ls, 1, path, lib),
@loop 0 begin
    let ghost s0 = st_of(*self, in_control_block, in_subckt, in_libdef, lib_read_ok);
    let ghost r0 = *self;
    let ghost gb = bits(ls[it0 as int]->0);
    proof {
      assert(lines_of(it0_v@).len() == it0_v.len());
      assert(lines_of(it0_v@)[it0 - 1] == line_of(it0_v@[it0 - 1]));
      lemma_push(tr, ls, path, lib, s0);
      tr = tr.push(s0);
      if !gmay { lemma_step(s0, ls, it0 as int, path, lib); }
      lemma_pieces(ls[it0 as int]->0, ';');
      lemma_kinds(gb[0]);
      lemma_twice(cur(s0), gb[1], gb[2]);
      lemma_el_kinds(cur(s0), gb);
      lemma_same(s0);
      lemma_lib_facts(s0);
    }
@after `let all_bits`
    proof { lemma_sr(all_bits@); assert(sr(all_bits@) == gb); }
@loop 0 after
    let ghost g1 = st_of(*self, in_control_block, in_subckt, in_libdef, lib_read_ok);
    proof {
      assert(lines_of(it0_v@).len() == it0_v.len());
      lemma_push(tr, ls, path, lib, g1);
      tr = tr.push(g1);
      lemma_over(g1, ls, it0 + 1, path, lib);
    }
@loop 1
    invariant num_ports <= it1, rd_ok(*self), self.c == s0.cs.len(), self.ckts.len() == s0.cs.len() + 1, gv(self.cfg) == s0.cfg, s0.err ==> self.there_are_errors,
      self.there_are_errors && !sub_ok(gb) || cvs(self.ckts@) == s0.cs.push(sub_cv(gb, it1 as int)),
      self.there_are_errors && !sub_ok(gb) || num_ports == n_conn(gb, it1 as int),
      self.there_are_errors && !sub_ok(gb) || self.there_are_errors == (s0.err || s0.c != 0),
@loop 1 begin
    let ghost r1 = *self;
    proof { lemma_sub_cv(s0.cs, gb, it1 as int); lemma_sr(bits@); assert(nn@ == gb[it1 - 1]); assert(sub_ok(gb) && has_eq(gb[it1 - 1]) ==> nv_ok(gb[it1 - 1])); }
@loop 1 leaf
    proof {
      if !self.there_are_errors || sub_ok(gb) {
        let k = r1.c as int;
        assert(!r1.there_are_errors || sub_ok(gb));
        assert(cvs(r1.ckts@)[k] == sub_cv(gb, it1 - 1));
        assert(cv(self.ckts@[k]) == sub_cv(gb, it1 as int));
        assert(self.ckts@ =~= r1.ckts@.update(k, self.ckts@[k]));
        lemma_upd(r1.ckts@, k, self.ckts@[k]);
      }
    }
@loop 3 before
    let ghost r3 = *self;
@loop 3
    invariant rd_ok(*self), self.ckts.len() == r3.ckts.len(), cvs(self.ckts@) == cvs(r3.ckts@), self.c == r3.c, self.cfg == r3.cfg, self.there_are_errors == r3.there_are_errors,
      forall|i: int| 0 <= i < it3 ==> lut_best(#[trigger] self.ckts[i]),
@end
    proof { lemma_end(rst(*old(self)), path, readmode, tr, rst(*self)); }
@before? `let src = self.extract_i_sine`
    proof { assert(!gmay ==> sin_ok(sr(bits@))); } // only C13
@before? `let src = self.extract_v_sine`
    proof { assert(!gmay ==> sin_ok(sr(bits@))); } // only C13
@before? `let src = self.extract_v_pwl`
    proof { assert(!gmay ==> pwl_ok(sr(bits@))); } // only C13
@before? `let inst = self.extract_instance`
    proof { assert(!gmay ==> inst_ok(sr(bits@))); } // only C13
@before* `self.ckts[self.c].num_ports =`
    let ghost rp = *self;
@after* `self.ckts[self.c].num_ports =`
    proof {
      if !self.there_are_errors || sub_ok(gb) {
        let k = self.c as int;
        assert(cvs(rp.ckts@)[k] == sub_cv(gb, gb.len() as int));
        assert(cv(self.ckts@[k]) == sub_done(gb));
        assert(self.ckts@ =~= rp.ckts@.update(k, self.ckts@[k]));
        lemma_upd(rp.ckts@, k, self.ckts@[k]);
        assert(cvs(self.ckts@) =~= s0.cs.push(sub_done(gb)));
      }
    }
@before* `self.ckts[self.c].add_i(`
    let ghost ra = *self;
@after* `self.ckts[self.c].add_i(`
    proof { lemma_el(r0, ra, *self, s0, path, lib, gb); } // only C13
@before* `self.ckts[self.c].add_i_sin(`
    let ghost ra = *self;
@after* `self.ckts[self.c].add_i_sin(`
    proof { lemma_el(r0, ra, *self, s0, path, lib, gb); } // only C13
@before* `self.ckts[self.c].add_v(`
    let ghost ra = *self;
@after* `self.ckts[self.c].add_v(`
    proof { lemma_el(r0, ra, *self, s0, path, lib, gb); } // only C13
@before* `self.ckts[self.c].add_v_sin(`
    let ghost ra = *self;
@after* `self.ckts[self.c].add_v_sin(`
    proof { lemma_el(r0, ra, *self, s0, path, lib, gb); } // only C13
@before* `self.ckts[self.c].add_v_pwl(`
    let ghost ra = *self;
@after* `self.ckts[self.c].add_v_pwl(`
    proof { lemma_el(r0, ra, *self, s0, path, lib, gb); } // only C13
@before* `self.ckts[self.c].add_instance(`
    let ghost ra = *self;
@after* `self.ckts[self.c].add_instance(`
    proof { lemma_el(r0, ra, *self, s0, path, lib, gb); } // only C13
@endfn
@fn analysis.rs Configuration::new
@ret r
@spec
  ensures gv(r) == defaults()
@endfn
@fn analysis.rs Configuration::set_transient
@spec
  ensures gv(*final(self)) == (GV { kind: Some(Kind::Transient), TSTOP: tstop, TSTEP: tstep, TSTART: tstart, ..gv(*old(self)) })
@endfn
@fn analysis.rs Configuration::set_dc_operating_point
@spec
  ensures gv(*final(self)) == (GV { kind: Some(Kind::DcOperatingPoint), ..gv(*old(self)) })
@endfn
@fn spice.rs Reader::new
@ret r
@spec
  ensures rd_ok(r), rst(r) == fresh()
@begin
    broadcast use group_lines, bl_one;
@endfn
@fn spice.rs Reader::read
@panics
@ret r
@spec
  requires rd_ok(*old(self))
  ensures rd_ok(*final(self)), old(self).there_are_errors ==> final(self).there_are_errors, r == final(self).there_are_errors, forall|i: int| 0 <= i < final(self).ckts.len() ==> lut_best(#[trigger] final(self).ckts[i]),
    whole(rst(*old(self)), filepath.pv(), ReadMode::TopLevel) is Some ==> rst(*final(self)) == leaving(whole(rst(*old(self)), filepath.pv(), ReadMode::TopLevel)->0, rst(*old(self))),
    read_as(rst(*old(self)), filepath.pv(), ReadMode::TopLevel, rst(*final(self))),
@endfn
@fn spice.rs Reader::configuration
@ret r
@spec
  ensures *r == self.cfg
@endfn
