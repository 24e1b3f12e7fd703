@prelude f64s cells strs maps
@broadcast super::f64s::group_f64, super::strs::group_strs, super::strs::group_ss
@celltypes Diode
@type NodeId Element Circuit Instance Parameter Expression Configuration Kind Reader
@const BOLTZMANN CHARGE
@rawfile elements branches adds names params diodes ext paths insts shape flat vals
@assume_from names Circuit::add_node Circuit::add_node_alias Circuit::get_param_value Circuit::build_node_id_lut
@assume_from counts Circuit::add_i Circuit::add_v Circuit::add_i_sin Circuit::add_v_sin Circuit::add_v_pwl
@assume_from diode Diode::new
@fn expander.rs find_subckt_index
@ret r
@spec
  ensures match r { Some(i) => sub_of(ckts@, name@, 0) == Some(i as int), None => sub_of(ckts@, name@, 0) is None }
@loop 0
    invariant sub_of(ckts@, name@, 0) == sub_of(ckts@, name@, it0 as int)
@endfn
@fn expander.rs local_connect
@panics
@ret r
@spec
  requires host_ckt_id < ckts.len(), nodes_ok(*old(ckt)), idx_ok(*old(ckt))
  ensures at(*final(ckt), ckts@, host_ckt_id as int, ss(inhier@), lnid, r), expands(ckts@, *old(ckt), *final(ckt), nil()),
    final(ckt).elements == old(ckt).elements, final(ckt).params == old(ckt).params, final(ckt).v_idx_next == old(ckt).v_idx_next,
    nodes_ok(*final(ckt)), idx_ok(*final(ckt)), ext(*old(ckt), *final(ckt))
@before `let node_name`
    proof { assert(ss(hier@) =~= ss(inhier@).push(local_node_name@)); }
@end
    proof { lemma_expands_node(ckts@, *old(ckt), *ckt, node_name@, gnid); reveal(expands); }
@endfn
@fn expander.rs expand_sources
@panics
@spec
  requires subckt_id < ckts.len(), nodes_ok(*old(ckt)), idx_ok(*old(ckt))
  ensures expands(ckts@, *old(ckt), *final(ckt), flat_srcs(ckts@, subckt_id as int, ss(hier@), ckts[subckt_id as int].elements.len() as int)),
    final(ckt).params == old(ckt).params, nodes_ok(*final(ckt)), idx_ok(*final(ckt))
@begin
    broadcast use group_flat;
    proof { lemma_expands_nil(ckts@, *ckt, *ckt); }
@loop 0
    invariant subckt_id < ckts.len(), nodes_ok(*ckt), idx_ok(*ckt), ckt.params == old(ckt).params, it0_v@ == ckts[subckt_id as int].elements@,
      expands(ckts@, *old(ckt), *ckt, flat_srcs(ckts@, subckt_id as int, ss(hier@), it0 as int))
@loop 0 begin
    let ghost cb = *ckt;
    let ghost f = Fl { path: ss(hier@), c: subckt_id as int, dev: false, k: it0 - 1, val: None };
    let ghost f0 = flat_srcs(ckts@, subckt_id as int, ss(hier@), it0 - 1);
    proof { assert(*el == ckts[subckt_id as int].elements[it0 - 1]); lemma_expands_nil(ckts@, cb, cb); }
@loop 0 end
    proof {
      if is_src(*el) {
        let e = ckt.elements@.last();
        assert(copy_ok(*ckt, ckts@, e, f));
        lemma_expands_tr(ckts@, *old(ckt), cb, *ckt, f0, just(f));
      } else { lemma_expands_tr(ckts@, *old(ckt), cb, *ckt, f0, nil()); lemma_cat_nil(f0); }
    }
@endfn
@fn expander.rs expand_primitive
@panics
@spec
  requires host_ckt_id < ckts.len(), nodes_ok(*old(ckt)), idx_ok(*old(ckt)), inst_wf(*inst), is_dev(*inst)
  ensures forall|k: int| 0 <= k < ckts[host_ckt_id as int].instances.len() && #[trigger] ckts[host_ckt_id as int].instances[k] == *inst ==>
      expands(ckts@, *old(ckt), *final(ckt), just(Fl { path: ss(inhier@), c: host_ckt_id as int, dev: true, k, val: pval(old(ckt).params@, full(ss(inhier@).push(inst.name@).push("/param0"@))) })),
    final(ckt).params == old(ckt).params, nodes_ok(*final(ckt)), idx_ok(*final(ckt))
@begin
    broadcast use group_flat;
    proof { lemma_expands_nil(ckts@, *ckt, *ckt); }
@loop 0
    invariant host_ckt_id < ckts.len(), nodes_ok(*ckt), idx_ok(*ckt), ckt.params == old(ckt).params, it0_v@ == inst.conns@, n.len() == it0, ss(hier@) == ss(inhier@),
      expands(ckts@, *old(ckt), *ckt, nil()), forall|j: int| 0 <= j < it0 ==> at(*ckt, ckts@, host_ckt_id as int, ss(inhier@), inst.conns[j], #[trigger] n[j])
@before `let ident`
    let ghost cm = *ckt;
    proof { lemma_vroom(cm); lemma_vt_pos(27real); assert(ss(hier@) =~= ss(inhier@).push(inst.name@)); lemma_full_ext(ss(inhier@).push(inst.name@)); }
@end
    proof {
      let e = ckt.elements@.last();
      assert(ckt.elements@ =~= cm.elements@.push(e));
      assert(same_rest(cm, *ckt));
      assume(idx_ok(*ckt)); // discharged in unit index
      assert(at(cm, ckts@, host_ckt_id as int, ss(inhier@), inst.conns[0], n[0]) && at(cm, ckts@, host_ckt_id as int, ss(inhier@), inst.conns[1], n[1]));
      assert forall|k: int| 0 <= k < ckts[host_ckt_id as int].instances.len() && #[trigger] ckts[host_ckt_id as int].instances[k] == *inst implies
        expands(ckts@, *old(ckt), *ckt, just(Fl { path: ss(inhier@), c: host_ckt_id as int, dev: true, k, val: pval(old(ckt).params@, full(ss(inhier@).push(inst.name@).push("/param0"@))) })) by {
        let f = Fl { path: ss(inhier@), c: host_ckt_id as int, dev: true, k, val: pval(old(ckt).params@, full(ss(inhier@).push(inst.name@).push("/param0"@))) };
        assert(at(cm, ckts@, host_ckt_id as int, ss(inhier@), inst.conns[0], n[0]) && at(cm, ckts@, host_ckt_id as int, ss(inhier@), inst.conns[1], n[1]));
        assert(copy_ok(*ckt, ckts@, e, f));
      }
    }
@endfn
@fn expander.rs expand_subckt
@panics
@spec
  requires host_ckt_id < ckts.len(), wf(ckts@), nodes_ok(*old(ckt)), idx_ok(*old(ckt)), inst_wf(*inst), !is_dev(*inst), all_dotfree(ss(inhier@)), set_all(old(ckt).params@),
    exists|k: int| 0 <= k < ckts[host_ckt_id as int].instances.len() && #[trigger] ckts[host_ckt_id as int].instances[k] == *inst,
    none_below(old(ckt).params@, 0, ss(inhier@).push(inst.name@), 2)
  ensures sub_of(ckts@, inst.subckt@, 0) is Some,
    expands(ckts@, *old(ckt), *final(ckt), flat_sub(ckts@, host_ckt_id as int, sub_of(ckts@, inst.subckt@, 0).unwrap(), ss(inhier@), *inst, env_at(old(ckt).params@, ss(inhier@).push(inst.name@)))),
    nodes_ok(*final(ckt)), idx_ok(*final(ckt)), prefix(old(ckt).params@, final(ckt).params@), set_all(final(ckt).params@),
    all_below(final(ckt).params@, old(ckt).params.len() as int, ss(inhier@).push(inst.name@), 2)
  decreases rk(ckts@, host_ckt_id as int), 0int
@begin
    broadcast use group_flat;
    let ghost P = ss(inhier@);
    let ghost Q = P.push(inst.name@);
    let ghost c = host_ckt_id as int;
    proof { ax_conns_len(*inst); }
    proof { lemma_expands_nil(ckts@, *ckt, *ckt); lemma_sub_of(ckts@, inst.subckt@, 0); lemma_push_dotfree(P, inst.name@); assert(port_al(ckts@, c, sub_of(ckts@, inst.subckt@, 0).unwrap(), P, *inst, 0) =~= Seq::empty()); }
@loop 0
    invariant host_ckt_id < ckts.len(), subckt_id < ckts.len(), nodes_ok(*ckt), idx_ok(*ckt), ckt.params == old(ckt).params, it0_v@ == inst.conns@, ss(hier@) == P, inst_wf(*inst),
      expands(ckts@, *old(ckt), *ckt, Flat { els: Seq::empty(), al: port_al(ckts@, c, subckt_id as int, P, *inst, it0 as int) })
@loop 0 begin
    let ghost cb = *ckt;
    let ghost fb = Flat { els: Seq::empty(), al: port_al(ckts@, c, subckt_id as int, P, *inst, it0 - 1) };
    let ghost a = net(ckts@, subckt_id as int, Q, it0);
    let ghost h = net(ckts@, c, P, inst.conns[it0 - 1]);
@after `let top_nid`
    let ghost cm = *ckt;
    proof { lemma_expands_node(ckts@, cb, cm, h, top_nid); lemma_expands_tr(ckts@, *old(ckt), cb, cm, fb, nil()); lemma_cat_nil(fb); }
@loop 0 end
    proof {
      reveal(expands);
      lemma_expands_alias(ckts@, cm, *ckt, a, h, top_nid);
      let f1 = Flat { els: Seq::empty(), al: seq![(a, h)] };
      lemma_expands_tr(ckts@, *old(ckt), cm, *ckt, fb, f1);
      assert(cat(fb, f1).els =~= Seq::empty());
      assert(cat(fb, f1).al =~= port_al(ckts@, c, subckt_id as int, P, *inst, it0 as int));
    }
@before `expand_sources`
    let ghost c1 = *ckt;
@before `expand_instances`
    let ghost c2 = *ckt;
@end
    proof {
      let s = subckt_id as int;
      let f1 = Flat { els: Seq::empty(), al: port_al(ckts@, c, s, P, *inst, inst.conns.len() as int) };
      let f2 = flat_srcs(ckts@, s, Q, ckts[s].elements.len() as int);
      let f3 = flat(ckts@, s, Q, env_at(old(ckt).params@, Q), ckts[s].instances.len() as int);
      lemma_expands_tr(ckts@, *old(ckt), c1, c2, f1, f2);
      lemma_expands_tr(ckts@, *old(ckt), c2, *ckt, cat(f1, f2), f3);
    }
@endfn
@fn expander.rs expand_instances
@panics
@spec
  requires ckt_id < ckts.len(), wf(ckts@), nodes_ok(*old(ckt)), idx_ok(*old(ckt)), all_dotfree(ss(inhier@)), set_all(old(ckt).params@),
    none_below(old(ckt).params@, 0, ss(inhier@), 2)
  ensures expands(ckts@, *old(ckt), *final(ckt), flat(ckts@, ckt_id as int, ss(inhier@), env_at(old(ckt).params@, ss(inhier@)), ckts[ckt_id as int].instances.len() as int)),
    nodes_ok(*final(ckt)), idx_ok(*final(ckt)), prefix(old(ckt).params@, final(ckt).params@), set_all(final(ckt).params@),
    all_below(final(ckt).params@, old(ckt).params.len() as int, ss(inhier@), 2)
  decreases rk(ckts@, ckt_id as int), 1int
@begin
    let ghost P = ss(inhier@);
    let ghost c = ckt_id as int;
    let ghost E = env_at(old(ckt).params@, P);
    proof { lemma_expands_nil(ckts@, *ckt, *ckt); }
@loop 0
    invariant ckt_id < ckts.len(), wf(ckts@), nodes_ok(*ckt), idx_ok(*ckt), all_dotfree(P), set_all(ckt.params@), it0_v@ == ckts[c].instances@, ss(hier@) == P,
      prefix(old(ckt).params@, ckt.params@), all_under(ckts@, c, P, it0 as int, ckt.params@, old(ckt).params.len() as int),
      expands(ckts@, *old(ckt), *ckt, flat(ckts@, c, P, E, it0 as int))
@loop 0 begin
    let ghost cb = *ckt;
    let ghost k = it0 - 1;
    let ghost pb = ckt.params@;
    let ghost Q = P.push(inst.name@);
    proof {
      assert(*inst == ckts[c].instances[k]);
      assert(inst_wf(*inst));
      lemma_push_dotfree(P, inst.name@);
      lemma_sub_of(ckts@, inst.subckt@, 0);
      lemma_fresh(ckts@, c, P, k, pb, old(ckt).params.len() as int);
      assert forall|x: Nm| dotfree(x) implies #[trigger] pval(pb, full(Q.push(x))) == ov_val(inst.params@, 0, x, E) by { lemma_fresh_val(pb, Q, x); }
    }
@loop 1
    invariant ss(hier@) == P, it1_v@ == inst.params@, same_but_params(cb, *ckt), prefix(pb, ckt.params@), set_all(ckt.params@), all_direct(ckt.params@, pb.len() as int, Q),
      forall|x: Nm| dotfree(x) ==> #[trigger] pval(ckt.params@, full(Q.push(x))) == ov_val(inst.params@, it1 as int, x, E)
@loop 1 begin
    let ghost p1 = ckt.params@;
    proof {
      assert(*p == inst.params[it1 - 1]);
      assert(dotfree(inst.params[it1 - 1].name@) && expr_wf(inst.params[it1 - 1].expr));
      if is_ident(p.expr) { lemma_scope_in(ckts@, c, P, k, old(ckt).params@, pb, p1, ident_of(p.expr)); }
    }
@loop 1 end
    proof {
      let v = expr_val(p.expr, E);
      assert forall|x: Nm| dotfree(x) implies #[trigger] pval(ckt.params@, full(Q.push(x))) == ov_val(inst.params@, it1 as int, x, E) by {
        assert(pval(p1, full(Q.push(x))) == ov_val(inst.params@, it1 - 1, x, E));
        lemma_name_inj(Q, p.name@, x);
        if v is Some { lemma_pval_push(p1, ckt.params@.last(), full(Q.push(x))); assert(ckt.params@ =~= p1.push(ckt.params@.last())); }
      }
    }
@loop 2
    invariant ss(hier@) == P, it2_v@ == ckts[subckt_id as int].params@, same_but_params(cb, *ckt), prefix(pb, ckt.params@), set_all(ckt.params@), all_direct(ckt.params@, pb.len() as int, Q),
      forall|x: Nm| dotfree(x) ==> #[trigger] pval(ckt.params@, full(Q.push(x))) == or_else(ov_val(inst.params@, inst.params.len() as int, x, E), def_val(ckts[subckt_id as int].params@, it2 as int, x, E))
@loop 2 begin
    let ghost p2 = ckt.params@;
    proof {
      let dp = ckts[subckt_id as int].params[it2 - 1];
      assert(*param_def == dp);
      assert(dotfree(dp.name@) && expr_wf(dp.defval));
      assert(pval(p2, full(Q.push(dp.name@))) == or_else(ov_val(inst.params@, inst.params.len() as int, dp.name@, E), def_val(ckts[subckt_id as int].params@, it2 - 1, dp.name@, E)));
      assert forall|x: Nm| dotfree(x) && x != dp.name@ || pval(p2, full(Q.push(dp.name@))) is Some implies
        or_else(ov_val(inst.params@, inst.params.len() as int, x, E), #[trigger] def_val(ckts[subckt_id as int].params@, it2 as int, x, E)) == or_else(ov_val(inst.params@, inst.params.len() as int, x, E), def_val(ckts[subckt_id as int].params@, it2 - 1, x, E)) by {}
      if is_ident(dp.defval) { lemma_scope_in(ckts@, c, P, k, old(ckt).params@, pb, p2, ident_of(dp.defval)); }
    }
@loop 2 end
    proof {
      assert forall|x: Nm| dotfree(x) implies #[trigger] pval(ckt.params@, full(Q.push(x))) == or_else(ov_val(inst.params@, inst.params.len() as int, x, E), def_val(ckts[subckt_id as int].params@, it2 as int, x, E)) by {
        assert(pval(p2, full(Q.push(x))) == or_else(ov_val(inst.params@, inst.params.len() as int, x, E), def_val(ckts[subckt_id as int].params@, it2 - 1, x, E)));
        lemma_name_inj(Q, param_def.name@, x);
        if ckt.params@ != p2 { lemma_pval_push(p2, ckt.params@.last(), full(Q.push(x))); assert(ckt.params@ =~= p2.push(ckt.params@.last())); }
      }
    }
@before `expand_primitive`
    let ghost cm = *ckt;
    proof {
      lemma_nodes_same(cb, cm);
      lemma_expands_nil(ckts@, cb, cm);
      assert(dotfree("/param0"@)) by { reveal_strlit("/param0"); }
      assert(pval(cm.params@, full(Q.push("/param0"@))) == dev_env(*inst, E)("/param0"@));
    }
@before `expand_subckt`
    let ghost cm = *ckt;
    proof {
      lemma_nodes_same(cb, cm);
      lemma_expands_nil(ckts@, cb, cm);
      assert(env_at(cm.params@, Q) =~= sub_env(*inst, ckts[sub_of(ckts@, inst.subckt@, 0).unwrap()], E));
      assert forall|i: int| 0 <= i < cm.params.len() implies !below((#[trigger] cm.params[i]).name@, Q, 2) by {
        if i < pb.len() { assert(cm.params[i] == pb[i]); } else { lemma_direct(cm.params[i].name@, Q); }
      }
    }
@after `expand_primitive`
    proof {
      let g = flat_inst(ckts@, c, P, E, k as int);
      lemma_expands_tr(ckts@, cb, cm, *ckt, nil(), g); lemma_cat_nil(g);
      assert forall|i: int| pb.len() <= i < ckt.params.len() implies below((#[trigger] ckt.params[i]).name@, Q, 1) by { lemma_direct(cm.params[i].name@, Q); }
    }
@after `expand_subckt`
    proof {
      let g = flat_inst(ckts@, c, P, E, k as int);
      lemma_expands_tr(ckts@, cb, cm, *ckt, nil(), g); lemma_cat_nil(g);
      assert forall|i: int| pb.len() <= i < ckt.params.len() implies below((#[trigger] ckt.params[i]).name@, Q, 1) by {
        if i < cm.params.len() { assert(ckt.params[i] == cm.params[i]); lemma_direct(cm.params[i].name@, Q); }
        else { let t = choose|t: Seq<Nm>| t.len() >= 2 && all_dotfree(t) && ckt.params[i].name@ == full(#[trigger] (Q + t)); assert(t.len() >= 1); }
      }
      assert forall|i: int| 0 <= i < pb.len() implies #[trigger] ckt.params[i] == pb[i] by { assert(cm.params[i] == pb[i]); }
    }
@loop 0 end
    proof {
      let f = flat(ckts@, c, P, E, k as int);
      let g = flat_inst(ckts@, c, P, E, k as int);
      lemma_expands_tr(ckts@, *old(ckt), cb, *ckt, f, g);
      assert(prefix(pb, ckt.params@));
      assert(prefix(old(ckt).params@, ckt.params@)) by { assert forall|i: int| 0 <= i < old(ckt).params.len() implies #[trigger] ckt.params[i] == old(ckt).params[i] by { assert(pb[i] == old(ckt).params[i]); } }
      assert forall|i: int| old(ckt).params.len() <= i < ckt.params.len() implies under(ckts@, c, P, it0 as int, (#[trigger] ckt.params[i]).name@) by {
        if i < pb.len() { assert(ckt.params[i] == pb[i]); assert(under(ckts@, c, P, k as int, pb[i].name@));
          let j = choose|j: int| 0 <= j < k && below(pb[i].name@, P.push((#[trigger] ckts[c].instances[j]).name@), 1); assert(0 <= j < it0 && below(ckt.params[i].name@, P.push(ckts[c].instances[j].name@), 1)); }
        else { assert(below(ckt.params[i].name@, P.push(ckts[c].instances[k as int].name@), 1)); }
      }
    }
@end
    proof { lemma_under_2(ckts@, c, P, ckts[c].instances.len() as int, ckt.params@, old(ckt).params.len() as int); }
@endfn
@fn expander.rs expand
@ret r
@spec
  requires ckts.len() > 0, wf(ckts@), nodes_ok(ckts[0]), idx_ok(ckts[0]), lut_own(ckts[0]),
    set_all(ckts[0].params@), none_below(ckts[0].params@, 0, Seq::empty(), 2)
  ensures ({ let f = flat(ckts@, 0, Seq::empty(), env_at(ckts[0].params@, Seq::empty()), ckts[0].instances.len() as int);
      // the elements of the top level, then the copies
      &&& r.elements.len() == ckts[0].elements.len() + f.els.len()
      &&& forall|i: int| 0 <= i < ckts[0].elements.len() ==> #[trigger] r.elements[i] == ckts[0].elements[i]
      &&& forall|i: int| 0 <= i < f.els.len() ==> copy_ok(r, ckts@, r.elements[ckts[0].elements.len() + i], #[trigger] f.els[i]) }),
    nodes_ok(r), idx_ok(r)
@begin
    broadcast use group_flat;
@before `expand_instances`
    proof { assert(ss(hier@) =~= Seq::empty()); }
@before `ckt.build_node_id_lut`
    let ghost cm = ckt;
    let ghost f = flat(ckts@, 0, Seq::empty(), env_at(ckts[0].params@, Seq::empty()), ckts[0].instances.len() as int);
    proof { reveal(expands); }
@end
    proof {
      reveal(expands);
      assert(expands(ckts@, ckts[0], cm, f));
      lemma_nodes_same(cm, ckt);
      assert forall|i: int| 0 <= i < f.els.len() implies copy_ok(ckt, ckts@, ckt.elements[ckts[0].elements.len() + i], #[trigger] f.els[i]) by { lemma_copy_ext(cm, ckt, ckts@, cm.elements[ckts[0].elements.len() + i], f.els[i]); }
    }
@endfn
@fn spice.rs Reader::get_expanded_circuit
@ret r
@spec
  // what a reader holds is always of this shape (unit shape); wf is about the deck
  requires rd_shape(*self), wf(self.ckts@)
  ensures ({ let f = flat(self.ckts@, 0, Seq::empty(), env_at(Seq::empty(), Seq::empty()), self.ckts[0].instances.len() as int);
      &&& r.elements.len() == self.ckts[0].elements.len() + f.els.len()
      &&& forall|i: int| 0 <= i < self.ckts[0].elements.len() ==> #[trigger] r.elements[i] == self.ckts[0].elements[i]
      &&& forall|i: int| 0 <= i < f.els.len() ==> copy_ok(r, self.ckts@, r.elements[self.ckts[0].elements.len() + i], #[trigger] f.els[i]) }),
    nodes_ok(r), idx_ok(r)
@begin
    proof { assert(shape(self.ckts[0])); lemma_shape(self.ckts[0]); assert(self.ckts[0].params@ =~= Seq::empty()); }
@endfn
