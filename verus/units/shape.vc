@prelude f64s cells strs maps nums io
@broadcast super::strs::group_strs
@celltypes Diode
@type NodeId Circuit Configuration Kind Instance Parameter Expression Element Reader ReadMode
@raw
use Expression::Literal;
@rawfile elements branches adds numbers names insts shape
@assume_from bracket extract_value extract_expression
@assumed circuit.rs Circuit::list_parameters
@endfn
@assumed circuit.rs Circuit::list_elements
@endfn
@assumed circuit.rs Circuit::list_nodes
@endfn
@assumed circuit.rs Circuit::list_instantiations
@endfn
@assumed analysis.rs Configuration::print_options
@endfn
@assume_from names Circuit::get_node_id
@fn circuit.rs Circuit::new
@ret r
@spec
  ensures is_new(r), shape(r), r.params.len() == 0
@begin
    proof { assert forall|c: Circuit| is_new(c) implies #[trigger] shape(c) by { bl_new(c); } }
    proof { assert(is_gnd("gnd"@)) by { reveal_strlit("gnd"); lemma_last_part_none("gnd"@); } }
@endfn
@fn circuit.rs Circuit::add_node
@ret r
@spec
  requires shape(*old(self))
  ensures shape(*final(self)), r < final(self).nid_next, old(self).nid_next <= final(self).nid_next, final(self).params == old(self).params
@begin
    proof { lemma_shape(*self); lemma_room(*self); }
@after `self.nodes.insert(`
    proof {
      let o = *old(self);
      let f = *self;
      if node_of(o, name@) is None {
        assert(smap(f.nodes)[name@] == o.nid_next);
        assert forall|g: Circuit, i: usize| g.nodes == f.nodes && 1 <= i <= o.nid_next implies #[trigger] has_name(g, i) by {
          if i < o.nid_next { assert(has_name(o, i)); let s = choose|s: Seq<char>| smap(o.nodes).dom().contains(s) && #[trigger] smap(o.nodes)[s] == i; assert(smap(f.nodes)[s] == i); }
          assert(smap(g.nodes) == smap(f.nodes));
        }
      }
    }
@after `self.nid_next += 1`
    proof { lemma_shape_node(*old(self), *self, name@); }
@endfn
@fn circuit.rs Circuit::build_node_id_lut
@strvars name other
@spec
  requires shape(*old(self))
  ensures shape(*final(self)), lut_best(*final(self)), final(self).nodes == old(self).nodes, final(self).nid_next == old(self).nid_next,
    final(self).name == old(self).name, final(self).elements == old(self).elements, final(self).v_idx_next == old(self).v_idx_next,
    final(self).instances == old(self).instances, final(self).num_ports == old(self).num_ports, final(self).params == old(self).params
@begin
    proof { lemma_shape(*self); }
@loop 0
    invariant lut_own(*self), self.nodes == old(self).nodes, self.nid_next == old(self).nid_next,
      self.name == old(self).name, self.elements == old(self).elements, self.v_idx_next == old(self).v_idx_next,
      self.instances == old(self).instances, self.num_ports == old(self).num_ports, self.params == old(self).params,
      forall|j: int| 0 <= j < it0 ==> imap(self.node_id_lut).dom().contains(*(#[trigger] it0_v[j]).1) && !better(it0_v[j].0@, imap(self.node_id_lut)[*it0_v[j].1]@)
@loop 0 begin
    let ghost lb = imap(self.node_id_lut);
@loop 0 end
    proof {
      let k = it0 - 1;
      assert(it0_v[k].0@ == name@ && *it0_v[k].1 == *id);
      lemma_better_tot(name@, name@);
      assert forall|j: int| 0 <= j < it0 implies imap(self.node_id_lut).dom().contains(*(#[trigger] it0_v[j]).1) && !better(it0_v[j].0@, imap(self.node_id_lut)[*it0_v[j].1]@) by {
        if j < k {
          if *it0_v[j].1 == *id && imap(self.node_id_lut)[*id]@ != lb[*id]@ {
            let t = it0_v[j].0@; let o = lb[*id]@;
            if better(t, name@) { lemma_better_tr(t, name@, o); }
          }
        } else {
          if lb.dom().contains(*id) { lemma_better_tot(name@, lb[*id]@); }
        }
      }
    }
@end
    proof {
      assert forall|s: Seq<char>| #[trigger] smap(self.nodes).dom().contains(s) implies imap(self.node_id_lut).dom().contains(smap(self.nodes)[s]) && best_name(*self, imap(self.node_id_lut)[smap(self.nodes)[s]]@) by {
        let j = choose|j: int| 0 <= j < it0_v.len() && (#[trigger] it0_v[j]).0@ == s;
        let i = smap(self.nodes)[s];
        assert(*it0_v[j].1 == i);
        let b = imap(self.node_id_lut)[i]@;
        assert forall|t: Seq<char>| #[trigger] smap(self.nodes).dom().contains(t) && smap(self.nodes)[t] == i implies !better(t, b) by {
          let m = choose|m: int| 0 <= m < it0_v.len() && (#[trigger] it0_v[m]).0@ == t;
          assert(*it0_v[m].1 == i);
        }
      }
      assert forall|i: usize| 1 <= i < self.nid_next implies #[trigger] has_name(*self, i) by { assert(has_name(*old(self), i)); let s = choose|s: Seq<char>| smap(old(self).nodes).dom().contains(s) && #[trigger] smap(old(self).nodes)[s] == i; assert(smap(self.nodes)[s] == i); }
      lemma_shape(*self);
    }
@endfn
@fn circuit.rs Circuit::add_i
@spec
  requires shape(*old(self)), p < old(self).nid_next, n < old(self).nid_next
  ensures shape(*final(self)), final(self).nid_next == old(self).nid_next, final(self).params == old(self).params
@begin
    proof { lemma_shape(*self); lemma_vroom(*self); }
@end
    proof { let e = Element::I(CurrentSource { p, n, value }); lemma_push(old(self).elements@, e); lemma_shape_el(*old(self), *self, e); }
@endfn
@fn circuit.rs Circuit::add_v
@spec
  requires shape(*old(self)), p < old(self).nid_next, n < old(self).nid_next
  ensures shape(*final(self)), final(self).nid_next == old(self).nid_next, final(self).params == old(self).params
@begin
    proof { lemma_shape(*self); lemma_vroom(*self); }
@end
    proof { let e = Element::V(VoltageSource { p, n, value, idx: old(self).v_idx_next }); lemma_push(old(self).elements@, e); lemma_shape_el(*old(self), *self, e); }
@endfn
@fn circuit.rs Circuit::add_i_sin
@spec
  requires shape(*old(self)), i_sin.p < old(self).nid_next, i_sin.n < old(self).nid_next
  ensures shape(*final(self)), final(self).nid_next == old(self).nid_next, final(self).params == old(self).params
@begin
    proof { lemma_shape(*self); lemma_vroom(*self); }
@end
    proof { let e = Element::Isin(i_sin); lemma_push(old(self).elements@, e); lemma_shape_el(*old(self), *self, e); }
@endfn
@fn circuit.rs Circuit::add_v_sin
@spec
  requires shape(*old(self)), v_sin.p < old(self).nid_next, v_sin.n < old(self).nid_next
  ensures shape(*final(self)), final(self).nid_next == old(self).nid_next, final(self).params == old(self).params
@begin
    proof { lemma_shape(*self); lemma_vroom(*self); }
@end
    proof { let e = Element::Vsin(VoltageSourceSine { idx: old(self).v_idx_next, ..v_sin }); lemma_push(old(self).elements@, e); lemma_shape_el(*old(self), *self, e); }
@endfn
@fn circuit.rs Circuit::add_v_pwl
@spec
  requires shape(*old(self)), v_pwl.p < old(self).nid_next, v_pwl.n < old(self).nid_next
  ensures shape(*final(self)), final(self).nid_next == old(self).nid_next, final(self).params == old(self).params
@begin
    proof { lemma_shape(*self); lemma_vroom(*self); }
@end
    proof { let e = Element::Vpwl(VoltageSourcePwl { idx: old(self).v_idx_next, ..v_pwl }); lemma_push(old(self).elements@, e); lemma_shape_el(*old(self), *self, e); }
@endfn
@fn circuit.rs Instance::new
@ret r
@spec
  ensures r.subckt@ == subckt@, r.name@ == name@, r.conns.len() == 0
@endfn
@fn circuit.rs Instance::add_connection
@spec
  ensures final(self).conns@ == old(self).conns@.push(nid), final(self).subckt == old(self).subckt, final(self).name == old(self).name
@endfn
@fn circuit.rs Instance::add_parameter
@spec
  ensures final(self).conns == old(self).conns, final(self).subckt == old(self).subckt, final(self).name == old(self).name
@endfn
@fn circuit.rs Circuit::add_instance
@spec
  requires shape(*old(self)), inst_in(inst, old(self).nid_next)
  ensures shape(*final(self)), final(self).nid_next == old(self).nid_next, final(self).params == old(self).params
@end
    proof { lemma_shape_inst(*old(self), *self, inst); }
@endfn
@fn parameter.rs Parameter::override_from_expression
@endfn
@fn parameter.rs Parameter::default_from_expression
@endfn
@fn analysis.rs Configuration::set_wavefile
@endfn
@fn analysis.rs Configuration::new
@endfn
@fn analysis.rs Configuration::set_transient
@endfn
@fn analysis.rs Configuration::set_dc_operating_point
@endfn
@fn spice.rs Reader::extract_node
@ret r
@spec
  requires rd_shape(*old(self))
  ensures goes_on(*old(self), *final(self)), r < nxt(*final(self))
@begin
    proof { lemma_shape(self.ckts[self.c as int]); }
@endfn
@fn spice.rs Reader::extract_parameter
@spec
  requires rd_shape(*old(self))
  ensures goes_on(*old(self), *final(self))
@endfn
@fn spice.rs Reader::extract_override
@spec
  requires rd_shape(*old(self))
  ensures goes_on(*old(self), *final(self))
@endfn
@fn spice.rs look_for_file
@endfn
@fn spice.rs Reader::extract_option
@panics
@panicidx bits
@spec
  requires rd_shape(*old(self))
  ensures final(self).ckts == old(self).ckts, final(self).c == old(self).c
@endfn
@fn spice.rs Reader::extract_i_sine
@panics
@panicidx bits all_bits
@strvars line
@ret r
@spec
  requires rd_shape(*old(self)), bits.len() >= 3
  ensures goes_on(*old(self), *final(self)), r.p < nxt(*final(self)), r.n < nxt(*final(self))
@endfn
@fn spice.rs Reader::extract_v_sine
@panics
@panicidx bits all_bits
@strvars line
@ret r
@spec
  requires rd_shape(*old(self)), bits.len() >= 3
  ensures goes_on(*old(self), *final(self)), r.p < nxt(*final(self)), r.n < nxt(*final(self))
@endfn
@fn spice.rs Reader::extract_v_pwl
@panics
@panicidx bits all_bits tv_pair
@strvars line
@ret r
@spec
  requires rd_shape(*old(self)), bits.len() > 3
  ensures goes_on(*old(self), *final(self)), r.p < nxt(*final(self)), r.n < nxt(*final(self))
@loop 0
    invariant_except_break it0 + n_params == bits.len()
    invariant goes_on(*old(self), *self), src.p < nxt(*self), src.n < nxt(*self), n_params <= bits.len()
@loop 1
    invariant true
@loop 2
    invariant true
@endfn
@fn spice.rs Reader::extract_instance
@panics
@panicidx bits
@ret r
@spec
  requires rd_shape(*old(self)), bits.len() > 0, starts(bits@[0]@, 'X')
  ensures goes_on(*old(self), *final(self)), inst_in(r, nxt(*final(self)))
@begin
    broadcast use bl_letter;
@loop 0
    invariant goes_on(*old(self), *self), inst.name@ == bits@[0]@, inst.conns.len() == 0, subckt_id < bits.len()
@loop 1
    invariant goes_on(*old(self), *self), inst.name@ == bits@[0]@, forall|j: int| 0 <= j < inst.conns.len() ==> #[trigger] inst.conns[j] < nxt(*self)
@endfn
@fn spice.rs Reader::extract_primitive
@ret r
@spec
  requires rd_shape(*old(self)), bits.len() > 0, 2 <= num_ports < 1000, min_num_params < 1000, (starts(bits@[0]@, 'E') || starts(bits@[0]@, 'G')) ==> num_ports >= 4
  ensures goes_on(*old(self), *final(self)), r is Some ==> inst_in(r->0, nxt(*final(self)))
@loop 0
    invariant i == 1 + it0, goes_on(*old(self), *self), inst.name@ == bits@[0]@, inst.conns.len() == it0, forall|j: int| 0 <= j < inst.conns.len() ==> #[trigger] inst.conns[j] < nxt(*self)
@loop 1
    invariant goes_on(*old(self), *self), inst.name@ == bits@[0]@, inst.conns.len() == num_ports, forall|j: int| 0 <= j < inst.conns.len() ==> #[trigger] inst.conns[j] < nxt(*self)
@endfn
@fn spice.rs Reader::read_spice
@panics
@panicidx bits all_bits
@spec
  requires rd_shape(*old(self)), !(readmode is Include)
  ensures rd_shape(*final(self)), forall|i: int| 0 <= i < final(self).ckts.len() ==> lut_best(#[trigger] final(self).ckts[i]),
  decreases (if readmode is TopLevel { 1int } else { 0int })
@begin
    broadcast use bl_letter;
@loop 0
    invariant rd_shape(*self), libname is Some == readmode is Library
@loop 1
    invariant rd_shape(*self), num_ports <= it1, self.c > 0
@loop 3 before
    let ghost r3 = *self;
@loop 3
    invariant rd_shape(*self), self.ckts.len() == r3.ckts.len(), forall|i: int| 0 <= i < it3 ==> lut_best(#[trigger] self.ckts[i])
@endfn
@fn spice.rs Reader::new
@ret r
@spec
  ensures rd_shape(r)
@endfn
@fn spice.rs Reader::read
@panics
@spec
  requires rd_shape(*old(self))
  ensures rd_shape(*final(self)), forall|i: int| 0 <= i < final(self).ckts.len() ==> lut_best(#[trigger] final(self).ckts[i])
@endfn
