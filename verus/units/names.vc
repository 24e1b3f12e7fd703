@prelude f64s cells strs maps
@broadcast super::f64s::group_f64, super::strs::group_strs
@opaque Element Instance Parameter
@type Circuit
@raw
pub struct Element { x: usize }
pub struct Instance { x: usize }
pub struct Parameter { pub name: String, pub value: Option<f64> }
@rawfile names params
@fn circuit.rs Circuit::get_node_id
@ret r
@spec
  ensures r == node_of(*self, name@)
@begin
    proof {
      if name@.contains('.') { assert forall|a: Seq<char>, b: Seq<char>| #![trigger a + seq!['.'] + b] name@ == a + seq!['.'] + b && !b.contains('.') implies last_part(name@) == b by { lemma_last_part(a, b); } }
      else { lemma_last_part_none(name@); }
      assert forall|a: Seq<char>, b: Seq<char>| #![trigger a + seq!['.'] + b] name@ == a + seq!['.'] + b implies name@.contains('.') by { assert((a + seq!['.'] + b)[a.len() as int] == '.'); }
    }
@endfn
@fn circuit.rs Circuit::new
@ret r
@spec
  ensures nodes_ok(r), r.nid_next == 1, r.v_idx_next == 0, r.elements.len() == 0, r.instances.len() == 0, r.params.len() == 0, r.num_ports == 0,
    smap(r.nodes) == Map::<Seq<char>, usize>::empty().insert("gnd"@, 0usize), imap(r.node_id_lut) == Map::<usize, String>::empty(), r.name@ == "<toplevel>"@
@end
    proof { assert(is_gnd("gnd"@)) by { reveal_strlit("gnd"); lemma_last_part_none("gnd"@); } }
@endfn
@fn circuit.rs Circuit::add_node
@ret r
@spec
  requires nodes_ok(*old(self))
  ensures nodes_ok(*final(self)), same_but_nodes(*old(self), *final(self)),
    node_of(*final(self), name@) == Some(r), r < final(self).nid_next,
    // a name that has an index keeps it; a new name gets the next unused one
    node_of(*old(self), name@) is Some ==> *final(self) == *old(self) && node_of(*old(self), name@) == Some(r),
    node_of(*old(self), name@) is None ==> r == old(self).nid_next && final(self).nid_next == old(self).nid_next + 1
      && smap(final(self).nodes) == smap(old(self).nodes).insert(name@, r)
@begin
    proof { lemma_room(*self); }
@after `self.nodes.insert(`
    proof {
      let o = *old(self);
      let f = *self;
      if node_of(o, name@) is None {
        assert(smap(f.nodes)[name@] == o.nid_next);
        assert forall|g: Circuit, i: usize| g.nodes == f.nodes && 1 <= i <= o.nid_next implies #[trigger] has_name(g, i) by {
          if i < o.nid_next { assert(has_name(o, i)); let s = choose|s: Seq<char>| smap(o.nodes).dom().contains(s) && #[trigger] smap(o.nodes)[s] == i; assert(smap(f.nodes)[s] == i); }
          assert(smap(g.nodes) == smap(f.nodes));
        }
      }
    }
@endfn
@fn circuit.rs Circuit::add_node_alias
@panics
@spec
  requires nodes_ok(*old(self)), nid < old(self).nid_next
  // (a contradictory alias aborts the run: control comes back only for consistent ones)
  ensures node_of(*old(self), name@) is Some ==> node_of(*old(self), name@) == Some(nid),
    nodes_ok(*final(self)), same_but_nodes(*old(self), *final(self)), final(self).nid_next == old(self).nid_next,
    smap(final(self).nodes) == smap(old(self).nodes).insert(name@, nid), node_of(*final(self), name@) == Some(nid)
@end
    proof {
      let o = *old(self);
      let f = *self;
      assert forall|i: usize| 1 <= i < f.nid_next implies #[trigger] has_name(f, i) by {
        assert(has_name(o, i)); let s = choose|s: Seq<char>| smap(o.nodes).dom().contains(s) && #[trigger] smap(o.nodes)[s] == i; assert(smap(f.nodes)[s] == i);
      }
    }
@endfn
@fn circuit.rs Circuit::build_node_id_lut
@strvars name other
@spec
  requires lut_own(*old(self))
  ensures lut_own(*final(self)), lut_best(*final(self)), final(self).nodes == old(self).nodes, final(self).nid_next == old(self).nid_next,
    final(self).name == old(self).name, final(self).elements == old(self).elements, final(self).v_idx_next == old(self).v_idx_next,
    final(self).instances == old(self).instances, final(self).num_ports == old(self).num_ports, final(self).params == old(self).params
@loop 0
    invariant lut_own(*self), self.nodes == old(self).nodes, self.nid_next == old(self).nid_next,
      self.name == old(self).name, self.elements == old(self).elements, self.v_idx_next == old(self).v_idx_next,
      self.instances == old(self).instances, self.num_ports == old(self).num_ports, self.params == old(self).params,
      forall|j: int| 0 <= j < it0 ==> imap(self.node_id_lut).dom().contains(*(#[trigger] it0_v[j]).1) && !better(it0_v[j].0@, imap(self.node_id_lut)[*it0_v[j].1]@)
@loop 0 begin
    let ghost lb = imap(self.node_id_lut);
@loop 0 end
    proof {
      let k = it0 - 1;
      assert(it0_v[k].0@ == name@ && *it0_v[k].1 == *id);
      lemma_better_tot(name@, name@);
      assert forall|j: int| 0 <= j < it0 implies imap(self.node_id_lut).dom().contains(*(#[trigger] it0_v[j]).1) && !better(it0_v[j].0@, imap(self.node_id_lut)[*it0_v[j].1]@) by {
        if j < k {
          if *it0_v[j].1 == *id && imap(self.node_id_lut)[*id]@ != lb[*id]@ {
            let t = it0_v[j].0@; let o = lb[*id]@;
            if better(t, name@) { lemma_better_tr(t, name@, o); }
          }
        } else {
          if lb.dom().contains(*id) { lemma_better_tot(name@, lb[*id]@); }
        }
      }
    }
@end
    proof {
      assert forall|s: Seq<char>| #[trigger] smap(self.nodes).dom().contains(s) implies imap(self.node_id_lut).dom().contains(smap(self.nodes)[s]) && best_name(*self, imap(self.node_id_lut)[smap(self.nodes)[s]]@) by {
        let j = choose|j: int| 0 <= j < it0_v.len() && (#[trigger] it0_v[j]).0@ == s;
        let i = smap(self.nodes)[s];
        assert(*it0_v[j].1 == i);
        let b = imap(self.node_id_lut)[i]@;
        assert forall|t: Seq<char>| #[trigger] smap(self.nodes).dom().contains(t) && smap(self.nodes)[t] == i implies !better(t, b) by {
          let m = choose|m: int| 0 <= m < it0_v.len() && (#[trigger] it0_v[m]).0@ == t;
          assert(*it0_v[m].1 == i);
        }
      }
    }
@endfn
@fn circuit.rs Circuit::get_param_value
@ret r
@spec
  ensures match first_param(self.params@, name@, 0) { Some(i) => r == self.params@[i].value, None => r is None }
@loop 0
    invariant first_param(self.params@, name@, 0) == first_param(self.params@, name@, it0 as int)
@endfn
