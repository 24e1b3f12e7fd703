@prelude f64s cells strs maps
@broadcast super::f64s::group_f64

@type NodeId Element Circuit
@rawfile elements branches adds
@fn circuit.rs Circuit::count_nodes
@ret r
@spec
  requires forall|k: int, t: usize| 0 <= k < self.elements.len() && #[trigger] touches(self.elements[k], t) ==> t < usize::MAX
  ensures r >= 1, forall|k: int, t: usize| 0 <= k < self.elements.len() && #[trigger] touches(self.elements[k], t) ==> t < r,
    r == 1 || exists|k: int| 0 <= k < self.elements.len() && #[trigger] touches(self.elements[k], (r - 1) as usize)
@loop 0
     invariant
       nid_max < usize::MAX,
       forall|k: int, t: usize| 0 <= k < it0 && #[trigger] touches(self.elements[k], t) ==> t <= nid_max,
       nid_max == 0 || exists|k: int| 0 <= k < it0 && #[trigger] touches(self.elements[k], nid_max)
@loop 0 begin
     let ghost top = nid_max;
     let ghost cur = it0 - 1;
     proof { assert(*el == self.elements[cur]); }
@loop 0 end
     proof {
       if nid_max != top { assert(touches(self.elements[cur], nid_max)); }
       else if top != 0 {
         let k0 = choose|k: int| 0 <= k < cur && #[trigger] touches(self.elements[k], top);
         assert(touches(self.elements[k0], nid_max));
       }
     }
@end
     proof {
       assert((nid_max + 1 - 1) as usize == nid_max);
       if nid_max != 0 {
         let k0 = choose|k: int| 0 <= k < self.elements.len() && #[trigger] touches(self.elements[k], nid_max);
         assert(touches(self.elements[k0], (nid_max + 1 - 1) as usize));
       }
     }
@endfn
@fn circuit.rs Circuit::count_voltage_sources
@ret r
@spec
  ensures r == nbr(self.elements@, self.elements.len() as int)
@loop 0
     invariant c_vsrc == nbr(self.elements@, it0 as int), c_vsrc <= it0
@endfn
@fn circuit.rs Circuit::add_i
@spec
  requires idx_ok(*old(self))
  ensures idx_ok(*final(self)), same_rest(*old(self), *final(self)), final(self).v_idx_next == old(self).v_idx_next,
    final(self).elements@ == old(self).elements@.push(Element::I(CurrentSource { p, n, value }))
@end
  proof { lemma_push(old(self).elements@, Element::I(CurrentSource { p, n, value })); }
@endfn
@fn circuit.rs Circuit::add_v
@spec
  requires idx_ok(*old(self))
  ensures idx_ok(*final(self)), same_rest(*old(self), *final(self)), final(self).v_idx_next == old(self).v_idx_next + 1,
    final(self).elements@ == old(self).elements@.push(Element::V(VoltageSource { p, n, value, idx: old(self).v_idx_next }))
@begin
  proof { lemma_vroom(*self); }
@end
  proof { lemma_push(old(self).elements@, Element::V(VoltageSource { p, n, value, idx: old(self).v_idx_next })); }
@endfn
@fn circuit.rs Circuit::add_i_sin
@spec
  requires idx_ok(*old(self))
  ensures idx_ok(*final(self)), same_rest(*old(self), *final(self)), final(self).v_idx_next == old(self).v_idx_next,
    final(self).elements@ == old(self).elements@.push(Element::Isin(i_sin))
@end
  proof { lemma_push(old(self).elements@, Element::Isin(i_sin)); }
@endfn
@fn circuit.rs Circuit::add_v_sin
@spec
  requires idx_ok(*old(self))
  ensures idx_ok(*final(self)), same_rest(*old(self), *final(self)), final(self).v_idx_next == old(self).v_idx_next + 1,
    final(self).elements@ == old(self).elements@.push(Element::Vsin(VoltageSourceSine { idx: old(self).v_idx_next, ..v_sin }))
@begin
  proof { lemma_vroom(*self); }
@end
  proof { lemma_push(old(self).elements@, Element::Vsin(VoltageSourceSine { idx: old(self).v_idx_next, ..v_sin })); }
@endfn
@fn circuit.rs Circuit::add_v_pwl
@spec
  requires idx_ok(*old(self))
  ensures idx_ok(*final(self)), same_rest(*old(self), *final(self)), final(self).v_idx_next == old(self).v_idx_next + 1,
    final(self).elements@ == old(self).elements@.push(Element::Vpwl(VoltageSourcePwl { idx: old(self).v_idx_next, ..v_pwl }))
@begin
  proof { lemma_vroom(*self); }
@end
  proof { lemma_push(old(self).elements@, Element::Vpwl(VoltageSourcePwl { idx: old(self).v_idx_next, ..v_pwl })); }
@endfn
@fn circuit.rs Circuit::add_r
@spec
  requires idx_ok(*old(self))
  ensures idx_ok(*final(self)), same_rest(*old(self), *final(self)), final(self).v_idx_next == old(self).v_idx_next,
    final(self).elements@ == old(self).elements@.push(Element::R(Resistor { ident, a, b, value }))
@end
  proof { lemma_push(old(self).elements@, Element::R(Resistor { ident, a, b, value })); }
@endfn
@fn circuit.rs Circuit::add_c
@spec
  requires idx_ok(*old(self))
  ensures idx_ok(*final(self)), same_rest(*old(self), *final(self)), final(self).v_idx_next == old(self).v_idx_next,
    final(self).elements@ == old(self).elements@.push(Element::C(Capacitor { ident, a, b, value }))
@end
  proof { lemma_push(old(self).elements@, Element::C(Capacitor { ident, a, b, value })); }
@endfn
@fn circuit.rs Circuit::add_d
@spec
  requires idx_ok(*old(self))
  ensures idx_ok(*final(self)), same_rest(*old(self), *final(self)), final(self).v_idx_next == old(self).v_idx_next,
    final(self).elements@ == old(self).elements@.push(Element::D(d))
@end
  proof { lemma_push(old(self).elements@, Element::D(d)); }
@endfn
