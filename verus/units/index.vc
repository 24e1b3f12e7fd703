@prelude f64s cells strs maps
@broadcast super::f64s::group_f64, super::strs::group_strs
@celltypes Diode
@type NodeId Element Circuit Instance Parameter Expression
@const BOLTZMANN CHARGE
@rawfile elements branches adds names params diodes insts
@raw
pub proof fn lemma_nodes_same(o: Circuit, n: Circuit)
    requires nodes_ok(o), o.nodes == n.nodes, o.nid_next == n.nid_next
    ensures nodes_ok(n)
{ assert forall|i: usize| 1 <= i < n.nid_next implies #[trigger] has_name(n, i) by { assert(has_name(o, i)); let s = choose|s: Seq<char>| smap(o.nodes).dom().contains(s) && #[trigger] smap(o.nodes)[s] == i; assert(smap(n.nodes)[s] == i); } }
// same_rest gives nodes_ok
pub broadcast proof fn bl_same(m: Circuit, n: Circuit)
    requires nodes_ok(m), #[trigger] same_rest(m, n)
    ensures #[trigger] nodes_ok(n)
{ lemma_nodes_same(m, n); }
pub open spec fn inst_wf(inst: Instance) -> bool { dev_conns(inst) }
pub open spec fn wf(ckts: Seq<Circuit>) -> bool { forall|c: int, i: int| 0 <= c < ckts.len() && 0 <= i < ckts[c].instances.len() ==> inst_wf(#[trigger] ckts[c].instances[i]) }
pub open spec fn same_idx(a: Circuit, b: Circuit) -> bool { a.elements == b.elements && a.v_idx_next == b.v_idx_next }
@assume_from names Circuit::add_node Circuit::add_node_alias Circuit::get_param_value
@assume_from counts Circuit::add_i Circuit::add_v Circuit::add_i_sin Circuit::add_v_sin Circuit::add_v_pwl
@assume_from diode Diode::new
@fn circuit.rs Circuit::build_node_id_lut
@spec
  ensures same_idx(*old(self), *final(self))
@strvars name other
@loop 0
    invariant same_idx(*old(self), *self)
@endfn
@fn expander.rs find_subckt_index
@ret r
@spec
  ensures match r { Some(i) => i < ckts.len(), None => true }
@endfn
@fn expander.rs local_connect
@panics
@ret r
@spec
  requires host_ckt_id < ckts.len(), nodes_ok(*old(ckt))
  ensures nodes_ok(*final(ckt)), same_idx(*old(ckt), *final(ckt))
@endfn
@fn expander.rs expand_sources
@panics
@spec
  requires subckt_id < ckts.len(), nodes_ok(*old(ckt)), idx_ok(*old(ckt))
  ensures nodes_ok(*final(ckt)), idx_ok(*final(ckt))
@begin
    broadcast use bl_same;
@loop 0
    invariant subckt_id < ckts.len(), nodes_ok(*ckt), idx_ok(*ckt)
@endfn
@fn expander.rs expand_primitive
@panics
@spec
  requires host_ckt_id < ckts.len(), nodes_ok(*old(ckt)), idx_ok(*old(ckt)), inst_wf(*inst), inst.subckt@ == "/device"@
  ensures nodes_ok(*final(ckt)), idx_ok(*final(ckt))
@begin
    proof { lemma_vroom(*ckt); lemma_vt_pos(27real); }
@loop 0
    invariant host_ckt_id < ckts.len(), nodes_ok(*ckt), same_idx(*old(ckt), *ckt), it0_v@ == inst.conns@, n.len() == it0
@before `let ident`
    let ghost cm = *ckt;
@end
    proof {
      let e = ckt.elements@.last();
      assert(ckt.elements@ =~= old(ckt).elements@.push(e));
      lemma_push(old(ckt).elements@, e);
      lemma_nodes_same(cm, *ckt);
    }
@endfn
@fn expander.rs expand_subckt
@panics
@spec
  requires host_ckt_id < ckts.len(), wf(ckts@), nodes_ok(*old(ckt)), idx_ok(*old(ckt)), inst_wf(*inst)
  ensures nodes_ok(*final(ckt)), idx_ok(*final(ckt))
@begin
    proof { ax_conns_len(*inst); }
@loop 0
    invariant host_ckt_id < ckts.len(), subckt_id < ckts.len(), nodes_ok(*ckt), idx_ok(*ckt), it0_v@ == inst.conns@, inst_wf(*inst)
@endfn
@fn expander.rs expand_instances
@panics
@spec
  requires ckt_id < ckts.len(), wf(ckts@), nodes_ok(*old(ckt)), idx_ok(*old(ckt))
  ensures nodes_ok(*final(ckt)), idx_ok(*final(ckt))
@loop 0
    invariant ckt_id < ckts.len(), wf(ckts@), nodes_ok(*ckt), idx_ok(*ckt), it0_v@ == ckts[ckt_id as int].instances@
@loop 0 begin
    let ghost cb = *ckt;
    proof { assert(inst_wf(ckts[ckt_id as int].instances[it0 - 1])); }
@loop 1
    invariant same_idx(cb, *ckt), cb.nodes == ckt.nodes, cb.nid_next == ckt.nid_next
@loop 2
    invariant same_idx(cb, *ckt), cb.nodes == ckt.nodes, cb.nid_next == ckt.nid_next
@before `expand_primitive`
    proof { lemma_nodes_same(cb, *ckt); }
@before `expand_subckt`
    proof { lemma_nodes_same(cb, *ckt); }
@endfn
@fn expander.rs expand
@ret r
@spec
  requires ckts.len() > 0, wf(ckts@), nodes_ok(ckts[0]), idx_ok(ckts[0])
  ensures idx_ok(r)
@endfn
