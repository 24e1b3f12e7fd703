// ---- names of circuits
pub type Nm = Seq<char>;
// names keep their nodes
pub open spec fn ext(o: Circuit, n: Circuit) -> bool {
    &&& o.nid_next <= n.nid_next
    &&& forall|s: Nm| #[trigger] smap(o.nodes).dom().contains(s) ==> smap(n.nodes).dom().contains(s) && smap(n.nodes)[s] == smap(o.nodes)[s]
}
