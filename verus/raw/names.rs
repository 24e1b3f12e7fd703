// the part of a name after its last dot
pub open spec fn last_part(s: Seq<char>) -> Seq<char> decreases s.len()
{ if s.len() == 0 || s.last() == '.' { Seq::empty() } else { last_part(s.drop_last()).push(s.last()) } }
pub proof fn lemma_last_part(a: Seq<char>, b: Seq<char>)
    requires !b.contains('.')
    ensures last_part(a + seq!['.'] + b) == b
    decreases b.len()
{
    let s = a + seq!['.'] + b;
    if b.len() == 0 { assert(s.last() == '.'); assert(b =~= Seq::empty()); }
    else {
        assert(b.contains(b.last()));
        assert(s.drop_last() =~= a + seq!['.'] + b.drop_last());
        assert forall|c: char| b.drop_last().contains(c) implies b.contains(c) by { let i = choose|i: int| 0 <= i < b.drop_last().len() && b.drop_last()[i] == c; assert(b[i] == c); }
        lemma_last_part(a, b.drop_last());
        assert(b.drop_last().push(b.last()) =~= b);
    }
}
pub proof fn lemma_last_part_none(s: Seq<char>)
    requires !s.contains('.')
    ensures last_part(s) == s
    decreases s.len()
{
    if s.len() > 0 {
        assert(s.contains(s.last()));
        assert forall|c: char| s.drop_last().contains(c) implies s.contains(c) by { let i = choose|i: int| 0 <= i < s.drop_last().len() && s.drop_last()[i] == c; assert(s[i] == c); }
        lemma_last_part_none(s.drop_last());
        assert(s.drop_last().push(s.last()) =~= s);
    } else { assert(s =~= Seq::empty()); }
}
// gnd, GND and 0, alone or as the last part of a name
pub open spec fn is_gnd(s: Seq<char>) -> bool { last_part(s) == "gnd"@ || last_part(s) == "GND"@ || last_part(s) == "0"@ }
// what a name means in a circuit
pub open spec fn node_of(c: Circuit, s: Seq<char>) -> Option<usize> {
    if is_gnd(s) { Some(0usize) } else if smap(c.nodes).dom().contains(s) { Some(smap(c.nodes)[s]) } else { None }
}
// every index below the next one is some name's, none at or above it is
pub open spec fn nodes_ok(c: Circuit) -> bool {
    &&& c.nid_next >= 1
    &&& forall|s: Seq<char>| #[trigger] smap(c.nodes).dom().contains(s) ==> smap(c.nodes)[s] < c.nid_next && (is_gnd(s) ==> smap(c.nodes)[s] == 0)
    &&& forall|i: usize| 1 <= i < c.nid_next ==> #[trigger] has_name(c, i)
}
pub open spec fn has_name(c: Circuit, i: usize) -> bool { exists|s: Seq<char>| smap(c.nodes).dom().contains(s) && #[trigger] smap(c.nodes)[s] == i }
// everything but the node names
pub open spec fn same_but_nodes(a: Circuit, b: Circuit) -> bool {
    a.name == b.name && a.elements == b.elements && a.v_idx_next == b.v_idx_next && a.node_id_lut == b.node_id_lut && a.instances == b.instances && a.num_ports == b.num_ports && a.params == b.params
}
// the better name of a node: fewer dots, then the smaller text
pub open spec fn better(a: Seq<char>, b: Seq<char>) -> bool { n_char(a, '.') < n_char(b, '.') || n_char(a, '.') == n_char(b, '.') && slt(a, b) }
pub proof fn lemma_better_tr(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    requires better(a, b), better(b, c) ensures better(a, c)
{ if n_char(a, '.') == n_char(b, '.') && n_char(b, '.') == n_char(c, '.') { ax_slt_tr(a, b, c); } }
pub proof fn lemma_better_tot(a: Seq<char>, b: Seq<char>)
    ensures better(a, b) || better(b, a) || a == b, !(better(a, b) && better(b, a))
{ ax_slt_tot(a, b); if better(a, b) && better(b, a) { lemma_better_tr(a, b, a); ax_slt_ir(a); } }
// the name shown for an index is a name of that index
pub open spec fn lut_own(c: Circuit) -> bool {
    forall|i: usize| #[trigger] imap(c.node_id_lut).dom().contains(i) ==> smap(c.nodes).dom().contains(imap(c.node_id_lut)[i]@) && smap(c.nodes)[imap(c.node_id_lut)[i]@] == i
}
// the best name of an index, of the names that have it
pub open spec fn best_name(c: Circuit, s: Seq<char>) -> bool {
    smap(c.nodes).dom().contains(s) && forall|t: Seq<char>| #[trigger] smap(c.nodes).dom().contains(t) && smap(c.nodes)[t] == smap(c.nodes)[s] ==> !better(t, s)
}
// every index that has a name is shown by its best one
pub open spec fn lut_best(c: Circuit) -> bool {
    forall|s: Seq<char>| #[trigger] smap(c.nodes).dom().contains(s) ==> imap(c.node_id_lut).dom().contains(smap(c.nodes)[s]) && best_name(c, imap(c.node_id_lut)[smap(c.nodes)[s]]@)
}
// so the shown name does not depend on the order in which the map gives its entries (C17)
pub proof fn lemma_lut_unique(c: Circuit, d: Circuit, i: usize)
    requires c.nodes == d.nodes, lut_own(c), lut_own(d), lut_best(c), lut_best(d), imap(c.node_id_lut).dom().contains(i)
    ensures imap(d.node_id_lut).dom().contains(i), imap(c.node_id_lut)[i]@ == imap(d.node_id_lut)[i]@
{
    let a = imap(c.node_id_lut)[i]@;
    assert(smap(c.nodes).dom().contains(a));
    assert(smap(d.nodes).dom().contains(a));
    let b = imap(d.node_id_lut)[i]@;
    assert(smap(c.nodes).dom().contains(b));
    assert(best_name(c, a));
    assert(best_name(d, b));
    lemma_better_tot(a, b);
}
pub proof fn lemma_pigeon<T>(s: Set<T>, f: spec_fn(int) -> T, k: int)
    requires 0 <= k, forall|i: int| 0 <= i < k ==> s.contains(#[trigger] f(i)), forall|i: int, j: int| 0 <= i < j < k ==> #[trigger] f(i) != #[trigger] f(j)
    ensures s.len() >= k
    decreases k
{ if k > 0 { lemma_pigeon(s.remove(f(k - 1)), f, k - 1); } }
// the indices do not run out: every one in use has its own name
pub proof fn lemma_room(c: Circuit)
    requires nodes_ok(c)
    ensures c.nid_next < usize::MAX
{
    let m = smap(c.nodes);
    let f = |i: int| choose|s: Seq<char>| m.dom().contains(s) && #[trigger] m[s] == (i + 1) as usize;
    let k = c.nid_next - 1;
    assert forall|i: int| 0 <= i < k implies m.dom().contains(#[trigger] f(i)) && m[f(i)] == i + 1 by { assert(has_name(c, (i + 1) as usize)); }
    lemma_pigeon(m.dom(), f, k);
    ax_map_len(c.nodes);
}
