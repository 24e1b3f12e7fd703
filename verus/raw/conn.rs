// ---- names joined by aliases, and what the node numbers say about them
pub open spec fn one_step(al: Seq<(Nm, Nm)>, a: Nm, b: Nm) -> bool {
    a == b || is_gnd(a) && is_gnd(b) || exists|i: int| 0 <= i < al.len() && (#[trigger] al[i] == (a, b) || al[i] == (b, a))
}
pub open spec fn chain(al: Seq<(Nm, Nm)>, w: Seq<Nm>) -> bool { w.len() > 0 && forall|i: int| 0 <= i < w.len() - 1 ==> #[trigger] one_step(al, w[i], w[i + 1]) }
// a and b are one net: a chain of aliases (or ground) leads from one to the other
pub open spec fn conn(al: Seq<(Nm, Nm)>, a: Nm, b: Nm) -> bool { exists|w: Seq<Nm>| #[trigger] chain(al, w) && w[0] == a && w.last() == b }
// names with the same node are one net
#[verifier::opaque]
pub open spec fn sep(c: Circuit, al: Seq<(Nm, Nm)>) -> bool {
    forall|s: Nm, t: Nm| #![trigger node_of(c, s), node_of(c, t)] node_of(c, s) is Some && node_of(c, s) == node_of(c, t) ==> conn(al, s, t)
}
// the two names of every alias have the same node
pub open spec fn link(c: Circuit, al: Seq<(Nm, Nm)>) -> bool {
    forall|i: int| 0 <= i < al.len() ==> node_of(c, (#[trigger] al[i]).0) is Some && node_of(c, al[i].0) == node_of(c, al[i].1)
}
pub proof fn lemma_chain_more(al: Seq<(Nm, Nm)>, more: Seq<(Nm, Nm)>, w: Seq<Nm>)
    requires chain(al, w)
    ensures chain(al + more, w)
{
    assert forall|i: int| 0 <= i < w.len() - 1 implies #[trigger] one_step(al + more, w[i], w[i + 1]) by {
        assert(one_step(al, w[i], w[i + 1]));
        if exists|j: int| 0 <= j < al.len() && (#[trigger] al[j] == (w[i], w[i + 1]) || al[j] == (w[i + 1], w[i])) {
            let j = choose|j: int| 0 <= j < al.len() && (#[trigger] al[j] == (w[i], w[i + 1]) || al[j] == (w[i + 1], w[i]));
            assert((al + more)[j] == al[j]);
        }
    }
}
pub proof fn lemma_conn_more(al: Seq<(Nm, Nm)>, more: Seq<(Nm, Nm)>, a: Nm, b: Nm)
    requires conn(al, a, b)
    ensures conn(al + more, a, b)
{ let w = choose|w: Seq<Nm>| #[trigger] chain(al, w) && w[0] == a && w.last() == b; lemma_chain_more(al, more, w); }
pub proof fn lemma_conn_refl(al: Seq<(Nm, Nm)>, a: Nm) ensures conn(al, a, a) { assert(chain(al, seq![a])); }
pub proof fn lemma_conn_first(al: Seq<(Nm, Nm)>, a: Nm, b: Nm, c: Nm)
    requires one_step(al, a, b), conn(al, b, c)
    ensures conn(al, a, c)
{
    let w = choose|w: Seq<Nm>| #[trigger] chain(al, w) && w[0] == b && w.last() == c;
    let v = seq![a] + w;
    assert forall|i: int| 0 <= i < v.len() - 1 implies #[trigger] one_step(al, v[i], v[i + 1]) by { if i > 0 { assert(one_step(al, w[i - 1], w[i - 1 + 1])); } }
    assert(chain(al, v) && v[0] == a && v.last() == c);
}
pub proof fn lemma_conn_last(al: Seq<(Nm, Nm)>, a: Nm, b: Nm, c: Nm)
    requires conn(al, a, b), one_step(al, b, c)
    ensures conn(al, a, c)
{
    let w = choose|w: Seq<Nm>| #[trigger] chain(al, w) && w[0] == a && w.last() == b;
    let v = w.push(c);
    assert forall|i: int| 0 <= i < v.len() - 1 implies #[trigger] one_step(al, v[i], v[i + 1]) by { if i < w.len() - 1 { assert(one_step(al, w[i], w[i + 1])); } }
    assert(chain(al, v) && v[0] == a && v.last() == c);
}
// C10: with both, two names share a node exactly when they are one net
pub proof fn lemma_one_net(c: Circuit, al: Seq<(Nm, Nm)>, a: Nm, b: Nm)
    requires sep(c, al), link(c, al), node_of(c, a) is Some, node_of(c, b) is Some
    ensures node_of(c, a) == node_of(c, b) <==> conn(al, a, b)
{
    reveal(sep);
    if conn(al, a, b) {
        let w = choose|w: Seq<Nm>| #[trigger] chain(al, w) && w[0] == a && w.last() == b;
        lemma_chain_node(c, al, w, w.len() - 1);
    }
}
pub proof fn lemma_chain_node(c: Circuit, al: Seq<(Nm, Nm)>, w: Seq<Nm>, i: int)
    requires link(c, al), chain(al, w), node_of(c, w[0]) is Some, 0 <= i < w.len()
    ensures node_of(c, w[i]) == node_of(c, w[0])
    decreases i
{
    if i > 0 {
        lemma_chain_node(c, al, w, i - 1);
        assert(one_step(al, w[i - 1], w[i - 1 + 1]));
    }
}
// whatever was declared before, plus these aliases, accounts for every node that is shared
#[verifier::opaque]
pub open spec fn grows(o: Circuit, n: Circuit, al: Seq<(Nm, Nm)>) -> bool { forall|a0: Seq<(Nm, Nm)>| sep(o, a0) ==> #[trigger] sep(n, a0 + al) }
pub proof fn lemma_grows_tr(o: Circuit, m: Circuit, n: Circuit, a: Seq<(Nm, Nm)>, b: Seq<(Nm, Nm)>)
    requires grows(o, m, a), grows(m, n, b)
    ensures grows(o, n, a + b)
{
    reveal(grows);
    assert forall|a0: Seq<(Nm, Nm)>| sep(o, a0) implies #[trigger] sep(n, a0 + (a + b)) by { assert(sep(m, a0 + a)); assert(sep(n, (a0 + a) + b)); assert((a0 + a) + b =~= a0 + (a + b)); }
}
pub proof fn lemma_grows_same(o: Circuit, n: Circuit)
    requires o.nodes == n.nodes
    ensures grows(o, n, Seq::empty())
{
    reveal(grows); reveal(sep);
    assert forall|a0: Seq<(Nm, Nm)>| sep(o, a0) implies #[trigger] sep(n, a0 + Seq::empty()) by {
        assert(a0 + Seq::<(Nm, Nm)>::empty() =~= a0);
        assert forall|s: Nm, t: Nm| #![trigger node_of(n, s), node_of(n, t)] node_of(n, s) is Some && node_of(n, s) == node_of(n, t) implies conn(a0, s, t) by {
            assert(node_of(o, s) == node_of(n, s) && node_of(o, t) == node_of(n, t)); }
    }
}
pub proof fn lemma_grows_node(o: Circuit, n: Circuit, x: Nm)
    requires nodes_ok(o), node_of(o, x) is None, smap(n.nodes) == smap(o.nodes).insert(x, o.nid_next)
    ensures grows(o, n, Seq::empty())
{
    reveal(grows); reveal(sep);
    assert forall|a0: Seq<(Nm, Nm)>| sep(o, a0) implies #[trigger] sep(n, a0 + Seq::empty()) by {
        assert(a0 + Seq::<(Nm, Nm)>::empty() =~= a0);
        assert forall|s: Nm, t: Nm| #![trigger node_of(n, s), node_of(n, t)] node_of(n, s) is Some && node_of(n, s) == node_of(n, t) implies conn(a0, s, t) by {
            if s == x || t == x { assert(s == t); lemma_conn_refl(a0, s); }
            else { assert(node_of(o, s) == node_of(n, s) && node_of(o, t) == node_of(n, t)); }
        }
    }
}
pub proof fn lemma_grows_alias(o: Circuit, n: Circuit, a: Nm, h: Nm, nid: usize)
    requires nodes_ok(o), node_of(o, h) == Some(nid), node_of(o, a) is Some ==> node_of(o, a) == Some(nid), smap(n.nodes) == smap(o.nodes).insert(a, nid),
    ensures grows(o, n, seq![(a, h)])
{
    reveal(grows); reveal(sep);
    let x = seq![(a, h)];
    assert forall|a0: Seq<(Nm, Nm)>| sep(o, a0) implies #[trigger] sep(n, a0 + x) by {
        let al = a0 + x;
        assert(al[a0.len() as int] == (a, h));
        assert(one_step(al, a, h) && one_step(al, h, a));
        assert forall|s: Nm, t: Nm| #![trigger node_of(n, s), node_of(n, t)] node_of(n, s) is Some && node_of(n, s) == node_of(n, t) implies conn(al, s, t) by {
            let gs = node_of(o, s) is Some;
            let gt = node_of(o, t) is Some;
            assert(s != a ==> node_of(o, s) == node_of(n, s));
            assert(t != a ==> node_of(o, t) == node_of(n, t));
            if s == t { lemma_conn_refl(al, s); }
            else if s == a { assert(node_of(n, a) == Some(nid)); assert(node_of(o, h) == node_of(o, t)); assert(conn(a0, h, t)); lemma_conn_more(a0, x, h, t); lemma_conn_first(al, a, h, t); }
            else if t == a { assert(node_of(n, a) == Some(nid)); assert(node_of(o, s) == node_of(o, h)); assert(conn(a0, s, h)); lemma_conn_more(a0, x, s, h); lemma_conn_last(al, s, h, a); }
            else { assert(conn(a0, s, t)); lemma_conn_more(a0, x, s, t); }
        }
    }
}
