// ---- full names
pub open spec fn dotfree(s: Nm) -> bool { !s.contains('.') }
pub open spec fn all_dotfree(p: Seq<Nm>) -> bool { forall|i: int| 0 <= i < p.len() ==> dotfree(#[trigger] p[i]) }
pub open spec fn full(p: Seq<Nm>) -> Nm { joined(p, "."@) }
pub proof fn lemma_dot() ensures "."@ == seq!['.'] { reveal_strlit("."); assert("."@ =~= seq!['.']); }
pub proof fn lemma_n_char_add(a: Nm, b: Nm) ensures n_char(a + b, '.') == n_char(a, '.') + n_char(b, '.') decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_n_char_add(a, b.drop_last()); assert((a + b).last() == b.last()); }
}
pub proof fn lemma_n_char_free(b: Nm) requires dotfree(b) ensures n_char(b, '.') == 0 decreases b.len()
{
    if b.len() > 0 {
        assert(b.contains(b.last()));
        assert forall|c: char| b.drop_last().contains(c) implies b.contains(c) by { let i = choose|i: int| 0 <= i < b.drop_last().len() && b.drop_last()[i] == c; assert(b[i] == c); }
        lemma_n_char_free(b.drop_last());
    }
}
pub proof fn lemma_full_dots(p: Seq<Nm>) requires all_dotfree(p), p.len() >= 1 ensures n_char(full(p), '.') == p.len() - 1 decreases p.len()
{
    lemma_dot();
    assert(dotfree(p.last()));
    lemma_n_char_free(p.last());
    if p.len() > 1 {
        assert(all_dotfree(p.drop_last())) by { assert forall|i: int| 0 <= i < p.drop_last().len() implies dotfree(#[trigger] p.drop_last()[i]) by { assert(dotfree(p[i])); } }
        lemma_full_dots(p.drop_last());
        let h = full(p.drop_last());
        lemma_n_char_add(h, seq!['.']);
        lemma_n_char_add(h + seq!['.'], p.last());
        assert(seq!['.'].drop_last() =~= Seq::<char>::empty());
        assert(n_char(seq!['.'], '.') == 1) by { reveal_with_fuel(n_char, 2); }
    }
}
// full names say which path they are
pub proof fn lemma_full_inj(p: Seq<Nm>, q: Seq<Nm>)
    requires all_dotfree(p), all_dotfree(q), p.len() >= 1, q.len() >= 1, full(p) == full(q)
    ensures p == q
    decreases p.len()
{
    lemma_dot();
    lemma_full_dots(p);
    lemma_full_dots(q);
    if p.len() == 1 { assert(p =~= q); }
    else {
        assert(dotfree(p.last()) && dotfree(q.last()));
        lemma_last_part(full(p.drop_last()), p.last());
        lemma_last_part(full(q.drop_last()), q.last());
        let a = full(p.drop_last());
        let b = full(q.drop_last());
        assert(full(p).len() == a.len() + 1 + p.last().len());
        assert(full(q).len() == b.len() + 1 + q.last().len());
        assert(a =~= full(p).subrange(0, a.len() as int));
        assert(b =~= full(q).subrange(0, b.len() as int));
        assert(all_dotfree(p.drop_last())) by { assert forall|i: int| 0 <= i < p.drop_last().len() implies dotfree(#[trigger] p.drop_last()[i]) by { assert(dotfree(p[i])); } }
        assert(all_dotfree(q.drop_last())) by { assert forall|i: int| 0 <= i < q.drop_last().len() implies dotfree(#[trigger] q.drop_last()[i]) by { assert(dotfree(q[i])); } }
        lemma_full_inj(p.drop_last(), q.drop_last());
        assert(p =~= p.drop_last().push(p.last()));
        assert(q =~= q.drop_last().push(q.last()));
    }
}
// one level further
pub proof fn lemma_full_ext(p: Seq<Nm>)
    requires p.len() >= 1
    ensures forall|x: Nm| #[trigger] full(p.push(x)) == full(p) + "."@ + x, full(p.push("/param0"@)) == full(p) + "./param0"@
{
    lemma_dot();
    assert forall|x: Nm| #[trigger] full(p.push(x)) == full(p) + "."@ + x by { assert(p.push(x).drop_last() =~= p); }
    reveal_strlit("/param0"); reveal_strlit("./param0");
    assert("."@ + "/param0"@ =~= "./param0"@);
    assert(full(p) + "."@ + "/param0"@ =~= full(p) + "./param0"@);
}
// s is the full name of something n or more levels below q
pub open spec fn below(s: Nm, q: Seq<Nm>, n: int) -> bool { exists|t: Seq<Nm>| t.len() >= n && all_dotfree(t) && s == full(#[trigger] (q + t)) }
pub proof fn lemma_dotfree_add(a: Seq<Nm>, b: Seq<Nm>)
    requires all_dotfree(a), all_dotfree(b) ensures all_dotfree(a + b)
{ assert forall|i: int| 0 <= i < (a + b).len() implies dotfree(#[trigger] (a + b)[i]) by { if i < a.len() { assert(dotfree(a[i])); } else { assert(dotfree(b[i - a.len()])); } } }
pub proof fn lemma_below_apart(s: Nm, a: Seq<Nm>, b: Seq<Nm>)
    requires all_dotfree(a), all_dotfree(b), a.len() == b.len(), a != b, below(s, a, 1)
    ensures !below(s, b, 1)
{
    if below(s, b, 1) {
        let t = choose|t: Seq<Nm>| t.len() >= 1 && all_dotfree(t) && s == full(#[trigger] (a + t));
        let u = choose|t: Seq<Nm>| t.len() >= 1 && all_dotfree(t) && s == full(#[trigger] (b + t));
        lemma_dotfree_add(a, t);
        lemma_dotfree_add(b, u);
        lemma_full_inj(a + t, b + u);
        assert(a =~= (a + t).subrange(0, a.len() as int));
        assert(b =~= (b + u).subrange(0, b.len() as int));
    }
}
pub proof fn lemma_below_name(q: Seq<Nm>, x: Nm)
    requires dotfree(x) ensures below(full(q.push(x)), q, 1)
{ assert(q.push(x) =~= q + seq![x]); assert(all_dotfree(seq![x])); }
pub proof fn lemma_below_up(s: Nm, q: Seq<Nm>, i: Nm, n: int)
    requires below(s, q.push(i), n), dotfree(i) ensures below(s, q, n + 1)
{
    let t = choose|t: Seq<Nm>| t.len() >= n && all_dotfree(t) && s == full(#[trigger] (q.push(i) + t));
    let u = seq![i] + t;
    assert(all_dotfree(seq![i]));
    lemma_dotfree_add(seq![i], t);
    assert(q.push(i) + t =~= q + u);
}
// a direct name of q is not the name of something two or more levels below
pub proof fn lemma_below_2(q: Seq<Nm>, x: Nm)
    requires all_dotfree(q), dotfree(x) ensures !below(full(q.push(x)), q, 2)
{
    let s = full(q.push(x));
    if below(s, q, 2) {
        let t = choose|t: Seq<Nm>| t.len() >= 2 && all_dotfree(t) && s == full(#[trigger] (q + t));
        lemma_dotfree_add(q, t);
        assert(all_dotfree(q.push(x)));
        lemma_full_inj(q + t, q.push(x));
    }
}

