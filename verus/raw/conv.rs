// ------------------------------------------------------------ convergence and results --
pub open spec fn cfg_ok(c: &Configuration) -> bool { fin(c.RELTOL) && fin(c.VNTOL) && fin(c.ABSTOL) && c.ITL1 + 1 < usize::MAX }
// unknown i has changed by no more than the tolerance from y to x
pub open spec fn settled_at(x: Seq<f64>, y: Seq<f64>, nc: int, c: &Configuration, i: int) -> bool {
    fin(y[i]) && rabs(nm(x[i]) - nm(y[i])) <= rabs(nm(x[i])) * nm(c.RELTOL) + if i < nc { nm(c.VNTOL) } else { nm(c.ABSTOL) }
}
pub open spec fn settled(x: Seq<f64>, y: Seq<f64>, nc: int, c: &Configuration, k: int) -> bool {
    forall|i: int| 0 <= i < k ==> #[trigger] settled_at(x, y, nc, c, i)
}
pub open spec fn xvec(x: Seq<f64>, n: int) -> bool { x.len() == n && fv(x[0]) == FV::Num(0real) }
pub open spec fn same_setup(a: &Engine, b: &Engine) -> bool {
    &&& a.c_nodes == b.c_nodes && a.c_vsrcs == b.c_vsrcs && a.base_matrix == b.base_matrix
    &&& a.independent_sources == b.independent_sources && a.v_dependent_sources == b.v_dependent_sources
    &&& a.storage_elements == b.storage_elements && a.nonlinear_elements == b.nonlinear_elements
}
pub open spec fn dc_eqs(e: Engine, m: Seq<Vec<f64>>, x: Seq<real>, comp: Seq<(real, real)>) -> bool {
    forall|ps: Ps, i: int| #![trigger total(e.nonlinear_elements@, ps, x, e.c_nodes as int, i)] 1 <= i < dim(&e) && ps.t == 0real && ps.comp == comp ==>
        rrow(m, x, dim(&e), i) + total(e.independent_sources@, ps, x, e.c_nodes as int, i)
          + total(e.v_dependent_sources@, ps, x, e.c_nodes as int, i)
          + total(e.nonlinear_elements@, ps, x, e.c_nodes as int, i) == 0real
}
// x is one Newton iteration on from y; comp are the companions of the diodes at y
pub open spec fn dc_iter(e: Engine, m: Seq<Vec<f64>>, y: Seq<f64>, x: Seq<f64>, comp: Seq<(real, real)>) -> bool {
    &&& xvec(x, dim(&e)) && xvec(y, dim(&e)) && all_fin(y)
    &&& comps_ok(e.nonlinear_elements@, comp, reals(y))
    &&& all_fin(x) ==> dc_eqs(e, m, reals(x), comp)
}
pub open spec fn dc_next(e: Engine, m: Seq<Vec<f64>>, y: Seq<f64>, x: Seq<f64>) -> bool {
    exists|comp: Seq<(real, real)>| #[trigger] dc_iter(e, m, y, x, comp)
}
pub open spec fn zeros(x: Seq<f64>, n: int) -> bool { x.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] x[i] == num(0real) }
// the iterates q[0], q[1], ... : from all zeros, each from the one before it, none after the first that has settled or failed
#[verifier::opaque]
pub open spec fn dc_chain(e: Engine, m: Seq<Vec<f64>>, c: &Configuration, q: Seq<Seq<f64>>) -> bool {
    &&& q.len() >= 1 && zeros(q[0], dim(&e))
    &&& forall|k: int| 1 <= k < q.len() ==> #[trigger] dc_next(e, m, q[k - 1], q[k])
    &&& forall|k: int| 1 <= k < q.len() - 1 ==> all_fin(#[trigger] q[k]) && !settled(q[k], q[k - 1], e.c_nodes as int, c, dim(&e))
}
#[verifier::opaque]
pub open spec fn dc_run(e: Engine, m: Seq<Vec<f64>>, c: &Configuration, q: Seq<Seq<f64>>, x: Seq<f64>, its: usize) -> bool {
    &&& dc_chain(e, m, c, q) && q.len() == its + 1 && x == q.last()
    &&& 1 <= its <= c.ITL1 + 1
    &&& its <= c.ITL1 && all_fin(x) ==> settled(x, q[its - 1], e.c_nodes as int, c, dim(&e))
}
pub open spec fn dc_ran(e: Engine, m: Seq<Vec<f64>>, c: &Configuration, x: Seq<f64>, its: usize) -> bool {
    exists|q: Seq<Seq<f64>>| #[trigger] dc_run(e, m, c, q, x, its)
}
pub proof fn lemma_chain(e: Engine, m: Seq<Vec<f64>>, c: &Configuration, q: Seq<Seq<f64>>, x: Seq<f64>, comp: Seq<(real, real)>)
    requires dc_chain(e, m, c, q), q.len() >= 1, dc_iter(e, m, q.last(), x, comp),
        q.len() > 1 ==> !settled(q.last(), q[q.len() - 2], e.c_nodes as int, c, dim(&e))
    ensures dc_chain(e, m, c, q.push(x))
{
    reveal(dc_chain);
    let p = q.push(x);
    assert forall|k: int| 1 <= k < p.len() implies #[trigger] dc_next(e, m, p[k - 1], p[k]) by {
        if k < q.len() { assert(dc_next(e, m, q[k - 1], q[k])); } else { assert(dc_iter(e, m, p[k - 1], p[k], comp)); }
    }
}
pub proof fn lemma_chain0(e: Engine, m: Seq<Vec<f64>>, c: &Configuration, x: Seq<f64>)
    requires zeros(x, dim(&e)), dim(&e) >= 1
    ensures dc_chain(e, m, c, seq![x]), xvec(x, dim(&e)), all_fin(x)
{ reveal(dc_chain); assert(x[0] == num(0real)); }
pub proof fn lemma_run_moved(a: Engine, b: Engine, m: Seq<Vec<f64>>, c: &Configuration, q: Seq<Seq<f64>>, x: Seq<f64>, its: usize)
    requires dc_run(a, m, c, q, x, its), same_setup(&a, &b)
    ensures dc_run(b, m, c, q, x, its)
{
    reveal(dc_run);
    reveal(dc_chain);
    assert forall|k: int| 1 <= k < q.len() implies #[trigger] dc_next(b, m, q[k - 1], q[k]) by {
        assert(dc_next(a, m, q[k - 1], q[k]));
        let comp = choose|comp: Seq<(real, real)>| #[trigger] dc_iter(a, m, q[k - 1], q[k], comp);
        if all_fin(q[k]) { assert(dc_eqs(a, m, reals(q[k]), comp)); assert(dc_eqs(b, m, reals(q[k]), comp)); }
        assert(dc_iter(b, m, q[k - 1], q[k], comp));
    }
}
pub proof fn lemma_ran(e: Engine, m: Seq<Vec<f64>>, c: &Configuration, q: Seq<Seq<f64>>, x: Seq<f64>, its: usize)
    requires dc_chain(e, m, c, q), q.len() == its + 1, x == q.last(), 1 <= its <= c.ITL1 + 1,
        its <= c.ITL1 && all_fin(x) ==> settled(x, q[its - 1], e.c_nodes as int, c, dim(&e))
    ensures dc_run(e, m, c, q, x, its), dc_ran(e, m, c, x, its)
{ reveal(dc_run); assert(dc_run(e, m, c, q, x, its)); }
// ---- the same for the circuit itself
// C01: x satisfies the equations of the circuit els, its diodes linearised at y
pub open spec fn op_iter(els: Seq<Element>, nc: int, y: Seq<f64>, x: Seq<f64>, comp: Seq<(real, real)>) -> bool {
    let n = nc + nbr(els, els.len() as int);
    &&& xvec(x, n) && xvec(y, n) && all_fin(y) && comps_ok(els, comp, reals(y))
    &&& all_fin(x) ==> kcl(els, dc_ps(comp), reals(x), nc, n)
}
pub open spec fn op_next(els: Seq<Element>, nc: int, y: Seq<f64>, x: Seq<f64>) -> bool {
    exists|comp: Seq<(real, real)>| #[trigger] op_iter(els, nc, y, x, comp)
}
// C01, C03, C17: what a DC operating point x of the circuit els means, after its iterations
pub open spec fn op_run(els: Seq<Element>, nc: int, c: &Configuration, q: Seq<Seq<f64>>, x: Seq<f64>, its: usize) -> bool {
    let n = nc + nbr(els, els.len() as int);
    &&& node_count(els, nc)
    // every run starts from zero, whatever was analysed before, and follows the circuit's own equations
    &&& q.len() == its + 1 && zeros(q[0], n) && x == q.last()
    &&& forall|k: int| 1 <= k < q.len() ==> #[trigger] op_next(els, nc, q[k - 1], q[k])
    // it ends with the first iterate that has settled or failed, or after ITL1 + 1 iterations
    &&& forall|k: int| 1 <= k < q.len() - 1 ==> all_fin(#[trigger] q[k]) && !settled(q[k], q[k - 1], nc, c, n)
    &&& 1 <= its <= c.ITL1 + 1
    &&& its <= c.ITL1 && all_fin(x) ==> settled(x, q[its - 1], nc, c, n)
}
pub open spec fn dc_result(els: Seq<Element>, nc: int, c: &Configuration, x: Seq<f64>, its: usize) -> bool {
    exists|q: Seq<Seq<f64>>| #[trigger] op_run(els, nc, c, q, x, its)
}
pub open spec fn dc_ps(comp: Seq<(real, real)>) -> Ps { Ps { t: 0real, h: 0real, xp: seq![], comp } }
pub proof fn lemma_dc(e: Engine, els: Seq<Element>, c: &Configuration, x: Seq<f64>, its: usize)
    requires elaborated(&e, els), same_diodes(e.nonlinear_elements@, els, els.len() as int), dc_ran(e, e.base_matrix@, c, x, its)
    ensures dc_result(els, e.c_nodes as int, c, x, its), xvec(x, dim(&e))
{
    let nc = e.c_nodes as int;
    let m = e.base_matrix@;
    let q = choose|q: Seq<Seq<f64>>| #[trigger] dc_run(e, m, c, q, x, its);
    reveal(dc_run);
    reveal(dc_chain);
    assert forall|k: int| 1 <= k < q.len() implies #[trigger] op_next(els, nc, q[k - 1], q[k]) by {
        assert(dc_next(e, m, q[k - 1], q[k]));
        let comp = choose|comp: Seq<(real, real)>| #[trigger] dc_iter(e, m, q[k - 1], q[k], comp);
        lemma_op(e, els, q[k - 1], q[k], comp);
        assert(op_iter(els, nc, q[k - 1], q[k], comp));
    }
    assert(op_next(els, nc, q[its - 1], q[its as int]));
    assert(op_run(els, nc, c, q, x, its));
}
pub proof fn lemma_op(e: Engine, els: Seq<Element>, y: Seq<f64>, x: Seq<f64>, comp: Seq<(real, real)>)
    requires elaborated(&e, els), same_diodes(e.nonlinear_elements@, els, els.len() as int), dc_iter(e, e.base_matrix@, y, x, comp)
    ensures op_iter(els, e.c_nodes as int, y, x, comp)
{
    let nc = e.c_nodes as int;
    let l = e.nonlinear_elements@;
    lemma_comps_all(l, els, comp, reals(y));
    if all_fin(x) {
        let ps = dc_ps(comp);
        assert forall|i: int| 1 <= i < dim(&e) implies #[trigger] total(els, ps, reals(x), nc, i) == 0real by {
            lemma_dc_caps(e.storage_elements@, ps, reals(x), nc, i, e.storage_elements.len() as int);
            assert(total(l, ps, reals(x), nc, i) == total(l, ps, reals(x), nc, i));
        }
    }
}
pub proof fn lemma_comps_all(l: Seq<Element>, els: Seq<Element>, comp: Seq<(real, real)>, y: Seq<real>)
    requires same_diodes(l, els, els.len() as int), forall|k: int| 0 <= k < l.len() ==> #[trigger] l[k] is D, comps_ok(l, comp, y)
    ensures comps_ok(els, comp, y)
{
    assert forall|k: int| 0 <= k < els.len() && els[k] is D implies {
        let d = (#[trigger] els[k])->D_0;
        let j = nd(els, k);
        0 <= j < comp.len() && comp_ok(d, vx(y, d.p as int) - vx(y, d.n as int), comp[j].0, comp[j].1)
    } by {
        let j = nd(els, k);
        assert(els[k] == l[j]);
        lemma_nd_all(l, j);
        assert(l[j] is D);
    }
}
