broadcast use super::f64s::group_f64;
// --------------------------- residuals of equations and how stamps change them --
// the entry (i, j) gets g if it is (r, c) and neither is ground
pub open spec fn pt(i: int, j: int, r: int, c: int, g: real) -> real { if i == r && j == c && r != 0 && c != 0 { g } else { 0real } }
// the voltage (or branch current) number k: ground is at zero
pub open spec fn vx(x: Seq<real>, k: int) -> real { if k == 0 { 0real } else { x[k] } }
pub open spec fn at(i: int, r: int, v: real) -> real { if i == r && r != 0 { v } else { 0real } }
// residual of equation i of the system m at x: (sum of currents leaving) or (branch voltage minus its value)
pub open spec fn rrow(m: Seq<Vec<f64>>, x: Seq<real>, n: int, i: int) -> real { res(m[i]@, x, n, 1real) }

pub open spec fn ptx(i: int, r: int, c: int, g: real, x: Seq<real>, hi: int) -> real { if i == r && r != 0 && 0 < c < hi { g * x[c] } else { 0real } }
pub proof fn lemma_six(new: Seq<f64>, old: Seq<f64>, x: Seq<real>, i: int, hi: int,
    r1: int, c1: int, g1: real, r2: int, c2: int, g2: real, r3: int, c3: int, g3: real,
    r4: int, c4: int, g4: real, r5: int, c5: int, g5: real, r6: int, c6: int, g6: real)
    requires forall|j: int| 1 <= j < hi ==> nm(#[trigger] new[j]) == nm(old[j]) + pt(i, j, r1, c1, g1) + pt(i, j, r2, c2, g2) + pt(i, j, r3, c3, g3)
        + pt(i, j, r4, c4, g4) + pt(i, j, r5, c5, g5) + pt(i, j, r6, c6, g6)
    ensures dot(new, x, 1, hi) == dot(old, x, 1, hi) + ptx(i, r1, c1, g1, x, hi) + ptx(i, r2, c2, g2, x, hi) + ptx(i, r3, c3, g3, x, hi)
        + ptx(i, r4, c4, g4, x, hi) + ptx(i, r5, c5, g5, x, hi) + ptx(i, r6, c6, g6, x, hi)
    decreases hi
{
    if hi > 1 {
        lemma_six(new, old, x, i, hi - 1, r1, c1, g1, r2, c2, g2, r3, c3, g3, r4, c4, g4, r5, c5, g5, r6, c6, g6);
        let j = hi - 1;
        let t = x[j];
        let o = nm(old[j]);
        let p1 = pt(i, j, r1, c1, g1); let p2 = pt(i, j, r2, c2, g2); let p3 = pt(i, j, r3, c3, g3);
        let p4 = pt(i, j, r4, c4, g4); let p5 = pt(i, j, r5, c5, g5); let p6 = pt(i, j, r6, c6, g6);
        assert(nm(new[j]) == o + p1 + p2 + p3 + p4 + p5 + p6);
        assert((o + p1 + p2 + p3 + p4 + p5 + p6) * t == o * t + p1 * t + p2 * t + p3 * t + p4 * t + p5 * t + p6 * t) by (nonlinear_arith);
        assert(0real * t == 0real) by (nonlinear_arith);
    }
}

// element contributions to equation i: what each element adds to the sum of currents leaving node i,
// or to the branch equation in row i
pub open spec fn res_cond(x: Seq<real>, i: int, a: int, b: int, g: real) -> real {
    at(i, a, g * (vx(x, a) - vx(x, b))) - at(i, b, g * (vx(x, a) - vx(x, b)))
}
pub open spec fn res_isrc(i: int, p: int, n: int, v: real) -> real { at(i, p, v) - at(i, n, v) }
pub open spec fn res_vsrc(x: Seq<real>, i: int, p: int, n: int, k: int, v: real) -> real {
    at(i, p, x[k]) - at(i, n, x[k]) + at(i, k, vx(x, p) - vx(x, n) - v)
}
pub open spec fn res_vccs(x: Seq<real>, i: int, p: int, n: int, cp: int, cn: int, g: real) -> real {
    at(i, p, g * (vx(x, cp) - vx(x, cn))) - at(i, n, g * (vx(x, cp) - vx(x, cn)))
}
// (the sign of a branch equation is of no consequence)
pub open spec fn res_vcvs(x: Seq<real>, i: int, p: int, n: int, cp: int, cn: int, k: int, g: real) -> real {
    at(i, p, x[k]) - at(i, n, x[k]) - at(i, k, vx(x, p) - vx(x, n) - g * (vx(x, cp) - vx(x, cn)))
}

// every entry outside row 0 changes as given; row 0 does not change
pub open spec fn changed(a: Seq<Vec<f64>>, b: Seq<Vec<f64>>, n: int, d: spec_fn(int, int) -> real, rhs: spec_fn(int) -> real) -> bool {
    &&& fin_mat(b, n)
    &&& forall|i: int, j: int| #![trigger b[i]@[j]] 0 <= i < n && 0 <= j < n ==> nm(b[i]@[j]) == nm(a[i]@[j]) + d(i, j)
    &&& forall|i: int| #![trigger b[i]] 0 <= i < n ==> nm(b[i]@[n]) == nm(a[i]@[n]) + rhs(i)
}
pub open spec fn d_cond(a: int, b: int, g: real) -> spec_fn(int, int) -> real {
    |i: int, j: int| pt(i, j, a, a, g) - pt(i, j, a, b, g) + pt(i, j, b, b, g) - pt(i, j, b, a, g)
}
pub open spec fn d_vsrc(p: int, n: int, k: int) -> spec_fn(int, int) -> real {
    |i: int, j: int| pt(i, j, k, p, 1real) + pt(i, j, p, k, 1real) - pt(i, j, k, n, 1real) - pt(i, j, n, k, 1real)
}
pub open spec fn d_vcvs(p: int, n: int, cp: int, cn: int, k: int, g: real) -> spec_fn(int, int) -> real {
    |i: int, j: int| pt(i, j, p, k, 1real) - pt(i, j, n, k, 1real) + pt(i, j, k, cp, g) - pt(i, j, k, cn, g) - pt(i, j, k, p, 1real) + pt(i, j, k, n, 1real)
}
pub open spec fn d_vccs(p: int, n: int, cp: int, cn: int, g: real) -> spec_fn(int, int) -> real {
    |i: int, j: int| pt(i, j, p, cp, g) - pt(i, j, p, cn, g) - pt(i, j, n, cp, g) + pt(i, j, n, cn, g)
}
pub open spec fn d_none() -> spec_fn(int, int) -> real { |i: int, j: int| 0real }
pub open spec fn rhs_i(p: int, n: int, v: real) -> spec_fn(int) -> real { |i: int| at(i, n, v) - at(i, p, v) }
pub open spec fn rhs_v(k: int, v: real) -> spec_fn(int) -> real { |i: int| at(i, k, v) }
pub open spec fn row0(m: Seq<Vec<f64>>, n: int) -> bool { forall|j: int| 0 <= j <= n ==> nm(#[trigger] m[0]@[j]) == 0real }
pub open spec fn no_rhs() -> spec_fn(int) -> real { |i: int| 0real }

pub proof fn lemma_r_cond(m0: Seq<Vec<f64>>, m: Seq<Vec<f64>>, n: int, a: int, b: int, g: real)
    requires changed(m0, m, n, d_cond(a, b, g), no_rhs()), 0 <= a < n, 0 <= b < n
    ensures forall|x: Seq<real>, i: int| x.len() == n && 1 <= i < n ==> #[trigger] rrow(m, x, n, i) == rrow(m0, x, n, i) + res_cond(x, i, a, b, g)
{
    assert forall|x: Seq<real>, i: int| x.len() == n && 1 <= i < n implies #[trigger] rrow(m, x, n, i) == rrow(m0, x, n, i) + res_cond(x, i, a, b, g) by {
        assert forall|j: int| 1 <= j < n implies nm(#[trigger] m[i]@[j]) == nm(m0[i]@[j]) + pt(i, j, a, a, g) + pt(i, j, a, b, -g) + pt(i, j, b, b, g) + pt(i, j, b, a, -g) + pt(i, j, 0, 0, 0real) + pt(i, j, 0, 0, 0real) by { }
        lemma_six(m[i]@, m0[i]@, x, i, n, a, a, g, a, b, -g, b, b, g, b, a, -g, 0, 0, 0real, 0, 0, 0real);
        let va = vx(x, a); let vb = vx(x, b);
        assert(g * (va - vb) == g * va - g * vb) by (nonlinear_arith);
        assert((-g) * va == -(g * va)) by (nonlinear_arith);
        assert((-g) * vb == -(g * vb)) by (nonlinear_arith);
        assert(g * 0real == 0real) by (nonlinear_arith);
        assert(nm(m[i]@[n]) == nm(m0[i]@[n]));
    }
}
pub proof fn lemma_r_isrc(m0: Seq<Vec<f64>>, m: Seq<Vec<f64>>, n: int, p: int, q: int, v: real)
    requires changed(m0, m, n, d_none(), rhs_i(p, q, v)), 0 <= p < n, 0 <= q < n
    ensures forall|x: Seq<real>, i: int| x.len() == n && 1 <= i < n ==> #[trigger] rrow(m, x, n, i) == rrow(m0, x, n, i) + res_isrc(i, p, q, v)
{
    assert forall|x: Seq<real>, i: int| x.len() == n && 1 <= i < n implies #[trigger] rrow(m, x, n, i) == rrow(m0, x, n, i) + res_isrc(i, p, q, v) by {
        assert forall|j: int| 1 <= j < n implies nm(#[trigger] m[i]@[j]) == nm(m0[i]@[j]) by { }
        lemma_dot_ext(m[i]@, m0[i]@, x, 1, n);
        assert(nm(m[i]@[n]) == nm(m0[i]@[n]) + at(i, q, v) - at(i, p, v));
    }
}
pub proof fn lemma_r_vsrc(m0: Seq<Vec<f64>>, m: Seq<Vec<f64>>, n: int, p: int, q: int, k: int, v: real)
    requires changed(m0, m, n, d_vsrc(p, q, k), rhs_v(k, v)), 0 <= p < k, 0 <= q < k, 0 < k < n
    ensures forall|x: Seq<real>, i: int| x.len() == n && 1 <= i < n ==> #[trigger] rrow(m, x, n, i) == rrow(m0, x, n, i) + res_vsrc(x, i, p, q, k, v)
{
    assert forall|x: Seq<real>, i: int| x.len() == n && 1 <= i < n implies #[trigger] rrow(m, x, n, i) == rrow(m0, x, n, i) + res_vsrc(x, i, p, q, k, v) by {
        assert forall|j: int| 1 <= j < n implies nm(#[trigger] m[i]@[j]) == nm(m0[i]@[j]) + pt(i, j, k, p, 1real) + pt(i, j, p, k, 1real) + pt(i, j, k, q, -1real) + pt(i, j, q, k, -1real) + pt(i, j, 0, 0, 0real) + pt(i, j, 0, 0, 0real) by { }
        lemma_six(m[i]@, m0[i]@, x, i, n, k, p, 1real, p, k, 1real, k, q, -1real, q, k, -1real, 0, 0, 0real, 0, 0, 0real);
        assert(nm(m[i]@[n]) == nm(m0[i]@[n]) + at(i, k, v));
    }
}
pub proof fn lemma_r_vcvs(m0: Seq<Vec<f64>>, m: Seq<Vec<f64>>, n: int, p: int, q: int, cp: int, cn: int, k: int, g: real)
    requires changed(m0, m, n, d_vcvs(p, q, cp, cn, k, g), no_rhs()), 0 <= p < k, 0 <= q < k, 0 <= cp < k, 0 <= cn < k, 0 < k < n
    ensures forall|x: Seq<real>, i: int| x.len() == n && 1 <= i < n ==> #[trigger] rrow(m, x, n, i) == rrow(m0, x, n, i) + res_vcvs(x, i, p, q, cp, cn, k, g)
{
    assert forall|x: Seq<real>, i: int| x.len() == n && 1 <= i < n implies #[trigger] rrow(m, x, n, i) == rrow(m0, x, n, i) + res_vcvs(x, i, p, q, cp, cn, k, g) by {
        assert forall|j: int| 1 <= j < n implies nm(#[trigger] m[i]@[j]) == nm(m0[i]@[j]) + pt(i, j, p, k, 1real) + pt(i, j, q, k, -1real) + pt(i, j, k, cp, g) + pt(i, j, k, cn, -g) + pt(i, j, k, p, -1real) + pt(i, j, k, q, 1real) by { }
        lemma_six(m[i]@, m0[i]@, x, i, n, p, k, 1real, q, k, -1real, k, cp, g, k, cn, -g, k, p, -1real, k, q, 1real);
        let va = vx(x, cp); let vb = vx(x, cn);
        assert(g * (va - vb) == g * va - g * vb) by (nonlinear_arith);
        assert((-g) * vb == -(g * vb)) by (nonlinear_arith);
        assert(g * 0real == 0real) by (nonlinear_arith);
        assert((-g) * 0real == 0real) by (nonlinear_arith);
        assert(nm(m[i]@[n]) == nm(m0[i]@[n]));
    }
}
pub proof fn lemma_r_vccs(m0: Seq<Vec<f64>>, m: Seq<Vec<f64>>, n: int, p: int, q: int, cp: int, cn: int, g: real)
    requires changed(m0, m, n, d_vccs(p, q, cp, cn, g), no_rhs()), 0 <= p < n, 0 <= q < n, 0 <= cp < n, 0 <= cn < n
    ensures forall|x: Seq<real>, i: int| x.len() == n && 1 <= i < n ==> #[trigger] rrow(m, x, n, i) == rrow(m0, x, n, i) + res_vccs(x, i, p, q, cp, cn, g)
{
    assert forall|x: Seq<real>, i: int| x.len() == n && 1 <= i < n implies #[trigger] rrow(m, x, n, i) == rrow(m0, x, n, i) + res_vccs(x, i, p, q, cp, cn, g) by {
        assert forall|j: int| 1 <= j < n implies nm(#[trigger] m[i]@[j]) == nm(m0[i]@[j]) + pt(i, j, p, cp, g) + pt(i, j, p, cn, -g) + pt(i, j, q, cp, -g) + pt(i, j, q, cn, g) + pt(i, j, 0, 0, 0real) + pt(i, j, 0, 0, 0real) by { }
        lemma_six(m[i]@, m0[i]@, x, i, n, p, cp, g, p, cn, -g, q, cp, -g, q, cn, g, 0, 0, 0real, 0, 0, 0real);
        let va = vx(x, cp); let vb = vx(x, cn);
        assert(g * (va - vb) == g * va - g * vb) by (nonlinear_arith);
        assert((-g) * va == -(g * va)) by (nonlinear_arith);
        assert((-g) * vb == -(g * vb)) by (nonlinear_arith);
        assert(g * 0real == 0real) by (nonlinear_arith);
        assert(nm(m[i]@[n]) == nm(m0[i]@[n]));
    }
}

// what adding v to entry (a, b) does to the residual of equation i
pub open spec fn cell_d(x: Seq<real>, n: int, i: int, a: int, b: int, v: real) -> real {
    if i != a { 0real } else if b == n { -v } else if 1 <= b < n { v * x[b] } else { 0real }
}
pub proof fn lemma_cell(r0: Seq<f64>, r1: Seq<f64>, x: Seq<real>, b: int, v: real, hi: int)
    requires r1.len() == r0.len(), forall|j: int| 0 <= j < r0.len() && j != b ==> nm(#[trigger] r1[j]) == nm(r0[j]),
        0 <= b < r0.len() ==> nm(r1[b]) == nm(r0[b]) + v, hi <= r0.len()
    ensures dot(r1, x, 1, hi) == dot(r0, x, 1, hi) + if 1 <= b < hi { v * x[b] } else { 0real }
    decreases hi
{
    if hi > 1 {
        lemma_cell(r0, r1, x, b, v, hi - 1);
        if b == hi - 1 {
            let o = nm(r0[b]); let t = x[b];
            assert((o + v) * t == o * t + v * t) by (nonlinear_arith);
        }
    }
}
// m[a][b] += v
pub fn cell_add(m: &mut [Vec<f64>], a: usize, b: usize, v: f64)
    requires a < old(m).len(), b < old(m)@[a as int].len()
    ensures final(m)@ == old(m)@.update(a as int, final(m)@[a as int]),
        final(m)@[a as int]@ == old(m)@[a as int]@.update(b as int, mk(fvadd(fv(old(m)@[a as int]@[b as int]), fv(v)))),
        fin_mat(old(m)@, old(m).len() as int) && fin(v) ==> fin_mat(final(m)@, old(m).len() as int)
          && forall|x: Seq<real>, i: int| #![trigger rrow(final(m)@, x, old(m).len() as int, i)] x.len() == old(m).len() && 1 <= i < old(m).len() ==>
            rrow(final(m)@, x, old(m).len() as int, i) == rrow(old(m)@, x, old(m).len() as int, i) + cell_d(x, old(m).len() as int, i, a as int, b as int, nm(v)),
        a != 0 && row0(old(m)@, old(m).len() as int) ==> row0(final(m)@, old(m).len() as int),
{
    let s = m[a][b] + v;
    m[a][b] = s;
    proof {
        let n = old(m).len() as int;
        if fin_mat(old(m)@, n) && fin(v) {
            assert(fin_mat(m@, n));
            assert forall|x: Seq<real>, i: int| #![trigger rrow(m@, x, n, i)] x.len() == n && 1 <= i < n implies
                rrow(m@, x, n, i) == rrow(old(m)@, x, n, i) + cell_d(x, n, i, a as int, b as int, nm(v)) by {
                if i == a { lemma_cell(old(m)@[i]@, m@[i]@, x, b as int, nm(v), n); }
            }
        }
    }
}
// m[a][b] -= v
pub fn cell_sub(m: &mut [Vec<f64>], a: usize, b: usize, v: f64)
    requires a < old(m).len(), b < old(m)@[a as int].len()
    ensures final(m)@ == old(m)@.update(a as int, final(m)@[a as int]),
        final(m)@[a as int]@ == old(m)@[a as int]@.update(b as int, mk(fvsub(fv(old(m)@[a as int]@[b as int]), fv(v)))),
        fin_mat(old(m)@, old(m).len() as int) && fin(v) ==> fin_mat(final(m)@, old(m).len() as int)
          && forall|x: Seq<real>, i: int| #![trigger rrow(final(m)@, x, old(m).len() as int, i)] x.len() == old(m).len() && 1 <= i < old(m).len() ==>
            rrow(final(m)@, x, old(m).len() as int, i) == rrow(old(m)@, x, old(m).len() as int, i) - cell_d(x, old(m).len() as int, i, a as int, b as int, nm(v)),
        a != 0 && row0(old(m)@, old(m).len() as int) ==> row0(final(m)@, old(m).len() as int),
{
    let s = m[a][b] - v;
    m[a][b] = s;
    proof {
        let n = old(m).len() as int;
        if fin_mat(old(m)@, n) && fin(v) {
            assert(fin_mat(m@, n));
            assert forall|x: Seq<real>, i: int| #![trigger rrow(m@, x, n, i)] x.len() == n && 1 <= i < n implies
                rrow(m@, x, n, i) == rrow(old(m)@, x, n, i) - cell_d(x, n, i, a as int, b as int, nm(v)) by {
                if i == a { lemma_cell(old(m)@[i]@, m@[i]@, x, b as int, -nm(v), n);
                    let g = nm(v); let t = x[b as int]; assert((-g) * t == -(g * t)) by (nonlinear_arith); }
            }
        }
    }
}
