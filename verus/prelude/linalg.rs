// ------------------------------------------------- linear systems over reals --
// A matrix is n rows of n coefficients and a right-hand side; row 0 and column 0
// belong to ground and are not part of the system.
pub open spec fn fin_row(row: Seq<f64>) -> bool { forall|j: int| 0 <= j < row.len() ==> fin(#[trigger] row[j]) }
pub open spec fn dims(m: Seq<Vec<f64>>, n: int) -> bool {
    &&& m.len() == n
    &&& forall|i: int| 0 <= i < n ==> (#[trigger] m[i])@.len() == n + 1
}
pub open spec fn fin_mat(m: Seq<Vec<f64>>, n: int) -> bool {
    &&& dims(m, n)
    &&& forall|i: int, j: int| 0 <= i < n && 0 <= j <= n ==> fin(#[trigger] m[i]@[j])
}
// sum of row[j]*x[j] for lo <= j < hi
pub open spec fn dot(row: Seq<f64>, x: Seq<real>, lo: int, hi: int) -> real
    decreases hi - lo
{
    if hi <= lo { 0real } else { dot(row, x, lo, hi - 1) + nm(row[hi - 1]) * x[hi - 1] }
}
// residual of an equation: coefficients times unknowns, minus scale times right-hand side
pub open spec fn res(row: Seq<f64>, x: Seq<real>, n: int, s: real) -> real { dot(row, x, 1, n) - s * nm(row[n]) }
// every equation has residual zero. s == 1: x solves the system; s == 0: x is in its kernel
pub open spec fn sat(m: Seq<Vec<f64>>, x: Seq<real>, n: int, s: real) -> bool {
    forall|i: int| 1 <= i < n ==> res((#[trigger] m[i])@, x, n, s) == 0real
}
pub open spec fn reals(v: Seq<f64>) -> Seq<real> { Seq::new(v.len(), |i: int| nm(v[i])) }
pub open spec fn all_fin(v: Seq<f64>) -> bool { fin_row(v) }

// the solutions (and the kernel) of b are among those of a
pub open spec fn implies_sys(b: Seq<Vec<f64>>, a: Seq<Vec<f64>>, n: int) -> bool {
    forall|x: Seq<real>, s: real| #![trigger sat(b, x, n, s)] #![trigger sat(a, x, n, s)] x.len() == n && sat(b, x, n, s) ==> sat(a, x, n, s)
}
// a non-trivial solution of the homogeneous system: the equations do not determine the unknowns
pub open spec fn singular(m: Seq<Vec<f64>>, n: int) -> bool {
    exists|z: Seq<real>| z.len() == n && #[trigger] sat(m, z, n, 0real) && exists|j: int| 1 <= j < n && z[j] != 0real
}

pub proof fn lemma_dot_ext(r1: Seq<f64>, r2: Seq<f64>, x: Seq<real>, lo: int, hi: int)
    requires forall|j: int| lo <= j < hi ==> nm(r1[j]) == nm(r2[j])
    ensures dot(r1, x, lo, hi) == dot(r2, x, lo, hi)
    decreases hi - lo
{ if hi > lo { lemma_dot_ext(r1, r2, x, lo, hi - 1); } }

pub proof fn lemma_dot_zero(r: Seq<f64>, x: Seq<real>, lo: int, hi: int)
    requires forall|j: int| lo <= j < hi ==> nm(r[j]) == 0real || x[j] == 0real
    ensures dot(r, x, lo, hi) == 0real
    decreases hi - lo
{ if hi > lo { lemma_dot_zero(r, x, lo, hi - 1);
    let a = nm(r[hi-1]); let b = x[hi-1]; assert(a * b == 0real) by (nonlinear_arith) requires a == 0real || b == 0real; } }

pub proof fn lemma_dot_split(r: Seq<f64>, x: Seq<real>, lo: int, mid: int, hi: int)
    requires lo <= mid <= hi
    ensures dot(r, x, lo, hi) == dot(r, x, lo, mid) + dot(r, x, mid, hi)
    decreases hi - mid
{ if hi > mid { lemma_dot_split(r, x, lo, mid, hi - 1); } }

// a row operation changes the dot product linearly
pub proof fn lemma_dot_axpy(new: Seq<f64>, a: Seq<f64>, b: Seq<f64>, q: real, x: Seq<real>, lo: int, hi: int)
    requires forall|j: int| lo <= j < hi ==> nm(#[trigger] new[j]) == nm(a[j]) - nm(b[j]) * q
    ensures dot(new, x, lo, hi) == dot(a, x, lo, hi) - q * dot(b, x, lo, hi)
    decreases hi - lo
{ if hi > lo {
    lemma_dot_axpy(new, a, b, q, x, lo, hi - 1);
    let aj = nm(a[hi-1]); let bj = nm(b[hi-1]); let xj = x[hi-1]; let d = dot(b, x, lo, hi - 1);
    assert(nm(new[hi-1]) == aj - bj * q);
    assert((aj - bj * q) * xj == aj * xj - q * (bj * xj)) by (nonlinear_arith);
    assert(q * (d + bj * xj) == q * d + q * (bj * xj)) by (nonlinear_arith);
} }

// rows k.. have zeros in columns 1..c for c <= k-1 (upper triangular so far)
pub open spec fn tri(m: Seq<Vec<f64>>, n: int, k: int) -> bool {
    forall|r: int, c: int| 1 <= c < k && c < r < n ==> nm(#[trigger] m[r]@[c]) == 0real
}
pub open spec fn same_rows_except(a: Seq<Vec<f64>>, b: Seq<Vec<f64>>, r: int) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() && i != r ==> #[trigger] a[i]@ == b[i]@
}

// b is a with rows p and q exchanged
pub proof fn lemma_swap(a: Seq<Vec<f64>>, b: Seq<Vec<f64>>, p: int, q: int, n: int)
    requires 1 <= p < n, 1 <= q < n, a.len() == n, b.len() == n,
        b[p]@ == a[q]@, b[q]@ == a[p]@, forall|i: int| 0 <= i < n && i != p && i != q ==> #[trigger] b[i]@ == a[i]@
    ensures implies_sys(b, a, n)
{
    assert forall|x: Seq<real>, s: real| x.len() == n && #[trigger] sat(b, x, n, s) implies sat(a, x, n, s) by {
        assert forall|i: int| 1 <= i < n implies res((#[trigger] a[i])@, x, n, s) == 0real by {
            if i == p { assert(res(b[q]@, x, n, s) == 0real); }
            else if i == q { assert(res(b[p]@, x, n, s) == 0real); }
            else { assert(res(b[i]@, x, n, s) == 0real); assert(b[i]@ == a[i]@); }
        }
    }
}
// row r of b is row r of a minus q times row p; columns before k are zero in both rows
pub proof fn lemma_rowop(a: Seq<Vec<f64>>, b: Seq<Vec<f64>>, r: int, p: int, k: int, q: real, n: int)
    requires 1 <= p < n, 1 <= r < n, p != r, 1 <= k <= n, dims(a, n), dims(b, n),
        same_rows_except(b, a, r),
        forall|j: int| 1 <= j < k ==> nm(#[trigger] b[r]@[j]) == 0real && nm(a[r]@[j]) == 0real && nm(a[p]@[j]) == 0real,
        forall|j: int| k <= j <= n ==> nm(#[trigger] b[r]@[j]) == nm(a[r]@[j]) - nm(a[p]@[j]) * q
    ensures implies_sys(b, a, n)
{
    assert forall|x: Seq<real>, s: real| x.len() == n && #[trigger] sat(b, x, n, s) implies sat(a, x, n, s) by {
        assert forall|i: int| 1 <= i < n implies res((#[trigger] a[i])@, x, n, s) == 0real by {
            if i == r {
                let nw = b[r]@; let ar = a[r]@; let ap = a[p]@;
                assert(res(b[p]@, x, n, s) == 0real);
                assert(b[p]@ == a[p]@);
                assert(res(b[r]@, x, n, s) == 0real);
                lemma_dot_split(nw, x, 1, k, n); lemma_dot_split(ar, x, 1, k, n); lemma_dot_split(ap, x, 1, k, n);
                lemma_dot_zero(nw, x, 1, k);
                assert forall|j: int| 1 <= j < k implies nm(ar[j]) == 0real || x[j] == 0real by { assert(nm(b[r]@[j]) == 0real); }
                lemma_dot_zero(ar, x, 1, k);
                assert forall|j: int| 1 <= j < k implies nm(ap[j]) == 0real || x[j] == 0real by { assert(nm(b[r]@[j]) == 0real); }
                lemma_dot_zero(ap, x, 1, k);
                lemma_dot_axpy(nw, ar, ap, q, x, k, n);
                let d = dot(ap, x, 1, n); let bb = nm(ap[n]); let ab = nm(ar[n]);
                assert(nm(nw[n]) == ab - bb * q);
                assert(s * (ab - bb * q) == s * ab - q * (s * bb)) by (nonlinear_arith);
                assert(d == s * bb);
            } else { assert(res(b[i]@, x, n, s) == 0real); assert(b[i]@ == a[i]@); }
        }
    }
}

// a column of zeros on and below the diagonal makes a triangular system singular.
// z: kernel vector with z[k] == 1, z[j] == 0 for j > k, z[j] for j < k by back-substitution
pub open spec fn kvec(m: Seq<Vec<f64>>, n: int, k: int, j: int) -> Seq<real>
    decreases k - j
{
    // entries >= j are decided, the others zero
    if j >= k { Seq::new(n as nat, |i: int| if i == k { 1real } else { 0real }) }
    else {
        let z = kvec(m, n, k, j + 1);
        z.update(j, -dot(m[j]@, z, j + 1, n) / nm(m[j]@[j]))
    }
}
pub proof fn lemma_kvec(m: Seq<Vec<f64>>, n: int, k: int, j: int)
    requires 1 <= j <= k < n, dims(m, n), tri(m, n, k),
        forall|i: int| 1 <= i < k ==> nm(#[trigger] m[i]@[i]) != 0real
    ensures
        kvec(m, n, k, j).len() == n,
        kvec(m, n, k, j)[k] == 1real,
        forall|i: int| k < i < n ==> kvec(m, n, k, j)[i] == 0real,
        forall|i: int| j <= i < k ==> dot((#[trigger] m[i])@, kvec(m, n, k, j), 1, n) == 0real
    decreases k - j
{
    if j < k {
        let z = kvec(m, n, k, j + 1);
        lemma_kvec(m, n, k, j + 1);
        let q = -dot(m[j]@, z, j + 1, n) / nm(m[j]@[j]);
        let w = kvec(m, n, k, j);
        assert(w == z.update(j, q));
        assert forall|i: int| j <= i < k implies dot((#[trigger] m[i])@, w, 1, n) == 0real by {
            let row = m[i]@;
            if i > j {
                assert(dot(row, z, 1, n) == 0real);
                assert(nm(m[i]@[j]) == 0real);
                lemma_dot_upd(row, z, w, j, 1, n);
            } else {
                lemma_dot_split(row, w, 1, j, n);
                assert forall|c: int| 1 <= c < j implies nm(row[c]) == 0real || w[c] == 0real by { assert(nm(m[j]@[c]) == 0real); }
                lemma_dot_zero(row, w, 1, j);
                lemma_dot_split(row, w, j, j + 1, n);
                assert(dot(row, w, j, j + 1) == nm(row[j]) * w[j]) by { reveal_with_fuel(dot, 2); }
                lemma_dot_ext_x(row, z, w, j + 1, n);
                let d = dot(row, z, j + 1, n); let p = nm(row[j]);
                assert(p * (-d / p) + d == 0real) by (nonlinear_arith) requires p != 0real;
            }
        }
    }
}
pub proof fn lemma_dot_ext_x(r: Seq<f64>, x: Seq<real>, y: Seq<real>, lo: int, hi: int)
    requires forall|j: int| lo <= j < hi ==> x[j] == y[j]
    ensures dot(r, x, lo, hi) == dot(r, y, lo, hi)
    decreases hi - lo
{ if hi > lo { lemma_dot_ext_x(r, x, y, lo, hi - 1); } }
// changing one entry of x where the coefficient is zero
pub proof fn lemma_dot_upd(r: Seq<f64>, x: Seq<real>, y: Seq<real>, c: int, lo: int, hi: int)
    requires nm(r[c]) == 0real, forall|j: int| lo <= j < hi && j != c ==> x[j] == y[j]
    ensures dot(r, x, lo, hi) == dot(r, y, lo, hi)
    decreases hi - lo
{ if hi > lo { lemma_dot_upd(r, x, y, c, lo, hi - 1);
    if hi - 1 == c { let a = x[c]; let b = y[c]; let z = nm(r[c]); assert(z * a == z * b) by (nonlinear_arith) requires z == 0real; } } }

pub open spec fn pivots_ok(m: Seq<Vec<f64>>, k: int) -> bool { forall|i: int| 1 <= i < k ==> nm(#[trigger] m[i]@[i]) != 0real }

pub proof fn lemma_singular(m: Seq<Vec<f64>>, m0: Seq<Vec<f64>>, n: int, k: int)
    requires 1 <= k < n, dims(m, n), tri(m, n, k), pivots_ok(m, k), implies_sys(m, m0, n),
        forall|r: int| k <= r < n ==> nm(#[trigger] m[r]@[k]) == 0real
    ensures singular(m0, n)
{
    let z = kvec(m, n, k, 1);
    lemma_kvec(m, n, k, 1);
    assert forall|i: int| 1 <= i < n implies res((#[trigger] m[i])@, z, n, 0real) == 0real by {
        if i >= k {
            assert(nm(m[i]@[k]) == 0real);
            assert forall|c: int| 1 <= c < n implies nm(m[i]@[c]) == 0real || z[c] == 0real by {
                if c < k { assert(nm(m[i]@[c]) == 0real); }
            }
            lemma_dot_zero(m[i]@, z, 1, n);
        }
        let t = nm(m[i]@[n]);
        assert(0real * t == 0real) by (nonlinear_arith);
    }
    assert(sat(m, z, n, 0real));
    assert(sat(m0, z, n, 0real));
}
