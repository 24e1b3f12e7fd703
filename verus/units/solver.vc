@prelude f64s cells linalg
@broadcast super::f64s::group_f64
@type NodeId
@raw
pub open spec fn rmaxi(a: int, b: int) -> int { if a > b { a } else { b } }
// rows i.. of the triangular system are satisfied by the entries i.. of x, if those are finite
pub open spec fn back_ok(m: Seq<Vec<f64>>, x: Seq<f64>, n: int, i: int) -> bool {
  (forall|j: int| i <= j < n ==> fin(#[trigger] x[j])) ==>
    forall|r: int| i <= r < n ==> dot((#[trigger] m[r])@, reals(x), i, n) == nm(m[r]@[n])
}
pub proof fn lemma_back(m: Seq<Vec<f64>>, x0: Seq<f64>, x: Seq<f64>, n: int, i: int, sum: f64)
    requires 1 <= i < n - 1, fin_mat(m, n), tri(m, n, n - 1), pivots_ok(m, n - 1),
        x0.len() == n, x == x0.update(i, mk(fvdiv(fvsub(fv(m[i]@[n]), fv(sum)), fv(m[i]@[i])))),
        (forall|j: int| i < j < n ==> fin(#[trigger] x0[j])) ==> fin(sum) && nm(sum) == dot(m[i]@, reals(x0), i + 1, n),
        back_ok(m, x0, n, i + 1),
    ensures back_ok(m, x, n, i)
{
    if forall|j: int| i <= j < n ==> fin(#[trigger] x[j]) {
        assert forall|j: int| i < j < n implies fin(#[trigger] x0[j]) by { assert(x[j] == x0[j]); }
        let y0 = reals(x0); let y = reals(x);
        assert forall|r: int| i <= r < n implies dot((#[trigger] m[r])@, y, i, n) == nm(m[r]@[n]) by {
            let row = m[r]@;
            lemma_dot_split(row, y, i, i + 1, n);
            assert(dot(row, y, i, i + 1) == nm(row[i]) * y[i]) by { reveal_with_fuel(dot, 2); }
            lemma_dot_ext_x(row, y0, y, i + 1, n);
            assert(fin(m[r]@[n]) && fin(m[r]@[i]));
            if r == i {
                let p = nm(m[i]@[i]); let b = nm(m[i]@[n]); let s = nm(sum);
                assert(p != 0real);
                assert(y[i] == (b - s) / p);
                assert(p * ((b - s) / p) + s == b) by (nonlinear_arith) requires p != 0real;
            } else {
                assert(nm(m[r]@[i]) == 0real);
                let t = y[i]; let z = nm(m[r]@[i]);
                assert(z * t == 0real) by (nonlinear_arith) requires z == 0real;
            }
        }
    }
}
// start of back-substitution: the last row
pub proof fn lemma_back0(m: Seq<Vec<f64>>, x: Seq<f64>, n: int)
    requires n > 1, fin_mat(m, n), x.len() == n, tri(m, n, n - 1),
        x[n - 1] == mk(fvdiv(fv(m[n-1]@[n]), fv(m[n-1]@[n-1])))
          || nm(m[n-1]@[n-1]) == 0real && nm(m[n-1]@[n]) == 0real && fin(x[n-1])
    ensures back_ok(m, x, n, n - 1)
{
    let l = n - 1;
    if fin(x[l]) {
        let y = reals(x); let row = m[l]@;
        assert(fin(m[l]@[l]) && fin(m[l]@[n]));
        assert(dot(row, y, l, n) == nm(row[l]) * y[l]) by { reveal_with_fuel(dot, 2); }
        let p = nm(row[l]); let b = nm(row[n]); let t = y[l];
        if p != 0real { assert(p * (b / p) == b) by (nonlinear_arith) requires p != 0real; }
        else { assert(p * t == 0real) by (nonlinear_arith) requires p == 0real; }
    }
}

@fn engine.rs Engine::solve
@ret out
@spec
  requires self.c_nodes + self.c_vsrcs < usize::MAX, self.c_nodes >= 1,
    fin_mat(v@, self.c_nodes + self.c_vsrcs),
    forall|j: int| 0 <= j <= self.c_nodes + self.c_vsrcs ==> nm(#[trigger] v@[0]@[j]) == 0real
  ensures out.len() == self.c_nodes + self.c_vsrcs,
    fv(out[0]) == FV::Num(0real),
    all_fin(out@) ==> sat(v@, reals(out@), (self.c_nodes + self.c_vsrcs) as int, 1real),
    !all_fin(out@) ==> singular(v@, (self.c_nodes + self.c_vsrcs) as int),
@begin
      let ghost v0 = v@;
      let ghost n_ = (self.c_nodes + self.c_vsrcs) as int;
      let ghost mut broken: int = 0;
@loop 0
          invariant_except_break
            tri(v@, n_, it0 as int), pivots_ok(v@, it0 as int), broken == 0,
          invariant 1 <= it0, it0 <= rmaxi(1, n_ - 1), it0_end == n_ - 1, fin_mat(v@, n_),
            implies_sys(v@, v0, n_), n_ < usize::MAX, v@[0]@ == v0[0]@,
          ensures
            broken == 0 ==> tri(v@, n_, n_ - 1) && pivots_ok(v@, n_ - 1),
            broken != 0 ==> 1 <= broken < n_ - 1 && nm(v@[broken]@[broken]) == 0real && singular(v0, n_)
@break 0
              proof {
                assert forall|r: int| r_ref <= r < n_ implies nm(#[trigger] v@[r]@[r_ref as int]) == 0real by { }
                lemma_singular(v@, v0, n_, r_ref as int);
                broken = r_ref as int;
              }
@before `v.swap(`
            let ghost va = v@;
@after `v.swap(`
            proof { lemma_swap(va, v@, r_max as int, r_ref as int, n_); }
@loop 1
              invariant r_ref < it1 <= n_, it1_end == n_, 1 <= r_ref < n_ - 1, n_ < usize::MAX, it0 == r_ref + 1, fin_mat(v@, n_), tri(v@, n_, r_ref as int), pivots_ok(v@, r_ref as int), nm(v@[r_ref as int]@[r_ref as int]) != 0real,
                implies_sys(v@, v0, n_), v@[0]@ == v0[0]@,
                forall|r: int| r_ref < r < it1 ==> nm(#[trigger] v@[r]@[r_ref as int]) == 0real
@loop 2 before
                let ghost vb = v@;
@loop 2
                  invariant r_ref <= it2 <= n_ + 1, it2_end == n_, 1 <= r_ref < r_mod < n_, n_ < usize::MAX, fin_mat(v@, n_), same_rows_except(v@, vb, r_mod as int),
                   fin_mat(vb, n_), fin(ratio),
                   forall|j: int| #![trigger v@[r_mod as int]@[j]] r_ref <= j < it2 ==> nm(v@[r_mod as int]@[j]) == nm(vb[r_mod as int]@[j]) - nm(vb[r_ref as int]@[j]) * nm(ratio),
                   forall|j: int| #![trigger v@[r_mod as int]@[j]] 0 <= j <= n_ && !(r_ref <= j < it2) ==> v@[r_mod as int]@[j] == vb[r_mod as int]@[j],
@loop 2 begin
                  let ghost vc = v@;
@loop 2 after
                proof {
                  let p = nm(vb[r_ref as int]@[r_ref as int]); let a = nm(vb[r_mod as int]@[r_ref as int]);
                  assert(a - p * (a / p) == 0real) by (nonlinear_arith) requires p != 0real;
                  assert(nm(v@[r_mod as int]@[r_ref as int]) == 0real);
                  lemma_rowop(vb, v@, r_mod as int, r_ref as int, r_ref as int, nm(ratio), n_);
                  assert(tri(v@, n_, r_ref as int)) by {
                    assert forall|r: int, c: int| 1 <= c < r_ref && c < r < n_ implies nm(#[trigger] v@[r]@[c]) == 0real by {
                      assert(nm(vb[r]@[c]) == 0real);
                      if r != r_mod { assert(v@[r]@ == vb[r]@); }
                    }
                  }
                  assert(v@[r_ref as int]@ == vb[r_ref as int]@);
                  assert forall|r: int| r_ref < r < it1 implies nm(#[trigger] v@[r]@[r_ref as int]) == 0real by {
                      if r != r_mod { assert(v@[r]@ == vb[r]@); assert(nm(vb[r]@[r_ref as int]) == 0real); }
                  }
                  assert(pivots_ok(v@, r_ref as int)) by {
                    assert forall|i: int| 1 <= i < r_ref implies nm(#[trigger] v@[i]@[i]) != 0real by { assert(v@[i]@ == vb[i]@); assert(nm(vb[i]@[i]) != 0real); }
                  }
                }
@loop 0 after
        let ghost vf = v@;
@loop 3 before
        proof {
          if n_ > 1 && broken == 0 {
            lemma_back0(vf, n@, n_);
            let lst = n_ - 1;
            if nm(vf[lst]@[lst]) == 0real { lemma_singular(vf, v0, n_, lst); }
          }
        }
@loop 3
           invariant
             n.len() == n_, fv(n[0]) == FV::Num(0real), n_ < usize::MAX, v@ == vf, fin_mat(vf, n_),
             it3 <= n_ - 1,
             it3 >= 1 || n_ == 1,
             broken == 0 ==> tri(vf, n_, n_ - 1) && pivots_ok(vf, n_ - 1),
             broken != 0 ==> 1 <= broken < n_ - 1 && nm(vf[broken]@[broken]) == 0real && singular(v0, n_),
             implies_sys(vf, v0, n_),
             broken == 0 && !singular(v0, n_) ==> forall|j: int| it3 <= j < n_ ==> fin(#[trigger] n[j]),
             broken == 0 ==> (n_ > 1 ==> back_ok(vf, n@, n_, it3 as int)),
             it3 <= broken < n_ - 1 ==> !fin(n[broken]),
@loop 3 begin
           let ghost nb = n@;
@loop 4
              invariant i_solve < it4 <= n_, it4_end == n_, n.len() == n_, n_ < usize::MAX, fin_mat(v@, n_), 0 <= i_solve < n_,
                (forall|j: int| i_solve < j < it4 ==> fin(#[trigger] n[j])) ==> fin(sum) && nm(sum) == dot(v@[i_solve as int]@, reals(n@), i_solve + 1, it4 as int),
@loop 3 end
            proof {
               if broken == 0 { lemma_back(vf, nb, n@, n_, i_solve as int, sum); }
            }
@end
        proof {
           if all_fin(n@) && n_ > 1 {
              assert forall|i: int| 1 <= i < n_ implies res((#[trigger] vf[i])@, reals(n@), n_, 1real) == 0real by {
              }
              assert(sat(vf, reals(n@), n_, 1real)); }
        }
@endfn
@fn engine.rs Engine::index_of_next_abs
@ret r
@spec
     requires fin_mat(m@, m.len() as int), k < m.len(),
     ensures k <= r < m.len(), forall|i: int| k <= i < m.len() ==> rabs(nm(#[trigger] m@[i]@[k as int])) <= rabs(nm(m@[r as int]@[k as int]))
@loop 0
          invariant k <= it0 <= c_rows, k <= r_biggest < c_rows, it0_end == c_rows, c_rows == m.len(), fin_mat(m@, m.len() as int),
            fin(biggest),
            biggest == num(0real) && r_biggest == k || nm(biggest) == rabs(nm(m@[r_biggest as int]@[k as int])),
            forall|i: int| k <= i < it0 ==> rabs(nm(#[trigger] m@[i]@[k as int])) <= nm(biggest),
@endfn
@fn engine.rs Engine::mean_squared_error
@ret r
@spec
  requires v1.len() == v2.len()
@loop 0
    invariant v1.len() == v2.len(),
@endfn
