// ---------------------------------------------------------------- f64 shim --
// `f64` in the extracted text below means this type. Its values are idealised:
// exact reals plus the IEEE special values (no rounding, overflow, signed zero).
pub enum FV { Num(real), PInf, NInf, NaN }

#[verifier::external_body]
pub struct f64 { x: std::primitive::f64 }
impl Copy for f64 {}
impl Clone for f64 {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { *self }
}
pub uninterp spec fn fv(x: f64) -> FV;
pub uninterp spec fn mk(x: FV) -> f64;
pub broadcast axiom fn ax_mk(x: FV) ensures #[trigger] fv(mk(x)) == x;
pub broadcast axiom fn ax_fv(x: f64) ensures #[trigger] mk(fv(x)) == x;

pub open spec fn fin(x: f64) -> bool { fv(x) is Num }
pub open spec fn nm(x: f64) -> real { fv(x)->Num_0 }
pub open spec fn num(r: real) -> f64 { mk(FV::Num(r)) }

pub open spec fn fvneg(a: FV) -> FV {
    match a { FV::Num(x) => FV::Num(-x), FV::PInf => FV::NInf, FV::NInf => FV::PInf, FV::NaN => FV::NaN }
}
pub open spec fn fvadd(a: FV, b: FV) -> FV {
    match (a, b) {
        (FV::Num(x), FV::Num(y)) => FV::Num(x + y),
        (FV::NaN, _) => FV::NaN,
        (_, FV::NaN) => FV::NaN,
        (FV::PInf, FV::NInf) => FV::NaN,
        (FV::NInf, FV::PInf) => FV::NaN,
        (FV::PInf, _) => FV::PInf,
        (FV::NInf, _) => FV::NInf,
        (_, y) => y,
    }
}
pub open spec fn fvsub(a: FV, b: FV) -> FV { fvadd(a, fvneg(b)) }
// sign: -1, 0, 1 (not for NaN)
pub open spec fn fvsgn(a: FV) -> int {
    match a {
        FV::Num(x) => if x > 0real { 1int } else if x < 0real { -1int } else { 0int },
        FV::PInf => 1int, FV::NInf => -1int, FV::NaN => 0int }
}
pub open spec fn fvinf(s: int) -> FV { if s > 0 { FV::PInf } else if s < 0 { FV::NInf } else { FV::NaN } }
pub open spec fn fvmul(a: FV, b: FV) -> FV {
    match (a, b) {
        (FV::Num(x), FV::Num(y)) => FV::Num(x * y),
        (FV::NaN, _) => FV::NaN,
        (_, FV::NaN) => FV::NaN,
        (x, y) => fvinf(fvsgn(x) * fvsgn(y)),
    }
}
// division by zero: 0/0 is NaN, x/0 is an infinity whose sign is not modelled by
// the sign of the zero; only its being infinite is used.
pub uninterp spec fn zero_div_sign(a: FV, b: FV) -> bool;
pub open spec fn fvdiv(a: FV, b: FV) -> FV {
    match (a, b) {
        (FV::NaN, _) => FV::NaN,
        (_, FV::NaN) => FV::NaN,
        (FV::Num(x), FV::Num(y)) => if y != 0real { FV::Num(x / y) } else if x == 0real { FV::NaN }
            else if zero_div_sign(a, b) { FV::PInf } else { FV::NInf },
        (FV::Num(x), _) => FV::Num(0real),
        (x, FV::Num(y)) => if y == 0real { if zero_div_sign(a, b) { FV::PInf } else { FV::NInf } } else { fvinf(fvsgn(x) * fvsgn(b)) },
        (_, _) => FV::NaN,
    }
}
// x % y on finite reals: the remainder with the sign of x and magnitude below |y|
pub uninterp spec fn rrem(x: real, y: real) -> real;
pub uninterp spec fn rquo(x: real, y: real) -> int;
pub broadcast axiom fn ax_rrem(x: real, y: real) requires y != 0real
    ensures ({ let r = #[trigger] rrem(x, y);
        &&& x == y * (rquo(x, y) as real) + r
        &&& rabs(r) < rabs(y)
        &&& (x >= 0real ==> r >= 0real) &&& (x <= 0real ==> r <= 0real) });
pub open spec fn fvrem(a: FV, b: FV) -> FV {
    match (a, b) {
        (FV::Num(x), FV::Num(y)) => if y == 0real { FV::NaN } else { FV::Num(rrem(x, y)) },
        (FV::Num(x), FV::PInf) => a,
        (FV::Num(x), FV::NInf) => a,
        (_, _) => FV::NaN,
    }
}
pub open spec fn rabs(x: real) -> real { if x < 0real { -x } else { x } }
pub open spec fn rmax(a: real, b: real) -> real { if a > b { a } else { b } }
pub open spec fn fvabs(a: FV) -> FV {
    match a { FV::Num(x) => FV::Num(rabs(x)), FV::NInf => FV::PInf, x => x }
}
pub open spec fn fvcmp(a: FV, b: FV) -> Option<core::cmp::Ordering> {
    match (a, b) {
        (FV::NaN, _) => None,
        (_, FV::NaN) => None,
        (FV::Num(x), FV::Num(y)) => Some(if x < y { core::cmp::Ordering::Less }
            else if x == y { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater }),
        (FV::PInf, FV::PInf) => Some(core::cmp::Ordering::Equal),
        (FV::NInf, FV::NInf) => Some(core::cmp::Ordering::Equal),
        (FV::PInf, _) => Some(core::cmp::Ordering::Greater),
        (_, FV::NInf) => Some(core::cmp::Ordering::Greater),
        (FV::NInf, _) => Some(core::cmp::Ordering::Less),
        (_, FV::PInf) => Some(core::cmp::Ordering::Less),
    }
}

impl AddSpecImpl<f64> for f64 {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: f64) -> bool { true }
    open spec fn add_spec(self, rhs: f64) -> f64 { mk(fvadd(fv(self), fv(rhs))) }
}
impl Add<f64> for f64 { type Output = f64;
    #[verifier::external_body]
    fn add(self, rhs: f64) -> f64 { f64 { x: self.x + rhs.x } } }
impl<'a> AddSpecImpl<f64> for &'a f64 {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: f64) -> bool { true }
    open spec fn add_spec(self, rhs: f64) -> f64 { mk(fvadd(fv(*self), fv(rhs))) }
}
impl<'a> Add<f64> for &'a f64 { type Output = f64;
    #[verifier::external_body]
    fn add(self, rhs: f64) -> f64 { f64 { x: self.x + rhs.x } } }
impl<'b> AddSpecImpl<&'b f64> for f64 {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: &'b f64) -> bool { true }
    open spec fn add_spec(self, rhs: &'b f64) -> f64 { mk(fvadd(fv(self), fv(*rhs))) }
}
impl<'b> Add<&'b f64> for f64 { type Output = f64;
    #[verifier::external_body]
    fn add(self, rhs: &'b f64) -> f64 { f64 { x: self.x + rhs.x } } }
impl<'a, 'b> AddSpecImpl<&'b f64> for &'a f64 {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: &'b f64) -> bool { true }
    open spec fn add_spec(self, rhs: &'b f64) -> f64 { mk(fvadd(fv(*self), fv(*rhs))) }
}
impl<'a, 'b> Add<&'b f64> for &'a f64 { type Output = f64;
    #[verifier::external_body]
    fn add(self, rhs: &'b f64) -> f64 { f64 { x: self.x + rhs.x } } }
impl SubSpecImpl<f64> for f64 {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: f64) -> bool { true }
    open spec fn sub_spec(self, rhs: f64) -> f64 { mk(fvsub(fv(self), fv(rhs))) }
}
impl Sub<f64> for f64 { type Output = f64;
    #[verifier::external_body]
    fn sub(self, rhs: f64) -> f64 { f64 { x: self.x - rhs.x } } }
impl<'a> SubSpecImpl<f64> for &'a f64 {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: f64) -> bool { true }
    open spec fn sub_spec(self, rhs: f64) -> f64 { mk(fvsub(fv(*self), fv(rhs))) }
}
impl<'a> Sub<f64> for &'a f64 { type Output = f64;
    #[verifier::external_body]
    fn sub(self, rhs: f64) -> f64 { f64 { x: self.x - rhs.x } } }
impl<'b> SubSpecImpl<&'b f64> for f64 {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: &'b f64) -> bool { true }
    open spec fn sub_spec(self, rhs: &'b f64) -> f64 { mk(fvsub(fv(self), fv(*rhs))) }
}
impl<'b> Sub<&'b f64> for f64 { type Output = f64;
    #[verifier::external_body]
    fn sub(self, rhs: &'b f64) -> f64 { f64 { x: self.x - rhs.x } } }
impl<'a, 'b> SubSpecImpl<&'b f64> for &'a f64 {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: &'b f64) -> bool { true }
    open spec fn sub_spec(self, rhs: &'b f64) -> f64 { mk(fvsub(fv(*self), fv(*rhs))) }
}
impl<'a, 'b> Sub<&'b f64> for &'a f64 { type Output = f64;
    #[verifier::external_body]
    fn sub(self, rhs: &'b f64) -> f64 { f64 { x: self.x - rhs.x } } }
impl MulSpecImpl<f64> for f64 {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: f64) -> bool { true }
    open spec fn mul_spec(self, rhs: f64) -> f64 { mk(fvmul(fv(self), fv(rhs))) }
}
impl Mul<f64> for f64 { type Output = f64;
    #[verifier::external_body]
    fn mul(self, rhs: f64) -> f64 { f64 { x: self.x * rhs.x } } }
impl<'a> MulSpecImpl<f64> for &'a f64 {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: f64) -> bool { true }
    open spec fn mul_spec(self, rhs: f64) -> f64 { mk(fvmul(fv(*self), fv(rhs))) }
}
impl<'a> Mul<f64> for &'a f64 { type Output = f64;
    #[verifier::external_body]
    fn mul(self, rhs: f64) -> f64 { f64 { x: self.x * rhs.x } } }
impl<'b> MulSpecImpl<&'b f64> for f64 {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: &'b f64) -> bool { true }
    open spec fn mul_spec(self, rhs: &'b f64) -> f64 { mk(fvmul(fv(self), fv(*rhs))) }
}
impl<'b> Mul<&'b f64> for f64 { type Output = f64;
    #[verifier::external_body]
    fn mul(self, rhs: &'b f64) -> f64 { f64 { x: self.x * rhs.x } } }
impl<'a, 'b> MulSpecImpl<&'b f64> for &'a f64 {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: &'b f64) -> bool { true }
    open spec fn mul_spec(self, rhs: &'b f64) -> f64 { mk(fvmul(fv(*self), fv(*rhs))) }
}
impl<'a, 'b> Mul<&'b f64> for &'a f64 { type Output = f64;
    #[verifier::external_body]
    fn mul(self, rhs: &'b f64) -> f64 { f64 { x: self.x * rhs.x } } }
impl DivSpecImpl<f64> for f64 {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, rhs: f64) -> bool { true }
    open spec fn div_spec(self, rhs: f64) -> f64 { mk(fvdiv(fv(self), fv(rhs))) }
}
impl Div<f64> for f64 { type Output = f64;
    #[verifier::external_body]
    fn div(self, rhs: f64) -> f64 { f64 { x: self.x / rhs.x } } }
impl<'a> DivSpecImpl<f64> for &'a f64 {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, rhs: f64) -> bool { true }
    open spec fn div_spec(self, rhs: f64) -> f64 { mk(fvdiv(fv(*self), fv(rhs))) }
}
impl<'a> Div<f64> for &'a f64 { type Output = f64;
    #[verifier::external_body]
    fn div(self, rhs: f64) -> f64 { f64 { x: self.x / rhs.x } } }
impl<'b> DivSpecImpl<&'b f64> for f64 {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, rhs: &'b f64) -> bool { true }
    open spec fn div_spec(self, rhs: &'b f64) -> f64 { mk(fvdiv(fv(self), fv(*rhs))) }
}
impl<'b> Div<&'b f64> for f64 { type Output = f64;
    #[verifier::external_body]
    fn div(self, rhs: &'b f64) -> f64 { f64 { x: self.x / rhs.x } } }
impl<'a, 'b> DivSpecImpl<&'b f64> for &'a f64 {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, rhs: &'b f64) -> bool { true }
    open spec fn div_spec(self, rhs: &'b f64) -> f64 { mk(fvdiv(fv(*self), fv(*rhs))) }
}
impl<'a, 'b> Div<&'b f64> for &'a f64 { type Output = f64;
    #[verifier::external_body]
    fn div(self, rhs: &'b f64) -> f64 { f64 { x: self.x / rhs.x } } }
impl RemSpecImpl<f64> for f64 {
    open spec fn obeys_rem_spec() -> bool { true }
    open spec fn rem_req(self, rhs: f64) -> bool { true }
    open spec fn rem_spec(self, rhs: f64) -> f64 { mk(fvrem(fv(self), fv(rhs))) }
}
impl Rem<f64> for f64 { type Output = f64;
    #[verifier::external_body]
    fn rem(self, rhs: f64) -> f64 { f64 { x: self.x % rhs.x } } }
impl<'a> RemSpecImpl<f64> for &'a f64 {
    open spec fn obeys_rem_spec() -> bool { true }
    open spec fn rem_req(self, rhs: f64) -> bool { true }
    open spec fn rem_spec(self, rhs: f64) -> f64 { mk(fvrem(fv(*self), fv(rhs))) }
}
impl<'a> Rem<f64> for &'a f64 { type Output = f64;
    #[verifier::external_body]
    fn rem(self, rhs: f64) -> f64 { f64 { x: self.x % rhs.x } } }
impl<'b> RemSpecImpl<&'b f64> for f64 {
    open spec fn obeys_rem_spec() -> bool { true }
    open spec fn rem_req(self, rhs: &'b f64) -> bool { true }
    open spec fn rem_spec(self, rhs: &'b f64) -> f64 { mk(fvrem(fv(self), fv(*rhs))) }
}
impl<'b> Rem<&'b f64> for f64 { type Output = f64;
    #[verifier::external_body]
    fn rem(self, rhs: &'b f64) -> f64 { f64 { x: self.x % rhs.x } } }
impl<'a, 'b> RemSpecImpl<&'b f64> for &'a f64 {
    open spec fn obeys_rem_spec() -> bool { true }
    open spec fn rem_req(self, rhs: &'b f64) -> bool { true }
    open spec fn rem_spec(self, rhs: &'b f64) -> f64 { mk(fvrem(fv(*self), fv(*rhs))) }
}
impl<'a, 'b> Rem<&'b f64> for &'a f64 { type Output = f64;
    #[verifier::external_body]
    fn rem(self, rhs: &'b f64) -> f64 { f64 { x: self.x % rhs.x } } }


impl NegSpecImpl for f64 {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> f64 { mk(fvneg(fv(self))) }
}
impl Neg for f64 { type Output = f64;
    #[verifier::external_body]
    fn neg(self) -> f64 { f64 { x: -self.x } } }

impl PartialEqSpecImpl for f64 {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &f64) -> bool { fv(*self) == fv(*o) && fv(*self) != FV::NaN }
}
impl PartialEq for f64 {
    #[verifier::external_body]
    fn eq(&self, o: &f64) -> bool { self.x == o.x } }
impl PartialOrdSpecImpl for f64 {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &f64) -> Option<core::cmp::Ordering> { fvcmp(fv(*self), fv(*o)) }
}
impl PartialOrd for f64 {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &f64) -> Option<core::cmp::Ordering> { self.x.partial_cmp(&o.x) } }

// a literal of the source text becomes a call of a generated function fl_<text>()
// a[x; n]
#[verifier::external_body]
pub fn vec_rep<T: Clone>(x: T, n: usize) -> (r: Vec<T>)
    ensures r.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r[i] == x { vec![x; n] }
#[verifier::external_body]
pub fn vec_swap<T>(v: &mut Vec<T>, a: usize, b: usize)
    requires a < old(v).len(), b < old(v).len()
    ensures final(v)@ == old(v)@.update(a as int, old(v)@[b as int]).update(b as int, old(v)@[a as int])
{ v.swap(a, b) }
// `n as f64`
#[verifier::external_body]
pub fn fl_from(n: usize) -> (res: f64) ensures res == num(n as real) { f64 { x: n as std::primitive::f64 } }

// transcendental functions: uninterpreted on finite arguments
pub uninterp spec fn r_exp(x: real) -> real;
pub uninterp spec fn r_ln(x: real) -> real;
pub uninterp spec fn r_sin(x: real) -> real;
pub uninterp spec fn r_sqrt(x: real) -> real;
pub uninterp spec fn r_pi() -> real;
pub broadcast axiom fn ax_exp(x: real) ensures #[trigger] r_exp(x) > 0real;
pub broadcast axiom fn ax_sqrt(x: real) requires x >= 0real ensures #[trigger] r_sqrt(x) >= 0real, r_sqrt(x) * r_sqrt(x) == x;
pub uninterp spec fn fv_exp_inf(x: FV) -> FV;
pub open spec fn fvexp(a: FV) -> FV { match a { FV::Num(x) => FV::Num(r_exp(x)), FV::PInf => FV::PInf, FV::NInf => FV::Num(0real), FV::NaN => FV::NaN } }
pub open spec fn fvln(a: FV) -> FV {
    match a { FV::Num(x) => if x > 0real { FV::Num(r_ln(x)) } else if x == 0real { FV::NInf } else { FV::NaN },
        FV::PInf => FV::PInf, _ => FV::NaN } }
pub open spec fn fvsin(a: FV) -> FV { match a { FV::Num(x) => FV::Num(r_sin(x)), _ => FV::NaN } }
pub open spec fn fvsqrt(a: FV) -> FV {
    match a { FV::Num(x) => if x >= 0real { FV::Num(r_sqrt(x)) } else { FV::NaN }, FV::PInf => FV::PInf, _ => FV::NaN } }
pub open spec fn fvmax(a: FV, b: FV) -> FV {
    if a is NaN { b } else if b is NaN { a } else if fvcmp(a, b) == Some(core::cmp::Ordering::Less) { b } else { a } }
pub open spec fn fvmin(a: FV, b: FV) -> FV {
    if a is NaN { b } else if b is NaN { a } else if fvcmp(a, b) == Some(core::cmp::Ordering::Less) { a } else { b } }
pub uninterp spec fn fvpowi(a: FV, n: int) -> FV;
pub open spec fn fvflr(a: FV) -> FV { match a { FV::Num(x) => FV::Num(x.floor() as real), y => y } }
pub open spec fn fvceil(a: FV) -> FV { fvneg(fvflr(fvneg(a))) }

impl f64 {
    #[verifier::external_body] pub fn powi(self, n: i32) -> (r: f64)
        ensures r == mk(fvpowi(fv(self), n as int)), n == 2 ==> r == mk(fvmul(fv(self), fv(self))), n == 1 ==> r == self { f64 { x: self.x.powi(n) } }
    #[verifier::external_body] pub fn recip(self) -> (r: f64) ensures r == mk(fvdiv(FV::Num(1real), fv(self))) { f64 { x: self.x.recip() } }
    #[verifier::external_body] pub fn mul_add(self, a: f64, b: f64) -> (r: f64) ensures r == mk(fvadd(fvmul(fv(self), fv(a)), fv(b))) { f64 { x: self.x.mul_add(a.x, b.x) } }
    #[verifier::external_body] pub fn floor(self) -> (r: f64) ensures r == mk(fvflr(fv(self))) { f64 { x: self.x.floor() } }
    #[verifier::external_body] pub fn ceil(self) -> (r: f64) ensures r == mk(fvceil(fv(self))) { f64 { x: self.x.ceil() } }
    #[verifier::external_body] pub fn trunc(self) -> (r: f64) ensures r == mk(if fvsgn(fv(self)) < 0 { fvceil(fv(self)) } else { fvflr(fv(self)) }) { f64 { x: self.x.trunc() } }
    #[verifier::external_body] pub fn clamp(self, lo: f64, hi: f64) -> (r: f64) requires fin(lo), fin(hi), nm(lo) <= nm(hi)
        ensures r == mk(if fv(self) is NaN { FV::NaN } else { fvmin(fvmax(fv(self), fv(lo)), fv(hi)) }) { f64 { x: self.x.clamp(lo.x, hi.x) } }
    #[verifier::external_body] pub fn abs(self) -> (r: f64) ensures r == mk(fvabs(fv(self))) { f64 { x: self.x.abs() } }
    #[verifier::external_body] pub fn is_finite(self) -> (r: bool) ensures r == fin(self) { self.x.is_finite() }
    #[verifier::external_body] pub fn is_nan(self) -> (r: bool) ensures r == (fv(self) is NaN) { self.x.is_nan() }
    #[verifier::external_body] pub fn is_infinite(self) -> (r: bool) ensures r == (fv(self) is PInf || fv(self) is NInf) { self.x.is_infinite() }
    #[verifier::external_body] pub fn exp(self) -> (r: f64) ensures r == mk(fvexp(fv(self))) { f64 { x: self.x.exp() } }
    #[verifier::external_body] pub fn ln(self) -> (r: f64) ensures r == mk(fvln(fv(self))) { f64 { x: self.x.ln() } }
    #[verifier::external_body] pub fn sin(self) -> (r: f64) ensures r == mk(fvsin(fv(self))) { f64 { x: self.x.sin() } }
    #[verifier::external_body] pub fn sqrt(self) -> (r: f64) ensures r == mk(fvsqrt(fv(self))) { f64 { x: self.x.sqrt() } }
    #[verifier::external_body] pub fn max(self, o: f64) -> (r: f64) ensures r == mk(fvmax(fv(self), fv(o))) { f64 { x: self.x.max(o.x) } }
    #[verifier::external_body] pub fn min(self, o: f64) -> (r: f64) ensures r == mk(fvmin(fv(self), fv(o))) { f64 { x: self.x.min(o.x) } }
}
#[verifier::external_body]
pub fn f64_pi() -> (r: f64) ensures r == num(r_pi()) { f64 { x: std::f64::consts::PI } }
// the order and grouping of factors does not matter to the reals
pub broadcast proof fn lemma_fvmul_comm(a: FV, b: FV)
    ensures #[trigger] fvmul(a, b) == fvmul(b, a)
{
    if a is Num && b is Num {
        let x = a->Num_0; let y = b->Num_0;
        assert(x * y == y * x) by (nonlinear_arith);
    }
    assert(fvsgn(a) * fvsgn(b) == fvsgn(b) * fvsgn(a)) by (nonlinear_arith);
}
pub broadcast proof fn lemma_fvmul_assoc(a: FV, b: FV, c: FV)
    requires a is Num, b is Num, c is Num
    ensures #[trigger] fvmul(fvmul(a, b), c) == fvmul(a, fvmul(b, c))
{
    let x = a->Num_0; let y = b->Num_0; let z = c->Num_0;
    assert((x * y) * z == x * (y * z)) by (nonlinear_arith);
}
pub broadcast proof fn lemma_fvmul_div(a: FV, b: FV, c: FV)
    requires a is Num, b is Num, c is Num, b->Num_0 != 0real
    ensures #[trigger] fvmul(fvdiv(a, b), c) == fvdiv(fvmul(a, c), b)
{
    let x = a->Num_0; let y = b->Num_0; let z = c->Num_0;
    assert((x / y) * z == (x * z) / y) by (nonlinear_arith) requires y != 0real;
}
pub broadcast proof fn lemma_fvdiv_mul(a: FV, b: FV, c: FV)
    requires a is Num, b is Num, c is Num, b->Num_0 != 0real
    ensures #[trigger] fvdiv(fvmul(a, c), b) == fvmul(fvdiv(a, b), c)
{ lemma_fvmul_div(a, b, c); }
pub broadcast group group_alg { lemma_fvmul_comm, lemma_fvdiv_mul }
pub broadcast group group_f64 { ax_mk, ax_fv, ax_exp }

// clone(): an equal value (every Clone of this crate is derived or a library one)
pub trait VClone: Sized { fn v_clone(&self) -> (r: Self) ensures r == *self; }
impl<T: Clone> VClone for T { #[verifier::external_body] fn v_clone(&self) -> (r: T) { self.clone() } }
// to_vec(), to_owned() of slices and vectors
pub trait VSlice<T> {
    spec fn lv(&self) -> Seq<T>;
    fn v_to_vec(&self) -> (r: Vec<T>) ensures r@ == self.lv();
}
pub trait VSliceO<T> {
    spec fn lvo(&self) -> Seq<T>;
    fn v_to_owned(&self) -> (r: Vec<T>) ensures r@ == self.lvo();
}
impl<T: Clone> VSlice<T> for Vec<T> { open spec fn lv(&self) -> Seq<T> { self@ } #[verifier::external_body] fn v_to_vec(&self) -> (r: Vec<T>) { self.to_vec() } }
impl<T: Clone> VSlice<T> for [T] { open spec fn lv(&self) -> Seq<T> { self@ } #[verifier::external_body] fn v_to_vec(&self) -> (r: Vec<T>) { self.to_vec() } }
impl<T: Clone> VSliceO<T> for [T] { open spec fn lvo(&self) -> Seq<T> { self@ } #[verifier::external_body] fn v_to_owned(&self) -> (r: Vec<T>) { self.to_vec() } }
// & and | of booleans
pub fn b_and(a: bool, b: bool) -> (r: bool) ensures r == (a && b) { a && b }
pub fn b_or(a: bool, b: bool) -> (r: bool) ensures r == (a || b) { a || b }
