// std::cell::Cell<f64> whose contents are always finite: every write has to prove it, every read may use it.
// (The cells of this crate are private to their structs, created by new() and copied by clone() only.)
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Cell<T> { t: std::cell::Cell<T> }
impl Cell<f64> {
    #[verifier::external_body] pub fn new(t: f64) -> Cell<f64> requires fin(t) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self) -> (r: f64) ensures fin(r) { unimplemented!() }
    #[verifier::external_body] pub fn set(&self, t: f64) requires fin(t) { unimplemented!() }
}
// abort of the run (panic): control does not continue
#[verifier::external_body] pub fn vabort() -> ! { panic!() }
// a panic that must be unreachable
#[verifier::external_body] pub fn vforbid() -> ! requires false { panic!() }
// the same where a value is expected
#[verifier::external_body] pub fn vabort_at<A>() -> (a: A) ensures false { panic!() }
#[verifier::external_body] pub fn vforbid_at<A>() -> (a: A) requires false { panic!() }
