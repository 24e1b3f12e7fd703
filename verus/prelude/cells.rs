// std::cell::Cell: its contents are not tracked by the proofs that use this shim
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Cell<T> { t: std::cell::Cell<T> }
impl<T: Copy> Cell<T> {
    #[verifier::external_body] pub fn new(t: T) -> Cell<T> { Cell { t: std::cell::Cell::new(t) } }
    #[verifier::external_body] pub fn get(&self) -> T { self.t.get() }
    #[verifier::external_body] pub fn set(&self, t: T) { self.t.set(t) }
}
// abort of the run (panic): control does not continue
#[verifier::external_body] pub fn vabort() -> ! { panic!() }
// a panic that must be unreachable
#[verifier::external_body] pub fn vforbid() -> ! requires false { panic!() }
// the same where a value is expected
#[verifier::external_body] pub fn vabort_at<A>() -> (a: A) ensures false { panic!() }
#[verifier::external_body] pub fn vforbid_at<A>() -> (a: A) requires false { panic!() }
