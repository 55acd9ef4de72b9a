//! fastrand 1's interface (interior mutability) over fastrand 2.
pub struct Rng(std::cell::RefCell<fastrand2::Rng>);
impl Rng {
    pub fn new() -> Self { Rng(std::cell::RefCell::new(fastrand2::Rng::new())) }
    pub fn f64(&self) -> f64 { self.0.borrow_mut().f64() }
}
pub fn f64() -> f64 { fastrand2::f64() }
