// ------------------------------------------------------------------------------------
// floating-point numbers
// ------------------------------------------------------------------------------------
pub mod floats {
use vstd::prelude::*;
/// the number that a finite float stands for
pub uninterp spec fn fval(x: f64) -> real;
/// neither infinite nor NaN
pub uninterp spec fn ffin(x: f64) -> bool;
/// rounding to the nearest float
pub uninterp spec fn rnd(x: real) -> real;
/// `n as f64`, and what the hardware answers for the operations
pub uninterp spec fn fof(n: usize) -> f64;
pub uninterp spec fn fadd(x: f64, y: f64) -> f64;
pub uninterp spec fn fsub(x: f64, y: f64) -> f64;
pub uninterp spec fn fmul(x: f64, y: f64) -> f64;
pub uninterp spec fn fdiv(x: f64, y: f64) -> f64;
#[verifier::external_body]
pub fn v_f64(n: usize) -> (r: f64) 
    ensures r == fof(n), ffin(r), fval(r) == rnd(n as real), small(fval(r)), n >= 1 ==> fval(r) >= 1real, n <= 0x20_0000_0000_0000 ==> fval(r) == n as real
{ n as f64 }
/// `as usize` truncates, and stops at the ends of the range
#[verifier::external_body]
pub fn v_f_usize(x: f64) -> (r: usize)
    ensures ffin(x) ==> r == if fval(x) < 0real { 0 } else if fval(x).floor() > usize::MAX { usize::MAX as int } else { fval(x).floor() }
{ x as usize }
#[verifier::external_body]
pub fn v_fadd(x: f64, y: f64) -> (r: f64) ensures r == fadd(x, y), ffin(x) && ffin(y) && small(fval(x)) && small(fval(y)) ==> ffin(r) && fval(r) == rnd(fval(x) + fval(y)) { x + y }
#[verifier::external_body]
pub fn v_fsub(x: f64, y: f64) -> (r: f64) ensures r == fsub(x, y), ffin(x) && ffin(y) && small(fval(x)) && small(fval(y)) ==> ffin(r) && fval(r) == rnd(fval(x) - fval(y)) { x - y }
#[verifier::external_body]
pub fn v_fmul(x: f64, y: f64) -> (r: f64) ensures r == fmul(x, y), ffin(x) && ffin(y) && small(fval(x)) && small(fval(y)) ==> ffin(r) && fval(r) == rnd(fval(x) * fval(y)) { x * y }
#[verifier::external_body]
pub fn v_fdiv(x: f64, y: f64) -> (r: f64) ensures r == fdiv(x, y), ffin(x) && ffin(y) && small(fval(x)) && (fval(y) >= 1real || fval(y) <= -1real) ==> ffin(r) && fval(r) == rnd(fval(x) / fval(y)) { x / y }
pub uninterp spec fn flit(n: u64, d: u64) -> f64;
pub uninterp spec fn fabs(x: f64) -> f64;
pub uninterp spec fn fmax(x: f64, y: f64) -> f64;
pub uninterp spec fn fmin(x: f64, y: f64) -> f64;
/// the literal for `n / d`
#[verifier::external_body]
pub fn v_flit(n: u64, d: u64) -> (r: f64) ensures r == flit(n, d) { unimplemented!() }
/// neither NaN nor negative (`+inf` is such a number)
pub uninterp spec fn num(x: f64) -> bool;
pub broadcast axiom fn ax_num_of(n: usize) ensures num(#[trigger] fof(n));
pub broadcast axiom fn ax_num_add(x: f64, y: f64) ensures num(x) && num(y) ==> num(#[trigger] fadd(x, y));
pub broadcast axiom fn ax_num_div(x: f64, n: usize) ensures num(x) && n >= 1 ==> num(#[trigger] fdiv(x, fof(n)));
pub broadcast axiom fn ax_num_inv(m: usize, n: usize) ensures m >= 1 ==> num(#[trigger] fdiv(fof(m), fof(n)));
pub broadcast group float_nums { ax_num_of, ax_num_add, ax_num_div, ax_num_inv }
/// numbers are comparable
pub trait VPartialCmp { fn v_partial_cmp(&self, o: &Self) -> (r: Option<core::cmp::Ordering>); }
impl VPartialCmp for f64 {
    #[verifier::external_body]
    fn v_partial_cmp(&self, o: &Self) -> (r: Option<core::cmp::Ordering>) ensures num(*self) && num(*o) ==> r is Some { unimplemented!() }
}
/// comparisons: `fge` is what the hardware answers
pub uninterp spec fn fge(x: f64, y: f64) -> bool;
pub uninterp spec fn fgt(x: f64, y: f64) -> bool;
#[verifier::external_body]
pub fn v_fge(x: f64, y: f64) -> (r: bool) ensures r == fge(x, y), ffin(x) && ffin(y) ==> r == (fval(x) >= fval(y)) { x >= y }
#[verifier::external_body]
pub fn v_fle(x: f64, y: f64) -> (r: bool) ensures r == fge(y, x), ffin(x) && ffin(y) ==> r == (fval(x) <= fval(y)) { x <= y }
#[verifier::external_body]
pub fn v_fgt(x: f64, y: f64) -> (r: bool) ensures r == fgt(x, y), ffin(x) && ffin(y) ==> r == (fval(x) > fval(y)) { x > y }
#[verifier::external_body]
pub fn v_flt(x: f64, y: f64) -> (r: bool) ensures r == fgt(y, x), ffin(x) && ffin(y) ==> r == (fval(x) < fval(y)) { x < y }
/// integers up to 2^53 are floats
pub broadcast axiom fn ax_rnd_int(n: int)
    requires -0x20_0000_0000_0000 <= n <= 0x20_0000_0000_0000
    ensures #[trigger] rnd(n as real) == n as real;
pub axiom fn ax_rnd_mono(x: real, y: real)
    requires x <= y
    ensures rnd(x) <= rnd(y);
/// quarters up to 2^51 are floats
pub axiom fn ax_rnd_quarter(n: int)
    requires -0x20_0000_0000_0000 <= n <= 0x20_0000_0000_0000
    ensures rnd(n as real / 4real) == n as real / 4real;
/// far from overflow
pub open spec fn small(x: real) -> bool { -340282366920938463463374607431768211456real <= x <= 340282366920938463463374607431768211456real }
pub open spec fn ceil_of(x: real) -> int { -((-x).floor()) }
pub trait VF64 {
    spec fn vf(&self) -> f64;
    fn v_floor(self) -> (r: f64) where Self: Sized ensures ffin(self.vf()) ==> ffin(r) && fval(r) == fval(self.vf()).floor() as real;
    fn v_abs(self) -> (r: f64) where Self: Sized ensures r == fabs(self.vf());
    fn v_max(self, o: f64) -> (r: f64) where Self: Sized ensures r == fmax(self.vf(), o);
    fn v_min(self, o: f64) -> (r: f64) where Self: Sized ensures r == fmin(self.vf(), o);
    fn v_ceil(self) -> (r: f64) where Self: Sized ensures ffin(self.vf()) ==> ffin(r) && fval(r) == ceil_of(fval(self.vf())) as real, fval(r).floor() == ceil_of(fval(self.vf()));
}
impl VF64 for f64 {
    open spec fn vf(&self) -> f64 { *self }
    #[verifier::external_body]
    fn v_floor(self) -> (r: f64) { self.floor() }
    #[verifier::external_body]
    fn v_abs(self) -> (r: f64) { self.abs() }
    #[verifier::external_body]
    fn v_max(self, o: f64) -> (r: f64) { self.max(o) }
    #[verifier::external_body]
    fn v_min(self, o: f64) -> (r: f64) { self.min(o) }
    #[verifier::external_body]
    fn v_ceil(self) -> (r: f64) { self.ceil() }
}
} // mod floats
pub use floats::*;
pub mod cmp {
use vstd::prelude::*;
pub fn max(a: usize, b: usize) -> (r: usize) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
pub fn min(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
}
