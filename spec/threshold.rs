// ------------------------------------------------------------------------------------
// thresholds
// ------------------------------------------------------------------------------------
/// `t` is the ceiling of (2n+1)/3
pub open spec fn is_67p(t: int, n: int) -> bool { 3 * t >= 2 * n + 1 && 3 * (t - 1) < 2 * n + 1 }
/// `t` is the smallest count of at least one that reaches the share `x` of `n` (up to the rounding of the product to a float)
#[verifier::opaque]
pub open spec fn reaches(t: int, n: int, x: real) -> bool { t >= 1 && (t == 1 || ((t - 1) as real) < x * (n as real)) && (t as real >= x * (n as real) || t as real == rnd(x * (n as real))) && (t <= n || t == 1) }
pub proof fn lem_third(n: int)
    requires 1 <= n <= 0x10_0000_0000_0000
    ensures rnd(n as real - 1real) == (n - 1) as real, rnd((n - 1) as real / 3real).floor() == (n - 1) / 3, is_67p(n - (n - 1) / 3, n)
{
    let k = (n - 1) / 3;
    let x = (n - 1) as real / 3real;
    ax_rnd_int(n - 1);
    assert(n as real - 1real == (n - 1) as real);
    ax_rnd_int(k);
    ax_rnd_quarter(4 * k + 3);
    assert(k as real <= x && x <= (4 * k + 3) as real / 4real) by (nonlinear_arith) requires x == (n - 1) as real / 3real, k == (n - 1) / 3, n >= 1;
    ax_rnd_mono(k as real, x);
    ax_rnd_mono(x, (4 * k + 3) as real / 4real);
    assert((4 * k + 3) as real / 4real < (k + 1) as real);
}
pub proof fn lem_share(n: int, x: real)
    requires 0 <= n <= 0x10_0000_0000_0000, 0real <= x <= 1real
    ensures ({ let p = rnd(x * (n as real)); let c = ceil_of(p); 0real <= p <= n as real && 0 <= c <= n && reaches(if c < 1 { 1 } else { c }, n, x) }), (n as real) * x == x * (n as real)
{
    let y = x * (n as real);
    assert((n as real) * x == x * (n as real)) by (nonlinear_arith);
    let p = rnd(y);
    let c = ceil_of(p);
    reveal(reaches);
    assert(0real <= y <= n as real) by (nonlinear_arith) requires y == x * (n as real), 0real <= x <= 1real, n >= 0;
    ax_rnd_int(0); ax_rnd_int(n);
    ax_rnd_mono(0real, y); ax_rnd_mono(y, n as real);
    assert(0real <= p <= n as real);
    assert(c as real >= p && ((c - 1) as real) < p);
    if y <= (c - 1) as real { ax_rnd_int(c - 1); ax_rnd_mono(y, (c - 1) as real); }
    if y > 1real { ax_rnd_int(1); ax_rnd_mono(1real, y); }
    if y > c as real { ax_rnd_int(c); ax_rnd_mono(c as real, y); }
}
