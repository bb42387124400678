//@ threshold arithmetic
@fn calculate_67p_threshold
@spec
    requires 1 <= n <= 0x10_0000_0000_0000
    ensures is_67p(r as int, n as int), n - r == (n - 1) / 3
@entry
    proof { lem_third(n as int); }

@fn calculate_x_threshold
@spec
    requires ffin(x), 0real <= fval(x) <= 1real, n <= 0x10_0000_0000_0000
    ensures reaches(r as int, n as int, fval(x))
@entry
    proof { lem_share(n as int, fval(x)); }

@fn calculate_threshold
@spec
    requires match relative_threshold { None => 1 <= n, Some(x) => ffin(x) && 0real <= fval(x) <= 1real }, n <= 0x10_0000_0000_0000
    ensures match relative_threshold { None => is_67p(r as int, n as int), Some(x) => reaches(r as int, n as int, fval(x)) }
