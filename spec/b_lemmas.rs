// Lemmas on congruence and on numbers in a base.  Nothing here is assumed.
verus! {

// ---- congruence modulo P
pub proof fn c_refl(a: int) ensures cong(a, a) { ax_P(); assert((a - a) % P() == 0) by { lemma_mod_self_0(P()); lemma_small_mod(0, P() as nat); } }
pub proof fn c_add(a: int, b: int, c: int, d: int)
    requires cong(a, b), cong(c, d),
    ensures cong(a + c, b + d), cong(a - c, b - d),
{
    ax_P();
    c_k(a, b); c_k(c, d);
    let k = (a - b) / P(); let l = (c - d) / P();
    assert((a + c) - (b + d) == (k + l) * P()) by (nonlinear_arith) requires a - b == k * P(), c - d == l * P();
    assert((a - c) - (b - d) == (k - l) * P()) by (nonlinear_arith) requires a - b == k * P(), c - d == l * P();
    k_c(a + c, b + d, k + l);
    k_c(a - c, b - d, k - l);
}
pub proof fn c_k(a: int, b: int)
    requires cong(a, b),
    ensures a - b == ((a - b) / P()) * P(),
{
    ax_P();
    lemma_fundamental_div_mod(a - b, P());
    assert(P() * ((a - b) / P()) == ((a - b) / P()) * P()) by (nonlinear_arith);
}
pub proof fn k_c(a: int, b: int, k: int)
    requires a - b == k * P(),
    ensures cong(a, b),
{
    ax_P();
    lemma_mod_multiples_basic(k, P());
}
pub proof fn c_sym(a: int, b: int)
    requires cong(a, b),
    ensures cong(b, a),
{
    c_k(a, b);
    let k = (a - b) / P();
    assert(b - a == (-k) * P()) by (nonlinear_arith) requires a - b == k * P();
    k_c(b, a, -k);
}
pub proof fn c_trans(a: int, b: int, c: int)
    requires cong(a, b), cong(b, c),
    ensures cong(a, c),
{
    c_add(a, b, b, c);
    c_k(a + b, b + c);
    k_c(a, c, (a + b - (b + c)) / P());
}
pub proof fn c_mul(a: int, b: int, c: int, d: int)
    requires cong(a, b), cong(c, d),
    ensures cong(a * c, b * d),
{
    c_k(a, b); c_k(c, d);
    let k = (a - b) / P(); let l = (c - d) / P();
    assert(a * c - b * d == (k * c + b * l) * P()) by (nonlinear_arith) requires a - b == k * P(), c - d == l * P();
    k_c(a * c, b * d, k * c + b * l);
}
pub proof fn c_mod(a: int)
    ensures cong(a, a % P()), cong(a % P(), a), 0 <= a % P() < P(),
{
    ax_P();
    lemma_fundamental_div_mod(a, P());
    lemma_mod_bound(a, P());
    assert(P() * (a / P()) == (a / P()) * P()) by (nonlinear_arith);
    k_c(a, a % P(), a / P());
    c_sym(a, a % P());
}
/// Congruent representatives are equal.
pub proof fn c_eq(a: int, b: int)
    requires cong(a, b), 0 <= a < P(), 0 <= b < P(),
    ensures a == b,
{
    c_k(a, b);
    let k = (a - b) / P();
    assert(k == 0) by (nonlinear_arith) requires a - b == k * P(), 0 <= a < P(), 0 <= b < P();
}
pub proof fn c_small(a: int)
    requires 0 <= a < P(),
    ensures a % P() == a,
{
    lemma_small_mod(a as nat, P() as nat);
}
pub proof fn c_mod_eq(a: int, b: int)
    requires cong(a, b),
    ensures a % P() == b % P(),
{
    c_mod(a); c_mod(b);
    c_trans(a % P(), a, b);
    c_trans(a % P(), b, b % P());
    c_eq(a % P(), b % P());
}
pub proof fn c_from_mod(a: int, b: int)
    requires a % P() == b % P(),
    ensures cong(a, b),
{
    c_mod(a); c_mod(b);
    c_trans(a, a % P(), b);
}
/// A value x with x (1 - x) = 0 is 0 or 1.
pub proof fn c_bool(x: int)
    requires cong(x * (1 - x), 0) || cong((1 - x) * x, 0),
    ensures x % P() == 0 || x % P() == 1, cong(x, 0) || cong(x, 1),
{
    ax_P();
    assert((1 - x) * x == x * (1 - x)) by (nonlinear_arith);
    ax_prime(x, 1 - x);
    if cong(x, 0) { c_mod_eq(x, 0); c_small(0); }
    else { c_refl(x); c_add(1 - x, 0, x, x); c_sym(1, x); c_mod_eq(x, 1); c_small(1); }
}
pub proof fn c_bool_rev(x: int)
    requires cong(x, 0) || cong(x, 1),
    ensures cong(x * (1 - x), 0), cong((1 - x) * x, 0),
{
    c_refl(1); c_refl(x); c_refl(1 - x);
    assert((1 - x) * x == x * (1 - x)) by (nonlinear_arith);
    if cong(x, 0) { c_mul(x, 0, 1 - x, 1 - x); assert(0 * (1 - x) == 0); }
    else { c_add(1, 1, x, 1); c_mul(x, x, 1 - x, 0); }
}
/// cong(a, b) with b replaced by what it equals
pub proof fn c_is(a: int, b: int, c: int)
    requires cong(a, b), b == c,
    ensures cong(a, c),
{}

// ---- powers of two
pub proof fn p2(n: nat)
    ensures pow2(n + 1) == 2 * pow2(n), pow2(n) > 0, pow2(0) == 1, pow2(1) == 2,
{
    lemma_pow2_unfold(n + 1);
    lemma_pow2_pos(n);
    lemma2_to64();
}
pub proof fn p2_mono(a: nat, b: nat)
    requires a <= b,
    ensures pow2(a) <= pow2(b),
{
    if a < b { lemma_pow2_strictly_increases(a, b); }
}
pub proof fn p2_add(a: nat, b: nat)
    ensures pow2(a + b) == pow2(a) * pow2(b), pow2(a) * pow2(b) == pow2(b) * pow2(a),
{
    lemma_pow2_adds(a, b);
    assert(pow2(a) * pow2(b) == pow2(b) * pow2(a)) by (nonlinear_arith);
}

// ---- numbers in base 2^w: s[0] + s[1] 2^w + s[2] 2^2w + ...
pub open spec fn ls(s: Seq<int>, w: nat) -> int
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { ls(s.drop_last(), w) + s.last() * pow2(w * ((s.len() - 1) as nat)) }
}
pub open spec fn mods(s: Seq<int>) -> Seq<int> { s.map_values(|x: int| x % P()) }
pub proof fn ls_push(s: Seq<int>, x: int, w: nat)
    ensures ls(s.push(x), w) == ls(s, w) + x * pow2(w * s.len()),
{
    assert(s.push(x).drop_last() =~= s);
}
pub proof fn ls_take(s: Seq<int>, i: int, w: nat)
    requires 0 <= i < s.len(),
    ensures ls(s.take(i + 1), w) == ls(s.take(i), w) + s[i] * pow2(w * (i as nat)),
{
    assert(s.take(i + 1) =~= s.take(i).push(s[i]));
    ls_push(s.take(i), s[i], w);
}
pub proof fn ls_cong(s: Seq<int>, t: Seq<int>, w: nat)
    requires s.len() == t.len(), forall|i: int| 0 <= i < s.len() ==> cong(#[trigger] s[i], t[i]),
    ensures cong(ls(s, w), ls(t, w)),
    decreases s.len(),
{
    if s.len() == 0 { c_refl(0); } else {
        let a = s.drop_last(); let b = t.drop_last();
        assert forall|i: int| 0 <= i < a.len() implies cong(#[trigger] a[i], b[i]) by { assert(cong(s[i], t[i])); }
        ls_cong(a, b, w);
        let p = pow2(w * ((s.len() - 1) as nat)) as int;
        c_refl(p);
        assert(cong(s[s.len() - 1], t[s.len() - 1]));
        c_mul(s.last(), t.last(), p, p);
        c_add(ls(a, w), ls(b, w), s.last() * p, t.last() * p);
    }
}
pub proof fn ls_mods(s: Seq<int>, w: nat)
    ensures cong(ls(s, w), ls(mods(s), w)), mods(s).len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] mods(s)[i] == s[i] % P(),
{
    assert forall|i: int| 0 <= i < s.len() implies cong(#[trigger] s[i], mods(s)[i]) by { c_mod(s[i]); }
    ls_cong(s, mods(s), w);
}
pub open spec fn all_in(s: Seq<int>, b: int) -> bool { forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i] < b }
pub proof fn ls_bound(s: Seq<int>, w: nat)
    requires all_in(s, pow2(w) as int),
    ensures 0 <= ls(s, w) < pow2(w * s.len()),
    decreases s.len(),
{
    p2(0);
    if s.len() == 0 { assert(w * 0 == 0) by (nonlinear_arith); } else {
        let a = s.drop_last();
        assert(all_in(a, pow2(w) as int)) by { assert forall|i: int| 0 <= i < a.len() implies 0 <= #[trigger] a[i] < pow2(w) by { assert(0 <= s[i] < pow2(w)); } }
        ls_bound(a, w);
        let n = (s.len() - 1) as nat;
        let p = pow2(w * n) as int; let q = pow2(w) as int;
        let x = s.last();
        assert(0 <= s[s.len() - 1] < pow2(w));
        assert(w * s.len() == w * n + w) by (nonlinear_arith) requires s.len() == n + 1;
        p2_add(w * n, w);
        lemma_pow2_pos(w * n);
        assert(0 <= x * p && x * p + p <= p * q) by (nonlinear_arith) requires 0 <= x < q, p > 0;
    }
}
/// The i-th digit of v in base 2^w
pub open spec fn dig(v: int, i: nat, w: nat) -> int { (v / (pow2(w * i) as int)) % (pow2(w) as int) }
pub open spec fn digs(v: int, n: nat, w: nat) -> Seq<int> { Seq::new(n, |i: int| dig(v, i as nat, w)) }
pub proof fn ls_digs(v: int, n: nat, w: nat)
    requires v >= 0,
    ensures ls(digs(v, n, w), w) == v % (pow2(w * n) as int), all_in(digs(v, n, w), pow2(w) as int),
    decreases n,
{
    p2(0);
    lemma_pow2_pos(w);
    assert(all_in(digs(v, n, w), pow2(w) as int)) by {
        assert forall|i: int| 0 <= i < n implies 0 <= #[trigger] digs(v, n, w)[i] < pow2(w) by { lemma_mod_bound(v / (pow2(w * (i as nat)) as int), pow2(w) as int); }
    }
    if n == 0 { assert(w * 0 == 0) by (nonlinear_arith); assert(v % 1 == 0); } else {
        let k = (n - 1) as nat;
        ls_digs(v, k, w);
        assert(digs(v, n, w).drop_last() =~= digs(v, k, w));
        let p = pow2(w * k) as int; let q = pow2(w) as int;
        lemma_pow2_pos(w * k);
        assert(w * n == w * k + w) by (nonlinear_arith) requires n == k + 1;
        p2_add(w * k, w);
        lemma_breakdown(v, p, q);
        assert(p * ((v / p) % q) == ((v / p) % q) * p) by (nonlinear_arith);
    }
}
} // verus!
verus! {
/// the constraint 0 = x - y
pub proof fn c_flip(x: int, y: int)
    ensures cong(0, x - y) == cong(x, y), cong(0, y - x) == cong(x, y), cong(x - y, 0) == cong(x, y), cong(y, x) == cong(x, y),
{
    if cong(x, y) { c_sym(x, y); }
    if cong(0, x - y) { c_sym(0, x - y); }
    if cong(x - y, 0) { c_sym(x - y, 0); }
    if cong(0, y - x) { }
    if cong(y, x) { c_sym(y, x); }
}
} // verus!
verus! {
/// x is 0 or 1, as the circuit says it
pub open spec fn isb(x: int) -> bool { cong(x * (1 - x), 0) }
pub proof fn c_isb() ensures isb(0), isb(1) { c_refl(0); assert(1int * (1 - 1) == 0 && 0int * (1 - 0) == 0); }
} // verus!
verus! {
/// |x| has at most k bits exactly when it is below 2^k
pub proof fn bits_le(x: int, b: int, k: nat)
    requires is_bits(x, b),
    ensures (b <= k) == (-pow2(k) < x < pow2(k)),
{
    let a = if x < 0 { -x } else { x };
    lemma_pow2_pos(k);
    if b <= k { p2_mono(b as nat, k); } else { p2_mono(k, (b - 1) as nat); }
}
pub proof fn ls_cons(s: Seq<int>, w: nat)
    requires s.len() > 0,
    ensures ls(s, w) == s[0] + pow2(w) * ls(s.skip(1), w),
    decreases s.len(),
{
    p2(0);
    assert(w * 0 == 0) by (nonlinear_arith);
    let n = (s.len() - 1) as nat;
    if n == 0 {
        assert(s.skip(1).len() == 0);
        assert(s.drop_last().len() == 0);
        assert(s.last() == s[0]);
        assert(ls(s.drop_last(), w) == 0);
        assert(pow2(w * n) == 1);
        assert(ls(s, w) == s[0]);
        assert(ls(s.skip(1), w) == 0);
        assert(pow2(w) * 0 == 0) by (nonlinear_arith);
    } else {
        let a = s.drop_last();
        ls_cons(a, w);
        assert(s.skip(1).drop_last() =~= a.skip(1));
        let k = (n - 1) as nat;
        assert(w * n == w + w * k) by (nonlinear_arith) requires n == k + 1;
        p2_add(w, w * k);
        let x = s.last(); let p = pow2(w) as int; let q = pow2(w * k) as int; let y = ls(a.skip(1), w);
        assert(s.skip(1).last() == x);
        assert(p * (y + x * q) == p * y + x * (p * q)) by (nonlinear_arith);
    }
}
/// the digits of x / 2^w are those of x, moved
pub proof fn dig_shift(x: int, i: nat, w: nat)
    ensures dig(x, i + 1, w) == dig(x / pow2(w) as int, i, w), dig(x, 0, w) == x % (pow2(w) as int),
{
    p2(0);
    assert(w * 0 == 0) by (nonlinear_arith);
    assert(w * (i + 1) == w + w * i) by (nonlinear_arith);
    p2_add(w, w * i);
    lemma_pow2_pos(w); lemma_pow2_pos(w * i);
    div_div(x, pow2(w) as int, pow2(w * i) as int);
    assert(x / 1 == x);
}
pub proof fn div_div(x: int, a: int, b: int)
    requires a > 0, b > 0,
    ensures (x / a) / b == x / (a * b), a * b > 0,
{
    assert(a * b > 0) by (nonlinear_arith) requires a > 0, b > 0;
    let q = x / a; let r = x % a; let s = q / b; let t = q % b;
    lemma_fundamental_div_mod(x, a); lemma_mod_bound(x, a);
    lemma_fundamental_div_mod(q, b); lemma_mod_bound(q, b);
    let u = a * t + r;
    assert(x == (a * b) * s + u) by (nonlinear_arith) requires x == a * q + r, q == b * s + t, u == a * t + r;
    assert(0 <= u < a * b) by (nonlinear_arith) requires u == a * t + r, 0 <= r < a, 0 <= t < b, a > 0;
    lemma_fundamental_div_mod_converse(x, a * b, s, u);
}
} // verus!
