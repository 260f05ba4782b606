// Polynomials: evaluation, product, and n values determine n coefficients modulo a prime.
verus! {
pub open spec fn pw(x: int, i: nat) -> int decreases i { if i == 0 { 1 } else { pw(x, (i - 1) as nat) * x } }
/// s[0] + s[1] x + s[2] x^2 + ...
pub open spec fn pe(s: Seq<int>, x: int) -> int decreases s.len() { if s.len() == 0 { 0 } else { pe(s.drop_last(), x) + s.last() * pw(x, (s.len() - 1) as nat) } }
/// the k-th coefficient of the product
pub open spec fn cv(a: Seq<int>, b: Seq<int>, k: int) -> int decreases a.len() { if a.len() == 0 { 0 } else { cv(a.drop_last(), b, k) + a.last() * at0(b, k - (a.len() - 1)) } }
pub open spec fn conv(a: Seq<int>, b: Seq<int>, n: nat) -> Seq<int> { Seq::new(n, |k: int| cv(a, b, k)) }
pub proof fn pe_take(s: Seq<int>, i: int, x: int)
    requires 0 <= i < s.len(),
    ensures pe(s.take(i + 1), x) == pe(s.take(i), x) + s[i] * pw(x, i as nat),
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); }
pub proof fn cv_take(a: Seq<int>, b: Seq<int>, i: int, k: int)
    requires 0 <= i < a.len(),
    ensures cv(a.take(i + 1), b, k) == cv(a.take(i), b, k) + a[i] * at0(b, k - i),
{ assert(a.take(i + 1).drop_last() =~= a.take(i)); }
pub proof fn pe_zero(s: Seq<int>, x: int)
    requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == 0,
    ensures pe(s, x) == 0,
    decreases s.len(),
{
    if s.len() > 0 {
        let a = s.drop_last();
        assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] == 0 by { assert(s[i] == 0); }
        pe_zero(a, x);
        assert(s[s.len() - 1] == 0);
        assert(0 * pw(x, a.len()) == 0) by (nonlinear_arith);
    }
}
pub proof fn pe_upd(s: Seq<int>, j: int, y: int, x: int)
    requires 0 <= j < s.len(),
    ensures pe(s.update(j, y), x) == pe(s, x) + (y - s[j]) * pw(x, j as nat),
    decreases s.len(),
{
    let a = s.drop_last(); let t = s.update(j, y); let n = a.len();
    if j == n {
        assert(t.drop_last() =~= a);
        let p = pw(x, n); let z = s[j];
        assert(y * p == z * p + (y - z) * p) by (nonlinear_arith);
    } else {
        assert(t.drop_last() =~= a.update(j, y));
        assert(a[j] == s[j]);
        pe_upd(a, j, y, x);
        assert(t.last() == s.last());
    }
}
/// a + c b
pub open spec fn vlin(a: Seq<int>, c: int, b: Seq<int>) -> Seq<int> { Seq::new(a.len(), |i: int| a[i] + c * b[i]) }
pub proof fn pe_lin(a: Seq<int>, c: int, b: Seq<int>, x: int)
    requires a.len() == b.len(),
    ensures pe(vlin(a, c, b), x) == pe(a, x) + c * pe(b, x),
    decreases a.len(),
{
    if a.len() == 0 { assert(c * 0 == 0) by (nonlinear_arith); } else {
        let s = a.drop_last(); let t = b.drop_last();
        pe_lin(s, c, t, x);
        assert(vlin(a, c, b).drop_last() =~= vlin(s, c, t));
        let u = a.last(); let v = b.last(); let p = pw(x, s.len()); let q = pe(t, x);
        assert((u + c * v) * p + c * q == u * p + c * (q + v * p)) by (nonlinear_arith);
    }
}
pub proof fn pw_add(x: int, i: nat, j: nat)
    ensures pw(x, i + j) == pw(x, i) * pw(x, j),
    decreases j,
{
    if j == 0 { assert(pw(x, i) * 1 == pw(x, i)); } else {
        pw_add(x, i, (j - 1) as nat);
        let a = pw(x, i); let b = pw(x, (j - 1) as nat);
        assert((a * b) * x == a * (b * x)) by (nonlinear_arith);
    }
}
/// b moved up by m, in n coefficients
pub open spec fn moved(b: Seq<int>, m: int, n: nat) -> Seq<int> { Seq::new(n, |k: int| at0(b, k - m)) }
pub proof fn pe_moved(b: Seq<int>, m: nat, n: nat, x: int)
    requires m + b.len() <= n,
    ensures pe(moved(b, m as int, n), x) == pw(x, m) * pe(b, x),
    decreases b.len(),
{
    if b.len() == 0 { pe_zero(moved(b, m as int, n), x); assert(pw(x, m) * 0 == 0) by (nonlinear_arith); } else {
        let a = b.drop_last(); let y = b.last(); let l = a.len();
        pe_moved(a, m, n, x);
        let s = moved(a, m as int, n); let j = m + l;
        pe_upd(s, j as int, y, x);
        assert(moved(b, m as int, n) =~= s.update(j as int, y));
        pw_add(x, m, l);
        let p = pw(x, m); let q = pw(x, l); let r = pe(a, x);
        assert(p * r + (y - 0) * (p * q) == p * (r + y * q)) by (nonlinear_arith);
    }
}
/// the product's values are the products of the values
pub proof fn pe_conv(a: Seq<int>, b: Seq<int>, n: nat, x: int)
    requires a.len() + b.len() <= n + 1,
    ensures pe(conv(a, b, n), x) == pe(a, x) * pe(b, x),
    decreases a.len(),
{
    if a.len() == 0 { pe_zero(conv(a, b, n), x); assert(0 * pe(b, x) == 0) by (nonlinear_arith); } else {
        let s = a.drop_last(); let y = a.last(); let m = s.len();
        pe_conv(s, b, n, x);
        let t = moved(b, m as int, n);
        pe_lin(conv(s, b, n), y, t, x);
        assert(conv(a, b, n) =~= vlin(conv(s, b, n), y, t));
        pe_moved(b, m, n, x);
        let p = pe(s, x); let q = pe(b, x); let r = pw(x, m);
        assert(p * q + y * (r * q) == (p + y * r) * q) by (nonlinear_arith);
    }
}
pub proof fn pe_cong(s: Seq<int>, t: Seq<int>, x: int)
    requires s.len() == t.len(), forall|i: int| 0 <= i < s.len() ==> cong(#[trigger] s[i], t[i]),
    ensures cong(pe(s, x), pe(t, x)),
    decreases s.len(),
{
    if s.len() == 0 { c_refl(0); } else {
        let a = s.drop_last(); let b = t.drop_last();
        assert forall|i: int| 0 <= i < a.len() implies cong(#[trigger] a[i], b[i]) by { assert(cong(s[i], t[i])); }
        pe_cong(a, b, x);
        let p = pw(x, a.len());
        c_refl(p);
        assert(cong(s[s.len() - 1], t[s.len() - 1]));
        c_mul(s.last(), t.last(), p, p);
        c_add(pe(a, x), pe(b, x), s.last() * p, t.last() * p);
    }
}
pub proof fn at0_cong(s: Seq<int>, t: Seq<int>, i: int)
    requires s.len() == t.len(), forall|i: int| 0 <= i < s.len() ==> cong(#[trigger] s[i], t[i]),
    ensures cong(at0(s, i), at0(t, i)),
{ c_refl(0); if 0 <= i < s.len() { assert(cong(s[i], t[i])); } }
pub proof fn cv_cong(a: Seq<int>, b: Seq<int>, c: Seq<int>, d: Seq<int>, k: int)
    requires a.len() == b.len(), c.len() == d.len(),
        forall|i: int| 0 <= i < a.len() ==> cong(#[trigger] a[i], b[i]), forall|i: int| 0 <= i < c.len() ==> cong(#[trigger] c[i], d[i]),
    ensures cong(cv(a, c, k), cv(b, d, k)),
    decreases a.len(),
{
    if a.len() == 0 { c_refl(0); } else {
        let s = a.drop_last(); let t = b.drop_last();
        assert forall|i: int| 0 <= i < s.len() implies cong(#[trigger] s[i], t[i]) by { assert(cong(a[i], b[i])); }
        cv_cong(s, t, c, d, k);
        at0_cong(c, d, k - (a.len() - 1));
        assert(cong(a[a.len() - 1], b[a.len() - 1]));
        c_mul(a.last(), b.last(), at0(c, k - (a.len() - 1)), at0(d, k - (a.len() - 1)));
        c_add(cv(s, c, k), cv(t, d, k), a.last() * at0(c, k - (a.len() - 1)), b.last() * at0(d, k - (a.len() - 1)));
    }
}
pub proof fn pw_cong(x: int, i: nat) ensures pw(x, 0) == 1, pw(x, i + 1) == pw(x, i) * x {}
// ---- n roots
pub proof fn pe_cons(s: Seq<int>, x: int)
    requires s.len() > 0,
    ensures pe(s, x) == s[0] + x * pe(s.skip(1), x),
    decreases s.len(),
{
    if s.len() == 1 {
        assert(s.drop_last() =~= seq![]); assert(s.skip(1) =~= seq![]);
        assert(x * 0 == 0) by (nonlinear_arith); assert(s.last() * 1 == s[0]);
        assert(pe(s.drop_last(), x) == 0);
        assert(pw(x, 0) == 1);
    } else {
        let a = s.drop_last();
        pe_cons(a, x);
        assert(a.skip(1) =~= s.skip(1).drop_last());
        assert(s.skip(1).last() == s.last());
        let y = s.last(); let n = (s.len() - 2) as nat; let p = pw(x, n); let q = pe(a.skip(1), x);
        pw_cong(x, n);
        assert(x * q + y * (p * x) == x * (q + y * p)) by (nonlinear_arith);
    }
}
/// the quotient by x - r
pub open spec fn quo(c: Seq<int>, r: int) -> Seq<int> { Seq::new((c.len() - 1) as nat, |i: int| pe(c.skip(i + 1), r)) }
pub proof fn pe_quo(c: Seq<int>, r: int, x: int)
    requires c.len() > 0,
    ensures pe(c, x) - pe(c, r) == (x - r) * pe(quo(c, r), x),
    decreases c.len(),
{
    let t = c.skip(1); let q = quo(c, r);
    pe_cons(c, x); pe_cons(c, r);
    if t.len() == 0 {
        assert(q =~= seq![]);
        assert(x * 0 == 0 && r * 0 == 0 && (x - r) * 0 == 0) by (nonlinear_arith);
        assert(pe(t, x) == 0 && pe(t, r) == 0 && pe(q, x) == 0);
    } else {
        pe_quo(t, r, x);
        pe_cons(q, x);
        assert(q.skip(1) =~= quo(t, r)) by { assert forall|i: int| 0 <= i < quo(t, r).len() implies #[trigger] q.skip(1)[i] == quo(t, r)[i] by { assert(t.skip(i + 1) =~= c.skip(i + 2)); } }
        assert(c.skip(0int + 1) =~= t);
        assert(q[0] == pe(t, r));
        let a = pe(t, x); let b = pe(t, r); let d = pe(quo(t, r), x);
        assert(x * a - r * b == (x - r) * (b + x * d)) by (nonlinear_arith) requires a - b == (x - r) * d;
    }
}
/// a polynomial of n coefficients with n roots 1 .. n modulo P, n < P, is zero
pub proof fn roots(c: Seq<int>, n: nat)
    requires c.len() == n, n < P(), forall|x: int| 1 <= x <= n ==> cong(#[trigger] pe(c, x), 0),
    ensures forall|i: int| 0 <= i < n ==> cong(#[trigger] c[i], 0),
    decreases n,
{
    if n > 0 {
        let r = n as int; let q = quo(c, r); let k = (n - 1) as nat;
        assert forall|x: int| 1 <= x <= k implies cong(#[trigger] pe(q, x), 0) by {
            pe_quo(c, r, x);
            c_add(pe(c, x), 0, pe(c, r), 0);
            ax_prime(x - r, pe(q, x));
            if cong(x - r, 0) { c_k(x - r, 0); let z = (x - r) / P(); let p = P(); assert(z * p == x - r); assert(z == 0) by (nonlinear_arith) requires z * p == x - r, -p < x - r < p; }
        }
        roots(q, k);
        assert forall|i: int| 0 <= i < n implies cong(#[trigger] c[i], 0) by {
            let s = c.skip(i); let t = c.skip(i + 1);
            pe_cons(s, r);
            assert(s.skip(1) =~= t);
            assert(s[0] == c[i]);
            assert(cong(pe(s, r), 0)) by { if i == 0 { assert(s =~= c); } else { assert(cong(q[i - 1], 0)); } }
            assert(cong(pe(t, r), 0)) by { if i + 1 < n { assert(cong(q[i], 0)); } else { assert(t =~= seq![]); assert(pe(t, r) == 0); c_refl(0); } }
            c_refl(r); c_mul(r, r, pe(t, r), 0);
            assert(r * 0 == 0) by (nonlinear_arith);
            c_add(pe(s, r), 0, r * pe(t, r), 0);
        }
    }
}
/// agreeing at 1 .. n, they agree
pub proof fn interp(a: Seq<int>, b: Seq<int>, n: nat)
    requires a.len() == n, b.len() == n, n < P(), forall|x: int| 1 <= x <= n ==> cong(#[trigger] pe(a, x), pe(b, x)),
    ensures forall|i: int| 0 <= i < n ==> cong(#[trigger] a[i], b[i]),
{
    let c = vlin(a, -1, b);
    assert forall|x: int| 1 <= x <= n implies cong(#[trigger] pe(c, x), 0) by {
        pe_lin(a, -1, b, x);
        assert(cong(pe(a, x), pe(b, x)));
        c_flip(pe(a, x), pe(b, x));
        assert(-1 * pe(b, x) == -pe(b, x)) by (nonlinear_arith);
    }
    roots(c, n);
    assert forall|i: int| 0 <= i < n implies cong(#[trigger] a[i], b[i]) by { assert(cong(c[i], 0)); assert(c[i] == a[i] - b[i]); c_flip(a[i], b[i]); }
}
/// numbers in a base are values of polynomials
pub proof fn ls_pe(s: Seq<int>, w: nat)
    ensures ls(s, w) == pe(s, pow2(w) as int),
    decreases s.len(),
{
    if s.len() > 0 { ls_pe(s.drop_last(), w); pw_p2(w, (s.len() - 1) as nat); }
}
pub proof fn pw_p2(w: nat, i: nat)
    ensures pw(pow2(w) as int, i) == pow2(w * i),
    decreases i,
{
    p2(0);
    if i == 0 { assert(w * 0 == 0) by (nonlinear_arith); } else {
        let j = (i - 1) as nat;
        pw_p2(w, j);
        assert(w * i == w * j + w) by (nonlinear_arith) requires i == j + 1;
        p2_add(w * j, w);
    }
}
impl Polynomial {
    /// the coefficients' values
    pub open spec fn cf(self) -> Seq<int> { lcs(self.coefficients@) }
    pub open spec fn has(self) -> bool { self.values is Some }
    pub open spec fn wv(self) -> Seq<int> { svals(self.values->0@) }
    pub open spec fn shape(self) -> bool { self.has() ==> self.values->0@.len() == self.coefficients@.len() }
    pub open spec fn hon(self) -> bool { self.has() ==> forall|i: int| 0 <= i < self.coefficients@.len() ==> cong(#[trigger] self.cf()[i], self.wv()[i]) }
}
} // verus!
