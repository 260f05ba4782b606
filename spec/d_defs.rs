// Predicates on the repository's integers.
verus! {
pub open spec fn vals(s: Seq<Var>) -> Seq<int> { s.map_values(|x: Var| x.val()) }
pub open spec fn lcs(s: Seq<Lc>) -> Seq<int> { s.map_values(|x: Lc| x.val()) }
pub open spec fn svals(s: Seq<Scalar>) -> Seq<int> { s.map_values(|x: Scalar| x.v()) }
/// all at most m
pub open spec fn all_le(s: Seq<int>, m: int) -> bool { forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i] <= m }
pub open spec fn at0(s: Seq<int>, i: int) -> int { if 0 <= i < s.len() { s[i] } else { 0 } }

impl BigNat {
    pub open spec fn lw(self) -> nat { self.params.limb_width as nat }
    /// the limbs' values in this assignment, canonical
    pub open spec fn lv(self) -> Seq<int> { mods(lcs(self.limbs@)) }
    /// the integer it is in this assignment
    pub open spec fn iv(self) -> int { ls(self.lv(), self.lw()) }
    /// the limb values the prover knows
    pub open spec fn wv(self) -> Seq<int> { svals(self.limb_values->0@) }
    pub open spec fn has(self) -> bool { self.limb_values is Some }
    /// counts agree; witness limbs and witness integer come together
    pub open spec fn shape(self) -> bool {
        &&& self.limbs@.len() == self.params.n_limbs
        &&& self.params.limb_width >= 1
        &&& self.params.max_word.v() >= 0
        &&& (self.limb_values is Some ==> self.limb_values->0@.len() == self.limbs@.len())
        &&& (self.limb_values is Some) == (self.value is Some)
    }
    /// the witness integer is the one its limbs spell
    pub open spec fn agree(self) -> bool { self.value is Some && self.limb_values is Some ==> self.value->0.v() == ls(self.wv(), self.lw()) }
    /// the witness limbs are within the declared bound
    pub open spec fn vbnd(self) -> bool { self.limb_values is Some ==> all_le(self.wv(), self.params.max_word.v()) }
    pub open spec fn vmin(self) -> bool { self.value is Some && self.params.min_bits > 0 ==> self.value->0.v() >= pow2((self.params.min_bits - 1) as nat) }
    pub open spec fn wf(self) -> bool { self.shape() && self.agree() && self.vbnd() && self.vmin() }
    /// the witness limbs are the limbs' values in this assignment
    pub open spec fn hon(self) -> bool { self.limb_values is Some ==> forall|i: int| 0 <= i < self.limbs@.len() ==> cong(#[trigger] lcs(self.limbs@)[i], self.wv()[i]) }
    /// the limbs are within the declared bound in this assignment
    pub open spec fn bnd(self) -> bool { all_le(self.lv(), self.params.max_word.v()) }
    /// the number is as long as declared in this assignment
    pub open spec fn mb(self) -> bool { self.params.min_bits > 0 ==> self.iv() >= pow2((self.params.min_bits - 1) as nat) }
    /// the limbs are digits in this assignment
    pub open spec fn dgt(self) -> bool { all_in(self.lv(), pow2(self.lw()) as int) }
}
pub proof fn bn_hon(b: BigNat)
    requires b.shape(), b.hon(), b.has(),
    ensures b.lv() == b.wv(), b.agree() ==> b.iv() == b.value->0.v(), b.vbnd() ==> b.bnd(), b.agree() && b.vmin() ==> b.mb(),
{
    assert forall|i: int| 0 <= i < b.limbs@.len() implies #[trigger] b.lv()[i] == b.wv()[i] by {
        assert(cong(lcs(b.limbs@)[i], b.wv()[i]));
        c_mod_eq(lcs(b.limbs@)[i], b.wv()[i]);
        c_small(b.wv()[i]);
    }
    assert(b.lv() =~= b.wv());
}
pub proof fn lv_range(b: BigNat)
    ensures all_in(b.lv(), P()), b.lv().len() == b.limbs@.len(),
{
    ax_P();
    assert forall|i: int| 0 <= i < b.lv().len() implies 0 <= #[trigger] b.lv()[i] < P() by { c_mod(b.limbs@[i].val()); }
}
// ---- digits are unique
pub proof fn ls_dig(s: Seq<int>, w: nat, i: int)
    requires all_in(s, pow2(w) as int), 0 <= i < s.len(),
    ensures dig(ls(s, w), i as nat, w) == s[i],
    decreases s.len(),
{
    let n = (s.len() - 1) as nat;
    let a = s.drop_last();
    assert(all_in(a, pow2(w) as int)) by { assert forall|j: int| 0 <= j < a.len() implies 0 <= #[trigger] a[j] < pow2(w) by { assert(0 <= s[j] < pow2(w)); } }
    ls_bound(a, w);
    let x = s.last();
    assert(0 <= s[n as int] < pow2(w));
    lemma_pow2_pos(w * n); lemma_pow2_pos(w);
    let p = pow2(w * n) as int;
    let v = ls(a, w);
    if i == n {
        assert(v + x * p == p * x + v) by (nonlinear_arith);
        lemma_div_multiples_vanish_fancy(x, v, p);
        lemma_small_mod(x as nat, pow2(w));
    } else {
        ls_dig(a, w, i);
        // v + x * 2^(w n) has the same digit i
        let k = (n - i - 1) as nat;
        let q = pow2(w * (i as nat)) as int; let e = pow2(w) as int;
        let ii = i as nat; assert(w * (ii + 1 + k) == w * ii + w + w * k) by (nonlinear_arith); assert(n == ii + 1 + k);
        p2_add(w * (i as nat) + w, w * k); p2_add(w * (i as nat), w);
        let g = pow2(w * k) as int;
        lemma_pow2_pos(w * (i as nat)); lemma_pow2_pos(w * k);
        assert(v + x * p == q * (x * (e * g)) + v) by (nonlinear_arith) requires p == q * e * g;
        lemma_div_multiples_vanish_fancy2(v, x * (e * g), q);
        assert((v + x * p) / q == e * (x * g) + v / q) by (nonlinear_arith) requires (v + x * p) / q == x * (e * g) + v / q;
        lemma_mod_multiples_vanish(x * g, v / q, e);
    }
}
proof fn lemma_div_multiples_vanish_fancy2(v: int, x: int, q: int)
    requires q > 0,
    ensures (q * x + v) / q == x + v / q,
{
    lemma_fundamental_div_mod(v, q);
    lemma_mod_bound(v, q);
    assert(q * x + v == q * (x + v / q) + v % q) by (nonlinear_arith) requires v == q * (v / q) + v % q;
    lemma_div_multiples_vanish_fancy(x + v / q, v % q, q);
}
pub proof fn ls_inj(s: Seq<int>, t: Seq<int>, w: nat)
    requires s.len() == t.len(), all_in(s, pow2(w) as int), all_in(t, pow2(w) as int), ls(s, w) == ls(t, w),
    ensures s == t,
{
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] == t[i] by { ls_dig(s, w, i); ls_dig(t, w, i); }
    assert(s =~= t);
}
/// zeroes at the end change nothing
pub open spec fn pad(s: Seq<int>, n: nat) -> Seq<int> { Seq::new(n, |i: int| at0(s, i)) }
pub proof fn ls_pad(s: Seq<int>, n: nat, w: nat)
    requires n >= s.len(),
    ensures ls(pad(s, n), w) == ls(s, w),
    decreases n,
{
    if n == s.len() { assert(pad(s, n) =~= s); } else {
        let k = (n - 1) as nat;
        ls_pad(s, k, w);
        assert(pad(s, n).drop_last() =~= pad(s, k));
        assert(pad(s, n).last() == 0);
        assert(0 * pow2(w * k) == 0);
    }
}
} // verus!
verus! {
// ---- sequences of blocks
pub open spec fn flat<T>(s: Seq<Seq<T>>) -> Seq<T> decreases s.len() { if s.len() == 0 { seq![] } else { flat(s.drop_last()) + s.last() } }
pub proof fn flat_push<T>(s: Seq<Seq<T>>, x: Seq<T>)
    ensures flat(s.push(x)) == flat(s) + x,
{ assert(s.push(x).drop_last() =~= s); }
pub proof fn flat_len<T>(s: Seq<Seq<T>>, k: nat)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).len() == k,
    ensures flat(s).len() == k * s.len(),
    decreases s.len(),
{
    if s.len() == 0 { assert(k * 0 == 0) by (nonlinear_arith); } else {
        let a = s.drop_last();
        assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).len() == k by { assert(s[i].len() == k); }
        flat_len(a, k);
        assert(s[s.len() - 1].len() == k);
        assert(k * s.len() == k * a.len() + k) by (nonlinear_arith) requires s.len() == a.len() + 1;
    }
}
pub proof fn flat_at<T>(s: Seq<Seq<T>>, k: nat, i: int, j: int)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).len() == k, 0 <= i < s.len(), 0 <= j < k,
    ensures flat(s)[k * i + j] == s[i][j], 0 <= k * i + j < flat(s).len(),
    decreases s.len(),
{
    let a = s.drop_last();
    assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).len() == k by { assert(s[i].len() == k); }
    flat_len(a, k);
    flat_len(s, k);
    assert(s[s.len() - 1].len() == k);
    assert(k * i >= 0) by (nonlinear_arith) requires i >= 0;
    if i < a.len() {
        flat_at(a, k, i, j);
        assert(s[i] == a[i]);
    } else {
        assert(k * s.len() == k * a.len() + k) by (nonlinear_arith) requires s.len() == a.len() + 1;
    }
}
pub proof fn ls_cat(s: Seq<int>, t: Seq<int>, w: nat)
    ensures ls(s + t, w) == ls(s, w) + pow2(w * s.len()) * ls(t, w),
    decreases t.len(),
{
    if t.len() == 0 { assert(s + t =~= s); assert(pow2(w * s.len()) * 0 == 0) by (nonlinear_arith); } else {
        let a = t.drop_last(); let x = t.last();
        assert((s + t).drop_last() =~= s + a);
        assert((s + t).last() == x);
        ls_cat(s, a, w);
        let n = s.len(); let k = a.len();
        assert(w * (n + k) == w * n + w * k) by (nonlinear_arith);
        p2_add(w * n, w * k);
        let p = pow2(w * n) as int; let q = pow2(w * k) as int; let y = ls(a, w);
        assert(p * (y + x * q) == p * y + x * (p * q)) by (nonlinear_arith);
    }
}
/// a block of k digits is a digit in base 2^(w k)
pub proof fn ls_flat(s: Seq<Seq<int>>, v: Seq<int>, w: nat, k: nat)
    requires s.len() == v.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).len() == k && ls(s[i], w) == v[i],
    ensures ls(flat(s), w) == ls(v, w * k),
    decreases s.len(),
{
    if s.len() > 0 {
        let a = s.drop_last(); let b = v.drop_last();
        assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).len() == k && ls(a[i], w) == b[i] by { assert(s[i].len() == k); }
        ls_flat(a, b, w, k);
        flat_len(a, k);
        assert(s[s.len() - 1].len() == k);
        ls_cat(flat(a), s.last(), w);
        assert(w * (k * a.len()) == (w * k) * a.len()) by (nonlinear_arith);
        let p = pow2(w * k * a.len()) as int; let y = v.last();
        assert(p * y == y * p) by (nonlinear_arith);
    }
}
pub proof fn flat_map_lc(s: Seq<Seq<Lc>>)
    ensures lcs(flat(s)) == flat(s.map_values(|x: Seq<Lc>| lcs(x))),
    decreases s.len(),
{
    let t = s.map_values(|x: Seq<Lc>| lcs(x));
    if s.len() == 0 { assert(lcs(flat(s)) =~= flat(t)); } else {
        flat_map_lc(s.drop_last());
        assert(s.drop_last().map_values(|x: Seq<Lc>| lcs(x)) =~= t.drop_last());
        assert(lcs(flat(s)) =~= flat(t));
    }
}
/// the bits of a digit
pub proof fn bit_dig(v: int, i: nat, j: nat, w: nat)
    requires j < w,
    ensures bit_at(v, (w * i + j) as int) == bit_at(dig(v, i, w), j as int),
{
    let p = pow2(w * i) as int; let q = v / p; let e = pow2(w) as int; let c = pow2(j) as int; let r = q % e;
    p2_add(w * i, j); lemma_pow2_pos(w * i); lemma_pow2_pos(j); lemma_pow2_pos(w);
    div_div(v, p, c);
    let h = (w - j - 1) as nat;
    p2(h); p2_add(j, h + 1);
    lemma_fundamental_div_mod(q, e);
    let a = q / e; let d = pow2(h) as int;
    assert(e == c * (2 * d));
    assert(q == c * (2 * (d * a)) + r) by (nonlinear_arith) requires q == e * a + r, e == c * (2 * d);
    lemma_div_multiples_vanish_fancy2(r, 2 * (d * a), c);
    assert(q / c == 2 * (d * a) + r / c);
}
/// some digit is not zero, and none is negative
pub proof fn ls_ge(s: Seq<int>, w: nat, j: int)
    requires 0 <= j < s.len(), forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i],
    ensures ls(s, w) >= s[j] * pow2(w * (j as nat)), s[j] >= 1 ==> ls(s, w) >= pow2(w * (j as nat)), ls(s, w) >= 0,
    decreases s.len(),
{
    let a = s.drop_last(); let n = a.len();
    assert forall|i: int| 0 <= i < a.len() implies 0 <= #[trigger] a[i] by { assert(0 <= s[i]); }
    lemma_pow2_pos(w * n); lemma_pow2_pos(w * (j as nat));
    assert(s.last() == s[n as int]);
    let x = s.last(); let p = pow2(w * n) as int;
    assert(x * p >= 0) by (nonlinear_arith) requires x >= 0, p > 0;
    if j < n { ls_ge(a, w, j); assert(a[j] == s[j]); let y = s[j]; let z = pow2(w * (j as nat)) as int; assert(ls(a, w) >= y * z); } else if n > 0 { ls_ge(a, w, 0); lemma_pow2_pos(w * 0); let y = a[0]; let z = pow2(w * 0) as int; assert(y * z >= 0) by (nonlinear_arith) requires y >= 0, z > 0; } else { assert(a =~= seq![]); }
    let y = s[j]; let z = pow2(w * (j as nat)) as int;
    if y >= 1 { assert(y * z >= z) by (nonlinear_arith) requires y >= 1, z > 0; }
    assert(y * z >= 0) by (nonlinear_arith) requires y >= 0, z > 0;
}
/// the digits above the k-th are zero
pub proof fn ls_top0(s: Seq<int>, w: nat, k: int)
    requires 0 <= k <= s.len(), forall|i: int| k <= i < s.len() ==> #[trigger] s[i] == 0,
    ensures ls(s, w) == ls(s.take(k), w),
    decreases s.len(),
{
    if k == s.len() { assert(s.take(k) =~= s); } else {
        let a = s.drop_last();
        assert forall|i: int| k <= i < a.len() implies #[trigger] a[i] == 0 by { assert(s[i] == 0); }
        ls_top0(a, w, k);
        assert(a.take(k) =~= s.take(k));
        assert(s[s.len() - 1] == 0);
        assert(0 * pow2(w * a.len()) == 0) by (nonlinear_arith);
    }
}
pub open spec fn ssum(s: Seq<int>) -> int decreases s.len() { if s.len() == 0 { 0 } else { ssum(s.drop_last()) + s.last() } }
pub proof fn ssum_take(s: Seq<int>, i: int)
    requires 0 <= i < s.len(),
    ensures ssum(s.take(i + 1)) == ssum(s.take(i)) + s[i],
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); }
pub proof fn ssum_bits(s: Seq<int>)
    requires all_in(s, 2),
    ensures 0 <= ssum(s) <= s.len(), ssum(s) == 0 ==> forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == 0,
        (exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == 1) ==> ssum(s) > 0,
    decreases s.len(),
{
    if s.len() > 0 {
        let a = s.drop_last();
        assert forall|i: int| 0 <= i < a.len() implies 0 <= #[trigger] a[i] < 2 by { assert(0 <= s[i] < 2); }
        ssum_bits(a);
        assert(0 <= s[s.len() - 1] < 2);
        assert forall|i: int| 0 <= i < s.len() && ssum(s) == 0 implies #[trigger] s[i] == 0 by { if i < a.len() { assert(a[i] == 0); } }
        if exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == 1 {
            let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == 1;
            if i < a.len() { assert(a[i] == 1); }
        }
    }
}
} // verus!
