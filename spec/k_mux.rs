verus! {
/// one row of a multiplexer
pub proof fn mux_row(s: int, a: int, b: int, o: int)
    ensures cong(s * (b - a), o - a) && cong(s, 0) ==> cong(o, a),
        cong(s * (b - a), o - a) && cong(s, 1) ==> cong(o, b),
        cong(s, 0) && cong(o, a) ==> cong(s * (b - a), o - a),
        cong(s, 1) && cong(o, b) ==> cong(s * (b - a), o - a),
{
    c_refl(b - a); c_refl(a);
    if cong(s, 0) {
        c_mul(s, 0, b - a, b - a); assert(0 * (b - a) == 0);
        if cong(s * (b - a), o - a) { c_sym(s * (b - a), o - a); c_trans(o - a, s * (b - a), 0); c_flip(o, a); }
        if cong(o, a) { c_flip(o, a); c_trans(s * (b - a), 0, o - a); }
    }
    if cong(s, 1) {
        c_mul(s, 1, b - a, b - a); assert(1 * (b - a) == b - a);
        if cong(s * (b - a), o - a) { c_sym(s * (b - a), o - a); c_trans(o - a, s * (b - a), b - a); c_add(o - a, b - a, a, a); assert((o - a) + a == o && (b - a) + a == b); }
        if cong(o, b) { c_add(o, b, a, a); c_sym(o - a, b - a); c_trans(s * (b - a), b - a, o - a); }
    }
}
/// the whole multiplexer
pub open spec fn mux_rows(s: int, a: Seq<int>, b: Seq<int>, o: Seq<int>) -> bool { forall|k: int| 0 <= k < o.len() ==> cong(s * (#[trigger] b[k] - a[k]), o[k] - a[k]) }
pub proof fn mux_rows_push(s: int, a: Seq<int>, b: Seq<int>, o: Seq<int>, i: int)
    requires 0 <= i < o.len(), a.len() == o.len(), b.len() == o.len(),
    ensures mux_rows(s, a, b, o.take(i + 1)) == (mux_rows(s, a, b, o.take(i)) && cong(s * (b[i] - a[i]), o[i] - a[i])),
{
    let x = o.take(i); let y = o.take(i + 1);
    if mux_rows(s, a, b, y) { assert forall|k: int| 0 <= k < x.len() implies cong(s * (#[trigger] b[k] - a[k]), x[k] - a[k]) by { assert(cong(s * (b[k] - a[k]), y[k] - a[k])); } assert(cong(s * (b[i] - a[i]), y[i] - a[i])); }
    if mux_rows(s, a, b, x) && cong(s * (b[i] - a[i]), o[i] - a[i]) { assert forall|k: int| 0 <= k < y.len() implies cong(s * (#[trigger] b[k] - a[k]), y[k] - a[k]) by { if k < i { assert(cong(s * (b[k] - a[k]), x[k] - a[k])); } } }
}
pub open spec fn ceq(a: Seq<int>, b: Seq<int>) -> bool { a.len() == b.len() && forall|k: int| 0 <= k < a.len() ==> cong(#[trigger] a[k], b[k]) }
pub proof fn mux_all(s: int, a: Seq<int>, b: Seq<int>, o: Seq<int>)
    requires a.len() == o.len(), b.len() == o.len(),
    ensures mux_rows(s, a, b, o) && cong(s, 0) ==> ceq(o, a), mux_rows(s, a, b, o) && cong(s, 1) ==> ceq(o, b),
        cong(s, 0) && ceq(o, a) ==> mux_rows(s, a, b, o), cong(s, 1) && ceq(o, b) ==> mux_rows(s, a, b, o),
{
    assert forall|k: int| 0 <= k < o.len() && mux_rows(s, a, b, o) && cong(s, 0) implies cong(#[trigger] o[k], a[k]) by { assert(cong(s * (b[k] - a[k]), o[k] - a[k])); mux_row(s, a[k], b[k], o[k]); }
    assert forall|k: int| 0 <= k < o.len() && mux_rows(s, a, b, o) && cong(s, 1) implies cong(#[trigger] o[k], b[k]) by { assert(cong(s * (b[k] - a[k]), o[k] - a[k])); mux_row(s, a[k], b[k], o[k]); }
    assert forall|k: int| 0 <= k < o.len() && (cong(s, 0) && ceq(o, a) || cong(s, 1) && ceq(o, b)) implies cong(s * (#[trigger] b[k] - a[k]), o[k] - a[k]) by { assert(cong(s, 0) && ceq(o, a) ==> cong(o[k], a[k])); assert(cong(s, 1) && ceq(o, b) ==> cong(o[k], b[k])); mux_row(s, a[k], b[k], o[k]); }
}
/// wire by wire the same in this assignment, missing wires being zero
pub open spec fn weq(a: Seq<int>, b: Seq<int>) -> bool { forall|k: int| k >= 0 ==> cong(#[trigger] at0(a, k), at0(b, k)) }
/// the same, for the values the prover knows
pub open spec fn veq(a: Seq<int>, b: Seq<int>) -> bool { forall|k: int| k >= 0 ==> #[trigger] at0(a, k) == at0(b, k) }
pub proof fn weq_pad(a: Seq<int>, n: nat)
    requires n >= a.len(),
    ensures weq(pad(a, n), a), veq(pad(a, n), a), pad(a, n).len() == n,
{ assert forall|k: int| k >= 0 implies cong(#[trigger] at0(pad(a, n), k), at0(a, k)) by { c_refl(at0(a, k)); } }
pub proof fn weq_ceq(a: Seq<int>, b: Seq<int>)
    ensures ceq(a, b) ==> weq(a, b), a.len() == b.len() && weq(a, b) ==> ceq(a, b),
{
    c_refl(0);
    if ceq(a, b) { assert forall|k: int| k >= 0 implies cong(#[trigger] at0(a, k), at0(b, k)) by { if k < a.len() { assert(cong(a[k], b[k])); } } }
    if a.len() == b.len() && weq(a, b) { assert forall|k: int| 0 <= k < a.len() implies cong(#[trigger] a[k], b[k]) by { assert(cong(at0(a, k), at0(b, k))); } }
}
pub proof fn weq_trans(a: Seq<int>, b: Seq<int>, c: Seq<int>)
    requires weq(a, b), weq(b, c),
    ensures weq(a, c),
{ assert forall|k: int| k >= 0 implies cong(#[trigger] at0(a, k), at0(c, k)) by { c_trans(at0(a, k), at0(b, k), at0(c, k)); } }
pub proof fn weq_refl(a: Seq<int>) ensures weq(a, a), veq(a, a) { assert forall|k: int| k >= 0 implies cong(#[trigger] at0(a, k), at0(a, k)) by { c_refl(at0(a, k)); } }
pub open spec fn mux_is(s: BigNat, r: BigNat) -> bool {
    &&& r.iv() == s.iv() && r.lv() == pad(s.lv(), r.limbs@.len())
    &&& (s.bnd() ==> r.bnd()) && (s.dgt() ==> r.dgt()) && (s.mb() ==> r.mb())
}
pub open spec fn mux_wit(s: BigNat, r: BigNat) -> bool {
    &&& r.wv() == pad(s.wv(), r.limbs@.len()) && ls(r.wv(), r.lw()) == ls(s.wv(), s.lw())
    &&& (s.agree() ==> r.value->0.v() == s.value->0.v()) && (s.wf() ==> r.wf())
}
pub proof fn mux_sel(s: BigNat, r: BigNat)
    requires s.shape(), r.shape(), r.limbs@.len() >= s.limbs@.len(), r.params.limb_width == s.params.limb_width, r.params.max_word.v() >= s.params.max_word.v(), r.params.min_bits <= s.params.min_bits,
        ceq(lcs(r.limbs@), pad(lcs(s.limbs@), r.limbs@.len())),
    ensures mux_is(s, r),
{
    let n = r.limbs@.len(); let wr = lcs(r.limbs@); let ws = pad(lcs(s.limbs@), n);
    ax_P(); c_small(0); lemma_pow2_pos(s.lw());
    assert(r.lv() =~= pad(s.lv(), n)) by {
        assert forall|k: int| 0 <= k < n implies #[trigger] r.lv()[k] == pad(s.lv(), n)[k] by { assert(cong(wr[k], ws[k])); c_mod_eq(wr[k], ws[k]); if k < s.limbs@.len() { assert(lcs(s.limbs@)[k] == s.limbs@[k].val()); } }
    }
    ls_pad(s.lv(), n, s.lw());
    if s.bnd() { assert forall|k: int| 0 <= k < n implies 0 <= #[trigger] r.lv()[k] <= r.params.max_word.v() by { if k < s.limbs@.len() { assert(s.lv()[k] <= s.params.max_word.v()); } } }
    if r.params.min_bits > 0 { p2_mono((r.params.min_bits - 1) as nat, (s.params.min_bits - 1) as nat); }
}
pub proof fn mux_wsel(s: BigNat, r: BigNat)
    requires s.shape(), r.shape(), s.has(), r.has(), r.limbs@.len() >= s.limbs@.len(), r.params.limb_width == s.params.limb_width, r.params.max_word.v() >= s.params.max_word.v(), r.params.min_bits <= s.params.min_bits,
        r.wv() == pad(s.wv(), r.limbs@.len()), r.agree(),
    ensures mux_wit(s, r),
{
    ls_pad(s.wv(), r.limbs@.len(), s.lw());
    if s.wf() {
        assert forall|k: int| 0 <= k < r.wv().len() implies 0 <= #[trigger] r.wv()[k] <= r.params.max_word.v() by { if k < s.limbs@.len() { assert(s.wv()[k] <= s.params.max_word.v()); } }
        if r.params.min_bits > 0 { p2_mono((r.params.min_bits - 1) as nat, (s.params.min_bits - 1) as nat); }
    }
}
} // verus!
