#rs
/// writes to a Vec do not fail
#[verifier::external_body]
pub fn write_be(f: &Scalar, w: &mut Vec<u8>) -> (r: Result<(), ()>) ensures r is Ok { unimplemented!() }
/// an element back from its integer, an integer back from its element
pub proof fn nat_f_inverse(s: Scalar, n: BigInt, t: Option<Scalar>)
    requires n.v() == s.v(), (t is Some) == (0 <= n.v() < P()), t is Some ==> t->0.v() == n.v(),
    ensures t is Some && t->0.v() == s.v(),
{ broadcast use ax_scalar; }
#fn f_to_nat
#ensures
  res.v() == f.v(),
#hook entry
  proof { ax_repr(*f); }
#fn nat_to_f
#ensures
  (res is Some) == (0 <= n.v() < P()),
  res is Some ==> res->0.v() == n.v(),
#hook entry
  proof { ax_P(); if 0 <= n.v() < P() { c_small(n.v()); } }
#fn usize_to_f
#ensures
  res.v() == n as int % P(),
#fn f_to_usize
#requires
  n.v() < 256,
#ensures
  res == n.v(),
#hook entry
  proof { ax_P(); ax_repr(*n); le_small(n.le()); }
#hook loop 0 inv
  s.bytes() == n.le(), s__0@ == n.le(), n0 == n.le().len() - 1, n.le().len() >= 1, n.le().len() <= 0x1000_0000, k__0 == 1, all0, forall|j: int| 1 <= j < n.le().len() ==> n.le()[j] == 0,
#rs
proof fn le_small(s: Seq<u8>)
    requires le_bytes(s) < 256, s.len() >= 1,
    ensures s[0] == le_bytes(s), forall|j: int| 1 <= j < s.len() ==> s[j] == 0,
{
    le_nonneg(s.skip(1));
    le_zero(s.skip(1));
    assert forall|j: int| 1 <= j < s.len() implies s[j] == 0 by { assert(s.skip(1)[j - 1] == s[j]); }
}
proof fn le_zero(s: Seq<u8>)
    requires le_bytes(s) == 0,
    ensures forall|j: int| 0 <= j < s.len() ==> s[j] == 0,
    decreases s.len(),
{
    if s.len() > 0 {
        le_nonneg(s.skip(1));
        le_zero(s.skip(1));
        assert forall|j: int| 0 <= j < s.len() implies s[j] == 0 by { if j > 0 { assert(s.skip(1)[j - 1] == s[j]); } }
    }
}
#fn limbs_to_nat
#requires
  limb_width < 0x1_0000_0000,
#ensures
  res.v() == ls(svals(limbs@), limb_width as nat),
#hook loop 0 before
  proof { assert(svals(limbs@).skip(limbs@.len() as int).len() == 0); }
#hook loop 0 inv
  limb_width < 0x1_0000_0000, s__0 == limbs, n__0 == limbs@.len(), n0 == n__0, f0.v() == ls(svals(limbs@).skip(n0 - i0), limb_width as nat),
#hook loop 0 end
  proof {
    let s = svals(limbs@).skip(n0 - i0 - 1);
    ls_cons(s, limb_width as nat);
    assert(s.skip(1) =~= svals(limbs@).skip(n0 - i0));
    assert(s[0] == limbs@[n0 - i0 - 1].v());
    let p = pow2(limb_width as nat) as int; let y = ls(svals(limbs@).skip(n0 - i0), limb_width as nat);
    assert(p * y == y * p) by (nonlinear_arith);
  }
#hook ret
  proof { assert(svals(limbs@).skip(0) =~= svals(limbs@)); }
#fn nat_to_limbs
#requires
  limb_width < 0x1_0000_0000, n_limbs * limb_width <= usize::MAX,
  // digits that are not field elements cannot be limbs
  -pow2((limb_width * n_limbs) as nat) < nat_.v() < pow2((limb_width * n_limbs) as nat) ==> all_in(digs(nat_.v(), n_limbs as nat, limb_width as nat), P()),
#ensures
  // refused exactly when too large
  (res is Ok) == (-pow2((limb_width * n_limbs) as nat) < nat_.v() < pow2((limb_width * n_limbs) as nat)),
  // its digits
  res is Ok ==> svals(res->Ok_0@) == digs(nat_.v(), n_limbs as nat, limb_width as nat) && res->Ok_0@.len() == n_limbs,
  // which spell it
  res is Ok && nat_.v() >= 0 ==> ls(svals(res->Ok_0@), limb_width as nat) == nat_.v(),
#hook entry
  let ghost v0 = nat_.v(); let ghost w = limb_width as nat;
  proof { assert forall|b: int| is_bits(v0, b) implies (b <= limb_width * n_limbs) == (-pow2((limb_width * n_limbs) as nat) < v0 < pow2((limb_width * n_limbs) as nat)) by { bits_le(v0, b, (limb_width * n_limbs) as nat); }
    assert(n_limbs * limb_width == limb_width * n_limbs) by (nonlinear_arith); }
#hook loop 0 before
  proof { p2(0); assert(v0 / 1 == v0); assert(w * 0 == 0) by (nonlinear_arith); }
#hook loop 0 inv
  w == limb_width, limb_width < 0x1_0000_0000, n0 == n_limbs, mask.v() == pow2(w) - 1, nat_.v() == v0 / (pow2(w * (i0 as nat)) as int),
  all_in(digs(v0, n0 as nat, w), P()), svals(c0@) == digs(v0, i0 as nat, w), lo__0 == 0,
#hook loop 0 begin
  let ghost o = c0@;
  proof {
    let d = digs(v0, n0 as nat, w)[i0 as int];
    assert(0 <= d < P());
    assert(d == dig(v0, i0 as nat, w));
    assert(w * (i0 + 1) as nat == w * (i0 as nat) + w) by (nonlinear_arith); p2_add(w * (i0 as nat), w);
    lemma_pow2_pos(w); lemma_pow2_pos(w * (i0 as nat));
    div_div(v0, pow2(w * (i0 as nat)) as int, pow2(w) as int);
  }
#hook loop 0 end
  proof { assert(svals(c0@) =~= svals(o).push(c0@.last().v())); assert(digs(v0, (i0 + 1) as nat, w) =~= digs(v0, i0 as nat, w).push(dig(v0, i0 as nat, w))); }
#hook loop 0 after
  proof { if v0 >= 0 { ls_digs(v0, n_limbs as nat, w); assert(limb_width * n_limbs >= 0) by (nonlinear_arith); lemma_small_mod(v0 as nat, pow2((limb_width * n_limbs) as nat)); } assert(svals(c0@).len() == n_limbs); }
