#rs
pub open spec fn bsq(b: Seq<Bitvector>) -> Seq<Seq<Lc>> { b.map_values(|x: Bitvector| x.bits@) }
pub open spec fn vsq(b: Seq<Bitvector>) -> Seq<Seq<bool>> { b.map_values(|x: Bitvector| x.values->0@) }
pub open spec fn asq(b: Seq<Bitvector>) -> Seq<Seq<Bit>> { b.map_values(|x: Bitvector| x.allocations@) }
pub open spec fn ivs(b: Seq<Bitvector>) -> Seq<int> { b.map_values(|x: Bitvector| x.iv()) }
/// the pieces of a decomposition have the shape of limbs of width w
pub open spec fn pieces(b: Seq<Bitvector>, w: nat, has: bool) -> bool {
    forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i]).inv() && b[i].bits@.len() == w && b[i].allocations@.len() == w && (b[i].values is Some) == has
}
/// the witness bits of each are those of a limb
pub open spec fn pieces_v(b: Seq<Bitvector>, v: Seq<int>) -> bool { forall|i: int| 0 <= i < b.len() ==> bit_vals((#[trigger] b[i]).values->0@, v[i]) }
pub open spec fn pieces_s(b: Seq<Bitvector>, l: Seq<int>, w: nat) -> bool { forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i]).bin01() && cong(l[i], b[i].iv()) && 0 <= b[i].iv() < pow2(w) }
pub open spec fn pieces_h(b: Seq<Bitvector>, v: Seq<int>) -> bool { forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i]).hon() && wire_bits(lcs(b[i].bits@), v[i]) }
proof fn pieces_flat(b: Seq<Bitvector>, w: nat, has: bool)
    requires pieces(b, w, has),
    ensures flat(bsq(b)).len() == w * b.len(), flat(asq(b)).len() == w * b.len(), has ==> flat(vsq(b)).len() == w * b.len(),
        forall|i: int| 0 <= i < b.len() ==> (#[trigger] bsq(b)[i]).len() == w,
        has ==> forall|i: int| 0 <= i < b.len() ==> (#[trigger] vsq(b)[i]).len() == w,
{
    assert forall|i: int| 0 <= i < b.len() implies (#[trigger] bsq(b)[i]).len() == w by { assert(b[i].bits@.len() == w); }
    assert forall|i: int| 0 <= i < b.len() implies (#[trigger] asq(b)[i]).len() == w by { assert(b[i].bits@.len() == w); }
    flat_len(bsq(b), w); flat_len(asq(b), w);
    if has { assert forall|i: int| 0 <= i < b.len() implies (#[trigger] vsq(b)[i]).len() == w by { assert(b[i].bits@.len() == w); } flat_len(vsq(b), w); }
}
/// an index of the whole is one of a piece
proof fn split(k: int, w: nat, n: nat)
    requires 0 <= k < w * n, w > 0,
    ensures 0 <= k / w as int, k / (w as int) < n, 0 <= k % (w as int) < w, k == w * (k / (w as int)) + k % (w as int),
{
    lemma_fundamental_div_mod(k, w as int);
    lemma_mod_bound(k, w as int);
    let q = k / (w as int);
    assert(q >= 0) by (nonlinear_arith) requires k == w * q + k % (w as int), k >= 0, k % (w as int) < w;
    assert(q < n) by (nonlinear_arith) requires k == w * q + k % (w as int), k < w * n, k % (w as int) >= 0;
}
proof fn pieces_sound(b: Seq<Bitvector>, l: Seq<int>, w: nat, has: bool)
    requires pieces(b, w, has), pieces_s(b, l, w), b.len() == l.len(), w > 0,
    ensures all_in(lcs(flat(bsq(b))), 2), ls(lcs(flat(bsq(b))), 1) == ls(ivs(b), w), all_in(ivs(b), pow2(w) as int),
        cong(ls(l, w), ls(ivs(b), w)), pow2(w) <= P() ==> mods(l) == ivs(b),
{
    pieces_flat(b, w, has);
    let f = flat(bsq(b));
    assert forall|k: int| 0 <= k < f.len() implies 0 <= #[trigger] lcs(f)[k] < 2 by {
        split(k, w, b.len());
        let i = k / (w as int); let j = k % (w as int);
        assert(bsq(b)[i].len() == w);
        flat_at(bsq(b), w, i, j);
        assert(b[i].bin01());
        assert(0 <= lcs(b[i].bits@)[j] < 2);
    }
    flat_map_lc(bsq(b));
    let g = bsq(b).map_values(|x: Seq<Lc>| lcs(x));
    assert forall|i: int| 0 <= i < g.len() implies (#[trigger] g[i]).len() == w && ls(g[i], 1) == ivs(b)[i] by { assert(b[i].bits@.len() == w); }
    ls_flat(g, ivs(b), 1, w);
    assert(1 * w == w);
    assert(all_in(ivs(b), pow2(w) as int)) by { assert forall|i: int| 0 <= i < b.len() implies 0 <= #[trigger] ivs(b)[i] < pow2(w) by { assert(b[i].bin01()); } }
    assert forall|i: int| 0 <= i < l.len() implies cong(#[trigger] l[i], ivs(b)[i]) by { assert(b[i].bin01()); }
    ls_cong(l, ivs(b), w);
    if pow2(w) <= P() {
        assert forall|i: int| 0 <= i < l.len() implies #[trigger] mods(l)[i] == ivs(b)[i] by { assert(cong(l[i], ivs(b)[i])); c_mod_eq(l[i], ivs(b)[i]); assert(0 <= ivs(b)[i] < pow2(w)); c_small(ivs(b)[i]); }
        assert(mods(l) =~= ivs(b));
    }
}
proof fn pieces_wit(b: Seq<Bitvector>, v: Seq<int>, w: nat, has: bool)
    requires pieces(b, w, has), b.len() == v.len(), w > 0, all_in(v, pow2(w) as int),
    ensures has && pieces_v(b, v) ==> bit_vals(flat(vsq(b)), ls(v, w)), pieces_h(b, v) ==> wire_bits(lcs(flat(bsq(b))), ls(v, w)),
{
    pieces_flat(b, w, has);
    let x = ls(v, w);
    if has && pieces_v(b, v) {
        let f = flat(vsq(b));
        assert forall|k: int| 0 <= k < f.len() implies #[trigger] f[k] == bit_at(x, k) by {
            split(k, w, b.len());
            let i = k / (w as int); let j = k % (w as int);
            flat_at(vsq(b), w, i, j);
            assert(bit_vals(b[i].values->0@, v[i]));
            assert(vsq(b)[i].len() == w);
            ls_dig(v, w, i);
            bit_dig(x, i as nat, j as nat, w);
        }
    }
    if pieces_h(b, v) {
        let f = lcs(flat(bsq(b)));
        assert forall|k: int| 0 <= k < f.len() implies #[trigger] f[k] == b2i(bit_at(x, k)) by {
            split(k, w, b.len());
            let i = k / (w as int); let j = k % (w as int);
            flat_at(bsq(b), w, i, j);
            assert(wire_bits(lcs(b[i].bits@), v[i]));
            assert(bsq(b)[i].len() == w);
            assert(lcs(b[i].bits@)[j] == b2i(bit_at(v[i], j)));
            ls_dig(v, w, i);
            bit_dig(x, i as nat, j as nat, w);
        }
    }
}
proof fn pieces_hon(b: Seq<Bitvector>, v: Seq<int>, w: nat)
    requires pieces(b, w, true), b.len() == v.len(), w > 0, pieces_h(b, v),
    ensures forall|k: int| 0 <= k < flat(bsq(b)).len() ==> cong(#[trigger] flat(bsq(b))[k].val(), b2i(flat(vsq(b))[k])),
{
    pieces_flat(b, w, true);
    let f = flat(bsq(b));
    assert forall|k: int| 0 <= k < f.len() implies cong(#[trigger] f[k].val(), b2i(flat(vsq(b))[k])) by {
        split(k, w, b.len());
        let i = k / (w as int); let j = k % (w as int);
        flat_at(bsq(b), w, i, j); flat_at(vsq(b), w, i, j);
        assert(b[i].hon());
        assert(b[i].bits@.len() == w);
        assert(cong(b[i].bits@[j].val(), b2i(b[i].values->0@[j])));
    }
}
#fn BigNat::decompose
#requires
  self.shape(), self.lw() <= CAP() + 1, old(cs).w() ==> self.has(),
#ensures
  kept(*old(cs), *final(cs)), res is Ok,
  final(cs).nv() == old(cs).nv() + self.limbs@.len() * self.lw(), final(cs).nc() == old(cs).nc() + self.limbs@.len() * (self.lw() + 1),
  !old(cs).w() ==> final(cs).honest() == old(cs).honest(),
  ({
    let r = res->Ok_0;
    // shape and witness values: the binary digits of the number
    &&& r.inv() && r.bits@.len() == self.lw() * self.limbs@.len() && r.allocations@.len() == r.bits@.len() && (self.limbs@.len() > 0 ==> (r.values is Some) == self.has())
    &&& (r.values is Some ==> self.has() && (all_in(self.wv(), pow2(self.lw()) as int) ==> bit_vals(r.values->0@, ls(self.wv(), self.lw()))))
    // every satisfying assignment: bits that spell the number, limb by limb
    &&& (final(cs).sat() ==> r.bin01() && cong(ls(lcs(self.limbs@), self.lw()), r.iv()) && 0 <= r.iv() < pow2(self.lw() * self.limbs@.len()))
    &&& (final(cs).sat() && self.lw() <= CAP() ==> self.iv() == r.iv() && self.dgt())
    // the prover's bits
    &&& (old(cs).w() && final(cs).honest() ==> r.hon())
    &&& (old(cs).w() && final(cs).honest() && all_in(self.wv(), pow2(self.lw()) as int) ==> wire_bits(lcs(r.bits@), ls(self.wv(), self.lw())))
    &&& (old(cs).w() && final(cs).honest() && old(cs).sat() && self.hon() && all_in(self.wv(), pow2(self.lw()) as int) ==> final(cs).sat())
  }),
#hook loop 0 before
  proof { ax_P(); assert(0 * self.lw() == 0 && 0 * (self.lw() + 1) == 0) by (nonlinear_arith); }
#hook loop 0 inv
  n0 == self.limbs@.len(), s__0 == self.limbs, lo__0 == 0, self.shape(), self.lw() <= CAP() + 1, old(cs).w() ==> self.has(), c0@.len() == i0,
  kept(*old(cs), *cs), cs.nv() == old(cs).nv() + i0 * self.lw(), cs.nc() == old(cs).nc() + i0 * (self.lw() + 1), !cs.w() ==> cs.honest() == old(cs).honest(),
  pieces(c0@, self.lw(), self.has()), self.has() ==> pieces_v(c0@, self.wv()),
  cs.sat() ==> pieces_s(c0@, lcs(self.limbs@), self.lw()),
  cs.w() && cs.honest() ==> pieces_h(c0@, self.wv()),
  cs.w() && cs.honest() && old(cs).sat() && self.hon() && all_in(self.wv(), pow2(self.lw()) as int) ==> cs.sat(),
#hook loop 0 begin
  let ghost cs0 = *cs; let ghost c00 = c0@;
  proof { if self.has() { assert(self.wv()[i0 as int] == self.limb_values->0@[i0 as int].v()); assert(self.hon() ==> cong(lcs(self.limbs@)[i0 as int], self.wv()[i0 as int])); } }
#hook loop 0 end
  proof {
    assert((i0 + 1) * self.lw() == i0 * self.lw() + self.lw()) by (nonlinear_arith);
    assert((i0 + 1) * (self.lw() + 1) == i0 * (self.lw() + 1) + self.lw() + 1) by (nonlinear_arith);
    assert forall|i: int| 0 <= i < c0@.len() implies c0@[i] == (if i < i0 { c00[i] } else { x__ }) by {}
  }
#hook loop 1 before
  let ghost b = bitvectors@; let ghost w = self.lw(); let ghost n = self.limbs@.len();
  proof { assert(bsq(b.take(0)) =~= seq![]); assert(asq(b.take(0)) =~= seq![]); assert(vsq(b.take(0)) =~= seq![]); }
#hook loop 1 inv
  n1 == b.len(), s__1@ == b, pieces(b, w, self.has()),
  bits@ == flat(bsq(b.take(i1 as int))), allocations@ == flat(asq(b.take(i1 as int))), values@ == (if self.has() { flat(vsq(b.take(i1 as int))) } else { seq![] }),
#hook loop 1 begin
  proof { let i = i1 as int; assert(b[i].inv());
    assert(bsq(b.take(i + 1)) =~= bsq(b.take(i)).push(b[i].bits@)); flat_push(bsq(b.take(i)), b[i].bits@);
    assert(asq(b.take(i + 1)) =~= asq(b.take(i)).push(b[i].allocations@)); flat_push(asq(b.take(i)), b[i].allocations@);
    assert(vsq(b.take(i + 1)) =~= vsq(b.take(i)).push(b[i].values->0@)); flat_push(vsq(b.take(i)), b[i].values->0@); }
  let ghost bits0 = bits@; let ghost al0 = allocations@; let ghost va0 = values@;
#hook loop 2 inv
  n2 == s__2@.len(), bits@ == bits0 + s__2@.take(i2 as int),
#hook loop 2 end
  proof { assert(s__2@.take(i2 + 1) =~= s__2@.take(i2 as int).push(s__2@[i2 as int])); assert(bits@ =~= bits0 + s__2@.take(i2 + 1)); }
#hook loop 2 before
  proof { assert(bits@ =~= bits0 + s__2@.take(0)); }
#hook loop 2 after
  proof { assert(s__2@.take(s__2@.len() as int) =~= s__2@); }
#hook loop 3 inv
  n3 == s__3@.len(), values@ == va0 + s__3@.take(i3 as int),
#hook loop 3 end
  proof { assert(s__3@.take(i3 + 1) =~= s__3@.take(i3 as int).push(s__3@[i3 as int])); assert(values@ =~= va0 + s__3@.take(i3 + 1)); }
#hook loop 3 before
  proof { assert(values@ =~= va0 + s__3@.take(0)); }
#hook loop 3 after
  proof { assert(s__3@.take(s__3@.len() as int) =~= s__3@); }
#hook loop 4 inv
  n4 == s__4@.len(), allocations@ == al0 + s__4@.take(i4 as int),
#hook loop 4 end
  proof { assert(s__4@.take(i4 + 1) =~= s__4@.take(i4 as int).push(s__4@[i4 as int])); assert(allocations@ =~= al0 + s__4@.take(i4 + 1)); }
#hook loop 4 before
  proof { assert(allocations@ =~= al0 + s__4@.take(0)); }
#hook loop 4 after
  proof { assert(s__4@.take(s__4@.len() as int) =~= s__4@); }
#hook loop 1 after
  proof {
    assert(b.take(n as int) =~= b);
    pieces_flat(b, w, self.has());
    if cs.sat() {
      pieces_sound(b, lcs(self.limbs@), w, self.has());
      ls_bound(ivs(b), w);
      if w <= CAP() { ax_P(); p2_mono(w, CAP()); }
    }
    if self.has() && all_in(self.wv(), pow2(w) as int) { pieces_wit(b, self.wv(), w, true); }
    if self.has() && old(cs).w() && cs.honest() { pieces_hon(b, self.wv(), w); }
    if n > 0 { assert(w * n > 0) by (nonlinear_arith) requires w >= 1, n > 0; } else { assert(w * n == 0) by (nonlinear_arith) requires n == 0; }
  }
#fn BigNatParams::new
#requires
  limb_width < 0x1_0000_0000,
#ensures
  res.max_word.v() == pow2(limb_width as nat) - 1, res.n_limbs == n_limbs, res.limb_width == limb_width, res.min_bits == 0,
#hook entry
  proof { assert(1 * pow2(limb_width as nat) == pow2(limb_width as nat)) by (nonlinear_arith); }
#rs
pub open spec fn ov(o: Option<BigInt>) -> int { o->0.v() }
pub open spec fn osv(o: Option<Vec<Scalar>>) -> Seq<int> { svals(o->0@) }
pub open spec fn ok_limbs(f: Option<Result<Vec<Scalar>, SynthesisError>>, n: int) -> bool { f is Some && f->0 is Ok && f->0->Ok_0@.len() == n }
#fn BigNat::alloc_from_limbs
#requires
  limb_width < 0x1_0000_0000, old(cs).w() ==> f is Some,
#ensures
  kept(*old(cs), *final(cs)), final(cs).sat() == old(cs).sat(), final(cs).nc() == old(cs).nc(),
  // one new variable for each limb
  res is Ok ==> final(cs).nv() == old(cs).nv() + n_limbs && res->Ok_0.limbs@.len() == n_limbs && forall|i: int| 0 <= i < n_limbs ==> 0 <= #[trigger] lcs(res->Ok_0.limbs@)[i] < P(),
  res is Ok ==> res->Ok_0.params.n_limbs == n_limbs && res->Ok_0.params.limb_width == limb_width && res->Ok_0.params.min_bits == 0
     && res->Ok_0.params.max_word.v() == (if max_word is Some { max_word->0.v() } else { pow2(limb_width as nat) - 1 }),
  !old(cs).w() ==> res is Ok && !res->Ok_0.has() && res->Ok_0.value is None && final(cs).honest() == old(cs).honest(),
  // refused unless there are as many values as limbs
  old(cs).w() && n_limbs > 0 ==> (res is Ok) == ok_limbs(f, n_limbs as int),
  old(cs).w() && n_limbs > 0 && ok_limbs(f, n_limbs as int) ==> res->Ok_0.has() && res->Ok_0.wv() == svals(f->0->Ok_0@),
  old(cs).w() && n_limbs > 0 && ok_limbs(f, n_limbs as int) && final(cs).honest() ==> res->Ok_0.hon() && lcs(res->Ok_0.limbs@) == res->Ok_0.wv(),
  n_limbs == 0 ==> res is Ok && !res->Ok_0.has(),
  res is Ok ==> res->Ok_0.agree() && (limb_width >= 1 && (max_word is Some ==> max_word->0.v() >= 0) ==> res->Ok_0.shape()),
#hook loop 0 before
  let ghost mw = max_word;
  proof { lemma_pow2_pos(limb_width as nat); }
#hook loop 0 inv
  limb_width < 0x1_0000_0000, n0 == n_limbs, lo__0 == 0, values_cell == f, old(cs).w() ==> f is Some, c0@.len() == i0,
  kept(*old(cs), *cs), cs.sat() == old(cs).sat(), cs.nc() == old(cs).nc(), cs.nv() == old(cs).nv() + i0,
  !cs.w() ==> cs.honest() == old(cs).honest() && value is None && limb_values is None,
  cs.w() && i0 > 0 ==> ok_limbs(f, n_limbs as int) && value is Some && limb_values is Some && osv(limb_values) == svals(f->0->Ok_0@) && limb_values->0@.len() == n_limbs && ov(value) == ls(svals(f->0->Ok_0@), limb_width as nat),
  i0 == 0 ==> value is None && limb_values is None,
  forall|j: int| 0 <= j < i0 ==> 0 <= #[trigger] lcs(c0@)[j] < P(),
  cs.w() && cs.honest() ==> forall|j: int| 0 <= j < i0 ==> #[trigger] lcs(c0@)[j] == svals(f->0->Ok_0@)[j],
#hook loop 0 begin
  let ghost c00 = c0@;
#hook loop 0 end
  proof { assert forall|j: int| 0 <= j < c0@.len() implies #[trigger] lcs(c0@)[j] == (if j < i0 { lcs(c00)[j] } else { x__.val() }) by {} }
#hook loop 0 after
  proof { if cs.w() && n_limbs > 0 && cs.honest() { let s = svals(f->0->Ok_0@); assert(lcs(limbs0__(c0)) =~= s); assert forall|j: int| 0 <= j < n_limbs implies cong(#[trigger] lcs(c0@)[j], s[j]) by { c_refl(s[j]); } } }
#rs
pub open spec fn limbs0__(c: Vec<Lc>) -> Seq<Lc> { c@ }
pub open spec fn ok_nat(f: Option<Result<BigInt, SynthesisError>>, w: nat, n: nat) -> bool { f is Some && f->0 is Ok && -pow2(w * n) < f->0->Ok_0.v() < pow2(w * n) }
#fn BigNat::alloc_from_nat
#requires
  1 <= limb_width < 0x1_0000_0000, n_limbs * limb_width <= usize::MAX, old(cs).w() ==> f is Some,
  old(cs).w() && ok_nat(f, limb_width as nat, n_limbs as nat) ==> all_in(digs(f->0->Ok_0.v(), n_limbs as nat, limb_width as nat), P()),
#ensures
  kept(*old(cs), *final(cs)), final(cs).sat() == old(cs).sat(), final(cs).nc() == old(cs).nc(),
  res is Ok ==> final(cs).nv() == old(cs).nv() + n_limbs && res->Ok_0.limbs@.len() == n_limbs && forall|i: int| 0 <= i < n_limbs ==> 0 <= #[trigger] lcs(res->Ok_0.limbs@)[i] < P(),
  res is Ok ==> res->Ok_0.params.n_limbs == n_limbs && res->Ok_0.params.limb_width == limb_width && res->Ok_0.params.min_bits == 0
     && res->Ok_0.params.max_word.v() == pow2(limb_width as nat) - 1,
  !old(cs).w() ==> res is Ok && !res->Ok_0.has() && res->Ok_0.value is None && final(cs).honest() == old(cs).honest(),
  // refused when it does not fit the limbs
  old(cs).w() && n_limbs > 0 ==> (res is Ok) == ok_nat(f, limb_width as nat, n_limbs as nat),
  old(cs).w() && n_limbs > 0 && res is Ok ==> res->Ok_0.has() && res->Ok_0.value->0.v() == f->0->Ok_0.v() && res->Ok_0.wv() == digs(f->0->Ok_0.v(), n_limbs as nat, limb_width as nat),
  old(cs).w() && n_limbs > 0 && res is Ok && f->0->Ok_0.v() >= 0 ==> res->Ok_0.agree() && ls(res->Ok_0.wv(), limb_width as nat) == f->0->Ok_0.v(),
  old(cs).w() && res is Ok && final(cs).honest() ==> res->Ok_0.hon() && (n_limbs > 0 ==> lcs(res->Ok_0.limbs@) == res->Ok_0.wv()),
  n_limbs == 0 ==> res is Ok && !res->Ok_0.has(),
  res is Ok ==> res->Ok_0.shape() && res->Ok_0.vbnd() && res->Ok_0.vmin(),
#hook entry
  proof { assert(n_limbs * limb_width == limb_width * n_limbs) by (nonlinear_arith); }
#hook loop 0 before
  let ghost d = digs(f->0->Ok_0.v(), n_limbs as nat, limb_width as nat); let ghost v = f->0->Ok_0.v();
  proof { lemma_pow2_pos(limb_width as nat); assert(svals(limb_values@) =~= d.take(0)); if old(cs).w() { assert forall|j: int| 0 <= j < d.len() implies 0 <= #[trigger] d[j] < pow2(limb_width as nat) by { lemma_mod_bound(v / (pow2(limb_width as nat * (j as nat)) as int), pow2(limb_width as nat) as int); } } }
#hook loop 0 inv
  limb_width < 0x1_0000_0000, n0 == n_limbs, lo__0 == 0, c0@.len() == i0, d.len() == n_limbs, d == digs(v, n_limbs as nat, limb_width as nat), cs.w() ==> v == f->0->Ok_0.v(),
  cs.w() == old(cs).w(), old(cs).w() == (all_values_cell is Some), old(cs).w() ==> (all_values_cell->0 is Ok) == ok_nat(f, limb_width as nat, n_limbs as nat),
  old(cs).w() && all_values_cell->0 is Ok ==> all_values_cell->0->Ok_0.1 == f->0->Ok_0 && svals(all_values_cell->0->Ok_0.0@) == d && all_values_cell->0->Ok_0.0@.len() == n_limbs,
  kept(*old(cs), *cs), cs.sat() == old(cs).sat(), cs.nc() == old(cs).nc(), cs.nv() == old(cs).nv() + i0,
  !cs.w() ==> cs.honest() == old(cs).honest() && value is None && limb_values@.len() == 0,
  cs.w() ==> svals(limb_values@) == d.take(i0 as int) && limb_values@.len() == i0,
  cs.w() && i0 > 0 ==> all_values_cell->0 is Ok && value is Some && ov(value) == v,
  i0 == 0 ==> value is None,
  forall|j: int| 0 <= j < i0 ==> 0 <= #[trigger] lcs(c0@)[j] < P(),
  cs.w() && cs.honest() ==> forall|j: int| 0 <= j < i0 ==> #[trigger] lcs(c0@)[j] == d[j],
#hook loop 0 begin
  let ghost c00 = c0@; let ghost l0 = limb_values@;
#hook loop 0 end
  proof { assert forall|j: int| 0 <= j < c0@.len() implies #[trigger] lcs(c0@)[j] == (if j < i0 { lcs(c00)[j] } else { x__.val() }) by {}
    if cs.w() { assert(svals(all_values_cell->0->Ok_0.0@)[i0 as int] == d[i0 as int]); assert(svals(limb_values@) =~= d.take(i0 + 1)) by { assert(d.take(i0 + 1) =~= d.take(i0 as int).push(d[i0 as int])); assert(svals(limb_values@) =~= svals(l0).push(d[i0 as int])); } } }
#hook loop 0 after
  proof { if cs.w() && n_limbs > 0 { assert(d.take(n_limbs as int) =~= d);
      if v >= 0 { assert(limb_width * n_limbs >= 0) by (nonlinear_arith); ls_digs(v, n_limbs as nat, limb_width as nat); lemma_small_mod(v as nat, pow2((limb_width * n_limbs) as nat)); }
      if cs.honest() { assert(lcs(limbs0__(c0)) =~= d); assert forall|j: int| 0 <= j < n_limbs implies cong(#[trigger] lcs(c0@)[j], d[j]) by { c_refl(d[j]); } } } }
#fn BigNat::from_limbs
#requires
  1 <= limb_width < 0x1_0000_0000,
#ensures
  res.shape(), res.agree(), res.params.n_limbs == limbs@.len(), res.params.limb_width == limb_width, res.params.min_bits == 0, res.params.max_word.v() == pow2(limb_width as nat) - 1,
  // the same wires, and their values when all are known
  lcs(res.limbs@) == nlcs(limbs@), res.has() == (forall|i: int| 0 <= i < limbs@.len() ==> (#[trigger] limbs@[i]).value is Some),
  res.has() ==> res.wv() == nvals(limbs@),
  (forall|i: int| 0 <= i < limbs@.len() ==> (#[trigger] limbs@[i]).hon()) ==> res.hon(),
#hook entry
  proof { lemma_pow2_pos(limb_width as nat); }
#hook loop 0 inv
  n0 == limbs@.len(), s__0 == limbs, !none0 ==> c0@.len() == i0 && svals(c0@) == nvals(limbs@).take(i0 as int) && forall|j: int| 0 <= j < i0 ==> (#[trigger] limbs@[j]).value is Some,
  none0 ==> exists|j: int| 0 <= j < limbs@.len() && (#[trigger] limbs@[j]).value is None,
#hook loop 0 before
  proof { assert(svals(c0@) =~= nvals(limbs@).take(0)); }
#hook loop 0 begin
  let ghost c00 = c0@;
#hook loop 0 end
  proof { assert(limbs@[i0 as int] == s__0[i0 as int]); if !none0 { assert(nvals(limbs@).take(i0 + 1) =~= nvals(limbs@).take(i0 as int).push(nvals(limbs@)[i0 as int])); assert(svals(c0@) =~= svals(c00).push(nvals(limbs@)[i0 as int])); } }
#hook loop 0 after
  proof { assert(nvals(limbs@).take(limbs@.len() as int) =~= nvals(limbs@)); }
#hook loop 1 inv
  n1 == s__1@.len(), s__1 == limbs, lcs(c1@) == nlcs(limbs@).take(i1 as int), c1@.len() == i1,
#hook loop 1 before
  proof { assert(lcs(c1@) =~= nlcs(limbs@).take(0)); }
#hook loop 1 begin
  let ghost c10 = c1@;
#hook loop 1 end
  proof { assert(nlcs(limbs@).take(i1 + 1) =~= nlcs(limbs@).take(i1 as int).push(nlcs(limbs@)[i1 as int])); assert(lcs(c1@) =~= lcs(c10).push(nlcs(limbs@)[i1 as int])); }
#hook loop 1 after
  proof { assert(nlcs(limbs@).take(limbs@.len() as int) =~= nlcs(limbs@)); assert(lcs(c1@).len() == limbs@.len()); }
#hook ret
  proof { if forall|i: int| 0 <= i < limbs@.len() ==> (#[trigger] limbs@[i]).hon() { if r__.has() { assert forall|i: int| 0 <= i < r__.limbs@.len() implies cong(#[trigger] lcs(r__.limbs@)[i], r__.wv()[i]) by { assert(limbs@[i].hon()); assert(limbs@[i].value is Some); assert(nlcs(limbs@)[i] == limbs@[i].num.val()); } } } }
#rs
pub open spec fn nlcs(s: Seq<Num>) -> Seq<int> { s.map_values(|x: Num| x.num.val()) }
pub open spec fn nvals(s: Seq<Num>) -> Seq<int> { s.map_values(|x: Num| x.value->0.v()) }
#rs
/// the parameters are the same but for the declared minimum length
pub open spec fn same_but_min(a: BigNat, b: BigNat, min_bits: int) -> bool {
    a.limbs == b.limbs && a.limb_values == b.limb_values && a.value == b.value && a.params.max_word == b.params.max_word && a.params.limb_width == b.params.limb_width
        && a.params.n_limbs == b.params.n_limbs && b.params.min_bits == min_bits
}
#fn BigNat::enforce_full_bits
#requires
  old(self).shape(), old(self).limbs@.len() >= 1, old(self).lw() <= CAP(), old(cs).w() ==> old(self).has(), old(self).lw() * old(self).limbs@.len() <= usize::MAX,
#ensures
  kept(*old(cs), *final(cs)), res is Ok, same_but_min(*old(self), *final(self), (old(self).lw() * old(self).limbs@.len()) as int),
  !old(cs).w() ==> final(cs).honest() == old(cs).honest(),
  // every satisfying assignment: the top limb is a digit with its top bit set
  final(cs).sat() ==> pow2((old(self).lw() - 1) as nat) <= old(self).lv().last() < pow2(old(self).lw()),
  // so the number has all its bits
  final(cs).sat() && old(self).dgt() ==> final(self).mb(),
  // a number with its top bit set is accepted
  old(cs).w() && old(cs).sat() && final(cs).honest() && old(self).hon() && pow2((old(self).lw() - 1) as nat) <= old(self).wv().last() < pow2(old(self).lw()) ==> final(cs).sat(),
#hook entry
  let ghost w = self.lw(); let ghost n = self.limbs@.len(); let ghost mut bv: Bitvector = arbitrary(); let ghost mut cs1: Cs = *cs;
  proof { lv_range(*self); ax_P(); }
#hook bind decompose#0
  proof { bv = b__->Ok_0; cs1 = *cs; }
#hook bind constrain_value#0
  proof {
    let t = lcs(bv.bits@); let v = self.lv().last();
    assert(self.lv().last() == self.limbs@[n - 1].val() % P());
    assert(t[w - 1] == bv.bits@[w - 1].val());
    p2_mono((w - 1) as nat, w); p2_mono(w, CAP());
    if cs.sat() {
      assert(v == bv.iv());
      assert(0 <= t[w - 1] < 2);
      assert(t[w - 1] == 1) by { if t[w - 1] == 0 { c_eq(0, 1); } }
      assert forall|i: int| 0 <= i < t.len() implies 0 <= #[trigger] t[i] by { assert(0 <= t[i] < 2); }
      ls_ge(t, 1, w - 1);
      assert(1 * ((w - 1) as nat) == (w - 1) as nat);
      if self.dgt() { top_bit(self.lv(), w); }
    }
    if old(cs).w() && cs.honest() && old(cs).sat() && self.hon() && pow2((w - 1) as nat) <= self.wv().last() < pow2(w) {
      let x = self.wv().last();
      assert(x == self.limb_values->0@[n - 1].v());
      assert(cong(lcs(self.limbs@)[n - 1], self.wv()[n - 1]));
      assert(bit_at(x, w - 1)) by {
        let p = pow2((w - 1) as nat) as int; p2((w - 1) as nat);
        assert(x / p == 1) by { lemma_fundamental_div_mod_converse(x, p, 1, x - p); }
      }
      assert(t[w - 1] == b2i(bit_at(x, w - 1)));
      c_refl(1);
      assert(cs1.sat());
    }
  }
#hook ret
  proof { if cs.sat() && old(self).dgt() { assert(final_iv(*self) == old(self).iv()) by { assert(self.limbs == old(self).limbs); } } }
#rs
pub open spec fn final_iv(b: BigNat) -> int { b.iv() }
proof fn top_bit(s: Seq<int>, w: nat)
    requires all_in(s, pow2(w) as int), s.len() > 0, w > 0, s.last() >= pow2((w - 1) as nat),
    ensures ls(s, w) >= pow2((w * s.len() - 1) as nat), w * s.len() >= 1,
{
    let n = (s.len() - 1) as nat;
    assert forall|i: int| 0 <= i < s.len() implies 0 <= #[trigger] s[i] by { assert(0 <= s[i] < pow2(w)); }
    ls_ge(s, w, n as int);
    assert(w * s.len() == w * n + w) by (nonlinear_arith) requires s.len() == n + 1;
    assert(w * n >= 0) by (nonlinear_arith);
    p2_add((w - 1) as nat, w * n);
    let x = s.last(); let p = pow2(w * n) as int; let q = pow2((w - 1) as nat) as int;
    lemma_pow2_pos(w * n);
    assert(x * p >= q * p) by (nonlinear_arith) requires x >= q, p > 0;
}
#fn BigNat::enforce_min_bits
#requires
  old(self).shape(), old(self).lw() <= CAP(), min_bits >= 1, old(self).lw() * old(self).limbs@.len() < P(), old(cs).w() ==> old(self).has(), old(self).lw() * old(self).limbs@.len() <= usize::MAX,
  // the prover has a number of that length
  old(cs).w() ==> all_in(old(self).wv(), pow2(old(self).lw()) as int) && ls(old(self).wv(), old(self).lw()) >= pow2((min_bits - 1) as nat),
#ensures
  kept(*old(cs), *final(cs)), res is Ok, same_but_min(*old(self), *final(self), min_bits as int),
  !old(cs).w() ==> final(cs).honest() == old(cs).honest(),
  // every satisfying assignment: the number is that long
  final(cs).sat() ==> old(self).dgt() && final(self).mb() && old(self).iv() >= pow2((min_bits - 1) as nat),
  // a number that long is accepted
  old(cs).w() && old(cs).sat() && final(cs).honest() && old(self).hon() ==> final(cs).sat(),
#hook entry
  let ghost w = self.lw(); let ghost n = self.limbs@.len(); let ghost V = ls(self.wv(), w); let ghost k = (min_bits - 1) as nat; let ghost mut bv: Bitvector = arbitrary(); let ghost mut cs1: Cs = *cs;
  proof { lv_range(*self); ax_P(); }
#hook bind decompose#0
  proof { bv = b__->Ok_0; cs1 = *cs; }
#hook after let bits
  let ghost bs = bits@; let ghost t = lcs(bv.bits@); let ghost u = t.skip(if k < t.len() { k as int } else { t.len() as int });
  proof {
    assert(w * n >= 0) by (nonlinear_arith);
    if cs.sat() { high_bits(t, k, u); }
    if old(cs).w() { ls_bound(self.wv(), w); p2_mono(k, k); if w * n <= k { p2_mono(w * n, k); } assert(k < t.len());
      if n == 0 { assert(w * 0 == 0) by (nonlinear_arith); }
      vbits(V, t.len(), k); }
  }
#hook loop 0 inv
  s__0@ == bs, bs.len() == t.len(), bs.len() <= usize::MAX, k == k__0, n0 == (if k < t.len() { t.len() - k } else { 0 }), c0@.len() == i0, forall|j: int| 0 <= j < i0 ==> #[trigger] c0@[j] == bs[j + k],
#hook after let upper_bits
  let ghost ub = upper_bits@;
  proof {
    assert(ub.len() == u.len());
    assert forall|j: int| 0 <= j < ub.len() implies #[trigger] ub[j].bit.val() == u[j] && ub[j].value == (if bv.values is Some { Some(bv.values->0@[j + k]) } else { None }) by { assert(ub[j] == bs[j + k]); assert(bs[j + k].bit == bv.bits@[j + k]); assert(u[j] == t[j + k]); }
  }
  let ghost z = wits(V, k, u.len());
  proof {
    if old(cs).w() { assert forall|j: int| 0 <= j < ub.len() implies #[trigger] ub[j].value == Some(z[j] == 1) by { assert(ub[j].bit.val() == u[j]); assert(bv.values->0@[j + k] == bit_at(V, j + k)); } }
    if old(cs).w() && cs.honest() { assert(wire_bits(t, V)); assert forall|j: int| 0 <= j < u.len() implies #[trigger] u[j] == z[j] by { assert(u[j] == t[j + k]); assert(t[j + k] == b2i(bit_at(V, j + k))); } assert(u =~= z); }
  }
#hook loop 1 before
  proof { assert(z.take(0) =~= seq![]); c_small(0); }
#hook loop 1 inv
  n1 == ub.len(), s__1@ == ub, ub.len() == z.len(), err__1 is None, z == wits(V, k, u.len()), sum.v() == ssum(z.take(i1 as int)) % P(), forall|j: int| 0 <= j < ub.len() ==> #[trigger] ub[j].value == Some(z[j] == 1),
  all_in(z, 2), P() > 2,
#hook loop 1 begin
  let ghost s0 = sum.v();
  proof { ssum_take(z, i1 as int); assert(ub[i1 as int].value == Some(z[i1 as int] == 1)); assert(0 <= z[i1 as int] < 2); c_mod(ssum(z.take(i1 as int))); c_refl(1); c_add(s0, ssum(z.take(i1 as int)), 1, 1); c_mod_eq(s0 + 1, ssum(z.take(i1 as int)) + 1); }
#hook loop 1 after
  proof { assert(z.take(z.len() as int) =~= z); ssum_bits(z); c_small(ssum(z)); }
#hook loop 2 inv
  n2 == ub.len(), s__2@ == ub, u.len() == ub.len(), sum.val() == ssum(u.take(i2 as int)), forall|j: int| 0 <= j < ub.len() ==> #[trigger] ub[j].bit.val() == u[j],
#hook loop 2 before
  proof { assert(u.take(0) =~= seq![]); }
#hook loop 2 begin
  proof { ssum_take(u, i2 as int); assert(ub[i2 as int].bit.val() == u[i2 as int]); }
#hook loop 2 after
  proof { assert(u.take(u.len() as int) =~= u); }
#hook enforce 0 pre
  proof {
    let a = inverse.val(); let s = ssum(u);
    assert(ea__.val() * eb__.val() == a * s);
    if cs.sat() {
      ssum_bits(u);
      assert(0 <= s < P()) by { assert(w * n < P()); };
      if s == 0 && cong(a * s, 1) { assert(a * s == 0) by (nonlinear_arith) requires s == 0; c_eq(0, 1); }
    }
    if old(cs).w() && cs.honest() {
      assert(u == z);
      ssum_bits(z); c_small(s);
      if cong(s, 0) { c_eq(s, 0); }
      ax_inv(s);
      assert(a * s == s * a) by (nonlinear_arith);
    }
  }
#rs
/// the witness bits from the k-th on
pub open spec fn wits(v: int, k: nat, n: nat) -> Seq<int> { Seq::new(n, |j: int| b2i(bit_at(v, j + k))) }
/// bits from the k-th on are not all zero exactly when the number is at least 2^k
proof fn high_bits(t: Seq<int>, k: nat, u: Seq<int>)
    requires all_in(t, 2), u == t.skip(if k < t.len() { k as int } else { t.len() as int }),
    ensures all_in(u, 2), ssum(u) > 0 ==> ls(t, 1) >= pow2(k),
{
    assert forall|i: int| 0 <= i < u.len() implies 0 <= #[trigger] u[i] < 2 by { assert(0 <= t[i + k] < 2); }
    ssum_bits(u);
    if ssum(u) > 0 {
        if forall|i: int| 0 <= i < u.len() ==> #[trigger] u[i] == 0 { ssum0(u); }
        let i = choose|i: int| 0 <= i < u.len() && #[trigger] u[i] != 0;
        assert(t[i + k] == 1);
        assert forall|i: int| 0 <= i < t.len() implies 0 <= #[trigger] t[i] by { assert(0 <= t[i] < 2); }
        ls_ge(t, 1, i + k);
        assert(1 * ((i + k) as nat) == (i + k) as nat);
        p2_mono(k, (i + k) as nat);
    }
}
proof fn ssum0(s: Seq<int>)
    requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == 0,
    ensures ssum(s) == 0,
    decreases s.len(),
{ if s.len() > 0 { let a = s.drop_last(); assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] == 0 by { assert(s[i] == 0); } ssum0(a); assert(s[s.len() - 1] == 0); } }
proof fn vbits(v: int, n: nat, k: nat)
    requires pow2(k) <= v < pow2(n), k < n,
    ensures all_in(wits(v, k, (n - k) as nat), 2), ssum(wits(v, k, (n - k) as nat)) > 0,
{
    let z = wits(v, k, (n - k) as nat);
    ssum_bits(z);
    if ssum(z) == 0 {
        let d = digs(v, n, 1);
        ls_digs(v, n, 1);
        assert(1 * n == n);
        lemma_small_mod(v as nat, pow2(n));
        lemma2_to64();
        assert forall|i: int| k <= i < d.len() implies #[trigger] d[i] == 0 by { assert(z[i - k] == 0); assert(1 * (i as nat) == i); assert(d[i] == (v / (pow2(i as nat) as int)) % 2); lemma_mod_bound(v / (pow2(i as nat) as int), 2); }
        ls_top0(d, 1, k as int);
        let e = d.take(k as int);
        assert(all_in(e, pow2(1) as int)) by { assert forall|i: int| 0 <= i < e.len() implies 0 <= #[trigger] e[i] < pow2(1) by { assert(0 <= d[i] < pow2(1)); } }
        ls_bound(e, 1);
        assert(1 * k == k);
    }
}
