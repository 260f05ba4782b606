#alone
#types LazyCellInner LazyCell
#rs
/// a cell has a value or an initialiser that may run; only a cell with a value has readers
pub open spec fn lok<T, F: FnOnce() -> T>(h: Heap<LazyCellInner<T, F>>, id: int) -> bool {
    &&& h.has(id) && !(h.at(id) is Empty)
    &&& h.at(id) is Unforced ==> h.readers(id) == 0 && h.at(id)->Unforced_0.requires(())
}
/// reading took the cell from o to n, running r initialisers
pub open spec fn forced<T, F: FnOnce() -> T>(o: Heap<LazyCellInner<T, F>>, n: Heap<LazyCellInner<T, F>>, id: int, r: int) -> bool {
    &&& n.at(id) is Forced && n.has(id)
    // the first read runs the initialiser and keeps what it returned; no other read runs one, and the value stays
    &&& o.at(id) is Unforced ==> r == 1 && o.at(id)->Unforced_0.ensures((), n.at(id)->Forced_0)
    &&& o.at(id) is Forced ==> r == 0 && n.at(id) == o.at(id)
    &&& n.same_but(o, id)
}
#fn LazyCell::new
#impl impl<T, F: FnOnce() -> T> LazyCell<T, F>
#cells
#requires
  f.requires(()),
#ensures
  lok(*final(h__), res.cell.id()), !old(h__).has(res.cell.id()), final(h__).at(res.cell.id()) == LazyCellInner::<T, F>::Unforced(f), final(h__).same_but(*old(h__), res.cell.id()), final(k__).n() == old(k__).n(),
#fn LazyCell::force
#impl impl<T, F: FnOnce() -> T> LazyCell<T, F>
#cells
#requires
  lok(*old(h__), self.cell.id()),
#ensures
  lok(*final(h__), self.cell.id()), forced(*old(h__), *final(h__), self.cell.id(), final(k__).n() - old(k__).n()), final(h__).readers(self.cell.id()) == old(h__).readers(self.cell.id()),
#fn LazyCell::borrow
#impl impl<T, F: FnOnce() -> T> LazyCell<T, F>
#cells
#requires
  lok(*old(h__), self.cell.id()),
#ensures
  lok(*final(h__), self.cell.id()), forced(*old(h__), *final(h__), self.cell.id(), final(k__).n() - old(k__).n()), final(h__).readers(self.cell.id()) == old(h__).readers(self.cell.id()) + 1,
  *res == final(h__).at(self.cell.id())->Forced_0,
#fn LazyCell as From<T>::from
#impl impl<T, F: FnOnce() -> T> LazyCell<T, F>
#cells
#ensures
  lok(*final(h__), res.cell.id()), !old(h__).has(res.cell.id()), final(h__).at(res.cell.id()) == LazyCellInner::<T, F>::Forced(t), final(h__).same_but(*old(h__), res.cell.id()), final(k__).n() == old(k__).n(),
#rs
/// C17: over any history of reads of one cell, one initialiser runs and every read returns the same value
proof fn lazy_once<T, F: FnOnce() -> T>(hs: Seq<Heap<LazyCellInner<T, F>>>, runs: Seq<int>, id: int, n: nat)
    requires
        n >= 1, hs.len() == n + 1, runs.len() == n, lok(hs[0], id),
        forall|i: int| 0 <= i < n ==> #[trigger] forced(hs[i], hs[i + 1], id, runs[i]),
    ensures
        forall|i: int| 1 <= i <= n ==> #[trigger] hs[i].at(id) == hs[1].at(id) && hs[i].at(id) is Forced,
        hs[0].at(id) is Forced ==> hs[1].at(id) == hs[0].at(id),
        runs[0] == if hs[0].at(id) is Unforced { 1int } else { 0 },
        forall|i: int| 1 <= i < n ==> #[trigger] runs[i] == 0,
    decreases n,
{
    assert(forced(hs[0], hs[0int + 1], id, runs[0]));
    if n > 1 {
        let m = (n - 1) as nat;
        lazy_once(hs.subrange(0, n as int), runs.subrange(0, m as int), id, m);
        assert forall|i: int| 1 <= i <= n implies #[trigger] hs[i].at(id) == hs[1].at(id) && hs[i].at(id) is Forced by {
            if i < n { assert(hs.subrange(0, n as int)[i].at(id) == hs[1].at(id)); }
            else { assert(forced(hs[i - 1], hs[i - 1 + 1], id, runs[i - 1])); assert(hs.subrange(0, n as int)[i - 1].at(id) is Forced); assert(hs.subrange(0, n as int)[i - 1].at(id) == hs[1].at(id)); }
        }
        assert forall|i: int| 1 <= i < n implies #[trigger] runs[i] == 0 by {
            assert(forced(hs[i], hs[i + 1], id, runs[i]));
            assert(hs.subrange(0, n as int)[i].at(id) is Forced);
        }
    }
}
