// ---------------------------------------------------------------- lists in payloads
trait Cell: Sized {
    /// how one entry is written, whether it may be, and whether it reads back
    spec fn cell(self) -> Seq<u8>;
    spec fn cell_ok(self) -> bool;
    spec fn cell_wf(self) -> bool;
    /// the entry at b[o..t]
    spec fn cell_at(b: Seq<u8>, o: int, t: int) -> Option<(Self, int)>;
    proof fn less(b: Seq<u8>, o: int, t: int, u: int)
        requires 0 <= o <= t <= u <= b.len()
        ensures Self::cell_at(b, o, t) == within(Self::cell_at(b, o, u), t);
    proof fn part(b: Seq<u8>, x: int, y: int, p: int, q: int)
        requires 0 <= x <= y <= b.len(), 0 <= p <= q <= y - x
        ensures Self::cell_at(b.subrange(x, y), p, q) == moved(Self::cell_at(b, x + p, x + q), -x);
    proof fn bound(b: Seq<u8>, o: int, t: int)
        ensures Self::cell_at(b, o, t) matches Some((_, e)) ==> o < e <= t;
    proof fn here(self, b: Seq<u8>, o: int, t: int)
        requires has(b, o, self.cell()), self.cell_wf(), o + self.cell().len() <= t <= b.len()
        ensures Self::cell_at(b, o, t) == Some((self, o + self.cell().len())), self.cell().len() > 0;
}
spec fn cells<V: Cell>(s: Seq<V>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { seq![] } else { cells(s.drop_last()) + s.last().cell() }
}
spec fn cells_ok<V: Cell>(s: Seq<V>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).cell_ok() }
spec fn cells_wf<V: Cell>(s: Seq<V>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).cell_wf() }
spec fn cells_at<V: Cell>(b: Seq<u8>, o: int, t: int) -> Option<Seq<V>>
    decreases t - o
{
    if o > t { None } else if o == t { Some(seq![]) }
    else {
        match V::cell_at(b, o, t) {
            Some((p, e)) => if o < e <= t { match cells_at::<V>(b, e, t) { Some(r) => Some(seq![p] + r), None => None } } else { None },
            None => None,
        }
    }
}
proof fn cells_part<V: Cell>(b: Seq<u8>, x: int, y: int, p: int, q: int)
    requires 0 <= x <= y <= b.len(), 0 <= p, q <= y - x
    ensures cells_at::<V>(b.subrange(x, y), p, q) == cells_at::<V>(b, x + p, x + q)
    decreases q - p
{
    if p < q {
        V::part(b, x, y, p, q);
        if let Some((_, e)) = V::cell_at(b.subrange(x, y), p, q) { if p < e <= q { cells_part::<V>(b, x, y, e, q); } }
    }
}
proof fn cells_front<V: Cell>(p: V, r: Seq<V>)
    ensures cells(seq![p] + r) == p.cell() + cells(r)
    decreases r.len()
{
    let s = seq![p] + r;
    if r.len() == 0 {
        assert(s.drop_last() =~= seq![]);
        assert(s.last() == p);
        assert(cells(s.drop_last()) =~= seq![]);
        assert(cells(s) =~= p.cell() + cells(r));
    } else {
        assert(s.drop_last() =~= seq![p] + r.drop_last());
        assert(s.last() == r.last());
        cells_front(p, r.drop_last());
        assert(cells(s) =~= p.cell() + cells(r));
    }
}
proof fn cells_here<V: Cell>(b: Seq<u8>, o: int, s: Seq<V>)
    requires has(b, o, cells(s)), cells_wf(s)
    ensures cells_at::<V>(b, o, o + cells(s).len()) == Some(s)
    decreases s.len()
{
    if s.len() == 0 { assert(s =~= seq![]); }
    else {
        let r = s.skip(1);
        assert(s =~= seq![s[0]] + r);
        cells_front(s[0], r);
        has_cat(b, o, s[0].cell(), cells(r));
        s[0].here(b, o, o + cells(s).len());
        assert(cells_wf(r)) by { assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).cell_wf() by { assert(r[i] == s[i + 1]); } }
        cells_here(b, o + s[0].cell().len(), r);
    }
}
/// one entry more, while writing
proof fn cells_more<V: Cell>(s: Seq<V>, k: int)
    requires 0 <= k < s.len()
    ensures cells(s.take(k + 1)) == cells(s.take(k)) + s[k].cell(), cells_ok(s.take(k + 1)) <==> cells_ok(s.take(k)) && s[k].cell_ok()
{
    let u = s.take(k + 1);
    assert(u.drop_last() =~= s.take(k));
    assert(u.last() == s[k]);
    assert forall|i: int| 0 <= i < k implies s.take(k)[i] == #[trigger] u[i] by {}
    if cells_ok(u) {
        assert forall|i: int| 0 <= i < k implies (#[trigger] s.take(k)[i]).cell_ok() by { assert(u[i].cell_ok()); }
        assert(u[k].cell_ok());
    }
    if cells_ok(s.take(k)) && s[k].cell_ok() {
        assert forall|i: int| 0 <= i < k + 1 implies (#[trigger] u[i]).cell_ok() by { if i < k { assert(s.take(k)[i].cell_ok()); } }
    }
}
/// what has been read so far, and what is still to be read
spec fn so_far<V: Cell>(b: Seq<u8>, o0: int, o: int, t: int, s: Seq<V>) -> bool {
    cells_at::<V>(b, o0, t) == match cells_at::<V>(b, o, t) { Some(r) => Some(s + r), None => None }
}
proof fn so_far_start<V: Cell>(b: Seq<u8>, o: int, t: int, s: Seq<V>)
    requires s.len() == 0
    ensures so_far::<V>(b, o, o, t, s)
{ if let Some(r) = cells_at::<V>(b, o, t) { assert(s + r =~= r); } }
proof fn so_far_end<V: Cell>(b: Seq<u8>, o0: int, o: int, t: int, s: Seq<V>)
    requires so_far::<V>(b, o0, o, t, s), o >= t
    ensures cells_at::<V>(b, o0, t) == if o == t { Some(s) } else { None }
{ assert(s + seq![] =~= s); }
/// the next entry is read from a buffer that may hold more than the frame
proof fn so_far_next<V: Cell>(b: Seq<u8>, o0: int, o: int, t: int, u: int, s: Seq<V>)
    requires so_far::<V>(b, o0, o, t, s), 0 <= o < t <= u <= b.len()
    ensures match V::cell_at(b, o, u) { Some((p, e)) => o < e <= u && so_far::<V>(b, o0, e, t, s.push(p)), None => cells_at::<V>(b, o0, t) is None }
{
    V::less(b, o, t, u);
    V::bound(b, o, u);
    if let Some((p, e)) = V::cell_at(b, o, u) {
        if e <= t { if let Some(r) = cells_at::<V>(b, e, t) { assert(s + (seq![p] + r) =~= s.push(p) + r); } }
    }
}
// ---- topic filters alone
impl Cell for Seq<char> {
    spec fn cell(self) -> Seq<u8> { text(self) }
    spec fn cell_ok(self) -> bool { text_ok(self) }
    spec fn cell_wf(self) -> bool { text_ok(self) }
    spec fn cell_at(b: Seq<u8>, o: int, t: int) -> Option<(Self, int)> { text_at(b, o, t) }
    proof fn less(b: Seq<u8>, o: int, t: int, u: int) { assert(upto(b, t)); text_less(b, o, t, u); }
    proof fn part(b: Seq<u8>, x: int, y: int, p: int, q: int) { text_part(b, x, y, p, q); }
    proof fn bound(b: Seq<u8>, o: int, t: int) { text_bound(b, o, t); }
    proof fn here(self, b: Seq<u8>, o: int, t: int) { text_here(b, o, t, self); }
}
