// ---------------------------------------------------------------- C12
/// number of elements in the map
spec fn total<P, T>(m: Map<P, VecDeque<T>>) -> nat
    decreases m.dom().len()
{
    if m.dom().len() == 0 { 0 } else { let k = m.dom().choose(); (m[k]@.len() + total(m.remove(k))) as nat }
}
proof fn total_pick<P, T>(m: Map<P, VecDeque<T>>, k: P)
    requires m.contains_key(k)
    ensures total(m) == m[k]@.len() + total(m.remove(k))
    decreases m.dom().len()
{
    let c = m.dom().choose();
    if m.dom().len() == 0 { assert(m.dom() =~= Set::empty()); }
    assert(m.dom().contains(c));
    if c != k {
        total_pick(m.remove(c), k);
        total_pick(m.remove(k), c);
        assert(m.remove(c).remove(k) =~= m.remove(k).remove(c));
    }
}
broadcast proof fn total_insert<P, T>(m: Map<P, VecDeque<T>>, k: P, v: VecDeque<T>)
    ensures #[trigger] total(m.insert(k, v)) == total(m) + v@.len() - (if m.contains_key(k) { m[k]@.len() as int } else { 0int })
{
    let n = m.insert(k, v);
    total_pick(n, k);
    if m.contains_key(k) { total_pick(m, k); assert(n.remove(k) =~= m.remove(k)); } else { assert(n.remove(k) =~= m); }
}
broadcast proof fn total_remove<P, T>(m: Map<P, VecDeque<T>>, k: P)
    requires m.contains_key(k)
    ensures #[trigger] total(m.remove(k)) == total(m) - m[k]@.len()
{ total_pick(m, k); }

//@ item src/priority_queue.rs PriorityQueue

impl<P: Ord + Clone, T> PriorityQueue<P, T> {
    /// the elements of one priority, oldest first
    spec fn at(&self, p: P) -> Seq<T> { if self.map@.contains_key(p) { self.map@[p]@ } else { Seq::empty() } }
    /// the priorities present
    spec fn prios(&self) -> Set<P> { self.map@.dom() }
    spec fn inv(&self) -> bool {
        &&& forall|p: P| #[trigger] self.map@.contains_key(p) ==> self.map@[p]@.len() > 0
        &&& self.size == total(self.map@)
        &&& self.size <= self.capacity
    }
    /// nothing but the capacity bound may be exceeded, by one element
    spec fn over(&self) -> bool {
        &&& forall|p: P| #[trigger] self.map@.contains_key(p) ==> self.map@[p]@.len() > 0
        &&& self.size == total(self.map@)
        &&& self.capacity < usize::MAX
    }
}

/// `b` is `a` without its oldest element of priority `p`
spec fn popped<P: Ord + Clone, T>(a: PriorityQueue<P, T>, b: PriorityQueue<P, T>, p: P) -> bool {
    a.at(p).len() > 0 && b.at(p) =~= a.at(p).skip(1) && forall|q: P| q != p ==> #[trigger] b.at(q) =~= a.at(q)
}
/// the elements of priority `q` after `item` is put at the end of priority `p`
spec fn at_pushed<P: Ord + Clone, T>(a: PriorityQueue<P, T>, p: P, item: T, q: P) -> Seq<T> { if q == p { a.at(q).push(item) } else { a.at(q) } }
/// `b` is `a` with `item` at the end of its priority and, if `a` was full, without the oldest element of the then lowest priority
spec fn enqueued<P: Ord + Clone, T>(a: PriorityQueue<P, T>, b: PriorityQueue<P, T>, priority: P, item: T) -> bool {
    &&& a.size < a.capacity ==> b.size == a.size + 1 && forall|q: P| #[trigger] b.at(q) =~= at_pushed(a, priority, item, q)
    &&& a.size == a.capacity ==> b.size == a.size && exists|p: P| #[trigger] is_bottom(a.prios().insert(priority), p)
            && b.at(p) =~= at_pushed(a, priority, item, p).skip(1)
            && forall|q: P| q != p ==> #[trigger] b.at(q) =~= at_pushed(a, priority, item, q)
}
//@ method entry &mut vx_entry
//@ method last_entry &mut vx_last_entry
//@ method first_entry &mut vx_first_entry
//@ fn src/priority_queue.rs PriorityQueue::new
//@ for C12 C20
//@ ret r
//@ spec
  requires ordered::<P>()
  ensures r.inv(), r.capacity == capacity, r.prios() =~= Set::empty(), r.size == 0
//@ end
//@ fn src/priority_queue.rs PriorityQueue::len
//@ for C12 C20
//@ ret r
//@ spec
  ensures r == self.size
//@ end
//@ fn src/priority_queue.rs PriorityQueue::is_empty
//@ for C12 C20
//@ ret r
//@ spec
  ensures r == (self.size == 0)
//@ end
//@ fn src/priority_queue.rs PriorityQueue::clear
//@ for C12 C20
//@ spec
  ensures final(self).inv(), final(self).prios() =~= Set::empty(), final(self).capacity == old(self).capacity
//@ begin
  broadcast use {total_insert, total_remove};
//@ end
//@ fn src/priority_queue.rs PriorityQueue::peek
//@ for C12 C20
//@ ret r
//@ spec
  requires ordered::<P>(), self.inv()
  ensures match r {
      None => self.prios() =~= Set::empty(),
      Some((p, x)) => is_top(self.prios(), *p) && self.at(*p).len() > 0 && *x == self.at(*p)[0],
  }
//@ end
//@ fn src/priority_queue.rs PriorityQueue::dequeue
//@ for C12 C20
//@ ret r
//@ spec
  requires ordered::<P>(), old(self).inv()
  ensures
    final(self).inv(), final(self).capacity == old(self).capacity,
    match r {
      None => old(self).prios() =~= Set::empty() && *final(self) == *old(self),
      Some((p, x)) => is_top(old(self).prios(), p) && old(self).at(p).len() > 0 && x == old(self).at(p)[0]
          && final(self).size == old(self).size - 1 && popped(*old(self), *final(self), p),
    }
//@ begin
  broadcast use {total_insert, total_remove};
//@ end
//@ fn src/priority_queue.rs PriorityQueue::drop_lowest_priority
//@ for C12 C20
//@ spec
  requires ordered::<P>(), old(self).over()
  ensures
    final(self).over(), final(self).capacity == old(self).capacity,
    old(self).size == 0 ==> *final(self) == *old(self),
    old(self).size > 0 ==> final(self).size == old(self).size - 1 && exists|p: P| #[trigger] is_bottom(old(self).prios(), p) && popped(*old(self), *final(self), p),
//@ begin
  broadcast use {total_insert, total_remove};
  proof { if self.map@.dom() =~= Set::empty() { assert(self.map@.dom().len() == 0); assert(total(self.map@) == 0); } }
//@ before let deque
  let ghost k = entry.k;
//@ after self.size -= 1
  proof { assert(is_bottom(old(self).prios(), k)); assert(popped(*old(self), *self, k)); }
//@ end
//@ fn src/priority_queue.rs PriorityQueue::enqueue
//@ for C12 C20
//@ spec
  requires ordered::<P>(), old(self).inv(), old(self).capacity < usize::MAX
  ensures final(self).inv(), final(self).capacity == old(self).capacity,
    enqueued(*old(self), *final(self), priority, item),
//@ before if self.size
  let ghost mid = *self;
  proof { assert(mid.prios() =~= old(self).prios().insert(priority)); }
//@ begin
  broadcast use {total_insert, total_remove};
//@ end
/// the priority type the client uses meets the precondition
proof fn c12_u8_priorities() ensures ordered::<u8>() {}
