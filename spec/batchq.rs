// uses: keys, kv, queue
//@type mutator/batch.chObject
//@type mutator/batch.op
//@type mutator/batch.mapNoLockDB
// the last thing set under a key: nothing, a deletion, or a value
pub open spec fn last_set(l: Seq<Option<batch_op>>, key: Seq<u8>) -> Option<Option<GAny>> decreases l.len() {
    if l.len() == 0 { None }
    else if l.last() is Some && l.last()->0.Key == key { Some(l.last()->0.Value) }
    else { last_set(l.drop_last(), key) }
}
// the map of encoded values agrees with the list of sets
pub open spec fn overlay(m: Map<Seq<u8>, Option<Seq<u8>>>, l: Seq<Option<batch_op>>) -> bool {
    &&& forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]) is Some
    &&& forall|k: Seq<u8>| #[trigger] m.dom().contains(hex_enc(k)) <==> last_set(l, k) is Some
    &&& forall|k: Seq<u8>| last_set(l, k) is Some ==> match last_set(l, k)->0 { None => (#[trigger] m[hex_enc(k)]) is None, Some(v) => m[hex_enc(k)] is Some && bval(m[hex_enc(k)]) == msg_enc(v) }
}
pub proof fn last_push()
    ensures forall|l: Seq<Option<batch_op>>, o: Option<batch_op>, k: Seq<u8>| #[trigger] last_set(l.push(o), k) == (if o is Some && o->0.Key == k { Some(o->0.Value) } else { last_set(l, k) })
{ assert forall|l: Seq<Option<batch_op>>, o: Option<batch_op>, k: Seq<u8>| #[trigger] last_set(l.push(o), k) == (if o is Some && o->0.Key == k { Some(o->0.Value) } else { last_set(l, k) }) by { assert(l.push(o).drop_last() =~= l); } }
// the store with the sets made
pub open spec fn set1(db: Db, o: Option<batch_op>) -> Db { if o->0.Value is Some { db.insert(o->0.Key, pval_any(o->0.Value->0)) } else { db.remove(o->0.Key) } }
pub open spec fn fold(db: Db, l: Seq<Option<batch_op>>) -> Db decreases l.len() { if l.len() == 0 { db } else { set1(fold(db, l.drop_last()), l.last()) } }
pub proof fn fold_push()
    ensures forall|db: Db, l: Seq<Option<batch_op>>, o: Option<batch_op>| #[trigger] fold(db, l.push(o)) == set1(fold(db, l), o)
{ assert forall|db: Db, l: Seq<Option<batch_op>>, o: Option<batch_op>| #[trigger] fold(db, l.push(o)) == set1(fold(db, l), o) by { assert(l.push(o).drop_last() =~= l); } }
pub proof fn fold_take(db: Db, l: Seq<Option<batch_op>>)
    ensures fold(db, l.take(0)) == db, forall|i: int| 0 <= i < l.len() ==> #[trigger] fold(db, l.take(i + 1)) == set1(fold(db, l.take(i)), l[i])
{ assert forall|i: int| 0 <= i < l.len() implies #[trigger] fold(db, l.take(i + 1)) == set1(fold(db, l.take(i)), l[i]) by { assert(l.take(i + 1).drop_last() =~= l.take(i)); } }
// reading through the batch (last thing set, else the store behind) is reading the store with the sets made
pub proof fn overlay_reads(db: Db, l: Seq<Option<batch_op>>, k: Seq<u8>)
    requires forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]) is Some
    ensures match last_set(l, k) {
        None => fold(db, l).dom().contains(k) == db.dom().contains(k) && fold(db, l)[k] == db[k],
        Some(None) => !fold(db, l).dom().contains(k),
        Some(Some(v)) => fold(db, l).dom().contains(k) && fold(db, l)[k] == pval_any(v) }
    decreases l.len()
{ if l.len() > 0 { assert forall|i: int| 0 <= i < l.drop_last().len() implies (#[trigger] l.drop_last()[i]) is Some by { assert(l.drop_last()[i] == l[i]); } overlay_reads(db, l.drop_last(), k); assert(l.last() is Some) by { assert(l[l.len() - 1] is Some); } } }
// the queued things taken, the first already in hand, are applied in order up to one for another namespace
pub open spec fn taken(seed: Option<batch_chObject>, r: Seq<Option<batch_chObject>>) -> Seq<Option<batch_chObject>> { seq![seed] + r }
pub open spec fn run_of(t: Seq<Option<batch_chObject>>, a: Seq<Ap>, ns: Seq<u8>) -> bool { a.len() <= t.len() && forall|i: int| 0 <= i < a.len() ==> t[i] is Some && t[i]->0.ns == ns && (#[trigger] a[i]).mut_ == t[i]->0.mut_ }
pub proof fn skip_push<A>(s: Seq<A>, n: int, x: A) requires 0 <= n <= s.len() ensures s.push(x).skip(n) == s.skip(n).push(x), s.push(x).take(n) == s.take(n)
{ assert(s.push(x).skip(n) =~= s.skip(n).push(x)); assert(s.push(x).take(n) =~= s.take(n)); }
pub proof fn skip_grow<A>()
    ensures forall|s: Seq<A>, n: int, x: A| 0 <= n <= s.len() ==> #[trigger] s.push(x).skip(n) == s.skip(n).push(x),
        forall|s: Seq<A>, n: int, x: A| 0 <= n <= s.len() ==> #[trigger] s.push(x).take(n) == s.take(n),
        forall|s: Seq<A>| #[trigger] s.skip(s.len() as int) == Seq::<A>::empty(), forall|s: Seq<A>| #[trigger] s.take(s.len() as int) == s,
        forall|s: Seq<A>, x: A| #[trigger] s.push(x).drop_last() == s
{
    assert forall|s: Seq<A>, x: A| #[trigger] s.push(x).drop_last() == s by { assert(s.push(x).drop_last() =~= s); }
    assert forall|s: Seq<A>, n: int, x: A| 0 <= n <= s.len() implies #[trigger] s.push(x).skip(n) == s.skip(n).push(x) by { skip_push(s, n, x); }
    assert forall|s: Seq<A>, n: int, x: A| 0 <= n <= s.len() implies #[trigger] s.push(x).take(n) == s.take(n) by { skip_push(s, n, x); }
    assert forall|s: Seq<A>| #[trigger] s.skip(s.len() as int) == Seq::<A>::empty() by { assert(s.skip(s.len() as int) =~= Seq::<A>::empty()); }
    assert forall|s: Seq<A>| #[trigger] s.take(s.len() as int) == s by { assert(s.take(s.len() as int) =~= s); }
}
pub open spec fn ok_size(db: Db) -> bool { stored(db, K::Size) ==> rec(db, K::Size) is ObjectSize }
pub proof fn chain_first(s: Seq<Ap>, d0: Db, n0: int, d1: Db, n1: int)
    requires chain(s, d0, n0, d1, n1), s.len() > 0
    ensures s[0].before == d0, s[0].size == n0, s.last().after == d1, s.last().next == n1
    decreases s.len()
{ reveal_with_fuel(chain, 2); if s.len() > 1 { chain_first(s.drop_last(), d0, n0, s.last().before, s.last().size); } else { assert(s.drop_last().len() == 0); } }
pub proof fn chain_ends()
    ensures forall|s: Seq<Ap>, d0: Db, n0: int, d1: Db, n1: int| #[trigger] chain(s, d0, n0, d1, n1) && s.len() > 0 ==> s[0].before == d0 && s[0].size == n0 && s.last().after == d1 && s.last().next == n1
{ assert forall|s: Seq<Ap>, d0: Db, n0: int, d1: Db, n1: int| #[trigger] chain(s, d0, n0, d1, n1) && s.len() > 0 implies s[0].before == d0 && s[0].size == n0 && s.last().after == d1 && s.last().next == n1 by { chain_first(s, d0, n0, d1, n1); } }
// one batch: what was applied to what was read, in order, all for one namespace, and the update that saved it with its size
pub open spec fn batch(t: Tx, u: Option<Tx>, a: Seq<Ap>, r: Seq<Option<batch_chObject>>) -> bool {
    &&& !t.upd && t.ok && a.len() == r.len() && a.len() > 0 && run_of(r, a, t.ns)
    &&& chain(a, t.before, a[0].size, a.last().after, a.last().next)
    &&& ok_size(t.before) ==> a[0].size == size_of(t.before)
    &&& u is None ==> a.last().next == a[0].size && a.last().after == t.before
    &&& u is Some ==> u->0.upd && u->0.ok && u->0.ns == t.ns && (u->0.before == t.before ==> u->0.after == a.last().after.insert(enc(K::Size), PVal::ObjectSize(pb_ObjectSize { Size: a.last().next })))
}
pub open spec fn cut(k: int) -> bool { true }
// everything taken from the queue has been applied in order, batch by batch
pub open spec fn served(t: Seq<Tx>, a: Seq<Ap>, r: Seq<Option<batch_chObject>>) -> bool decreases t.len() {
    if t.len() == 0 { a.len() == 0 && r.len() == 0 }
    else if t.last().upd { t.len() >= 2 && exists|k: int| #[trigger] cut(k) && 0 <= k <= a.len() && k <= r.len() && served(t.take(t.len() - 2), a.take(k), r.take(k)) && batch(t[t.len() - 2], Some(t.last()), a.skip(k), r.skip(k)) }
    else { exists|k: int| #[trigger] cut(k) && 0 <= k <= a.len() && k <= r.len() && served(t.take(t.len() - 1), a.take(k), r.take(k)) && batch(t.last(), None, a.skip(k), r.skip(k)) }
}
pub proof fn served_len(t: Seq<Tx>, a: Seq<Ap>, r: Seq<Option<batch_chObject>>)
    requires served(t, a, r) ensures a.len() == r.len()
    decreases t.len()
{
    if t.len() > 0 {
        if t.last().upd { let k = choose|k: int| #[trigger] cut(k) && 0 <= k <= a.len() && k <= r.len() && served(t.take(t.len() - 2), a.take(k), r.take(k)) && batch(t[t.len() - 2], Some(t.last()), a.skip(k), r.skip(k)); assert(a.skip(k).len() == r.skip(k).len()); }
        else { let k = choose|k: int| #[trigger] cut(k) && 0 <= k <= a.len() && k <= r.len() && served(t.take(t.len() - 1), a.take(k), r.take(k)) && batch(t.last(), None, a.skip(k), r.skip(k)); assert(a.skip(k).len() == r.skip(k).len()); }
    }
}
// one more batch, r1 being what was taken up to and including its last
pub open spec fn one_more(t0: Seq<Tx>, a0: Seq<Ap>, r0: Seq<Option<batch_chObject>>, t: Seq<Tx>, a: Seq<Ap>, r1: Seq<Option<batch_chObject>>) -> bool {
    let k = a0.len() as int;
    &&& served(t0, a0, r0) && k <= a.len() && k <= r1.len() && a.take(k) == a0 && r1.take(k) == r0
    &&& (t.len() == t0.len() + 1 && t.drop_last() == t0 && batch(t.last(), None, a.skip(k), r1.skip(k)))
        || (t.len() == t0.len() + 2 && t.last().upd && t.drop_last().drop_last() == t0 && batch(t[t.len() - 2], Some(t.last()), a.skip(k), r1.skip(k)))
}
pub proof fn batch_done(s0: Option<batch_chObject>, t0: Seq<Tx>, a0: Seq<Ap>, rh: Seq<Option<batch_chObject>>, t: Seq<Tx>, a: Seq<Ap>, r: Seq<Option<batch_chObject>>)
    ensures ({ let r0 = if s0 is Some { rh.drop_last() } else { rh };
        &&& served(t0, a0, r0) ==> a0.len() == r0.len()
        &&& s0 is Some && 0 < rh.len() <= r.len() && r.take(rh.len() as int) == rh ==> r.take(rh.len() - 1) == r0
        &&& s0 is None && rh.len() < r.len() && r.take(rh.len() as int + 1).drop_last() == rh ==> r.take(rh.len() as int) == r0
        &&& one_more(t0, a0, r0, t, a, r) ==> served(t, a, r)
        &&& r.len() > 0 && one_more(t0, a0, r0, t, a, r.drop_last()) ==> served(t, a, r.drop_last()) })
{
    let r0 = if s0 is Some { rh.drop_last() } else { rh };
    if 0 < rh.len() <= r.len() { assert(r.take(rh.len() as int).drop_last() =~= r.take(rh.len() - 1)); }
    if rh.len() < r.len() { assert(r.take(rh.len() as int + 1).drop_last() =~= r.take(rh.len() as int)); }
    if served(t0, a0, r0) { served_len(t0, a0, r0); }
    assert forall|r1: Seq<Option<batch_chObject>>| one_more(t0, a0, r0, t, a, r1) implies served(t, a, r1) by {
        let k = a0.len() as int;
        assert(cut(k));
        if t.len() == t0.len() + 1 { assert(t.take(t.len() - 1) =~= t0); assert(served(t.take(t.len() - 1), a.take(k), r1.take(k))); }
        else { assert(t.take(t.len() - 2) =~= t0); assert(served(t.take(t.len() - 2), a.take(k), r1.take(k))); }
    }
}
pub proof fn taken_skip()
    ensures forall|s: Option<batch_chObject>, r: Seq<Option<batch_chObject>>, n: int| 0 < n <= r.len() && r.take(n).last() == s ==> #[trigger] taken(s, r.skip(n)) == r.skip(n - 1),
        forall|r: Seq<Option<batch_chObject>>, n: int| 0 <= n < r.len() ==> #[trigger] r.drop_last().skip(n) == r.skip(n).drop_last(),
        forall|r: Seq<Option<batch_chObject>>, n: int| 0 <= n < r.len() ==> #[trigger] r.drop_last().take(n) == r.take(n)
{
    assert forall|s: Option<batch_chObject>, r: Seq<Option<batch_chObject>>, n: int| 0 < n <= r.len() && r.take(n).last() == s implies #[trigger] taken(s, r.skip(n)) == r.skip(n - 1) by { assert(taken(s, r.skip(n)) =~= r.skip(n - 1)); }
    assert forall|r: Seq<Option<batch_chObject>>, n: int| 0 <= n < r.len() implies #[trigger] r.drop_last().skip(n) == r.skip(n).drop_last() by { assert(r.drop_last().skip(n) =~= r.skip(n).drop_last()); }
    assert forall|r: Seq<Option<batch_chObject>>, n: int| 0 <= n < r.len() implies #[trigger] r.drop_last().take(n) == r.take(n) by { assert(r.drop_last().take(n) =~= r.take(n)); }
}
