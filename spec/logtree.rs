// uses: merkle
// RFC 6962 tree hash of a sequence of leaf hashes
pub open spec fn mth(d: Seq<Seq<u8>>) -> Seq<u8> decreases d.len()
{
    if d.len() == 0 { sha(Seq::empty()) } else if d.len() == 1 { d[0] } else {
        let k = split(d.len() as int);
        if k >= d.len() || k < 1 { Seq::empty() } else { node_hash(mth(d.subrange(0, k)), mth(d.subrange(k, d.len() as int))) }
    }
}
pub open spec fn hashes(d: Seq<Seq<u8>>) -> bool { forall|i: int| 0 <= i < d.len() ==> (#[trigger] d[i]).len() == 32 }
// the tree hashes of ranges of d
pub open spec fn mths(d: Seq<Seq<u8>>, r: Seq<(int, int)>) -> Seq<Seq<u8>> { Seq::new(r.len(), |i: int| mth(d.subrange(r[i].0, r[i].1))) }
pub open spec fn no_collision() -> bool { forall|a: Seq<u8>, b: Seq<u8>| #[trigger] sha(a) == #[trigger] sha(b) ==> a == b }

// RFC 6962 2.1.1: the root an audit path p for leaf m of a tree of n leaves folds to from the leaf hash; None when the length is wrong
pub open spec fn inc_fold(m: int, n: int, p: Seq<Seq<u8>>, leaf: Seq<u8>) -> Option<Seq<u8>> decreases n
{
    if n <= 1 { if p.len() == 0 { Some(leaf) } else { None } } else {
        let k = split(n);
        if p.len() == 0 || k >= n || k < 1 { None }
        else if m < k { match inc_fold(m, k, p.drop_last(), leaf) { Some(r) => Some(node_hash(r, p.last())), None => None } }
        else { match inc_fold(m - k, n - k, p.drop_last(), leaf) { Some(r) => Some(node_hash(p.last(), r)), None => None } }
    }
}
// RFC 6962 2.1.2: the old and new roots a consistency proof p between sizes m and n folds to; top says that the old root itself is known
pub open spec fn cons_fold(m: int, n: int, p: Seq<Seq<u8>>, top: bool, old: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> decreases n
{
    if m == n { if top { if p.len() == 0 { Some((old, old)) } else { None } } else { if p.len() == 1 { Some((p[0], p[0])) } else { None } } }
    else {
        let k = split(n);
        if n <= 1 || p.len() == 0 || k >= n || k < 1 { None }
        else if m <= k { match cons_fold(m, k, p.drop_last(), top, old) { Some(r) => Some((r.0, node_hash(r.1, p.last()))), None => None } }
        else { match cons_fold(m - k, n - k, p.drop_last(), false, old) { Some(r) => Some((node_hash(p.last(), r.0), node_hash(p.last(), r.1))), None => None } }
    }
}
// both roots at once, from node f of a row of n nodes: x collects only the left siblings, y all of them
pub open spec fn two_fold(f: int, n: int, p: Seq<Seq<u8>>, x: Seq<u8>, y: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> decreases n
{
    if n <= 1 { if p.len() == 0 { Some((x, y)) } else { None } } else {
        let k = split(n);
        if p.len() == 0 || k >= n || k < 1 { None }
        else if f < k { match two_fold(f, k, p.drop_last(), x, y) { Some(r) => Some((r.0, node_hash(r.1, p.last()))), None => None } }
        else { match two_fold(f - k, n - k, p.drop_last(), x, y) { Some(r) => Some((node_hash(p.last(), r.0), node_hash(p.last(), r.1))), None => None } }
    }
}
pub proof fn split_half(n: int) requires n > 2 ensures split(n) == 2 * split((n + 1) / 2), split(n) % 2 == 0, split(n) / 2 == split((n + 1) / 2), 1 <= split(n) < n, n <= 2 * split(n)
{ split_props(n); }
pub proof fn split_p2(k: int) requires is_p2(k), k >= 2 ensures split(2 * k) == k, split(k) == k / 2, split(k) < k
{ is_p2_dbl(k); split_uniq(k, 2 * k); split_uniq(k / 2, k); }

// one level up: node f of a row of n becomes node f/2 of a row of ceil(n/2); its sibling, if any, is the next path element
#[verifier::spinoff_prover]
pub proof fn inc_up(f: int, n: int, p: Seq<Seq<u8>>, r: Seq<u8>)
    requires 0 <= f < n, n >= 2
    ensures
        f % 2 == 0 && f == n - 1 ==> inc_fold(f, n, p, r) == inc_fold(f / 2, (n + 1) / 2, p, r),
        (f % 2 == 1 || f < n - 1) && p.len() == 0 ==> inc_fold(f, n, p, r).is_none(),
        f % 2 == 1 && p.len() > 0 ==> inc_fold(f, n, p, r) == inc_fold(f / 2, (n + 1) / 2, p.drop_first(), node_hash(p[0], r)),
        f % 2 == 0 && f < n - 1 && p.len() > 0 ==> inc_fold(f, n, p, r) == inc_fold(f / 2, (n + 1) / 2, p.drop_first(), node_hash(r, p[0])),
    decreases n
{
    let k = split(n);
    if n == 2 {
        assert(split(2) == 1);
        if p.len() > 0 { assert((p.drop_last().len() == 0) == (p.drop_first().len() == 0)); }
    } else {
        split_half(n);
        if p.len() > 0 {
            let q = p.drop_last();
            if q.len() > 0 { assert(q.drop_first() =~= p.drop_first().drop_last()); assert(q[0] == p[0]); assert(p.drop_first().last() == p.last()); }
            if f < k { inc_up(f, k, q, r); assert((k + 1) / 2 == k / 2); if k == 2 { assert(split(2) == 1); } }
            else if n - k >= 2 { inc_up(f - k, n - k, q, r); assert((f - k) / 2 == f / 2 - k / 2); assert((n - k + 1) / 2 == (n + 1) / 2 - k / 2); }
            else { assert(f == n - 1 && n % 2 == 1 && f % 2 == 0); assert((n + 1) / 2 - k / 2 == 1); assert(inc_fold(f - k, n - k, q, r) == inc_fold(0, 1, q, r)); }
        }
    }
}
#[verifier::spinoff_prover]
pub proof fn two_up(f: int, n: int, p: Seq<Seq<u8>>, x: Seq<u8>, y: Seq<u8>)
    requires 0 <= f < n, n >= 2
    ensures
        f % 2 == 0 && f == n - 1 ==> two_fold(f, n, p, x, y) == two_fold(f / 2, (n + 1) / 2, p, x, y),
        (f % 2 == 1 || f < n - 1) && p.len() == 0 ==> two_fold(f, n, p, x, y).is_none(),
        f % 2 == 1 && p.len() > 0 ==> two_fold(f, n, p, x, y) == two_fold(f / 2, (n + 1) / 2, p.drop_first(), node_hash(p[0], x), node_hash(p[0], y)),
        f % 2 == 0 && f < n - 1 && p.len() > 0 ==> two_fold(f, n, p, x, y) == two_fold(f / 2, (n + 1) / 2, p.drop_first(), x, node_hash(y, p[0])),
    decreases n
{
    let k = split(n);
    if n == 2 {
        assert(split(2) == 1);
        if p.len() > 0 { assert((p.drop_last().len() == 0) == (p.drop_first().len() == 0)); }
    } else {
        split_half(n);
        if p.len() > 0 {
            let q = p.drop_last();
            if q.len() > 0 { assert(q.drop_first() =~= p.drop_first().drop_last()); assert(q[0] == p[0]); assert(p.drop_first().last() == p.last()); }
            if f < k { two_up(f, k, q, x, y); assert((k + 1) / 2 == k / 2); if k == 2 { assert(split(2) == 1); } }
            else if n - k >= 2 { two_up(f - k, n - k, q, x, y); assert((f - k) / 2 == f / 2 - k / 2); assert((n - k + 1) / 2 == (n + 1) / 2 - k / 2); }
            else { assert(f == n - 1 && n % 2 == 1 && f % 2 == 0); assert((n + 1) / 2 - k / 2 == 1); assert(two_fold(f - k, n - k, q, x, y) == two_fold(0, 1, q, x, y)); }
        }
    }
}
pub open spec fn rest(p: Seq<Seq<u8>>, i: int) -> Seq<Seq<u8>> { p.subrange(i, p.len() as int) }
pub broadcast proof fn rest_all(p: Seq<Seq<u8>>) ensures #[trigger] p.subrange(0, p.len() as int) == p { assert(p.subrange(0, p.len() as int) =~= p); }
// after a left sibling has been folded in, the row climbs to the first odd node, then one more
pub open spec fn inc_climb(f: int, s: int, p: Seq<Seq<u8>>, r: Seq<u8>) -> Option<Seq<u8>> decreases f
{ if f <= 0 { None } else if f % 2 == 1 { inc_fold(f / 2, s / 2 + 1, p, r) } else { inc_climb(f / 2, s / 2, p, r) } }
pub open spec fn two_climb(f: int, s: int, p: Seq<Seq<u8>>, x: Seq<u8>, y: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> decreases f
{ if f <= 0 { None } else if f % 2 == 1 { two_fold(f / 2, s / 2 + 1, p, x, y) } else { two_climb(f / 2, s / 2, p, x, y) } }
pub proof fn inc_climb_is(f: int, s: int, p: Seq<Seq<u8>>, r: Seq<u8>)
    requires 0 < f <= s, f % 2 == 1 || f == s, p.len() > 0
    ensures inc_fold(f, s + 1, p, r) == inc_climb(f, s, p.drop_first(), node_hash(p[0], r))
    decreases f
{ inc_up(f, s + 1, p, r); if f % 2 == 0 { inc_climb_is(f / 2, s / 2, p, r); } }
pub proof fn two_climb_is(f: int, s: int, p: Seq<Seq<u8>>, x: Seq<u8>, y: Seq<u8>)
    requires 0 < f <= s, f % 2 == 1 || f == s, p.len() > 0
    ensures two_fold(f, s + 1, p, x, y) == two_climb(f, s, p.drop_first(), node_hash(p[0], x), node_hash(p[0], y))
    decreases f
{ two_up(f, s + 1, p, x, y); if f % 2 == 0 { two_climb_is(f / 2, s / 2, p, x, y); } }
// the next step of a fold at node f of the row 0..=s, from element i of the path
pub proof fn inc_step(f: int, s: int, p: Seq<Seq<u8>>, i: int, r: Seq<u8>)
    requires 0 <= f <= s, 1 <= s, 0 <= i <= p.len()
    ensures i == p.len() ==> inc_fold(f, s + 1, rest(p, i), r).is_none(),
        i < p.len() && (f % 2 == 1 || f == s) ==> inc_fold(f, s + 1, rest(p, i), r) == inc_climb(f, s, rest(p, i + 1), node_hash(p[i], r)),
        i < p.len() && f % 2 == 0 && f < s ==> inc_fold(f, s + 1, rest(p, i), r) == inc_fold(f / 2, s / 2 + 1, rest(p, i + 1), node_hash(r, p[i])),
    decreases f
{
    let w = rest(p, i);
    inc_up(f, s + 1, w, r);
    if i < p.len() { assert(w.drop_first() =~= rest(p, i + 1)); assert(w[0] == p[i]); if f % 2 == 1 || f == s { inc_climb_is(f, s, w, r); } }
    else if f % 2 == 0 && f == s { inc_step(f / 2, s / 2, p, i, r); }
}
pub proof fn two_step(f: int, s: int, p: Seq<Seq<u8>>, i: int, x: Seq<u8>, y: Seq<u8>)
    requires 0 <= f <= s, 1 <= s, 0 <= i <= p.len()
    ensures i == p.len() ==> two_fold(f, s + 1, rest(p, i), x, y).is_none(),
        i < p.len() && (f % 2 == 1 || f == s) ==> two_fold(f, s + 1, rest(p, i), x, y) == two_climb(f, s, rest(p, i + 1), node_hash(p[i], x), node_hash(p[i], y)),
        i < p.len() && f % 2 == 0 && f < s ==> two_fold(f, s + 1, rest(p, i), x, y) == two_fold(f / 2, s / 2 + 1, rest(p, i + 1), x, node_hash(y, p[i])),
    decreases f
{
    let w = rest(p, i);
    two_up(f, s + 1, w, x, y);
    if i < p.len() { assert(w.drop_first() =~= rest(p, i + 1)); assert(w[0] == p[i]); if f % 2 == 1 || f == s { two_climb_is(f, s, w, x, y); } }
    else if f % 2 == 0 && f == s { two_step(f / 2, s / 2, p, i, x, y); }
}
// when the old size is a power of two its root is the seed of the proof
pub proof fn cons_seed(m: int, n: int, p: Seq<Seq<u8>>, old: Seq<u8>)
    requires 0 < m <= n
    ensures is_p2(m) ==> cons_fold(m, n, p, true, old) == cons_fold(m, n, seq![old] + p, false, old),
        !is_p2(m) && m < n ==> cons_fold(m, n, p, true, old) == cons_fold(m, n, p, false, old)
    decreases n
{
    if m < n {
        split_props(n);
        let k = split(n);
        if is_p2(m) {
            split_largest(n, m);
            let q = seq![old] + p;
            if p.len() > 0 { assert(q.drop_last() =~= seq![old] + p.drop_last()); assert(q.last() == p.last()); cons_seed(m, k, p.drop_last(), old); }
            else { assert(q.drop_last() =~= Seq::<Seq<u8>>::empty()); lem_cons_short(m, k, q.drop_last(), old); }
        } else if p.len() > 0 {
            if m <= k { assert(m != k); cons_seed(m, k, p.drop_last(), old); }
        }
    } else { let q = seq![old] + p; if p.len() == 0 { assert(q[0] == old); } }
}
pub proof fn lem_cons_short(m: int, n: int, p: Seq<Seq<u8>>, old: Seq<u8>) requires 0 < m <= n, p.len() == 0 ensures cons_fold(m, n, p, false, old).is_none() {}
// even sizes: one level up
pub proof fn cons_up(m: int, n: int, p: Seq<Seq<u8>>, old: Seq<u8>)
    requires 0 < m <= n, m % 2 == 0
    ensures cons_fold(m, n, p, false, old) == cons_fold(m / 2, (n + 1) / 2, p, false, old)
    decreases n
{
    if m == n { } else {
        split_half(n);
        let k = split(n);
        assert(m / 2 < (n + 1) / 2);
        if p.len() > 0 {
            if m <= k { cons_up(m, k, p.drop_last(), old); assert((k + 1) / 2 == k / 2); }
            else { cons_up(m - k, n - k, p.drop_last(), old); assert((m - k) / 2 == m / 2 - k / 2); assert((n - k + 1) / 2 == (n + 1) / 2 - k / 2); }
        }
    }
}
// odd sizes: the seed is a node of the bottom row
pub proof fn cons_two(m: int, n: int, p: Seq<Seq<u8>>, old: Seq<u8>)
    requires 0 < m, m < n || (m == 1 && n == 1), m % 2 == 1
    ensures p.len() == 0 ==> cons_fold(m, n, p, false, old).is_none(),
        p.len() > 0 ==> cons_fold(m, n, p, false, old) == two_fold(m - 1, n, p.drop_first(), p[0], p[0])
    decreases n
{
    if m < n {
        split_props(n);
        let k = split(n);
        if p.len() == 1 {
            if m <= k { lem_cons_short(m, k, p.drop_last(), old); } else { lem_cons_short(m - k, n - k, p.drop_last(), old); }
            assert(p.drop_first().len() == 0);
        } else if p.len() > 1 {
            let q = p.drop_last();
            assert(q.drop_first() =~= p.drop_first().drop_last()); assert(q[0] == p[0]); assert(p.drop_first().last() == p.last());
            if m <= k { cons_two(m, k, q, old); } else { cons_two(m - k, n - k, q, old); }
        }
    }
}
pub proof fn node_inj(l: Seq<u8>, r: Seq<u8>, l2: Seq<u8>, r2: Seq<u8>)
    requires no_collision(), node_hash(l, r) == node_hash(l2, r2), l.len() == l2.len()
    ensures l == l2, r == r2
{
    let a = seq![1u8] + l + r; let b = seq![1u8] + l2 + r2;
    assert(sha(a) == sha(b));
    assert(a == b);
    assert(a.len() == 1 + l.len() + r.len() && b.len() == 1 + l2.len() + r2.len());
    assert forall|i: int| 0 <= i < l.len() implies l[i] == l2[i] by { assert(a[1 + i] == l[i] && b[1 + i] == l2[i]); }
    assert forall|i: int| 0 <= i < r.len() implies r[i] == r2[i] by { assert(a[1 + l.len() + i] == r[i] && b[1 + l.len() + i] == r2[i]); }
    assert(l =~= l2); assert(r =~= r2);
}
pub proof fn mth_len(d: Seq<Seq<u8>>) requires hashes(d) ensures mth(d).len() == 32 { split_props(d.len() as int); }
pub proof fn hashes_sub(d: Seq<Seq<u8>>, a: int, b: int) requires hashes(d), 0 <= a <= b <= d.len() ensures hashes(d.subrange(a, b)) {}
pub proof fn inc_len(m: int, n: int, p: Seq<Seq<u8>>, leaf: Seq<u8>) requires 0 <= m < n, leaf.len() == 32 ensures inc_fold(m, n, p, leaf) matches Some(r) ==> r.len() == 32
{ }
// Soundness: a proof that folds to the true head proves the entry at that index.
pub proof fn inclusion_sound(d: Seq<Seq<u8>>, m: int, p: Seq<Seq<u8>>, leaf: Seq<u8>)
    requires no_collision(), hashes(d), hashes(p), leaf.len() == 32, 0 <= m < d.len(), inc_fold(m, d.len() as int, p, leaf) == Some(mth(d))
    ensures leaf == d[m]
    decreases d.len()
{
    let n = d.len() as int;
    if n > 1 {
        split_props(n);
        let k = split(n);
        let a = d.subrange(0, k); let b = d.subrange(k, n); let q = p.drop_last();
        hashes_sub(d, 0, k); hashes_sub(d, k, n); mth_len(a); mth_len(b);
        if m < k {
            let r = inc_fold(m, k, q, leaf)->Some_0;
            inc_len(m, k, q, leaf);
            node_inj(r, p.last(), mth(a), mth(b));
            inclusion_sound(a, m, q, leaf);
        } else {
            let r = inc_fold(m - k, n - k, q, leaf)->Some_0;
            node_inj(p.last(), r, mth(a), mth(b));
            inclusion_sound(b, m - k, q, leaf);
        }
    }
}
// Completeness: the RFC 6962 audit path folds to the head.
pub proof fn rpath_shift(m: int, s: int, e: int, d: Seq<Seq<u8>>, c: int, x: int)
    requires 0 <= c, c <= s, s <= e, e <= x, x <= d.len(), 0 <= m < e - s
    ensures mths(d, rpath(m, s, e)) =~= mths(d.subrange(c, x), rpath(m, s - c, e - c)), rpath(m, s, e).len() == rpath(m, s - c, e - c).len()
    decreases e - s
{
    let n = e - s; let dd = d.subrange(c, x);
    if n > 1 {
        split_props(n);
        let k = split(n);
        let r = rpath(m, s, e); let r2 = rpath(m, s - c, e - c);
        if m < k { rpath_shift(m, s, s + k, d, c, x); assert(dd.subrange(s + k - c, e - c) =~= d.subrange(s + k, e));
            assert(r =~= rpath(m, s, s + k).push((s + k, e))); assert(r2 =~= rpath(m, s - c, s + k - c).push((s + k - c, e - c)));
            assert forall|i: int| 0 <= i < r.len() implies mths(d, r)[i] == mths(dd, r2)[i] by { if i < r.len() - 1 { assert(mths(d, rpath(m, s, s + k))[i] == mths(dd, rpath(m, s - c, s + k - c))[i]); } }
        } else { rpath_shift(m - k, s + k, e, d, c, x); assert(dd.subrange(s - c, s + k - c) =~= d.subrange(s, s + k));
            assert(r =~= rpath(m - k, s + k, e).push((s, s + k))); assert(r2 =~= rpath(m - k, s + k - c, e - c).push((s - c, s + k - c)));
            assert forall|i: int| 0 <= i < r.len() implies mths(d, r)[i] == mths(dd, r2)[i] by { if i < r.len() - 1 { assert(mths(d, rpath(m - k, s + k, e))[i] == mths(dd, rpath(m - k, s + k - c, e - c))[i]); } }
        }
    }
}
pub proof fn inclusion_complete(d: Seq<Seq<u8>>, m: int)
    requires 0 <= m < d.len()
    ensures inc_fold(m, d.len() as int, mths(d, rpath(m, 0, d.len() as int)), d[m]) == Some(mth(d))
    decreases d.len()
{
    let n = d.len() as int;
    if n > 1 {
        split_props(n);
        let k = split(n);
        let a = d.subrange(0, k); let b = d.subrange(k, n);
        let p = mths(d, rpath(m, 0, n));
        if m < k {
            inclusion_complete(a, m);
            rpath_shift(m, 0, k, d, 0, k);
            assert(p.drop_last() =~= mths(d, rpath(m, 0, k)));
            assert(p.last() == mth(b));
            assert(a[m] == d[m]);
        } else {
            inclusion_complete(b, m - k);
            rpath_shift(m - k, k, n, d, k, n);
            assert(p.drop_last() =~= mths(d, rpath(m - k, k, n)));
            assert(p.last() == mth(a));
            assert(b[m - k] == d[m]);
        }
    }
}
// Soundness of consistency: a proof that folds to the true later head proves the earlier head.
pub proof fn consistency_sound(d: Seq<Seq<u8>>, m: int, p: Seq<Seq<u8>>, top: bool, old: Seq<u8>)
    requires no_collision(), hashes(d), hashes(p), old.len() == 32, 0 < m <= d.len(),
        cons_fold(m, d.len() as int, p, top, old) matches Some(r) && r.1 == mth(d)
    ensures cons_fold(m, d.len() as int, p, top, old)->Some_0.0 == mth(d.subrange(0, m))
    decreases d.len()
{
    let n = d.len() as int;
    if m == n { assert(d.subrange(0, n) =~= d); }
    else {
        split_props(n);
        let k = split(n);
        let a = d.subrange(0, k); let b = d.subrange(k, n); let q = p.drop_last();
        hashes_sub(d, 0, k); hashes_sub(d, k, n); mth_len(a); mth_len(b);
        if m <= k {
            let r = cons_fold(m, k, q, top, old)->Some_0;
            cons_len(m, k, q, top, old);
            node_inj(r.1, p.last(), mth(a), mth(b));
            consistency_sound(a, m, q, top, old);
            assert(a.subrange(0, m) =~= d.subrange(0, m));
        } else {
            let r = cons_fold(m - k, n - k, q, false, old)->Some_0;
            node_inj(p.last(), r.1, mth(a), mth(b));
            consistency_sound(b, m - k, q, false, old);
            let e = d.subrange(0, m);
            split_props(m);
            split_prefix(m, n);
            assert(e.subrange(0, k) =~= a);
            assert(e.subrange(k, m) =~= b.subrange(0, m - k));
        }
    }
}
pub proof fn cons_len(m: int, n: int, p: Seq<Seq<u8>>, top: bool, old: Seq<u8>)
    requires 0 < m <= n, hashes(p), old.len() == 32
    ensures cons_fold(m, n, p, top, old) matches Some(r) ==> r.0.len() == 32 && r.1.len() == 32
    decreases n
{ if m < n && p.len() > 0 { split_props(n); let k = split(n); if m <= k { cons_len(m, k, p.drop_last(), top, old); } } }
pub proof fn split_prefix(m: int, n: int) requires split(n) < m <= n, n >= 2 ensures split(m) == split(n)
{ split_props(n); if m >= 2 { split_uniq(split(n), m); } else { } }
pub proof fn rsub_shift(m: int, s: int, e: int, top: bool, d: Seq<Seq<u8>>, c: int, x: int)
    requires 0 <= c, c <= s, s <= e, e <= x, x <= d.len(), 0 < m <= e - s
    ensures mths(d, rsub(m, s, e, top)) =~= mths(d.subrange(c, x), rsub(m, s - c, e - c, top))
    decreases e - s
{
    let n = e - s; let dd = d.subrange(c, x);
    let r = rsub(m, s, e, top); let r2 = rsub(m, s - c, e - c, top);
    if m == n { assert(dd.subrange(s - c, e - c) =~= d.subrange(s, e)); assert(mths(d, r) =~= mths(dd, r2)); }
    else {
        split_props(n);
        let k = split(n);
        if m <= k { rsub_shift(m, s, s + k, top, d, c, x); assert(dd.subrange(s + k - c, e - c) =~= d.subrange(s + k, e));
            let t = rsub(m, s, s + k, top); let t2 = rsub(m, s - c, s + k - c, top);
            assert(r =~= t.push((s + k, e))); assert(r2 =~= t2.push((s + k - c, e - c)));
            assert(mths(d, t).len() == t.len() && mths(dd, t2).len() == t2.len());
            assert forall|i: int| 0 <= i < r.len() implies mths(d, r)[i] == mths(dd, r2)[i] by { if i < r.len() - 1 { assert(mths(d, t)[i] == mths(dd, t2)[i]); } }
        } else { rsub_shift(m - k, s + k, e, false, d, c, x); assert(dd.subrange(s - c, s + k - c) =~= d.subrange(s, s + k));
            let t = rsub(m - k, s + k, e, false); let t2 = rsub(m - k, s + k - c, e - c, false);
            assert(r =~= t.push((s, s + k))); assert(r2 =~= t2.push((s - c, s + k - c)));
            assert(mths(d, t).len() == t.len() && mths(dd, t2).len() == t2.len());
            assert forall|i: int| 0 <= i < r.len() implies mths(d, r)[i] == mths(dd, r2)[i] by { if i < r.len() - 1 { assert(mths(d, t)[i] == mths(dd, t2)[i]); } }
        }
    }
}
// Completeness: the RFC 6962 consistency proof folds to both heads.
pub proof fn consistency_complete(d: Seq<Seq<u8>>, m: int, top: bool)
    requires 0 < m <= d.len()
    ensures cons_fold(m, d.len() as int, mths(d, rsub(m, 0, d.len() as int, top)), top, mth(d.subrange(0, m))) == Some((mth(d.subrange(0, m)), mth(d)))
    decreases d.len()
{
    consistency_complete2(d, m, top, mth(d.subrange(0, m)));
}
pub proof fn consistency_complete2(d: Seq<Seq<u8>>, m: int, top: bool, old: Seq<u8>)
    requires 0 < m <= d.len(), top ==> old == mth(d.subrange(0, m))
    ensures cons_fold(m, d.len() as int, mths(d, rsub(m, 0, d.len() as int, top)), top, old) == Some((mth(d.subrange(0, m)), mth(d)))
    decreases d.len()
{
    let n = d.len() as int;
    let p = mths(d, rsub(m, 0, n, top));
    if m == n { assert(d.subrange(0, n) =~= d); }
    else {
        split_props(n);
        let k = split(n);
        let a = d.subrange(0, k); let b = d.subrange(k, n);
        if m <= k {
            assert(a.subrange(0, m) =~= d.subrange(0, m));
            consistency_complete2(a, m, top, old);
            rsub_shift(m, 0, k, top, d, 0, k);
            assert(p.drop_last() =~= mths(d, rsub(m, 0, k, top)));
            assert(p.last() == mth(b));
        } else {
            consistency_complete2(b, m - k, false, old);
            rsub_shift(m - k, k, n, false, d, k, n);
            assert(p.drop_last() =~= mths(d, rsub(m - k, k, n, false)));
            assert(p.last() == mth(a));
            let e = d.subrange(0, m);
            split_prefix(m, n); split_props(m);
            assert(e.subrange(0, k) =~= a);
            assert(e.subrange(k, m) =~= b.subrange(0, m - k));
        }
    }
}
