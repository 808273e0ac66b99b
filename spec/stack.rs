// uses: merkle, logtree
// The complete subtrees of a log of a given size, and the stack of their hashes.
// the largest power of two not above n
pub open spec fn top2(n: int) -> int { split(n + 1) }
pub open spec fn decomp(s: int, e: int) -> Seq<(int, int)> decreases e - s
{ if s >= e { Seq::empty() } else { let k = top2(e - s); if k < 1 || k > e - s { Seq::empty() } else { seq![(s, s + k)] + decomp(s + k, e) } } }
// the smallest power of two not below n
pub open spec fn cover(n: int) -> int { if n <= 1 { 1 } else { 2 * split(n) } }
// a range whose tree is made of complete subtrees: it starts at a multiple of its width, rounded up to a power of two
pub open spec fn aligned(s: int, e: int) -> bool { 0 <= s < e && s % cover(e - s) == 0 }
pub open spec fn rev<A>(s: Seq<A>) -> Seq<A> { Seq::new(s.len(), |i: int| s[s.len() - 1 - i]) }
pub proof fn top2_props(n: int) requires n >= 1 ensures is_p2(top2(n)), 1 <= top2(n) <= n, n < 2 * top2(n), is_p2(n) ==> top2(n) == n, !is_p2(n) ==> top2(n) == split(n)
{ split_props(n + 1); if is_p2(n) { split_uniq(n, n + 1); } else { split_props(n); assert(n >= 2) by { assert(is_p2(1)); } if n == 2 { assert(is_p2(2)) by { assert(is_p2(1)); } } 
    if n == 2 * split(n) { is_p2_dbl(split(n)); } split_uniq(split(n), n + 1); } }
pub proof fn top2_uniq(k: int, n: int) requires is_p2(k), k <= n, n < 2 * k, n >= 1 ensures top2(n) == k { split_uniq(k, n + 1); }
pub proof fn cover_props(n: int) requires n >= 1 ensures is_p2(cover(n)), n <= cover(n), cover(n) < 2 * n || n == 1, is_p2(n) ==> cover(n) == n
{ split_props(n); if n >= 2 { is_p2_dbl(split(n)); if is_p2(n) { split_p2(n); assert(2 * (n / 2) == n); } } }
// powers of two divide larger ones
pub proof fn p2_div(a: int, b: int) requires is_p2(a), is_p2(b), a <= b ensures b % a == 0 decreases b
{ if a == b { } else { p2_gap(a, b); assert(b % 2 == 0 && is_p2(b / 2)); p2_div(a, b / 2); assert(b == 2 * (b / 2)); mod_mul(a, b / 2, 2); } }
pub proof fn mod_mul(a: int, b: int, c: int) requires a > 0, b % a == 0 ensures (c * b) % a == 0
{ assert(b == a * (b / a)) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(b, a); } assert(c * b == (c * (b / a)) * a) by (nonlinear_arith) requires b == a * (b / a); vstd::arithmetic::div_mod::lemma_mod_multiples_basic(c * (b / a), a); }
pub proof fn mod_add(x: int, y: int, a: int) requires a > 0, x % a == 0, y % a == 0 ensures (x + y) % a == 0
{ vstd::arithmetic::div_mod::lemma_add_mod_noop(x, y, a); assert((x % a + y % a) % a == 0) by { vstd::arithmetic::div_mod::lemma_small_mod(0, a as nat); } }
pub proof fn mod_down(x: int, a: int, b: int) requires a > 0, b > 0, b % a == 0, x % b == 0 ensures x % a == 0
{ assert(x == b * (x / b)) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, b); } mod_mul(a, b, x / b); assert((x / b) * b == b * (x / b)) by (nonlinear_arith); }
pub proof fn align_sub(s: int, e: int, k: int)
    requires aligned(s, e), e - s >= 2, k == split(e - s)
    ensures aligned(s, s + k), aligned(s + k, e), cover(k) == k
{
    let n = e - s;
    split_props(n); cover_props(k); cover_props(n); cover_props(n - k);
    is_p2_dbl(k);
    p2_div(k, 2 * k); mod_down(s, k, 2 * k);
    let c = cover(n - k);
    assert(c <= k) by { if n - k > 1 { if c > k { p2_gap(k, c); } } }
    p2_div(c, k); mod_down(s, c, k); mod_add(s, k, c);
}
pub open spec fn all_aligned(r: Seq<(int, int)>, s: int, e: int) -> bool { forall|i: int| 0 <= i < r.len() ==> aligned(#[trigger] r[i].0, r[i].1) && s <= r[i].0 && r[i].1 <= e }
pub proof fn rpath_aligned(m: int, s: int, e: int)
    requires aligned(s, e), 0 <= m < e - s
    ensures all_aligned(rpath(m, s, e), s, e)
    decreases e - s
{
    let n = e - s;
    if n > 1 { split_props(n); let k = split(n); align_sub(s, e, k);
        if m < k { rpath_aligned(m, s, s + k); } else { rpath_aligned(m - k, s + k, e); } }
}
pub proof fn rsub_aligned(m: int, s: int, e: int, b: bool)
    requires aligned(s, e), 0 < m <= e - s
    ensures all_aligned(rsub(m, s, e, b), s, e)
    decreases e - s
{
    let n = e - s;
    if m < n { split_props(n); let k = split(n); align_sub(s, e, k);
        if m <= k { rsub_aligned(m, s, s + k, b); } else { rsub_aligned(m - k, s + k, e, false); } }
}
pub proof fn mod_sub(x: int, y: int, a: int) requires a > 0, x % a == 0, y % a == 0 ensures (x - y) % a == 0
{ vstd::arithmetic::div_mod::lemma_sub_mod_noop(x, y, a); vstd::arithmetic::div_mod::lemma_small_mod(0, a as nat); }
// the ranges of a decomposition are complete subtrees, starting with the first
pub open spec fn complete(a: int, b: int) -> bool { 0 <= a < b && is_p2(b - a) && a % (b - a) == 0 }
pub open spec fn all_complete(r: Seq<(int, int)>, s: int, e: int) -> bool { forall|i: int| 0 <= i < r.len() ==> complete(#[trigger] r[i].0, r[i].1) && s <= r[i].0 && r[i].1 <= e }
pub proof fn decomp_complete(s: int, e: int)
    requires 0 <= s <= e, s < e ==> aligned(s, e)
    ensures all_complete(decomp(s, e), s, e), s < e ==> decomp(s, e).len() > 0 && decomp(s, e)[0] == (s, s + top2(e - s)), s == e ==> decomp(s, e).len() == 0
    decreases e - s
{
    if s < e {
        let n = e - s; let k = top2(n);
        top2_props(n); cover_props(n);
        if is_p2(n) { assert(decomp(s + k, e) =~= Seq::empty()); }
        else { split_props(n); align_sub(s, e, k); decomp_complete(s + k, e); 
            p2_div(k, cover(n)); mod_down(s, k, cover(n));
            let t = decomp(s + k, e); let r = decomp(s, e);
            assert forall|i: int| 0 <= i < r.len() implies complete(#[trigger] r[i].0, r[i].1) && s <= r[i].0 && r[i].1 <= e by { if i > 0 { assert(r[i] == t[i - 1]); assert(complete(t[i - 1].0, t[i - 1].1)); } } }
    }
}
// what the last leaf's audit path reversed is
pub proof fn needed_is(s: int, e: int)
    requires 0 <= s <= e
    ensures rev(rpath(e - s, s, e + 1)) =~= decomp(s, e)
    decreases e - s
{
    let n = e - s + 1; let m = e - s;
    if s < e {
        split_props(n);
        let k = split(n);
        needed_is(s + k, e);
        let t = rpath(m - k, s + k, e + 1);
        assert(rpath(m, s, e + 1) == t.push((s, s + k)));
        assert(rev(t.push((s, s + k))) =~= seq![(s, s + k)] + rev(t));
    }
}
// dropping the lowest complete subtree
pub proof fn decomp_last(s: int, x: int, h: int)
    requires is_p2(h), x % (2 * h) == h, x >= h, s >= 0
    ensures decomp(s, s + x) =~= decomp(s, s + x - h).push((s + x - h, s + x))
    decreases x
{
    top2_props(x);
    is_p2_dbl(h);
    if x == h { assert(decomp(s + h, s + h) =~= Seq::empty()); assert(decomp(s, s) =~= Seq::empty()); }
    else {
        assert(x > 2 * h) by { if x <= 2 * h { if x == 2 * h { assert((2 * h) % (2 * h) == 0) by { vstd::arithmetic::div_mod::lemma_mod_self_0(2 * h); } } else { vstd::arithmetic::div_mod::lemma_small_mod(x as nat, (2 * h) as nat); } } }
        let k = top2(x);
        assert(k >= 2 * h) by { if k < 2 * h { p2_gap(k, 2 * h); } }
        p2_div(2 * h, k);
        assert((x - k) % (2 * h) == h) by { vstd::arithmetic::div_mod::lemma_sub_mod_noop(x, k, 2 * h); vstd::arithmetic::div_mod::lemma_small_mod(h as nat, (2 * h) as nat); }
        assert(x != k) by { if x == k { assert(h == 0); } }
        assert(x - k >= h) by { if x - k < h { vstd::arithmetic::div_mod::lemma_small_mod((x - k) as nat, (2 * h) as nat); } }
        decomp_last(s + k, x - k, h);
        top2_uniq(k, x - h);
        assert(decomp(s, s + x) == seq![(s, s + k)] + decomp(s + k, s + x));
        assert(decomp(s, s + x - h) == seq![(s, s + k)] + decomp(s + k, s + x - h));
    }
}
// folding the hashes of a decomposition from the right gives the tree hash
pub open spec fn foldr(h: Seq<Seq<u8>>, i: int, acc: Seq<u8>) -> Seq<u8> decreases i { if i <= 0 { acc } else { foldr(h, i - 1, node_hash(h[i - 1], acc)) } }
pub proof fn foldr_cons(x: Seq<u8>, h: Seq<Seq<u8>>, i: int, acc: Seq<u8>)
    requires 0 <= i <= h.len()
    ensures foldr(seq![x] + h, i + 1, acc) == node_hash(x, foldr(h, i, acc))
    decreases i
{ reveal_with_fuel(foldr, 2); assert((seq![x] + h)[i] == if i == 0 { x } else { h[i - 1] }); if i > 0 { foldr_cons(x, h, i - 1, node_hash(h[i - 1], acc)); } }
pub open spec fn foldstack(h: Seq<Seq<u8>>) -> Seq<u8> { foldr(h, h.len() - 1, h.last()) }
pub proof fn fold_decomp(d: Seq<Seq<u8>>, s: int, e: int)
    requires 0 <= s < e <= d.len()
    ensures foldstack(mths(d, decomp(s, e))) == mth(d.subrange(s, e)), decomp(s, e).len() > 0
    decreases e - s
{
    let n = e - s; let k = top2(n);
    top2_props(n);
    let t = decomp(s + k, e); let r = decomp(s, e);
    if is_p2(n) { assert(t =~= Seq::empty()); assert(mths(d, r) =~= seq![mth(d.subrange(s, e))]); }
    else {
        fold_decomp(d, s + k, e);
        split_props(n);
        let x = d.subrange(s, e);
        assert(x.subrange(0, k) =~= d.subrange(s, s + k)); assert(x.subrange(k, n) =~= d.subrange(s + k, e));
        let h = mths(d, t);
        assert(mths(d, r) =~= seq![mth(d.subrange(s, s + k))] + h);
        assert((seq![mth(d.subrange(s, s + k))] + h).last() == h.last());
        foldr_cons(mth(d.subrange(s, s + k)), h, h.len() - 1, h.last());
    }
}
pub proof fn mth_pair(d: Seq<Seq<u8>>, a: int, h: int)
    requires is_p2(h), 0 <= a, a + 2 * h <= d.len()
    ensures mth(d.subrange(a, a + 2 * h)) == node_hash(mth(d.subrange(a, a + h)), mth(d.subrange(a + h, a + 2 * h)))
{
    is_p2_dbl(h); split_p2(2 * h);
    let x = d.subrange(a, a + 2 * h);
    assert(x.subrange(0, h) =~= d.subrange(a, a + h)); assert(x.subrange(h, 2 * h) =~= d.subrange(a + h, a + 2 * h));
}
pub proof fn mths_prefix(d: Seq<Seq<u8>>, h: Seq<u8>, s: int, e: int)
    requires s == 0, 0 <= e <= d.len()
    ensures mths(d.push(h), decomp(s, e)) =~= mths(d, decomp(s, e))
{
    if e > 0 { assert(aligned(0, e)) by { cover_props(e); } }
    decomp_complete(0, e);
    let r = decomp(0, e);
    assert forall|i: int| 0 <= i < r.len() implies mth(#[trigger] d.push(h).subrange(r[i].0, r[i].1)) == mth(d.subrange(r[i].0, r[i].1)) by { assert(complete(r[i].0, r[i].1)); assert(d.push(h).subrange(r[i].0, r[i].1) =~= d.subrange(r[i].0, r[i].1)); }
}
// the stack while the last entry of e is being added: the subtree of width h that ends with it is on top
pub open spec fn part_stack(e: Seq<Seq<u8>>, h: int) -> Seq<Seq<u8>> { mths(e, decomp(0, e.len() - h)).push(mth(e.subrange(e.len() - h, e.len() as int))) }
pub proof fn part_start(d: Seq<Seq<u8>>, x: Seq<u8>)
    ensures mths(d, decomp(0, d.len() as int)).push(x) =~= part_stack(d.push(x), 1)
{ let e = d.push(x); mths_prefix(d, x, 0, d.len() as int); let t = e.subrange(e.len() - 1, e.len() as int); assert(t.len() == 1 && t[0] == x); assert(mth(t) == x); }
pub proof fn up_arith(m: int, h: int)
    requires h >= 1, m >= 1, m % h == 0, ((m - 1) / h) % 2 == 1
    ensures m % (2 * h) == 0, (m - h) % (2 * h) == h, (m - 1) / (2 * h) == ((m - 1) / h) / 2, 2 * h <= m
{
    let q = m / h;
    assert(m == h * q) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(m, h); }
    assert((m - 1) / h == q - 1) by { assert(m - 1 == h * (q - 1) + (h - 1)) by (nonlinear_arith) requires m == h * q; vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(m - 1, h, q - 1, h - 1); }
    let z = q / 2;
    assert(q == 2 * z);
    assert(m == (2 * h) * z) by (nonlinear_arith) requires m == h * q, q == 2 * z;
    assert(z >= 1) by { if z <= 0 { assert((2 * h) * z <= 0) by (nonlinear_arith) requires z <= 0, h >= 1; } }
    assert((2 * h) * z >= 2 * h) by (nonlinear_arith) requires z >= 1, h >= 1;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(m, 2 * h, z, 0);
    assert(m - h == (2 * h) * (z - 1) + h) by (nonlinear_arith) requires m == (2 * h) * z;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(m - h, 2 * h, z - 1, h);
    assert(m - 1 == (2 * h) * (z - 1) + (2 * h - 1)) by (nonlinear_arith) requires m == (2 * h) * z;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(m - 1, 2 * h, z - 1, 2 * h - 1);
}
pub proof fn part_step(e: Seq<Seq<u8>>, h: int)
    requires is_p2(h), e.len() >= 1, e.len() as int % h == 0, ((e.len() - 1) / h) % 2 == 1, h <= e.len()
    ensures
        e.len() as int % (2 * h) == 0, (e.len() - 1) / (2 * h) == ((e.len() - 1) / h) / 2, 2 * h <= e.len(), is_p2(2 * h),
        part_stack(e, h).len() >= 2,
        node_hash(part_stack(e, h)[part_stack(e, h).len() - 2], part_stack(e, h).last()) == mth(e.subrange(e.len() - 2 * h, e.len() as int)),
        part_stack(e, h).subrange(0, part_stack(e, h).len() - 2).push(mth(e.subrange(e.len() - 2 * h, e.len() as int))) =~= part_stack(e, 2 * h),
{
    let m = e.len() as int;
    up_arith(m, h); is_p2_dbl(h);
    decomp_last(0, m - h, h);
    assert(decomp(0, m - h) == decomp(0, m - h - h).push((m - h - h, m - h)));
    mth_pair(e, m - 2 * h, h);
}
pub proof fn part_done(e: Seq<Seq<u8>>, h: int)
    requires is_p2(h), e.len() >= 1, e.len() as int % h == 0, ((e.len() - 1) / h) % 2 == 0, h <= e.len()
    ensures foldstack(part_stack(e, h)) == mth(e), forall|a: int| #[trigger] complete(a, e.len() as int) ==> e.len() - a <= h
{
    let m = e.len() as int;
    let q = m / h;
    assert(m == h * q) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(m, h); }
    assert((m - 1) / h == q - 1) by { assert(m - 1 == h * (q - 1) + (h - 1)) by (nonlinear_arith) requires m == h * q; vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(m - 1, h, q - 1, h - 1); }
    let z = (q - 1) / 2;
    assert(q == 2 * z + 1);
    assert(m == (2 * h) * z + h) by (nonlinear_arith) requires m == h * q, q == 2 * z + 1;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(m, 2 * h, z, h);
    decomp_last(0, m, h);
    assert(mths(e, decomp(0, m)) =~= part_stack(e, h));
    fold_decomp(e, 0, m);
    assert(e.subrange(0, m) =~= e);
    is_p2_dbl(h);
    assert forall|a: int| #[trigger] complete(a, m) implies m - a <= h by {
        let w = m - a;
        if w > h {
            p2_gap(h, w); p2_div(2 * h, w);
            vstd::arithmetic::div_mod::lemma_mod_self_0(w);
            mod_add(a, w, w);
            mod_down(m, 2 * h, w);
        }
    }
}
pub proof fn decomp_step(s: int, e: int)
    requires aligned(s, e)
    ensures decomp(s, e) == seq![(s, s + top2(e - s))] + decomp(s + top2(e - s), e), s < s + top2(e - s) <= e, s + top2(e - s) < e ==> aligned(s + top2(e - s), e)
{ let n = e - s; top2_props(n); cover_props(n); if !is_p2(n) { split_props(n); assert(n >= 2) by { assert(is_p2(1)); } align_sub(s, e, top2(n)); } }
pub proof fn mths_push(d: Seq<Seq<u8>>, r: Seq<(int, int)>, x: (int, int)) ensures mths(d, r.push(x)) =~= mths(d, r).push(mth(d.subrange(x.0, x.1))) {}
// one round of the loop that completes subtrees, h being the width of the top of the stack
pub open spec fn part_at(e: Seq<Seq<u8>>, w: int, zz: int, n: int) -> bool { w % 2 == 0 && is_p2(w / 2) && w / 2 <= n + 1 && (n + 1) % (w / 2) == 0 && zz == n / (w / 2) && e.len() == n + 1 && n >= 0 }
pub proof fn part_round(e: Seq<Seq<u8>>, w: int, zz: int, n: int)
    ensures part_at(e, w, zz, n) && zz % 2 == 1 ==> part_at(e, 2 * w, zz / 2, n) && part_stack(e, w / 2).len() >= 2
            && node_hash(part_stack(e, w / 2)[part_stack(e, w / 2).len() - 2], part_stack(e, w / 2).last()) == mth(e.subrange(n + 1 - w, n + 1))
            && part_stack(e, w / 2).subrange(0, part_stack(e, w / 2).len() - 2).push(mth(e.subrange(n + 1 - w, n + 1))) == part_stack(e, w)
            && w <= n + 1 && is_p2(w) && zz / 2 < zz,
        part_at(e, w, zz, n) && zz % 2 == 0 ==> foldstack(part_stack(e, w / 2)) == mth(e) && forall|a: int| #[trigger] complete(a, n + 1) ==> n + 1 - a <= w / 2,
        forall|a: int| #[trigger] complete(a, n + 1) && n + 1 - a > w / 2 && is_p2(w) && w % 2 == 0 ==> n + 1 - a >= w
{
    if part_at(e, w, zz, n) {
        assert(2 * (w / 2) == w); assert(2 * w / 2 == w);
        if zz % 2 == 1 { part_step(e, w / 2); assert(part_stack(e, w / 2).subrange(0, part_stack(e, w / 2).len() - 2).push(mth(e.subrange(n + 1 - w, n + 1))) =~= part_stack(e, w)); is_p2_dbl(w / 2); assert(zz >= 1 && zz / 2 < zz) by { vstd::arithmetic::div_mod::lemma_div_pos_is_pos(n, w / 2); } }
        else { part_done(e, w / 2); }
    }
    assert forall|a: int| #[trigger] complete(a, n + 1) && n + 1 - a > w / 2 && is_p2(w) && w % 2 == 0 implies n + 1 - a >= w by { if n + 1 - a < w { if w >= 2 { assert(is_p2(w / 2)); p2_gap(n + 1 - a, w); } } }
}
