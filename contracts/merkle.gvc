package merkle
uses merkle

func LeafHash(b) (r)
  fresh r
  ensures [rfc6962] r == leaf_hash(b)
  ensures [len] r.len() == 32

func NodeHash(l, r) (h)
  fresh h
  ensures [rfc6962] h == node_hash(l, r)
  ensures [len] h.len() == 32

func CalcK(n) (k)
  hint if has(k) && is_p2(k) && n >= 2 && k < n && n <= 2 * k { split_uniq(k, n); }
  hint if has(k) && is_p2(k) { is_p2_dbl(k); }
  ensures [largest] k == split(n)
  ensures [p2] is_p2(k)
  ensures [range] 1 <= k <= 0x4000_0000_0000_0000
  loop 1
    vars k: int64
    invariant is_p2(k)
    invariant 1 <= k <= 0x4000_0000_0000_0000
    invariant n <= 2 ==> k == 1
    invariant n > 2 ==> k < n
    decreases 0x7fff_ffff_ffff_ffff - k
    hint is_p2_dbl(pre(k));
    hint p2_62(pre(k));

func IsPow2(n) (r)
  hint split_props(n + 1);
  hint if is_p2(n) && n >= 1 { split_uniq(n, n + 1); }
  ensures [exact] n >= 1 ==> r == is_p2(n)
  ensures [none] n <= 0 ==> !r

func Path(m, startN, endN) (r)
  requires 0 <= startN && startN < endN && 0 <= m && m < endN - startN
  fresh r
  decreases endN - startN
  hint split_props(endN - startN);
  ensures [rfc6962] r =~= rpath(m, startN, endN)

func SubProof(m, startN, endN, b) (r)
  requires 0 <= startN && startN < endN && 0 < m && m <= endN - startN
  fresh r
  decreases endN - startN
  hint split_props(endN - startN);
  ensures [rfc6962] r =~= rsub(m, startN, endN, b)

func GenerateMapDefaultLeafValues() (r)
  fresh r
  ensures [len] r.len() == 257
  ensures [defaults] forall|d: int| 0 <= d <= 256 ==> #[trigger] r[d] == dflt(d)
  loop 1
    vars rv: [][]byte; i: int
    invariant rv.len() == 257
    invariant -1 <= i && i <= 255
    invariant forall|d: int| i < d && d <= 256 ==> #[trigger] rv[d] == dflt(d)
    decreases i + 1

func ConstructMapKeyPath(key) (r)
  fresh r
  ensures [len] r.len() == 256
  ensures [bits] forall|i: int| 0 <= i < 256 ==> #[trigger] r[i] == kbit(sha(key), i)
  loop 1
    vars rv: []bool
    invariant rv.len() == 256
    invariant forall|q: int| 0 <= q < 8 * $i ==> #[trigger] rv[q] == kbit(sha(key), q)
    invariant forall|q: int| 8 * $i <= q && q < 256 ==> !#[trigger] rv[q]
  loop 2
    vars rv: []bool; j: uint; b: uint8; i: int
    invariant rv.len() == 256 && 0 <= j && j <= 8 && 0 <= i && i < 32 && b == sha(key)[i]
    invariant forall|q: int| 0 <= q < 8 * i ==> #[trigger] rv[q] == kbit(sha(key), q)
    invariant forall|q: int| 8 * i + 8 <= q && q < 256 ==> !#[trigger] rv[q]
    invariant forall|q: int| 8 * i <= q && q < 8 * i + 8 ==> #[trigger] rv[q] == (q >= 8 * i + 8 - j && kbit(sha(key), q))
    decreases 8 - j

global defaultLeafValues
  value dflts()
