package verifiable
uses merkle, bpath

func BPath.Length(b) (r)
  ensures [len] r == bp_len(b)
  ensures [range] 0 <= r && r <= 256

func BPath.At(b, idx) (r)
  requires idx / 8 + 1 < b.len()
  ensures [bit] r == bp_at(b, idx)

func BPath.Slice(b, start, end) (r)
  requires start >= end || (end - start <= 256 && end <= 8 * (b.len() - 1) && end <= 0x1000)
  ensures [len] bp_len(r) == (if end <= start { 0 } else { end - start })
  ensures [canonical] bp_wf(r)
  ensures [bits] forall|q: int| 0 <= q && q < end - start ==> #[trigger] bp_at(r, q) == bp_at(b, start + q)
  loop 1
    vars rv: []byte; i: uint; j: uint
    invariant start < end && start <= i && i <= end && j == i - start
    invariant rv.len() == 2 + (end - start - 1) / 8 && (rv[0] as int) == (end - start) % 256
    invariant forall|q: int| 0 <= q && q < 8 * (rv.len() - 1) ==> #[trigger] bp_at(rv, q) == (q < j && bp_at(b, start + q))
    decreases end - i
    hint broadcast use or_bit, bp_upd;
    hint bp_zero_bits(rv);

func BPathJoin(a, b) (r)
  requires bp_wf(a) && bp_wf(b) && bp_len(a) + bp_len(b) <= 256
  ensures [len] bp_len(r) == bp_len(a) + bp_len(b)
  ensures [canonical] bp_wf(r)
  ensures [left] forall|q: int| 0 <= q && q < bp_len(a) ==> #[trigger] bp_at(r, q) == bp_at(a, q)
  ensures [right] forall|q: int| bp_len(a) <= q && q < bp_len(a) + bp_len(b) ==> #[trigger] bp_at(r, q) == bp_at(b, q - bp_len(a))
  loop 1
    vars rv: []byte; i: uint; j: uint
    invariant 0 <= i && i <= bp_len(a) && j == i && bp_len(a) + bp_len(b) >= 1
    invariant rv.len() == 2 + (bp_len(a) + bp_len(b) - 1) / 8 && (rv[0] as int) == (bp_len(a) + bp_len(b)) % 256
    invariant forall|q: int| 0 <= q && q < 8 * (rv.len() - 1) ==> #[trigger] bp_at(rv, q) == (q < j && bp_at(a, q))
    decreases bp_len(a) - i
    hint broadcast use or_bit, bp_upd;
    hint bp_zero_bits(rv);
  loop 2
    vars rv: []byte; i: uint; j: uint
    invariant 0 <= i && i <= bp_len(b) && j == bp_len(a) + i && bp_len(a) + bp_len(b) >= 1
    invariant rv.len() == 2 + (bp_len(a) + bp_len(b) - 1) / 8 && (rv[0] as int) == (bp_len(a) + bp_len(b)) % 256
    invariant forall|q: int| 0 <= q && q < 8 * (rv.len() - 1) ==> #[trigger] bp_at(rv, q) == (if q < bp_len(a) { bp_at(a, q) } else { q < j && bp_at(b, q - bp_len(a)) })
    decreases bp_len(b) - i
    hint broadcast use or_bit, bp_upd;

func BPathFromKey(key) (r)
  ensures [len] bp_len(r) == 256 && r.len() == 33
  ensures [canonical] bp_wf(r)
  ensures [bits] forall|q: int| 0 <= q && q < 256 ==> #[trigger] bp_at(r, q) == kbit(sha(key), q)
  ensures [bytes] r == seq![0u8] + sha(key)

func BPath.Str(b) (r)
  requires bp_wf(b)
  ensures [len] r.len() == bp_len(b)
  ensures [digits] forall|q: int| 0 <= q && q < bp_len(b) ==> #[trigger] r[q] == (if bp_at(b, q) { 49u8 } else { 48u8 })
  loop 1
    vars rv: string; i: uint
    invariant 0 <= i && i <= bp_len(b) && rv.len() == i
    invariant forall|q: int| 0 <= q && q < i ==> #[trigger] rv[q] == (if bp_at(b, q) { 49u8 } else { 48u8 })
    decreases bp_len(b) - i
