// uses: kv
//@type storage/memory.memoryThing
// The store of the in-memory backend: namespace (as text) -> identity of its map.
pub type MHeap = Map<int, Map<Seq<u8>, int>>;
pub type BHeap = Map<int, Map<Seq<u8>, Option<Seq<u8>>>>;
pub open spec fn ns_map(mm: MHeap, data: int, k: Seq<u8>) -> int
{ if data != 0 && mm[data].dom().contains(k) { mm[data][k] } else { 0 } }
// every namespace has its own map
pub open spec fn maps_apart(mm: MHeap, bm: BHeap, data: int) -> bool {
    &&& data >= 0
    &&& data != 0 ==> mm.dom().contains(data)
    &&& data != 0 ==> forall|k: Seq<u8>| #[trigger] mm[data].dom().contains(k) ==> mm[data][k] > 0 && bm.dom().contains(mm[data][k])
    &&& data != 0 ==> forall|k: Seq<u8>, l: Seq<u8>| #[trigger] mm[data].dom().contains(k) && #[trigger] mm[data].dom().contains(l) && mm[data][k] == mm[data][l] ==> k == l
}
