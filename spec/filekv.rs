// uses: kv
// A store of another library: handles, transactions on them, and what a transaction sees.
// The file or directory a handle was opened on.
pub uninterp spec fn db_path(db: Option<GAny>) -> Seq<u8>;
// The handle a transaction belongs to, and whether it may write.
pub uninterp spec fn tx_db(tx: Option<GAny>) -> Option<GAny>;
pub uninterp spec fn tx_writable(tx: Option<GAny>) -> bool;
// The part of a transaction's content that is found under a bucket name.
pub uninterp spec fn bucket_of(tx: Option<GAny>, name: Seq<u8>) -> Option<GAny>;
pub uninterp spec fn item_val(item: Option<GAny>) -> Seq<u8>;
pub uninterp spec fn opt_path(o: GAny) -> Seq<u8>;
pub type PHeap = Map<int, Map<Seq<u8>, Option<GAny>>>;
pub type KV = Map<Option<GAny>, Map<Seq<u8>, Seq<u8>>>;
//@fn path_join (x0: Seq<Seq<u8>>) -> Seq<u8>
pub open spec fn has_handle(pm: PHeap, dbs: int, k: Seq<u8>) -> bool { dbs != 0 && pm[dbs].dom().contains(k) }
// every open handle is on the file named after its key, below the directory
pub open spec fn handles_ok(pm: PHeap, dbs: int, dir: Seq<u8>) -> bool {
    &&& dbs >= 0
    &&& dbs != 0 ==> pm.dom().contains(dbs)
    &&& dbs != 0 ==> forall|k: Seq<u8>| #[trigger] pm[dbs].dom().contains(k) ==> pm[dbs][k] is Some && db_path(pm[dbs][k]) == path_join(seq![dir, k])
}
// a key that has a handle keeps that very handle
pub open spec fn handles_kept(pm0: PHeap, dbs0: int, pm: PHeap, dbs: int) -> bool {
    dbs0 != 0 ==> forall|k: Seq<u8>| #[trigger] pm0[dbs0].dom().contains(k) ==> has_handle(pm, dbs, k) && pm[dbs][k] == pm0[dbs0][k]
}
pub open spec fn key_at(kv: KV, b: Option<GAny>, k: Seq<u8>) -> bool { kv.dom().contains(b) && kv[b].dom().contains(k) }
// Different namespaces are kept by different handles, as long as their file names differ.
pub proof fn handles_apart(pm: PHeap, dbs: int, dir: Seq<u8>, m: Seq<u8>, n: Seq<u8>)
    requires handles_ok(pm, dbs, dir), m != n, has_handle(pm, dbs, hex_enc(m)), has_handle(pm, dbs, hex_enc(n)),
        hex_enc(m) != hex_enc(n) ==> path_join(seq![dir, hex_enc(m)]) != path_join(seq![dir, hex_enc(n)])
    ensures pm[dbs][hex_enc(m)] != pm[dbs][hex_enc(n)], db_path(pm[dbs][hex_enc(m)]) != db_path(pm[dbs][hex_enc(n)])
{
    hex_inj(m, n);
}
// A namespace keeps its handle: whatever others do between two uses, the second finds the first one's.
pub proof fn handle_stays(pm0: PHeap, d0: int, pm1: PHeap, d1: int, pm2: PHeap, d2: int, k: Seq<u8>)
    requires handles_kept(pm0, d0, pm1, d1), handles_kept(pm1, d1, pm2, d2)
    ensures handles_kept(pm0, d0, pm2, d2), has_handle(pm0, d0, k) ==> has_handle(pm2, d2, k) && pm2[d2][k] == pm0[d0][k]
{
    assert forall|j: Seq<u8>| d0 != 0 && #[trigger] pm0[d0].dom().contains(j) implies has_handle(pm2, d2, j) && pm2[d2][j] == pm0[d0][j] by {
        assert(has_handle(pm1, d1, j));
        assert(pm1[d1].dom().contains(j));
    }
}
