package storage/bolt
uses merkle, kv, filekv
ghost $out Out
ghost $lock Lk
ghost $pmaps Map<int, Map<Seq<u8>, Option<GAny>>>
ghost $kvs Map<Option<GAny>, Map<Seq<u8>, Seq<u8>>>

// what is assumed of the bbolt library
extern go.etcd.io/bbolt.Open(path, mode, options) (db, err)
  ensures err == GoErr::Nil ==> db is Some && db_path(db) == path

extern go.etcd.io/bbolt.DB.View(db, fn) (err)
  runs fn(tx)
  with tx is Some && tx_db(tx) == db && !tx_writable(tx)
  ensures !$ran ==> err != GoErr::Nil
  ensures $ran && $ferr != GoErr::Nil ==> err == $ferr

extern go.etcd.io/bbolt.DB.Update(db, fn) (err)
  runs fn(tx)
  with tx is Some && tx_db(tx) == db && tx_writable(tx)
  ensures !$ran ==> err != GoErr::Nil
  ensures $ran && $ferr != GoErr::Nil ==> err == $ferr

extern go.etcd.io/bbolt.Tx.Bucket(tx, name) (b)
  ensures b == (if $kvs.dom().contains(bucket_of(tx, name)) { bucket_of(tx, name) } else { None })
  ensures bucket_of(tx, name) is Some

extern go.etcd.io/bbolt.Tx.CreateBucketIfNotExists(tx, name) (b, err)
  modifies $kvs
  ensures bucket_of(tx, name) is Some
  ensures err == GoErr::Nil ==> b == bucket_of(tx, name) && $kvs == (if old($kvs).dom().contains(b) { old($kvs) } else { old($kvs).insert(b, Map::empty()) })
  ensures err != GoErr::Nil ==> $kvs == old($kvs)

extern go.etcd.io/bbolt.Bucket.Get(b, key) (v)
  ensures isnil(v) <==> !key_at($kvs, b, key)
  ensures key_at($kvs, b, key) ==> v == $kvs[b][key]

extern go.etcd.io/bbolt.Bucket.Put(b, key, value) (err)
  modifies $kvs
  ensures err == GoErr::Nil ==> $kvs == old($kvs).insert(b, old($kvs)[b].insert(key, value))
  ensures err != GoErr::Nil ==> $kvs == old($kvs)

extern go.etcd.io/bbolt.Bucket.Delete(b, key) (err)
  modifies $kvs
  ensures err == GoErr::Nil ==> $kvs == old($kvs).insert(b, old($kvs)[b].remove(key))
  ensures err != GoErr::Nil ==> $kvs == old($kvs)

// a read gives what the transaction holds under exactly that key, or says that there is nothing
func boltReaderWriter.Get(db, ctx, key, value) (err)
  requires db is Some && db->0.Tx is Some && value is Some
  let B = bucket_of(db->0.Tx, lit("root"))
  modifies $out
  ensures [absent] !key_at($kvs, B, key) ==> err == named_err(verifiable.ErrNoSuchKey) && $out == old($out)
  ensures [found] key_at($kvs, B, key) ==> $out == Out::Bytes($kvs[B][key], err)

// a write changes exactly that key, and nil deletes it
func boltReaderWriter.Set(db, ctx, key, value) (err)
  requires db is Some && db->0.Tx is Some
  let B = bucket_of(db->0.Tx, lit("root"))
  modifies $kvs
  ensures [written] err == GoErr::Nil && value is Some ==> key_at($kvs, B, key) && $kvs[B][key] == msg_enc(value->0)
  ensures [deleted] err == GoErr::Nil && value is None ==> !key_at($kvs, B, key)
  ensures [others] forall|c: Option<GAny>, k: Seq<u8>| c != B || k != key ==> #[trigger] key_at($kvs, c, k) == key_at(old($kvs), c, k) && (key_at($kvs, c, k) ==> $kvs[c][k] == old($kvs)[c][k])
  ensures [refused] err != GoErr::Nil ==> forall|k: Seq<u8>| #[trigger] key_at($kvs, B, k) == key_at(old($kvs), B, k) && (key_at($kvs, B, k) ==> $kvs[B][k] == old($kvs)[B][k])

// the function runs at most once, in a read transaction on the handle the namespace has for good
func Storage.ExecuteReadOnly(bbs, ctx, namespace, f) (err)
  requires bbs is Some && f is Some && $lock is Free
  guarded dbs
  shared dbs, $pmaps
  invariant [handles] handles_ok($pmaps, bbs->0.dbs, bbs->0.Path)
  rely [kept] handles_kept(pre($pmaps), pre(bbs)->0.dbs, $pmaps, bbs->0.dbs)
  let K = hex_enc(namespace)
  modifies bbs, $pmaps, $lock, $calls_f
  ensures [once] $calls_f.len() <= 1 && (err == GoErr::Nil ==> $calls_f.len() == 1)
  ensures [passed] $calls_f.len() == 1 && $calls_f[0].1 != GoErr::Nil ==> err == $calls_f[0].1
  ensures [handle] $calls_f.len() == 1 ==> exists|tx: Option<GAny>| #[trigger] tx_db(tx) == $pmaps[bbs->0.dbs][K] && !tx_writable(tx) && $calls_f[0].0 == box_Option_bolt_boltReaderWriter_(Some(bolt_boltReaderWriter { Tx: tx }))
  ensures [own] $calls_f.len() == 1 ==> has_handle($pmaps, bbs->0.dbs, K) && db_path($pmaps[bbs->0.dbs][K]) == path_join(seq![old(bbs)->0.Path, K])
  ensures [released] $lock is Free

func Storage.ExecuteUpdate(bbs, ctx, namespace, f) (err)
  requires bbs is Some && f is Some && $lock is Free
  guarded dbs
  shared dbs, $pmaps
  invariant [handles] handles_ok($pmaps, bbs->0.dbs, bbs->0.Path)
  rely [kept] handles_kept(pre($pmaps), pre(bbs)->0.dbs, $pmaps, bbs->0.dbs)
  let K = hex_enc(namespace)
  modifies bbs, $pmaps, $lock, $calls_f
  ensures [once] $calls_f.len() <= 1 && (err == GoErr::Nil ==> $calls_f.len() == 1)
  ensures [passed] $calls_f.len() == 1 && $calls_f[0].1 != GoErr::Nil ==> err == $calls_f[0].1
  ensures [handle] $calls_f.len() == 1 ==> exists|tx: Option<GAny>| #[trigger] tx_db(tx) == $pmaps[bbs->0.dbs][K] && tx_writable(tx) && $calls_f[0].0 == box_Option_bolt_boltReaderWriter_(Some(bolt_boltReaderWriter { Tx: tx }))
  ensures [own] $calls_f.len() == 1 ==> has_handle($pmaps, bbs->0.dbs, K) && db_path($pmaps[bbs->0.dbs][K]) == path_join(seq![old(bbs)->0.Path, K])
  ensures [released] $lock is Free
