package storage/badger
uses merkle, kv, filekv
ghost $out Out
ghost $lock Lk
ghost $pmaps Map<int, Map<Seq<u8>, Option<GAny>>>
ghost $kvs Map<Option<GAny>, Map<Seq<u8>, Seq<u8>>>
// the library failed in a way of its own
ghost $broke bool

// what is assumed of the badger library
extern github.com/dgraph-io/badger.DefaultOptions(path) (opt)
  ensures opt_path(opt) == path

extern github.com/dgraph-io/badger.Open(opt) (db, err)
  ensures err == GoErr::Nil ==> db is Some && db_path(db) == opt_path(opt)

extern github.com/dgraph-io/badger.DB.View(db, fn) (err)
  runs fn(tx)
  with tx is Some && tx_db(tx) == db && !tx_writable(tx)
  ensures !$ran ==> err != GoErr::Nil
  ensures $ran && $ferr != GoErr::Nil ==> err == $ferr

extern github.com/dgraph-io/badger.DB.Update(db, fn) (err)
  runs fn(tx)
  with tx is Some && tx_db(tx) == db && tx_writable(tx)
  ensures !$ran ==> err != GoErr::Nil
  ensures $ran && $ferr != GoErr::Nil ==> err == $ferr

extern github.com/dgraph-io/badger.Txn.Get(tx, key) (item, err)
  modifies $broke
  ensures old($broke) ==> $broke
  ensures !$broke && key_at($kvs, tx, key) ==> err == GoErr::Nil
  ensures !$broke && !key_at($kvs, tx, key) ==> err == named_err(github.com/dgraph-io/badger.ErrKeyNotFound)
  ensures err == GoErr::Nil ==> key_at($kvs, tx, key) && item is Some && item_val(item) == $kvs[tx][key]
  ensures err == named_err(github.com/dgraph-io/badger.ErrKeyNotFound) ==> !key_at($kvs, tx, key)
  ensures err != named_err(verifiable.ErrNoSuchKey)
  ensures $broke && !old($broke) ==> err != GoErr::Nil && err != named_err(github.com/dgraph-io/badger.ErrKeyNotFound)

extern github.com/dgraph-io/badger.Item.Value(item, fn) (err)
  modifies $broke
  runs fn(bb)
  with bb == item_val(item)
  ensures old($broke) ==> $broke
  ensures $ran ==> err == $ferr && $broke == old($broke)
  ensures !$ran ==> err != GoErr::Nil && err != named_err(verifiable.ErrNoSuchKey) && $broke

extern github.com/dgraph-io/badger.Txn.Set(tx, key, value) (err)
  modifies $kvs
  ensures err == GoErr::Nil ==> $kvs == old($kvs).insert(tx, old($kvs)[tx].insert(key, value))
  ensures err != GoErr::Nil ==> $kvs == old($kvs)

extern github.com/dgraph-io/badger.Txn.Delete(tx, key) (err)
  modifies $kvs
  ensures err == GoErr::Nil ==> $kvs == old($kvs).insert(tx, old($kvs)[tx].remove(key))
  ensures err != GoErr::Nil ==> $kvs == old($kvs)

// a read gives what the transaction holds under exactly that key, or says that there is nothing
func badgerReaderWriter.Get(db, ctx, key, value) (err)
  requires db is Some && db->0.Tx is Some && value is Some && !$broke
  let T = db->0.Tx
  modifies $out, $broke
  ensures [absent] !key_at($kvs, T, key) && !$broke ==> err == named_err(verifiable.ErrNoSuchKey)
  ensures [quiet] !key_at($kvs, T, key) ==> err != GoErr::Nil && $out == old($out)
  ensures [found] key_at($kvs, T, key) && !$broke ==> $out == Out::Bytes($kvs[T][key], err)
  ensures [honest] key_at($kvs, T, key) && $broke ==> err != GoErr::Nil && err != named_err(verifiable.ErrNoSuchKey)

// a write changes exactly that key, and nil deletes it
func badgerReaderWriter.Set(db, ctx, key, value) (err)
  requires db is Some && db->0.Tx is Some && $kvs.dom().contains(db->0.Tx)
  let T = db->0.Tx
  modifies $kvs
  ensures [written] err == GoErr::Nil && value is Some ==> key_at($kvs, T, key) && $kvs[T][key] == msg_enc(value->0)
  ensures [deleted] err == GoErr::Nil && value is None ==> !key_at($kvs, T, key)
  ensures [others] forall|c: Option<GAny>, k: Seq<u8>| c != T || k != key ==> #[trigger] key_at($kvs, c, k) == key_at(old($kvs), c, k) && (key_at($kvs, c, k) ==> $kvs[c][k] == old($kvs)[c][k])
  ensures [refused] err != GoErr::Nil ==> $kvs == old($kvs)

// the function runs at most once, in a read transaction on the handle the namespace has for good
func Storage.ExecuteReadOnly(bbs, ctx, namespace, f) (err)
  requires bbs is Some && f is Some && $lock is Free
  guarded dbs
  shared dbs, $pmaps
  invariant [handles] handles_ok($pmaps, bbs->0.dbs, bbs->0.Path)
  rely [kept] handles_kept(pre($pmaps), pre(bbs)->0.dbs, $pmaps, bbs->0.dbs)
  let K = hex_enc(namespace)
  modifies bbs, $pmaps, $lock, $calls_f
  ensures [once] $calls_f.len() <= 1 && (err == GoErr::Nil ==> $calls_f.len() == 1)
  ensures [passed] $calls_f.len() == 1 && $calls_f[0].1 != GoErr::Nil ==> err == $calls_f[0].1
  ensures [handle] $calls_f.len() == 1 ==> exists|tx: Option<GAny>| #[trigger] tx_db(tx) == $pmaps[bbs->0.dbs][K] && !tx_writable(tx) && $calls_f[0].0 == box_Option_badger_badgerReaderWriter_(Some(badger_badgerReaderWriter { Tx: tx }))
  ensures [own] $calls_f.len() == 1 ==> has_handle($pmaps, bbs->0.dbs, K) && db_path($pmaps[bbs->0.dbs][K]) == path_join(seq![old(bbs)->0.Path, K])
  ensures [released] $lock is Free

func Storage.ExecuteUpdate(bbs, ctx, namespace, f) (err)
  requires bbs is Some && f is Some && $lock is Free
  guarded dbs
  shared dbs, $pmaps
  invariant [handles] handles_ok($pmaps, bbs->0.dbs, bbs->0.Path)
  rely [kept] handles_kept(pre($pmaps), pre(bbs)->0.dbs, $pmaps, bbs->0.dbs)
  let K = hex_enc(namespace)
  modifies bbs, $pmaps, $lock, $calls_f
  ensures [once] $calls_f.len() <= 1 && (err == GoErr::Nil ==> $calls_f.len() == 1)
  ensures [passed] $calls_f.len() == 1 && $calls_f[0].1 != GoErr::Nil ==> err == $calls_f[0].1
  ensures [handle] $calls_f.len() == 1 ==> exists|tx: Option<GAny>| #[trigger] tx_db(tx) == $pmaps[bbs->0.dbs][K] && tx_writable(tx) && $calls_f[0].0 == box_Option_badger_badgerReaderWriter_(Some(badger_badgerReaderWriter { Tx: tx }))
  ensures [own] $calls_f.len() == 1 ==> has_handle($pmaps, bbs->0.dbs, K) && db_path($pmaps[bbs->0.dbs][K]) == path_join(seq![old(bbs)->0.Path, K])
  ensures [released] $lock is Free
