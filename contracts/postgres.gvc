package storage/postgres
uses merkle, kv, filekv, pgsql
ghost $out Out
ghost $kvs Map<Option<GAny>, Map<Seq<u8>, Seq<u8>>>
ghost $broke bool
ghost $lock Lk
// the mutex held while a transaction uses the connection
ghost $lock_txMutex Lk
ghost $smaps Map<int, Map<Seq<u8>, Seq<u8>>>
// what has become of every transaction begun, and the tables that exist
ghost $pgtx Map<Option<GAny>, TxSt>
ghost $tables Set<Seq<u8>>

// what is assumed of the postgres library and server; a connection carries one transaction at a
// time, so all of this is for the holder of the connection only
extern github.com/jackc/pgx/v5/pgxpool.Conn.Begin(conn, ctx) (tx, err)
  requires $lock_txMutex is Excl
  requires none_open($pgtx, conn)
  modifies $pgtx
  ensures err == GoErr::Nil ==> tx is Some && tx_db(tx) == conn && !old($pgtx).dom().contains(tx) && $pgtx == old($pgtx).insert(tx, TxSt::Open(Set::empty(), Set::empty()))
  ensures err != GoErr::Nil ==> $pgtx == old($pgtx)

extern github.com/jackc/pgx/v5.Tx.Commit(tx, ctx) (err)
  requires $lock_txMutex is Excl
  modifies $pgtx, $tables
  ensures err == GoErr::Nil ==> tx_open(old($pgtx), tx) && $pgtx == old($pgtx).insert(tx, TxSt::Committed) && $tables == old($tables).union(old($pgtx)[tx]->1)
  ensures err != GoErr::Nil ==> $tables == old($tables) && $pgtx == (if tx_open(old($pgtx), tx) { old($pgtx).insert(tx, TxSt::Aborted) } else { old($pgtx) })

extern github.com/jackc/pgx/v5.Tx.Rollback(tx, ctx) (err)
  requires $lock_txMutex is Excl
  modifies $pgtx
  ensures $pgtx == (if tx_open(old($pgtx), tx) { old($pgtx).insert(tx, TxSt::Aborted) } else { old($pgtx) })

extern github.com/jackc/pgx/v5.Tx.QueryRow(tx, ctx, sql, args) (row)
  requires $lock_txMutex is Excl
  ensures forall|t: Seq<u8>, k: Seq<u8>| #![trigger bucket_of(tx, t), box_Seq_u8_(k)] sql =~= sql_get(t) && args =~= seq![box_Seq_u8_(k)] ==> row_first(row) == (if key_at($kvs, bucket_of(tx, t), k) { Some($kvs[bucket_of(tx, t)][k]) } else { None })

extern github.com/jackc/pgx/v5.Tx.Exec(tx, ctx, sql, args) (tag, err)
  requires $lock_txMutex is Excl
  modifies $kvs, $pgtx
  ensures err != GoErr::Nil ==> $kvs == old($kvs) && $pgtx == old($pgtx)
  ensures forall|t: Seq<u8>| #![trigger sha(t)] err == GoErr::Nil && sql =~= sql_create(table_of(t)) && args.len() == 0 && tx_open(old($pgtx), tx) ==> $kvs == old($kvs) && $pgtx == old($pgtx).insert(tx, TxSt::Open(old($pgtx)[tx]->0, old($pgtx)[tx]->1.insert(table_of(t))))
  ensures forall|t: Seq<u8>| #![trigger sha(t)] err == GoErr::Nil && sql =~= sql_lock(table_of(t)) && args.len() == 0 && tx_open(old($pgtx), tx) ==> $kvs == old($kvs) && $pgtx == old($pgtx).insert(tx, TxSt::Open(old($pgtx)[tx]->0.insert(table_of(t)), old($pgtx)[tx]->1))
  ensures forall|t: Seq<u8>, k: Seq<u8>| #![trigger bucket_of(tx, t), box_Seq_u8_(k)] err == GoErr::Nil && sql =~= sql_delete(t) && args =~= seq![box_Seq_u8_(k)] ==> $kvs == old($kvs).insert(bucket_of(tx, t), old($kvs)[bucket_of(tx, t)].remove(k)) && $pgtx == old($pgtx)
  ensures forall|t: Seq<u8>, k: Seq<u8>, v: Seq<u8>| #![trigger bucket_of(tx, t), box_Seq_u8_(k), box_Seq_u8_(v)] err == GoErr::Nil && sql =~= sql_put(t) && args =~= seq![box_Seq_u8_(k), box_Seq_u8_(v)] ==> $kvs == old($kvs).insert(bucket_of(tx, t), old($kvs)[bucket_of(tx, t)].insert(k, v)) && $pgtx == old($pgtx)

// a read gives what the transaction holds under exactly that key in the namespace's table, or says that there is nothing
func txWriter.Get(t, ctx, key, value) (err)
  requires t is Some && t->0.Tx is Some && value is Some && !$broke && $lock_txMutex is Excl
  let B = bucket_of(t->0.Tx, t->0.Table)
  modifies $out, $broke
  ensures [absent] !key_at($kvs, B, key) && !$broke ==> err == named_err(verifiable.ErrNoSuchKey)
  ensures [quiet] !key_at($kvs, B, key) ==> err != GoErr::Nil && $out == old($out)
  ensures [found] key_at($kvs, B, key) && !$broke ==> $out == Out::Bytes($kvs[B][key], err)
  ensures [honest] key_at($kvs, B, key) && $broke ==> err != GoErr::Nil && err != named_err(verifiable.ErrNoSuchKey)

// a write changes exactly that key, and nil deletes it
func txWriter.Set(t, ctx, key, value) (err)
  requires t is Some && t->0.Tx is Some && $lock_txMutex is Excl && $kvs.dom().contains(bucket_of(t->0.Tx, t->0.Table))
  let B = bucket_of(t->0.Tx, t->0.Table)
  modifies $kvs, $pgtx
  ensures [kept] $pgtx == old($pgtx)
  ensures [written] err == GoErr::Nil && value is Some ==> key_at($kvs, B, key) && $kvs[B][key] == msg_enc(value->0)
  ensures [deleted] err == GoErr::Nil && value is None ==> !key_at($kvs, B, key)
  ensures [others] forall|c: Option<GAny>, k: Seq<u8>| c != B || k != key ==> #[trigger] key_at($kvs, c, k) == key_at(old($kvs), c, k) && (key_at($kvs, c, k) ==> $kvs[c][k] == old($kvs)[c][k])
  ensures [refused] err != GoErr::Nil ==> $kvs == old($kvs)

// the function runs at most once, in a transaction of its own on the pool's connection, on the
// namespace's own table, which exists
func Storage.ExecuteReadOnly(pgs, ctx, namespace, f) (err)
  requires pgs is Some && pgs->0.Pool is Some && f is Some && $lock is Free && $lock_txMutex is Free && none_open($pgtx, pgs->0.Pool)
  guarded knownTables
  shared knownTables, $smaps, $tables
  invariant [tables] tables_ok($smaps, pgs->0.knownTables, $tables)
  hint if sha(namespace).len() == 32 { create_text(); }
  rely [kept] pre($tables).subset_of($tables)
  modifies pgs, $smaps, $kvs, $pgtx, $tables, $lock, $lock_txMutex, $calls_f
  invokes f(_, h) $lock is Free && $lock_txMutex is Excl && exists|x0: Option<GAny>| #[trigger] tx_db(x0) == pgs->0.Pool && tx_open($pgtx, x0) && h == box_Option_postgres_txWriter_(Some(postgres_txWriter { Tx: x0, Table: table_of(namespace) }))
  ensures [once] $calls_f.len() <= 1 && (err == GoErr::Nil ==> $calls_f.len() == 1)
  ensures [passed] $calls_f.len() == 1 ==> err == $calls_f[0].1
  ensures [own] $calls_f.len() == 1 ==> $tables.contains(table_of(namespace))
  ensures [ended] none_open($pgtx, pgs->0.Pool)
  ensures [released] $lock is Free && $lock_txMutex is Free

// the same, with the table locked before the function runs; what it wrote is committed when it
// succeeds, and never otherwise
func Storage.ExecuteUpdate(pgs, ctx, namespace, f) (err)
  requires pgs is Some && pgs->0.Pool is Some && f is Some && $lock is Free && $lock_txMutex is Free && none_open($pgtx, pgs->0.Pool)
  guarded knownTables
  shared knownTables, $smaps, $tables
  invariant [tables] tables_ok($smaps, pgs->0.knownTables, $tables)
  hint if sha(namespace).len() == 32 { create_text(); }
  rely [kept] pre($tables).subset_of($tables)
  modifies pgs, $smaps, $kvs, $pgtx, $tables, $lock, $lock_txMutex, $calls_f
  invokes f(_, h) $lock is Free && $lock_txMutex is Excl && exists|x0: Option<GAny>| #[trigger] tx_db(x0) == pgs->0.Pool && tx_locked($pgtx, x0, table_of(namespace)) && h == box_Option_postgres_txWriter_(Some(postgres_txWriter { Tx: x0, Table: table_of(namespace) }))
  ensures [once] $calls_f.len() <= 1 && (err == GoErr::Nil ==> $calls_f.len() == 1)
  ensures [passed] $calls_f.len() == 1 && $calls_f[0].1 != GoErr::Nil ==> err == $calls_f[0].1
  ensures [committed] $calls_f.len() == 1 ==> exists|x0: Option<GAny>| #[trigger] tx_db(x0) == pgs->0.Pool && !old($pgtx).dom().contains(x0) && $calls_f[0].0 == box_Option_postgres_txWriter_(Some(postgres_txWriter { Tx: x0, Table: table_of(namespace) })) && $pgtx.dom().contains(x0) && $pgtx[x0] == (if err == GoErr::Nil { TxSt::Committed } else { TxSt::Aborted })
  ensures [own] $calls_f.len() == 1 ==> $tables.contains(table_of(namespace))
  ensures [ended] none_open($pgtx, pgs->0.Pool)
  ensures [released] $lock is Free && $lock_txMutex is Free
