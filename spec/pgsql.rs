// uses: kv, filekv
// What the statements sent to postgres mean, and what a transaction has come to.
//@box []byte
//@fn row_first (r: Option<GAny>) -> Option<Seq<u8>>
pub open spec fn sql_get(t: Seq<u8>) -> Seq<u8> { lit!("SELECT value FROM \"") + t + lit!("\" WHERE key = $1") }
pub open spec fn sql_delete(t: Seq<u8>) -> Seq<u8> { lit!("DELETE FROM \"") + t + lit!("\" WHERE key = $1") }
pub open spec fn sql_put(t: Seq<u8>) -> Seq<u8> { lit!("INSERT INTO \"") + t + lit!("\" (key, value) VALUES ($1, $2) ON CONFLICT (key) DO UPDATE SET value = $2") }
pub open spec fn sql_lock(t: Seq<u8>) -> Seq<u8> { lit!("LOCK TABLE \"") + t + lit!("\" IN EXCLUSIVE MODE") }
pub open spec fn sql_create(t: Seq<u8>) -> Seq<u8> { lit!("\n\t\tCREATE TABLE IF NOT EXISTS ") + t + lit!(" (\n\t\t\tkey   bytea PRIMARY KEY,\n\t\t\tvalue bytea\n\t\t)\n\t") }
// The table of a namespace is named after the first half of its hash.
pub open spec fn table_of(n: Seq<u8>) -> Seq<u8> { lit!("vds_") + hex_enc(sha(n).subrange(0, 16)) }
// A transaction that goes on, with the tables it has locked and the tables it has created, or what it has come to.
pub enum TxSt { Open(Set<Seq<u8>>, Set<Seq<u8>>), Committed, Aborted }
pub type Txs = Map<Option<GAny>, TxSt>;
pub open spec fn tx_open(s: Txs, tx: Option<GAny>) -> bool { s.dom().contains(tx) && s[tx] is Open }
pub open spec fn none_open(s: Txs, db: Option<GAny>) -> bool { forall|x0: Option<GAny>| #[trigger] s.dom().contains(x0) && s[x0] is Open ==> tx_db(x0) != db }
pub open spec fn tx_locked(s: Txs, tx: Option<GAny>, t: Seq<u8>) -> bool { tx_open(s, tx) && s[tx]->0.contains(t) }
// every table remembered is the namespace's own, and exists
pub open spec fn tables_ok(h: Map<int, Map<Seq<u8>, Seq<u8>>>, known: int, tables: Set<Seq<u8>>) -> bool {
    &&& known >= 0
    &&& known != 0 ==> h.dom().contains(known)
    &&& known != 0 ==> forall|n: Seq<u8>| #[trigger] h[known].dom().contains(n) ==> h[known][n] == table_of(n) && tables.contains(h[known][n])
}
// the texts of the statements about a namespace's table, as the formatting puts them together
pub proof fn create_text()
    ensures
        forall|n: Seq<u8>| #[trigger] sql_create(table_of(n)) == lit!("\n\t\tCREATE TABLE IF NOT EXISTS vds_") + hex_enc(sha(n).subrange(0, 16)) + lit!(" (\n\t\t\tkey   bytea PRIMARY KEY,\n\t\t\tvalue bytea\n\t\t)\n\t"),
        forall|n: Seq<u8>| #[trigger] sql_lock(table_of(n)) == lit!("LOCK TABLE \"vds_") + hex_enc(sha(n).subrange(0, 16)) + lit!("\" IN EXCLUSIVE MODE"),
{
    lit_lemma!("vds_");
    lit_lemma!("\n\t\tCREATE TABLE IF NOT EXISTS ");
    lit_lemma!("\n\t\tCREATE TABLE IF NOT EXISTS vds_");
    lit_lemma!("LOCK TABLE \"");
    lit_lemma!("LOCK TABLE \"vds_");
    assert forall|n: Seq<u8>| #[trigger] sql_create(table_of(n)) == lit!("\n\t\tCREATE TABLE IF NOT EXISTS vds_") + hex_enc(sha(n).subrange(0, 16)) + lit!(" (\n\t\t\tkey   bytea PRIMARY KEY,\n\t\t\tvalue bytea\n\t\t)\n\t") by {
        assert(sql_create(table_of(n)) =~= lit!("\n\t\tCREATE TABLE IF NOT EXISTS vds_") + hex_enc(sha(n).subrange(0, 16)) + lit!(" (\n\t\t\tkey   bytea PRIMARY KEY,\n\t\t\tvalue bytea\n\t\t)\n\t"));
    }
    assert forall|n: Seq<u8>| #[trigger] sql_lock(table_of(n)) == lit!("LOCK TABLE \"vds_") + hex_enc(sha(n).subrange(0, 16)) + lit!("\" IN EXCLUSIVE MODE") by {
        assert(sql_lock(table_of(n)) =~= lit!("LOCK TABLE \"vds_") + hex_enc(sha(n).subrange(0, 16)) + lit!("\" IN EXCLUSIVE MODE"));
    }
}
// Different namespaces have different tables, as long as the first halves of their hashes differ.
pub proof fn tables_apart(m: Seq<u8>, n: Seq<u8>)
    requires sha(m).subrange(0, 16) != sha(n).subrange(0, 16), sha(m).len() == 32, sha(n).len() == 32
    ensures table_of(m) != table_of(n)
{
    let p = lit!("vds_");
    let a = hex_enc(sha(m).subrange(0, 16));
    let b = hex_enc(sha(n).subrange(0, 16));
    hex_inj(sha(m).subrange(0, 16), sha(n).subrange(0, 16));
    assert((p + a).subrange(p.len() as int, (p + a).len() as int) =~= a);
    assert((p + b).subrange(p.len() as int, (p + b).len() as int) =~= b);
}
