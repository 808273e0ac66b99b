package mutator/batch
uses merkle, keys, kv, queue, batchq
ghost $apply Seq<Ap>
ghost $txs Seq<Tx>
ghost $rcv Seq<Option<batch_chObject>>
ghost $sent Seq<Option<batch_chObject>>
ghost $out Out
ghost $tx0 Db
ghost $spawn Seq<Spawn>
ghost $bmaps Map<int, Map<Seq<u8>, Option<Seq<u8>>>>

// the record of a call of ApplyMutation, and that a success which adds nothing changes nothing (proved of it for C07 and C25)
calls verifiable.ApplyMutation(ctx, kw, size, mut) (n, err)
  modifies kw, $apply, $fault
  ensures $apply == old($apply).push(Ap { before: old(kw), size: size, mut_: mut, after: kw, next: n, err: err })
  ensures err == GoErr::Nil ==> (n == size && kw == old(kw)) || n == size + 1

chan $v is Some

view mapNoLockDB; keep M, Parent; parent Parent; db fold($p, $o.L); inv $o.M != 0 && overlay($bmaps[$o.M], $o.L)

// the batch so far hides the store behind it: the last thing set under exactly this key, else what the store has
func mapNoLockDB.Get(m, ctx, key, value) (err)
  requires m is Some && value is Some && overlay($bmaps[m->0.M], m->0.L) && m->0.M != 0 && m->0.Parent is Some
  let W = last_set(m->0.L, key)
  modifies $out
  hint hex_inj_all();
  ensures [batched] W is Some && W->0 is Some ==> $out == Out::Bytes(msg_enc(W->0->0), err)
  ensures [deleted] W is Some && W->0 is None ==> err == named_err(verifiable.ErrNoSuchKey) && $out == old($out)
  ensures [behind] W is None ==> $out == Out::Asked(m->0.Parent, key, err)

func mapNoLockDB.Set(m, ctx, key, value) (err)
  requires m is Some && overlay($bmaps[m->0.M], m->0.L) && m->0.M != 0
  let P = old(m)->0
  modifies m, $bmaps
  hint hex_inj_all();
  hint last_push();
  ensures [set] err == GoErr::Nil ==> m == Some(batch_mapNoLockDB { M: P.M, Parent: P.Parent, L: P.L.push(Some(batch_op { Key: key, Value: value })) })
  ensures [kept] overlay($bmaps[P.M], m->0.L)
  ensures [refused] err != GoErr::Nil ==> m == old(m) && $bmaps == old($bmaps)
  ensures [stores] value is None ==> err == GoErr::Nil

func batchMutatorImpl.handleBatch(bm, ctx, kw, startSize, seed) (n, next, err)
  requires bm is Some && bm->0.Conf is Some && seed is Some
  let B = old($apply).len() as int
  let D = old($rcv).len() as int
  modifies kw, $apply, $rcv, $fault
  hint chain_grow();
  hint skip_grow::<Ap>();
  hint skip_grow::<Option<batch_chObject>>();
  ensures [appended] $apply.len() >= B && $apply.take(B) == old($apply) && $rcv.len() >= old($rcv).len() && $rcv.take(D) == old($rcv)
  ensures [order] run_of(taken(seed, $rcv.skip(D)), $apply.skip(B), seed->0.ns)
  ensures [all] err == GoErr::Nil && next is None ==> $apply.skip(B).len() == 1 + $rcv.skip(D).len()
  ensures [other] err == GoErr::Nil && next is Some ==> $apply.skip(B).len() == $rcv.skip(D).len() && $rcv.skip(D).len() > 0 && next == $rcv.skip(D).last() && next->0.ns != seed->0.ns
  ensures [chained] err == GoErr::Nil ==> chain($apply.skip(B), old(kw), startSize, kw, n)
  ensures [growth] err == GoErr::Nil ==> n >= startSize && (n == startSize ==> kw == old(kw))
  ensures [failed] err != GoErr::Nil ==> $apply.skip(B).len() > 0 && $apply.skip(B).last().err == err

  loop 1
  vars curSize: int64; obj: *mutator/batch.chObject
  invariant $apply.len() >= B && $apply.take(B) == old($apply) && $rcv.len() >= old($rcv).len() && $rcv.take(D) == old($rcv)
  invariant run_of(taken(seed, $rcv.skip(D)), $apply.skip(B), seed->0.ns) && $apply.skip(B).len() == $rcv.skip(D).len()
  invariant obj == taken(seed, $rcv.skip(D))[$rcv.skip(D).len() as int] && obj is Some
  invariant chain($apply.skip(B), old(kw), startSize, kw, curSize)
  invariant curSize >= startSize && (curSize == startSize ==> kw == old(kw))

func batchMutatorImpl.QueueMutation(bm, ctx, ns, mut) (err)
  requires bm is Some
  modifies $sent
  ensures [accepted] err == GoErr::Nil ==> $sent == old($sent).push(Some(batch_chObject { ns: ns, mut_: mut }))

// what is taken from the queue is applied in order, batch by batch, each batch saved with its size in one update
func batchMutatorImpl.consume(bm)
  requires bm is Some && bm->0.Conf is Some && bm->0.Conf->0.Writer is Some && $rcv.len() == 0 && $apply.len() == 0 && $txs.len() == 0
  modifies $rcv, $apply, $txs, $fault, $ev, $bmaps, $out, $sent, $tx0, $spawn
  hint skip_grow::<Ap>();
  hint skip_grow::<Option<batch_chObject>>();
  hint taken_skip();
  hint skip_grow::<Tx>();
  hint skip_grow::<Option<batch_op>>();
  hint chain_ends();
  hint fold_push();
  ensures [served] served($txs, $apply, $rcv)
  exits [stopped] $txs.len() > 0 && !$txs.last().ok
  exits [failed] $apply.len() > 0 && $apply.last().err != GoErr::Nil ==> !$txs.last().upd

  loop 1
    vars seed: *mutator/batch.chObject
    hint batch_done(pre(seed), pre($txs), pre($apply), pre($rcv), $txs, $apply, $rcv);
    invariant bm == old(bm)
    invariant seed is None ==> served($txs, $apply, $rcv)
    invariant seed is Some ==> $rcv.len() > 0 && $rcv.last() == seed && served($txs, $apply, $rcv.drop_last())
  loop 2
    invariant kw == fold($tx0, wrapper->0.L.take($i))
    hint fold_take($tx0, wrapper->0.L);

// exactly one consumer serves the queue that is written to
func Mutator.Create(bm) (rv, err)
  requires bm is Some && $spawn.len() == 0
  modifies $spawn
  ensures [one] err == GoErr::Nil ==> $spawn.len() == 1 && $spawn[0].f == lit("mutator/batch.batchMutatorImpl.consume") && rv == $spawn[0].on
  ensures [config] err == GoErr::Nil ==> exists|o: batch_batchMutatorImpl| #[trigger] box_Option_batch_batchMutatorImpl_(Some(o)) == rv && o.Conf == bm
