"""Nibble automata: run, suspension, uniqueness of the place where a field ends."""
def AUTO(p, K, fin):
    """generic nibble automaton over state K (fields tr, fail): p_slot, p_next, p_canon are given; run/live/composition/uniqueness are derived.
    The theorem p_agree: two runs from one state over one nibble stream that both finished consumed the same nibbles and ended in the same state."""
    return (r'''
pub open spec fn @_fin(k: #) -> bool { FIN }
pub open spec fn @_step(k: #, n: u8) -> # { let s = @_slot(k); let k2 = @_canon(@_next(k, n)); # { tr: k.tr + ev2(s.0, n, s.1, s.2), ..k2 } }
#[verifier::opaque] pub open spec fn @_run(k: #, ns: Seq<u8>) -> # decreases ns.len() { if ns.len() == 0 { k } else { @_step(@_run(k, ns.drop_last()), ns.last()) } }
#[verifier::opaque] pub open spec fn @_live(k: #, ns: Seq<u8>) -> bool decreases ns.len() { ns.len() == 0 || (@_live(k, ns.drop_last()) && !@_run(k, ns.drop_last()).fail && !@_fin(@_run(k, ns.drop_last()))) }
proof fn @_run_push(k: #, ns: Seq<u8>, n: u8) ensures @_run(k, ns.push(n)) == @_step(@_run(k, ns), n),
   @_live(k, ns.push(n)) == (@_live(k, ns) && !@_run(k, ns).fail && !@_fin(@_run(k, ns))) { reveal(@_run); reveal(@_live); assert(ns.push(n).drop_last() =~= ns); }
pub open spec fn @_pushed(k: #, ns: Seq<u8>, b: int, n: u8) -> bool {
  let o = since(ns, b); let w = since(ns.push(n), b); let r = @_run(k, o);
  @_run(k, w) == @_step(r, n) && (@_live(k, o) && !r.fail && !@_fin(r) ==> @_live(k, w)) && ns.push(n).subrange(0, b) == ns.subrange(0, b)
}
proof fn @_push_facts(k: #, b: int)
  ensures forall|ns: Seq<u8>, n: u8| #![trigger since(ns.push(n), b)] 0 <= b <= ns.len() ==> @_pushed(k, ns, b, n), forall|ns: Seq<u8>| #![trigger since(ns, b)] b == ns.len() ==> @_run(k, since(ns, b)) == k && @_live(k, since(ns, b)) && ns.subrange(0, b) == ns
{
  assert forall|ns: Seq<u8>| #![trigger since(ns, b)] b == ns.len() implies @_run(k, since(ns, b)) == k && @_live(k, since(ns, b)) && ns.subrange(0, b) == ns by { reveal(@_run); reveal(@_live); assert(ns.subrange(0, b) =~= ns); }
  assert forall|ns: Seq<u8>, n: u8| #![trigger since(ns.push(n), b)] 0 <= b <= ns.len() implies @_pushed(k, ns, b, n) by {
    assert(since(ns.push(n), b) =~= since(ns, b).push(n)); @_run_push(k, since(ns, b), n);
    assert(ns.push(n).subrange(0, b) =~= ns.subrange(0, b));
  }
}
// a session suspended and resumed any number of times is one run
proof fn @_cat(k: #, a: Seq<u8>, b: Seq<u8>) ensures @_run(k, a + b) == @_run(@_run(k, a), b), (@_live(k, a) && @_live(@_run(k, a), b)) && (b.len() > 0 ==> !@_run(k, a).fail && !@_fin(@_run(k, a))) ==> @_live(k, a + b) decreases b.len()
{
  reveal(@_run); reveal(@_live);
  if b.len() == 0 { assert(a + b =~= a); } else { @_cat(k, a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); }
}
proof fn @_prefix_live(k: #, a: Seq<u8>, b: Seq<u8>) requires @_live(k, b), a.len() < b.len(), a == b.subrange(0, a.len() as int) ensures !@_fin(@_run(k, a)) && !@_run(k, a).fail decreases b.len()
{
  reveal(@_live); let c = b.drop_last();
  if a.len() == c.len() { assert(a =~= c); } else { assert(a =~= c.subrange(0, a.len() as int)); @_prefix_live(k, a, c); }
}
// prefix code: both ends stop at the same place of the same stream, with the same state, the same models coded and adapted
proof fn @_agree(k: #, stream: Seq<u8>, i: int, j: int)
  requires 0 <= i <= stream.len(), 0 <= j <= stream.len(), @_live(k, stream.subrange(0, i)), @_live(k, stream.subrange(0, j)),
     @_fin(@_run(k, stream.subrange(0, i))) || @_run(k, stream.subrange(0, i)).fail, @_fin(@_run(k, stream.subrange(0, j))) || @_run(k, stream.subrange(0, j)).fail
  ensures i == j
{
  let a = stream.subrange(0, i); let b = stream.subrange(0, j);
  if i < j { assert(a =~= b.subrange(0, i)); @_prefix_live(k, a, b); } else if j < i { assert(b =~= a.subrange(0, j)); @_prefix_live(k, b, a); }
}
''').replace('FIN', fin).replace('@', p).replace('#[', '\0').replace('#![', '\1').replace('#', K).replace('\0', '#[').replace('\1', '#![')
SINCE = '\npub open spec fn since(ns: Seq<u8>, b: int) -> Seq<u8> { ns.subrange(b, ns.len() as int) }\n'
