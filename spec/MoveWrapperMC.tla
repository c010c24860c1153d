--------------------------- MODULE MoveWrapperMC ---------------------------
EXTENDS MoveWrapper, TLC, Json
CONSTANTS Wrappers, Closures, MaxOps, MaxSlots, Emit, Throwing
VARIABLES ops, made
mvars == <<vars, ops, made>>
Op(x) == ops' = Append(ops, x)
Budget == Len(ops) < MaxOps

MCInit == Init /\ ops = <<>> /\ made = 0
Next ==
  /\ Budget
  /\ \/ \E s \in Wrappers : Make(s, made + 1) /\ made' = made + 1 /\ Op(<<"make", s, made + 1>>)
     \/ \E d, s \in Wrappers : \E h \in {"cp", "ccp", "mv", "cmv", "byval"} :
          Transfer(d, s) /\ UNCHANGED made /\ Op(<<h, d, s>>)
     \/ \E d \in Closures, s \in Wrappers : Transfer(d, s) /\ UNCHANGED made /\ Op(<<"cap", d, s>>)
     \/ \E d, s \in Closures : \E h \in {"cp", "mv", "byval"} :
          Transfer(d, s) /\ UNCHANGED made /\ Op(<<h, d, s>>)
     \/ \E s \in Slots : Destroy(s) /\ UNCHANGED made /\ Op(<<"del", s>>)
     \/ \E s \in Slots : Write(s, made + 1) /\ made' = made + 1 /\ Op(<<"set", s, made + 1>>)
     \/ /\ Throwing
        /\ \/ \E s \in Wrappers : Refused(s) /\ made' = made + 1 /\ Op(<<"tmake", s, made + 1>>)
           \/ \E d, s \in Wrappers : \E h \in {"tcp", "tmv"} :
                d # s /\ Full(s) /\ Refused(d) /\ UNCHANGED made /\ Op(<<h, d, s>>)
           \/ \E d \in Closures, s \in Wrappers : Full(s) /\ Refused(d) /\ UNCHANGED made /\ Op(<<"tcap", d, s>>)
           \/ \E d, s \in Closures : \E h \in {"tcp", "tmv"} :
                d # s /\ Full(s) /\ Refused(d) /\ UNCHANGED made /\ Op(<<h, d, s>>)
Spec == MCInit /\ [][Next]_mvars

\* payloads are conserved: every payload made and not overwritten is in one place or was destroyed
Conserved == Cardinality({val[s] : s \in Holders}) = Cardinality(Holders)
Emitted == \/ ~Emit
           \/ Budget
           \/ PrintT(ToJson([c |-> ops]))
=============================================================================
