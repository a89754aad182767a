---------------------------- MODULE EtrStoreRun -----------------------------
(***************************************************************************)
(* Explores every operation history up to a bounded length over the        *)
(* alphabets in the file named by ETR_STORE, checks the storage            *)
(* specification's own properties and prints every transition              *)
(* (TR [alphabet, history, outcome]) for replay into the real classes.     *)
(***************************************************************************)
EXTENDS EtrStore, Json, IOUtils

Input == JsonDeserialize(IOEnv.ETR_STORE)
Ops   == Input.ops
Alphs == Input.alphs

VARIABLES alph, hist, st, own, last
vars == <<alph, hist, st, own, last>>

Init ==
  /\ alph \in 1..Len(Alphs)
  /\ hist = <<>>
  /\ st = Input.init
  /\ own = [x \in DOMAIN st |-> FALSE]
  /\ last = SOk(NoCh)

Do(k) ==
  /\ last' = Effect3(st, own, Ops[k])
  /\ st' = IF last'.s = "ok" THEN Upd(st, last'.ch) ELSE st
  /\ own' = IF last'.s = "ok" THEN OwnAfter(st, own, Ops[k]) ELSE own
  /\ hist' = Append(hist, k)
  /\ PrintT("TR " \o ToJson(<<alph, hist', last'>>))
  /\ UNCHANGED alph

Next == /\ Len(hist) < Alphs[alph].depth
        /\ \E i \in 1..Len(Alphs[alph].ops) :
             IF Len(hist) < Len(Alphs[alph].prefix)
             THEN i = 1 /\ Do(Alphs[alph].prefix[Len(hist) + 1])
             ELSE Do(Alphs[alph].ops[i])

Spec == Init /\ [][Next]_vars
View == <<alph, hist>>

-----------------------------------------------------------------------------
TypeOK == \A x \in DOMAIN st :
            /\ st[x].t = Input.init[x].t
            /\ \A i \in 1..Len(st[x].v) :
                 LET e == st[x].v[i] IN
                   \/ e[2] \in {-1, -3} \/ st[x].t = "d"
                   \/ st[x].t = "i" /\ e[2] = 1
                   \/ st[x].t = "b" /\ e \in {TT, FF}

\* what owns no memory has no elements
OwnOK == \A x \in DOMAIN st : st[x].v # <<>> => own[x]

Op == Ops[hist'[Len(hist')]]
Touched(op) == {op[2]} \cup (IF op[1] \in {"move", "swap"} THEN {op[3]} ELSE {})

\* only the storages an operation names change; failed ones change nothing
Frame == [][ /\ \A x \in (DOMAIN st) \ Touched(Op) : st'[x] = st[x]
             /\ last'.s # "ok" => st' = st ]_vars
\* exchanging and moving neither lose nor duplicate contents
Conserved == [][ Op[1] \in {"move", "swap"} /\ last'.s = "ok" =>
                   LET a == Op[2]
                       b == Op[3]
                   IN \/ Op[1] = "swap" /\ st'[a].v = st[b].v /\ st'[b].v = st[a].v
                      \/ Op[1] = "move" /\ st'[a].v = st[b].v /\ st'[b].v = <<>> ]_vars
\* appended elements come last, nothing else changes; growing keeps a prefix
Grows == [][ LET x == Op[2] IN
             /\ Op[1] \in {"push", "vcoca"} /\ last'.s = "ok" =>
                  /\ Len(st'[x].v) = Len(st[x].v) + 1
                  /\ SubSeq(st'[x].v, 1, Len(st[x].v)) = st[x].v
             /\ Op[1] = "realloc" =>
                  \A i \in 1..Len(st'[x].v) :
                    st'[x].v[i] = IF i <= Len(st[x].v) THEN st[x].v[i] ELSE FF ]_vars
=============================================================================
