------------------------------ MODULE EtrTrace ------------------------------
(***************************************************************************)
(* Trace validation: every execution recorded from the real library has to *)
(* be a behaviour of the specification (EtrSem).  An execution is an       *)
(* initial environment followed by events; an event names a statement of   *)
(* the library Lib, how it ended and which variables it changed to what.   *)
(*                                                                         *)
(* An event which no step of the specification explains is printed as      *)
(* REJECT and the validation goes on from the observed state.  Where the   *)
(* specification demands a number which is not a small rational, the       *)
(* comparison "observed element = term" is printed as an obligation (OB).  *)
(***************************************************************************)
EXTENDS EtrSem, FiniteSets, Json, IOUtils

Input == JsonDeserialize(IOEnv.ETR_TRACE)
Lib   == Input.lib
Execs == Input.execs

VARIABLES e, pos, env, und

vars == <<e, pos, env, und>>

Say(tag, x) == PrintT(tag \o ToJson(x))

\* does the observed element o agree with the specified element s?
ElemOk(s, o, loc) ==
  IF IsUnd(s) THEN TRUE
  ELSE IF s = o THEN TRUE
  ELSE IF s[2] = -3 \/ s[2] = -2 \/ (o[2] = -2 /\ IsNum(s)) THEN Say("OB ", <<loc, s, o>>)
  ELSE FALSE

ValOk(s, o, loc) ==
  /\ s.m = o.m /\ (s.m => s.r = o.r /\ s.c = o.c)
  /\ Len(s.v) = Len(o.v)
  /\ \A i \in 1..Len(s.v) : ElemOk(s.v[i], o.v[i], loc)

\* after a rejected subset assignment an addressed element may be old or new
PartOk(s, o, news, loc) ==
  /\ s.m = o.m /\ (s.m => s.r = o.r /\ s.c = o.c)
  /\ Len(s.v) = Len(o.v)
  /\ \A i \in 1..Len(s.v) :
       \/ s.v[i] = o.v[i]
       \/ o.v[i] \in news[i]
       \/ \E w \in news[i] : w[2] <= 0

Unspecified(x) == \E i \in 1..Len(x.v) : IsUnd(x.v[i])

\* what a view shows is what the memory behind it holds
MemOk(obs) == \A b \in Views :
  SubSeq(obs[MemOf(b)].v, 1, Len(obs[b].v)) = obs[b].v

Performed(o, ev, obs) ==
     /\ LET want == Upd(env, o.ch)
        IN \A x \in DOMAIN obs :
             IF o.par.x = "*" /\ x \in DOMAIN o.ch THEN TRUE
             ELSE IF o.par.x = x THEN PartOk(want[x], obs[x], o.par.n, <<e, pos>>)
             ELSE IF o.par.x \in Views /\ x = MemOf(o.par.x)
                  THEN obs[x] = Overlay(want[x], obs[o.par.x].v)
             ELSE IF x \notin DOMAIN o.ch THEN env[x] = obs[x]
             ELSE ValOk(want[x], obs[x], <<e, pos>>)
     /\ \/ o.out.t = "-"
        \/ o.out.t = ev.out.t /\ ValOk(o.out, ev.out, <<e, pos>>)

\* what holds in every observed state
ShapesOK(w, some) == \A x \in some :
             /\ Len(w[x].v) >= 1
             /\ w[x].m => w[x].r * w[x].c = Len(w[x].v)

Agrees(o, ev, obs) ==
  \/ o.s = "und" /\ ev.st # "exc"
  \/ /\ MemOk(obs)
     /\ ShapesOK(obs, IF o.par.x = "*" THEN (DOMAIN obs) \ (DOMAIN o.ch) ELSE DOMAIN obs)
     /\ \/ o.s = ev.st /\ Performed(o, ev, obs)
        \/ o.s = "any" /\ ev.st = "ok" /\ Performed(o, ev, obs)
        \/ o.s = "any" /\ ev.st = "err" /\ obs = env

Init == /\ e \in 1..Len(Execs)
        /\ pos = 0
        /\ env = Execs[e].init
        /\ und = FALSE

Next == /\ pos < Len(Execs[e].ev)
        /\ LET ev  == Execs[e].ev[pos + 1]
               o   == IF ev.k = 0 THEN OUnd ELSE Outcome(env, Lib[ev.k])
               obs == [x \in DOMAIN env |->
                         IF x \in DOMAIN ev.post THEN ev.post[x] ELSE env[x]]
               ok  == Agrees(o, ev, obs)
           IN /\ pos' = pos + 1
              /\ env' = obs
              /\ und' = ((ev.k # 0 /\ o.s = "und") \/ \E x \in DOMAIN o.ch : Unspecified(o.ch[x])
                         \/ (o.out.t # "-" /\ Unspecified(o.out)))
              /\ IF und' THEN Say("UND ", <<e, pos + 1>>) ELSE TRUE
              /\ IF ok \/ ev.k = 0 THEN TRUE ELSE Say("REJECT ", <<e, pos + 1, ev.k, o>>)
        /\ UNCHANGED e

Spec == Init /\ [][Next]_vars

View == <<e, pos>>
=============================================================================
