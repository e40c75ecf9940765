------------------------------- MODULE NkMem -------------------------------
(***************************************************************************)
(* The VM's memory: every block comes from the host's allocation function  *)
(* and goes back to it once, the usage the VM reports is what it holds,    *)
(* the peak is the largest usage so far, and a limit is never exceeded.    *)
(*                                                                         *)
(* First part: the accountant itself over every small history of requests, *)
(* releases, limits and deletion, with the laws.                           *)
(*                                                                         *)
(* Second part: traces of the real allocator are behaviours of it.  A      *)
(* trace is a sequence of segments; each is the blocks requested and       *)
(* released (in order) up to a point where the host asked for the usage    *)
(* and peak, and what it was told.  Block 1 is the VM itself, which is not *)
(* part of the usage.  A trace under a limit has a reference: the same     *)
(* commands without a limit.  It must be the reference up to the first     *)
(* request that crosses the limit, and fail there.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS MaxId, MaxSize, MaxLim
VARIABLES size, cur, peak, lim, ph, q, i
vars == <<size, cur, peak, lim, ph, q, i>>

(***************************************************************************)
(* The accountant.  size[id] > 0: block id is live.  ph: run - failed (a   *)
(* request was refused: nothing is requested any more) - del (gone).       *)
(***************************************************************************)
Larger(x, y) == IF x > y THEN x ELSE y
Fits(n, c, l) == l < 0 \/ (c <= l /\ n <= l - c)
Total(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)

Init == size = <<>> /\ cur = 0 /\ peak = 0 /\ lim = -1 /\ ph = "run" /\ q = 0 /\ i = 0
Request(n) == /\ ph = "run" /\ Len(size) < MaxId
              /\ IF Fits(n, cur, lim)
                 THEN size' = Append(size, n) /\ cur' = cur + n /\ peak' = Larger(peak, cur + n) /\ ph' = ph
                 ELSE ph' = "failed" /\ UNCHANGED <<size, cur, peak>>
              /\ UNCHANGED <<lim, q, i>>
Release(k) == size[k] > 0 /\ ph \in {"run", "failed"} /\ size' = [size EXCEPT ![k] = 0] /\ cur' = cur - size[k] /\ UNCHANGED <<peak, lim, ph, q, i>>
SetLim(l) == ph # "del" /\ lim' = l /\ UNCHANGED <<size, cur, peak, ph, q, i>>
Delete == ph # "del" /\ ph' = "del" /\ size' = [k \in 1 .. Len(size) |-> 0] /\ cur' = 0 /\ UNCHANGED <<peak, lim, q, i>>
Next == \/ \E n \in 1 .. MaxSize : Request(n)
        \/ \E k \in 1 .. Len(size) : Release(k)
        \/ \E l \in -1 .. MaxLim : SetLim(l)
        \/ Delete
Exact == cur = Total(size)
Peak == cur <= peak
Gone == ph = "del" => cur = 0
\* a request never takes the usage over the limit
Within == [][cur' > cur => lim < 0 \/ cur' <= lim]_vars
\* and only a request that does not fit fails
OnlyThen == [][ph = "run" /\ ph' = "failed" => \E n \in 1 .. MaxSize : lim >= 0 /\ cur + n > lim]_vars

(***************************************************************************)
(* Traces: [e, segs, lim, from, ref, oom].  e: the events, <<1, id, size>> *)
(* (got a block) and <<2, id, size>> (gave it back).  segs: [n, cur, peak, *)
(* kind]: after the first n events the host was told cur and peak (kind    *)
(* "look") or the VM was gone ("del", the last one).  The limit lim holds  *)
(* from segment from on (until deletion).  ref: 0 or the number of the     *)
(* reference.  oom: what the VM said of itself before it was deleted.      *)
(***************************************************************************)
Traces == JsonDeserialize("traces.json")
\* acc: [size, n, cur, peak, bad].  A trace with a reference is compared with
\* it event by event, so only the reference's blocks are followed one by one.
Step(a, e, l, full) ==
  IF a.bad # "" THEN a
  ELSE IF e[1] = 1 THEN
    IF e[2] # a.n + 1 THEN [a EXCEPT !.bad = "block number"]
    ELSE IF e[2] = 1 THEN [size |-> IF full THEN <<e[3]>> ELSE <<>>, n |-> 1, cur |-> 0, peak |-> 0, bad |-> ""]
    ELSE IF ~Fits(e[3], a.cur, l) THEN [a EXCEPT !.bad = "a block was requested beyond the limit"]
    ELSE [size |-> IF full THEN Append(a.size, e[3]) ELSE <<>>, n |-> a.n + 1, cur |-> a.cur + e[3], peak |-> Larger(a.peak, a.cur + e[3]), bad |-> ""]
  ELSE IF e[2] > a.n \/ (full /\ a.size[e[2]] # e[3]) THEN [a EXCEPT !.bad = "a block was returned that is not held"]
  ELSE [size |-> IF full THEN [a.size EXCEPT ![e[2]] = 0] ELSE <<>>, n |-> a.n, cur |-> IF e[2] = 1 THEN a.cur ELSE a.cur - e[3], peak |-> a.peak, bad |-> ""]

T == Traces[q]
LimAt(t, k) == IF t.lim >= 0 /\ k >= t.from /\ t.segs[k].kind # "del" THEN t.lim ELSE -1
Events(t, k) == SubSeq(t.e, IF k = 1 THEN 1 ELSE t.segs[k - 1].n + 1, t.segs[k].n)

\* lim counts the blocks requested so far (a trace's limit is in the trace)
InitT == q \in 1 .. Len(Traces) /\ i = 0 /\ size = <<>> /\ cur = 0 /\ peak = 0 /\ lim = 0 /\ ph = "run"
NextT == /\ ph = "run" /\ i < Len(T.segs)
         /\ i' = i + 1 /\ q' = q
         /\ LET s == T.segs[i + 1]
                l == LimAt(T, i + 1)
                full == T.ref = 0
                a == FoldLeft(LAMBDA x, e : Step(x, e, l, full), [size |-> size, n |-> lim, cur |-> cur, peak |-> peak, bad |-> ""], Events(T, i + 1))
                bad == IF a.bad # "" THEN a.bad
                       ELSE IF s.kind = "look" /\ s.cur # a.cur THEN "the reported usage is not what is held"
                       ELSE IF s.kind = "look" /\ s.peak # a.peak THEN "the reported peak is not the largest usage so far"
                       ELSE IF s.kind = "del" /\ (a.cur # 0 \/ \E k \in 1 .. Len(a.size) : a.size[k] > 0) THEN "not everything was returned"
                       ELSE ""
            IN /\ size' = a.size /\ cur' = a.cur /\ peak' = a.peak /\ lim' = a.n
               /\ ph' = IF bad = "" THEN "run" ELSE bad
\* the accountant's laws hold along every trace
TotalT == size = <<>> \/ cur = Total(size) - size[1]

\* how many events of r happen before the first request that crosses t's limit
CrossStep(y, e, l) ==
  IF y.stop THEN y
  ELSE IF e[1] = 1 /\ e[2] > 1 /\ ~Fits(e[3], y.cur, l) THEN [y EXCEPT !.stop = TRUE]
  ELSE [n |-> y.n + 1, cur |-> IF e[2] = 1 THEN y.cur ELSE IF e[1] = 1 THEN y.cur + e[3] ELSE y.cur - e[3], stop |-> FALSE]
Cross(t, r) ==
  LET nfrom == r.segs[t.from - 1].n
      ndel == r.segs[Len(r.segs) - 1].n
      pre == FoldLeft(LAMBDA z, e : CrossStep(z, e, -1), [n |-> 0, cur |-> 0, stop |-> FALSE], SubSeq(r.e, 1, nfrom))
  IN FoldLeft(LAMBDA z, e : CrossStep(z, e, t.lim), pre, SubSeq(r.e, nfrom + 1, ndel))
Before(t) == SubSeq(t.e, 1, t.segs[Len(t.segs) - 1].n)
Against(t) ==
  IF t.ref = 0 THEN (IF t.oom = 0 THEN "" ELSE "failed without a limit")
  ELSE LET r == Traces[t.ref] w == Cross(t, r) e == Before(t) f == Before(r) IN
       IF ~w.stop THEN (IF t.oom = 1 THEN "failed although nothing crosses the limit"
                        ELSE IF e # f THEN "behaved differently under a limit that is never reached" ELSE "")
       ELSE IF t.oom = 0 THEN "the request that crosses the limit did not fail the VM"
       ELSE IF Len(e) < w.n \/ SubSeq(e, 1, w.n) # SubSeq(f, 1, w.n) THEN "did not get as far as the limit allows"
       ELSE IF \E k \in w.n + 1 .. Len(e) : e[k][1] = 1 THEN "requested memory after it had failed"
       ELSE ""
Report == /\ (i = 0 => LET a == Against(T) IN IF a = "" THEN TRUE ELSE PrintT(ToJson([q |-> q, at |-> 0, bad |-> a])))
          /\ (ph = "run" \/ PrintT(ToJson([q |-> q, at |-> i, bad |-> ph])))
=============================================================================
