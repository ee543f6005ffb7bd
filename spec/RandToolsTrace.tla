--------------------------- MODULE RandToolsTrace ---------------------------
(* Events recorded by the drivers `reservoir` and `shuffle`. *)
EXTENDS RandTools, TraceRun

RTStart(cs) == <<>>
RTAfter(s, ev) == s

Prefix(s) == FoldLeft(LAMBDA a, x : Append(a, x + (IF a = <<>> THEN 0 ELSE a[Len(a)])), <<>>, s)
\* positions in events count from 0
Up(s) == [i \in DOMAIN s |-> s[i] + 1]
UpH(h) == [i \in DOMAIN h |-> <<Up(h[i][1]), h[i][2]>>]

Outcomes(ev, valid(_), uniform(_)) ==
  IF ev.end # "ok" THEN {"terminates-normally"}
  ELSE LET h == UpH(ev.hist) IN
       IF \E i \in DOMAIN h : ~valid(h[i][1]) THEN {"membership"} ELSE ClauseIf(uniform(h), "uniform")

RTBad(s, ev) ==
  CASE ev.op = "reservoir-law" ->
         Outcomes(ev, LAMBDA r : ValidSample(ev.n, ev.k, r), LAMBDA h : UniformSubsets(ev.n, ev.k, ev.exact, ev.den, h))
    [] ev.op = "reservoir" ->         \* one sample from a pool of arbitrary values
         IF ev.end # "ok" THEN {"terminates-normally"}
         ELSE UNION {ClauseIf(Len(ev.out) = ev.k, "length"), ClauseIf(WithinBag(ev.out, ev.pool), "membership"), ClauseIf(ev.after = ev.pool, "pool-unchanged")}
    [] ev.op = "reservoir-refuse" -> ClauseIf(ev.end = "panic", "refused")
    [] ev.op = "reservoir-counts" ->  \* how often each position was sampled in ev.m runs
         IF ev.end # "ok" THEN {"terminates-normally"}
         ELSE ClauseIf(/\ Len(ev.counts) = ev.n
                       /\ FoldLeft(LAMBDA a, x : a + x, 0, ev.counts) = ev.m * ev.k
                       /\ \A i \in DOMAIN ev.counts :
                            \* positions in or out: the smaller side has the smaller variance
                            IF 2 * ev.k <= ev.n THEN Near(ev.counts[i], (ev.m * ev.k) \div ev.n)
                            ELSE Near(ev.m - ev.counts[i], (ev.m * (ev.n - ev.k)) \div ev.n)
                       \* the first i positions together (a drift over the positions)
                       /\ LET pre == Prefix(ev.counts) IN \A i \in DOMAIN ev.counts :
                            IF 2 * ev.k <= ev.n THEN Near(pre[i], ((ev.m * ev.k) \div ev.n) * i + (((ev.m * ev.k) % ev.n) * i) \div ev.n)
                            ELSE LET o == ev.n - ev.k IN Near(ev.m * i - pre[i], ((ev.m * o) \div ev.n) * i + (((ev.m * o) % ev.n) * i) \div ev.n), "uniform")
    [] ev.op = "reservoir-stats" ->   \* pairs of sampled positions in ev.m runs on a long pool
         IF ev.end # "ok" THEN {"terminates-normally"}
         ELSE UNION {ClauseIf(ev.bad = 0, "membership"),
                     ClauseIf(FairGaps(ev.n, ev.k, ev.m, ev.gaps) /\ FairBlocks(ev.n, ev.k, ev.m, ev.grid), "uniform")}
    [] ev.op = "perm-stats" ->
         IF ev.end # "ok" THEN {"terminates-normally"}
         ELSE UNION {ClauseIf(ev.bad = 0, "rearrangement"),
                     ClauseIf(FairShuffle(ev.n, ev.m, ev.grid, ev.even, ev.fixed, ev.next, ev.asc), "uniform")}
    [] ev.op = "perm-law" ->
         Outcomes(ev, LAMBDA r : ValidPerm(ev.n, r), LAMBDA h : UniformPerms(ev.n, ev.exact, ev.den, h))
    [] ev.op = "perm" ->
         IF ev.end # "ok" THEN {"terminates-normally"}
         ELSE UNION {ClauseIf(SameBag(ev.arr, ev.out), "rearrangement"), ClauseIf(ev.after = (IF ev.inplace THEN ev.out ELSE ev.arr), "argument")}
    [] ev.op = "perm-counts" ->       \* ev.counts[p][v]: how often value v came to position p
         IF ev.end # "ok" THEN {"terminates-normally"}
         ELSE ClauseIf(\A p \in DOMAIN ev.counts : \A v \in DOMAIN ev.counts[p] : FairCount(ev.counts[p][v], ev.m, ev.n), "uniform")
=============================================================================
