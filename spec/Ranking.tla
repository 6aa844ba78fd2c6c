------------------------------- MODULE Ranking -------------------------------
(***************************************************************************)
(* Fixpoint scores: PageRank, the Google matrix, HITS, Katz, eigenvector.  *)
(* The specification never iterates: it states the equation the answer     *)
(* has to satisfy, and how far the documented stopping rule (L1 change of  *)
(* the last step below n*tol) allows the answer to be from it.             *)
(* Scores are fixed point, 1e6 = 1.  al = <<p, q>> is p/q.  tol is in      *)
(* units of 1e-6.  pers, nst, dang, beta: <<>> when not given, else        *)
(* << << <<label, value>>, ... >> >>.                                      *)
(***************************************************************************)
EXTENDS Outcome

GW(e, g) == TLCEval([u \in V(g) |-> TLCEval([v \in V(g) |-> IF e.wt THEN g.w[u][v] ELSE g.a[u][v]])])
\* value given to label v by an optional partial dict
Given(d, v) == IF \E i \in 1..Len(d[1]) : d[1][i][1] = v
               THEN d[1][CHOOSE i \in 1..Len(d[1]) : d[1][i][1] = v][2] ELSE 0
GivenFn(d, S) == TLCEval([v \in S |-> Given(d, v)])
UNum(d, v)  == IF d = <<>> THEN 1 ELSE Given(d, v)            \* numerator of a distribution, uniform by default
UDen(d, S)  == IF d = <<>> THEN Cardinality(S) ELSE SumOver(S, LAMBDA v : Given(d, v))
AbsSum(S, f(_)) == SumOver(S, LAMBDA v : Abs(f(v)))
Val(o) == TLCEval([k \in Keys(o) |-> o.v[CHOOSE i \in 1..Len(o.v) : o.v[i][1] = k][2]])
AllNum(o) == \A i \in 1..Len(o.v) : IsNum(o.v[i][2])

(***************************************************************************)
(* PageRank                                                                *)
(***************************************************************************)
\* one application of the damped walk to the scores x: fixed point
PRStep(S, w, r, x, p, dn, dd, pn, pd, al) ==
  LET dm == SumOver({u \in S : r[u] = 0}, LAMBDA u : x[u]) IN
  TLCEval([v \in S |->
     LET walk == SumOver({u \in S : w[u][v] # 0 /\ r[u] # 0}, LAMBDA u : (x[u] * w[u][v]) \div r[u])
                 + (IF dm = 0 THEN 0 ELSE (dm * dn[v]) \div dd)
     IN (al[1] * walk + (al[2] - al[1]) * RatFix(pn[v], pd)) \div al[2]])

PageRankOk(g, e, o) ==
  LET S == V(g)  n == NV(g)
      w == GW(e, g)
      r == TLCEval([u \in S |-> SumOver(S, LAMBDA v : w[u][v])])
      pn == TLCEval([v \in S |-> UNum(e.pers, v)])   pd == UDen(e.pers, S)
      dn == IF e.dang = <<>> THEN pn ELSE GivenFn(e.dang, S)
      dd == IF e.dang = <<>> THEN pd ELSE UDen(e.dang, S)
      x == Val(o)
      y == PRStep(S, w, r, x, 0, dn, dd, pn, pd, e.al)
      rnd == n * n + 8 * n
  IN FirstBad(<<
       If(MapOk(o) /\ Keys(o) = S /\ AllNum(o), "pagerank.cover"),
       If(\A v \in S : x[v] >= 0, "pagerank.sign"),
       If(Abs(SumOver(S, LAMBDA v : x[v]) - Mil) <= n + 1, "pagerank.mass"),
       If(AbsSum(S, LAMBDA v : x[v] - y[v]) <= (e.al[1] * n * e.tol) \div e.al[2] + rnd, "pagerank.fixpoint") >>)

PageRankVerdict(g, e) ==
  LET o == e.o IN
  IF NV(g) = 0 THEN If(MapOk(o) /\ Keys(o) = {}, "pagerank.empty")
  ELSE IF (e.pers # <<>> /\ UDen(e.pers, V(g)) = 0) \/ (e.nst # <<>> /\ UDen(e.nst, V(g)) = 0)
       THEN If(Raises(o, {"ZeroDivisionError"}), "pagerank.zero-sum")
  ELSE IF e.mi = 0 THEN If(Raises(o, {"PowerIterationFailedConvergence"}), "pagerank.max_iter")
  ELSE IF o.k = "exc" THEN
       \* the damped step is a contraction: 100 steps suffice up to alpha = 0.85
       If(Raises(o, {"PowerIterationFailedConvergence"}) /\ ~(e.mi >= 100 /\ e.al[1] * 100 <= 85 * e.al[2]), "pagerank.raises")
  ELSE IF o.k # "map" THEN "pagerank.kind" ELSE PageRankOk(g, e, o)

GoogleVerdict(g, e) ==
  LET o == e.o
      nl == IF e.nl = <<>> THEN g.nd ELSE e.nl[1]
      S == Rng(nl)  n == Len(nl)
      w == GW(e, g)
      r == TLCEval([u \in S |-> SumOver(S, LAMBDA v : w[u][v])])
      pd == UDen(e.pers, S)
      dd == IF e.dang = <<>> THEN pd ELSE UDen(e.dang, S)
      dn(v) == IF e.dang = <<>> THEN UNum(e.pers, v) ELSE Given(e.dang, v)
      row(u, v) == IF r[u] = 0 THEN RatFix(dn(v), dd) ELSE RatFix(w[u][v], r[u])
      want(u, v) == (e.al[1] * row(u, v) + (e.al[2] - e.al[1]) * RatFix(UNum(e.pers, v), pd)) \div e.al[2]
  IN IF NV(g) = 0 /\ S = {} THEN If(o.k = "mat" /\ Len(o.v) = 0, "google_matrix.empty")
     ELSE IF ~(S \subseteq V(g)) \/ ~NoDup(nl) THEN If(Raises(o, ENX), "google_matrix.nodelist")
     ELSE IF n = 0 THEN ""
     ELSE IF pd = 0 THEN If(Raises(o, {"ZeroDivisionError"}), "google_matrix.zero-sum")
     ELSE IF dd = 0 THEN ""
     ELSE If(o.k = "mat" /\ Len(o.v) = n /\ \A i \in 1..n : Len(o.v[i]) = n /\
               \A j \in 1..n : Near(o.v[i][j], want(nl[i], nl[j]), 4), "google_matrix")

(***************************************************************************)
(* HITS: h proportional to A a and a proportional to A^T h, with one       *)
(* eigenvalue.  Non-negative weights.                                      *)
(***************************************************************************)
BigI == 2147483003      \* finite, too large for the encoding
Total(S, x) == SumOver(S, LAMBDA v : x[v])
HitsVerdict(g, e) ==
  LET o == e.o  S == V(g)  n == NV(g)
      w == GW(e, g)
      h == Val(o.h)  a == Val(o.a)
      Aa == TLCEval([u \in S |-> SumOver(S, LAMBDA v : w[u][v] * a[v])])
      Ah == TLCEval([v \in S |-> SumOver(S, LAMBDA u : w[u][v] * h[u])])
      sAa == Total(S, Aa)  sAh == Total(S, Ah)  sh == Total(S, h)  sa == Total(S, a)
      mw == SumOver(S, LAMBDA u : SumOver(S, LAMBDA v : w[u][v]))
      share(x, sx) == LET k == sx \div 1000000 + 1 IN RatFix(x \div k, sx \div k)
      Prop(x, sx, y, sy) == \A v \in S : Abs(share(x[v], sx) - share(y[v], sy)) <= 2 * e.tol * n * mw + 6 * mw + 20 * n
      mx(x) == MaxOf({x[v] : v \in S})
  IN
  IF n = 0 THEN If(o.k = "hits" /\ o.h.v = <<>> /\ o.a.v = <<>>, "hits.empty")
  ELSE IF e.mi = 0 THEN If(Raises(o, {"ValueError"}), "hits.max_iter")
  ELSE IF o.k = "exc" THEN If(Raises(o, {"ArpackNoConvergence", "PowerIterationFailedConvergence"}), "hits.raises")
  ELSE IF o.k # "hits" THEN "hits.kind"
  ELSE IF ~(MapOk(o.h) /\ MapOk(o.a) /\ Keys(o.h) = S /\ Keys(o.a) = S) THEN "hits.cover"
  ELSE IF ~(\A v \in S : IsNum(h[v]) /\ IsNum(a[v]) /\ h[v] >= 0 /\ a[v] >= 0 /\ h[v] <= 1000001 /\ a[v] <= 1000001)
       THEN "hits.range"
  ELSE IF mw = 0 \/ mw > 1500 \/ (e.nst # <<>> /\ (sh = 0 \/ sa = 0)) THEN ""
  ELSE IF sAa = 0 \/ sAh = 0 THEN "hits.degenerate"
  ELSE FirstBad(<<
     If(IF e.norm THEN Abs(sh - Mil) <= n /\ Abs(sa - Mil) <= n
                  ELSE Abs(mx(h) - Mil) <= 1 /\ Abs(mx(a) - Mil) <= 1, "hits.normalization"),
     If(Prop(h, sh, Aa, sAa), "hits.hubs"),
     If(Prop(a, sa, Ah, sAh), "hits.authorities"),
     \* from the uniform start the dominant singular value is found: lambda = (sAa/sh)*(sAh/sa) is at
     \* least the largest squared row or column norm
     IF e.nst # <<>> \/ e.tol > 1 THEN ""
     ELSE LET l1 == ((sAa \div 1000) * 20) \div (sh \div 1000)  l2 == ((sAh \div 1000) * 20) \div (sa \div 1000)
              D == {SumOver(S, LAMBDA v : w[u][v] * w[u][v]) : u \in S}
                   \union {SumOver(S, LAMBDA v : w[v][u] * w[v][u]) : u \in S}
          IN If((l1 + 1) * (l2 + 1) >= MaxOf(D) * 380, "hits.dominant")>>)

(***************************************************************************)
(* Katz: x = alpha A^T x + beta (scaled to unit L2 norm when normalized)   *)
(***************************************************************************)
KatzVerdict(g, e) ==
  LET o == e.o  S == V(g)  n == NV(g)
      w == GW(e, g)
      b == IF e.beta.k = "s" THEN TLCEval([v \in S |-> e.beta.v]) ELSE GivenFn(<<e.beta.v>>, S)
      x == Val(o)      \* 1e5 units
      q == e.al[2] * (IF e.wt THEN g.sc ELSE 1)
      colsum == TLCEval([v \in S |-> SumOver(S, LAMBDA u : Abs(w[u][v]))])
      rowsum == TLCEval([v \in S |-> SumOver(S, LAMBDA u : Abs(w[v][u]))])
      big == MaxOf({rowsum[v] : v \in S} \union {colsum[v] : v \in S})
      res == TLCEval([v \in S |-> x[v] - (e.al[1] * SumOver(S, LAMBDA u : w[u][v] * x[u])) \div q])
      \* tolerance in 1e5 units
      slack == (Abs(e.al[1]) * big * n * e.tol) \div (10 * q) + (Abs(e.al[1]) * big) \div q + 3
      bm == MaxOf({Abs(b[v]) : v \in S})
      piv == CHOOSE v \in S : Abs(b[v]) = bm
      magn == MaxOf({Abs(x[v]) : v \in S})
      contract == Abs(e.al[1]) * big * 10 <= 9 * q
      out == TLCEval([u \in S |-> OutN(g, u)])
      acyclic == \A v \in S : HopFrom(out, OutN(g, v))[v] = Inf
  IN
  IF n = 0 THEN If(MapOk(o) /\ Keys(o) = {}, "katz.empty")
  ELSE IF e.beta.k = "d" /\ {e.beta.v[i][1] : i \in 1..Len(e.beta.v)} # S THEN If(Raises(o, ENX), "katz.beta")
  ELSE IF e.mi = 0 THEN If(Raises(o, {"PowerIterationFailedConvergence"}), "katz.max_iter")
  ELSE IF o.k = "exc" THEN
       If(Raises(o, {"PowerIterationFailedConvergence"}) /\ ~(e.mi >= 1000 /\ (contract \/ acyclic)), "katz.raises")
  ELSE IF ~(MapOk(o) /\ Keys(o) = S /\ \A i \in 1..Len(o.v) : IsNum(o.v[i][2]) \/ o.v[i][2] = BigI) THEN "katz.cover"
  ELSE IF magn > 2000000 \/ big * Abs(e.al[1]) > 900 THEN ""
  ELSE IF ~e.norm THEN
       If(\A v \in S : Abs(res[v] - b[v] * 100000) <= slack, "katz.fixpoint")
  ELSE IF bm = 0 THEN ""
  ELSE FirstBad(<<
     If(Abs(SumOver(S, LAMBDA v : (x[v] \div 10) * (x[v] \div 10)) - 100000000) <= 2 * n * 10000, "katz.norm"),
     \* the residual is proportional to beta; scaling x by s scales the slack as well
     LET sl == slack * (Abs(res[piv]) \div (bm * 100000) + 2) IN
     If(\A v \in S : Abs(res[v] * b[piv] - res[piv] * b[v]) <= 2 * sl * (Abs(b[piv]) + Abs(b[v])), "katz.fixpoint"),
     If((res[piv] > 0) = (b[piv] > 0) \/ Abs(res[piv]) <= slack, "katz.sign")>>)

(***************************************************************************)
(* Eigenvector centrality: x >= 0, unit L2 norm, A^T x = lambda x          *)
(***************************************************************************)
EigenVerdict(g, e) ==
  LET o == e.o  S == V(g)  n == NV(g)
      w == GW(e, g)
      x == Val(o)      \* 1e4 units
      y == TLCEval([v \in S |-> SumOver(S, LAMBDA u : w[u][v] * x[u])])
      L == SumOver(S, LAMBDA v : x[v] * y[v]) \div 10000    \* lambda * 1e4
      big == MaxOf({SumOver(S, LAMBDA u : w[v][u]) : v \in S} \union {SumOver(S, LAMBDA u : w[u][v]) : v \in S})
      slack == 2 * (((big + 1) * n * e.tol) \div 100) + 4 * big + 6
      tot == SumOver(S, LAMBDA u : SumOver(S, LAMBDA v : w[u][v]))
  IN
  IF n = 0 THEN If(Raises(o, EPointless), "eigen.empty")
  ELSE IF e.nst # <<>> /\ UDen(e.nst, S) = 0 THEN If(Raises(o, ENX), "eigen.nstart")
  ELSE IF e.mi = 0 THEN If(Raises(o, {"PowerIterationFailedConvergence"}), "eigen.max_iter")
  ELSE IF o.k = "exc" THEN If(Raises(o, {"PowerIterationFailedConvergence"}), "eigen.raises")
  ELSE IF ~(MapOk(o) /\ Keys(o) = S /\ AllNum(o)) THEN "eigen.cover"
  ELSE IF ~(\A v \in S : x[v] >= 0) THEN "eigen.sign"
  ELSE IF big > 18 THEN ""
  ELSE FirstBad(<<
     If(Abs(SumOver(S, LAMBDA v : x[v] * x[v]) - 100000000) <= 2 * n * 10000, "eigen.norm"),
     If(\A v \in S : Abs(y[v] - (L * x[v]) \div 10000) <= slack, "eigen.fixpoint"),
     \* the dominant one: from the uniform start lambda >= mean weighted degree when A is symmetric
     IF g.dir \/ e.nst # <<>> \/ e.tol > 100 THEN ""
     ELSE If((L + slack + 20) * n >= tot * 10000, "eigen.dominant")>>)

RankingOps == {"pagerank", "google_matrix", "hits", "katz", "eigenvector"}
RankingVerdict(s, e) ==
  CASE e.op = "pagerank" -> PageRankVerdict(s.g, e)
    [] e.op = "google_matrix" -> GoogleVerdict(s.g, e)
    [] e.op = "hits" -> HitsVerdict(s.g, e)
    [] e.op = "katz" -> KatzVerdict(s.g, e)
    [] e.op = "eigenvector" -> EigenVerdict(s.g, e)
=============================================================================
