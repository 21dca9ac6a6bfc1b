------------------------------ MODULE Sequence ------------------------------
(***************************************************************************)
(* Sequence of two dated surfaces.  In units of N(1) the age of a surface  *)
(* with k craters has the Gamma(k+1) law at rate u (its expected number    *)
(* per unit N(1)), i.e. the law of the (k+1)-th event of a Poisson process *)
(* of rate u.  Surface 1 is older than surface 2 iff in a race of the two  *)
(* processes process 2 completes its k2+1 events first.                    *)
(***************************************************************************)
EXTENDS Age
\* the race stops after k1+k2+1 events: at least k2+1 of them of process 2
LogChoose(n, j) == RSub(RLogFact(n), RAdd(RLogFact(j), RLogFact(n - j)))
POlder(k1, u1, k2, u2) ==
  LET n == k1 + k2 + 1 l2 == RLn(RDiv(u2, RAdd(u1, u2))) l1 == RLn(RDiv(u1, RAdd(u1, u2))) IN
  RSum([j \in 1..(k1+1) |-> LET m == k2 + j IN       \* m events of process 2
        RExp(RAdd(LogChoose(n, m), RAdd(RMul(m, l2), RMul(n - m, l1))))])
(* Simultaneous formation.  Surface i (k_i craters, rate u_i, median age t_i) is  *)
(* moved to the common age tm by scaling its rate with N1(t_i)/N1(tm); the joint  *)
(* density that all have the same age t is compared with the joint density of the *)
(* ages observed: the fraction of the former lying below the latter is returned.  *)
RECURSIVE AgeOfN1(_, _, _, _, _)
AgeOfN1(p, n, a, b, k) == IF k = 0 THEN RMul("0.5", RAdd(a, b)) ELSE LET m == RMul("0.5", RAdd(a, b)) IN
  IF RLt(N1(p, m), n) THEN AgeOfN1(p, n, m, b, k - 1) ELSE AgeOfN1(p, n, a, m, k - 1)
MoreDistant(p, ks, us, ts) ==
  LET m == Len(ks) tm == RDiv(RSum(ts), m)
      v == TLCEval([i \in 1..m |-> RMul(us[i], RDiv(N1(p, ts[i]), N1(p, tm)))])
      K == RSum(ks) S == RSum(v) w == RDiv(9, RSqrt(RAdd(K, 1)))
      joint(t) == RAdd(RSub(RMul(K, RLn(N1(p, t))), RMul(S, N1(p, t))), RMul(m, RLn(Phi(p, t))))
      seen == RSum([i \in 1..m |-> RAdd(RSub(RMul(ks[i], RLn(N1(p, ts[i]))), RMul(v[i], N1(p, ts[i]))), RLn(Phi(p, ts[i])))])
      mid == RDiv(RAdd(K, m), S)
      lo == AgeOfN1(p, RMul(mid, RExp(RNeg(w))), 0, 6, 60) hi == AgeOfN1(p, RMul(mid, RExp(RMul("0.7", w))), 0, 6, 60)
      ts2 == RSpan(900, RLn(lo), RLn(hi))
      f == TLCEval([j \in 1..900 |-> joint(RExp(ts2[j]))])
      top == RMaxSeq(f)
      e == TLCEval([j \in 1..900 |-> RExp(RAdd(RSub(f[j], top), ts2[j]))])
  IN RDiv(RSum([j \in 1..900 |-> IF RLt(f[j], seen) THEN e[j] ELSE "0"]), RSum(e))
(* Epoch boundaries *)
\* crater density per 10^6 km^2 of craters of at least ref km, reached at age t
EpochAt(fn, p, t, ref, density) ==
  IF RLt(FnForm(fn, "cumulative", A0(p, 5), ref), RMul(density, "1e-6")) THEN RNear(t, 5, "1e-6")
  ELSE RClose(FnForm(fn, "cumulative", A0(p, t), ref), RMul(density, "1e-6"), "3e-4")
=============================================================================
