------------------------------- MODULE Nums -------------------------------
(***************************************************************************)
(* Real numbers in traces are decimal strings (repr of the double), so     *)
(* nothing is lost between the implementation and the specification.  The  *)
(* operators below are evaluated by Nums.java (TLC module override) in    *)
(* IEEE double arithmetic; the right-hand sides here are placeholders that *)
(* only give the arity.  D-operators are exact decimal arithmetic.         *)
(***************************************************************************)
EXTENDS Integers, Sequences
LOCAL N_A == TRUE
RNum(a) == N_A              \* canonical form
RIsNum(a) == N_A
RAdd(a,b) == N_A
RSub(a,b) == N_A
RMul(a,b) == N_A
RDiv(a,b) == N_A
RNeg(a) == N_A
RAbs(a) == N_A
RSqrt(a) == N_A
RExp(a) == N_A
RLn(a) == N_A
RLog10(a) == N_A
RPow(a,b) == N_A
RPow10(a) == N_A
RSin(a) == N_A
RCos(a) == N_A
RAcos(a) == N_A
RAtan2(a,b) == N_A
RMin(a,b) == N_A
RMax(a,b) == N_A
RFloor(a) == N_A            \* to Int
RCeil(a) == N_A
RRound(a) == N_A
RLt(a,b) == N_A
RLe(a,b) == N_A
REq(a,b) == N_A
RIsNaN(a) == N_A
RIsFinite(a) == N_A
RClose(a,b,rel) == N_A      \* |a-b| <= rel*max(|a|,|b|); inf/nan only to themselves
RNear(a,b,abs) == N_A       \* |a-b| <= abs
RSeqClose(a,b,rel,abs) == N_A   \* equal length, elementwise close
RSum(q) == N_A              \* q[1]+...+q[Len(q)]
RDot(p,q) == N_A
RSort(q) == N_A             \* ascending permutation
RSuffixSums(q) == N_A       \* [i |-> q[i]+...+q[Len(q)]]
RPoly(c,x) == N_A           \* c[1]+c[2]x+c[3]x^2...
RCountIn(q,lo,hi) == N_A    \* Cardinality({i : lo <= q[i] < hi})
RSumIn(q,w,lo,hi) == N_A    \* sum of w[i] over lo <= q[i] < hi
RMean(q) == N_A
RStd(q) == N_A              \* population standard deviation
RIsAscending(q) == N_A
RIsStrictlyAscending(q) == N_A
RMaxSeq(q) == N_A
RMinSeq(q) == N_A
RSpan(n,lo,hi) == N_A       \* n equally spaced values
RInterp(x,xs,ys) == N_A     \* linear interpolation, clamped
RGammaQ(a,x) == N_A         \* regularised upper incomplete gamma
RLogFact(k) == N_A
DCmp(a,b) == N_A            \* -1, 0, 1
DSub(a,b) == N_A
DMul(a,b) == N_A
DAbs(a) == N_A
DExp(a) == N_A              \* decimal exponent
DPow10(n) == N_A
DIsNum(a) == N_A
DRounded(p,v,n) == N_A      \* p is v rounded to n significant figures (either way on ties)
StrLower(s) == N_A
StrTrim(s) == N_A
StrChars(s) == N_A
StrSplit(s,sep) == N_A
StrJoin(q,sep) == N_A
StrHas(s,x) == N_A
StrStarts(s,x) == N_A
StrEnds(s,x) == N_A
StrReplace(s,x,y) == N_A
StrInt(s) == N_A
StrOfInt(n) == N_A
StrSorted(q) == N_A          \* strings in ascending order
IsStr(x) == N_A
IsSeq(x) == N_A
IsRec(x) == N_A
RAsin(a) == N_A
VOf(lon,lat) == N_A         \* unit vector <<x,y,z>> from degrees
VCross(a,b) == N_A
VAdd(a,b) == N_A
VMul(k,a) == N_A
VUnit(a) == N_A
VTriple(a,b,c) == N_A       \* a . (b x c)
VAngle(a,b) == N_A          \* angle between unit vectors
VTri(a,b,c) == N_A          \* signed solid angle of the triangle
=============================================================================
