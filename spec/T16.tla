-------------------------------- MODULE T16 --------------------------------
(* C16: automatic axes and ticks of the real code against Autoscale *)
EXTENDS Verdict, Autoscale
Pts(ps) == Flat(ps)
Plottable(p) == Len(p.d) > 0 /\ \A k \in DOMAIN p.d : RIsFinite(p.d[k]) /\ RIsFinite(p.y[k]) /\ RLt(0, p.y[k]) /\ RLt(0, p.d[k])
Logs(q) == [k \in DOMAIN q |-> RLog10(q[k])]
Extent(ps) == LET dd == Logs(Flat([k \in DOMAIN ps |-> ps[k].d])) yy == Logs(Flat([k \in DOMAIN ps |-> ps[k].y]))
              IN [x0 |-> RMinSeq(dd), x1 |-> RMaxSeq(dd), y0 |-> RMinSeq(yy), y1 |-> RMaxSeq(yy)]
Same(a, b) == RSeqClose(a, b, "1e-12", "1e-12")
J(s, e) ==
  LET i == e.in o == e.out IN
  C("Answered", e.exc = "" /\ IsRec(o)) \o
  If(e.exc = "" /\ IsRec(o),
    CASE e.ev = "scale" ->
           LET diff == i.pres = "differential"
               shown == SelectSeq([k \in DOMAIN o.p |-> k], LAMBDA k : Plottable(o.p[k]))
               vis == SelectSeq(shown, LAMBDA k : i.plots[k].hide = 0)
               P(q) == [k \in DOMAIN q |-> o.p[q[k]]]
           IN C("OrderFree", Same(o.x, o.xrev) /\ Same(o.y, o.yrev)) \o
              C("UserRanges", Same(o.xu, i.ux) /\ Same(o.yu, i.uy) /\ Same(o.xux, i.ux) /\ Same(o.yux, o.y) /\ Same(o.yuy, i.uy) /\ Same(o.xuy, o.x)) \o
              IF Len(shown) = 0 THEN C("DefaultRanges", Same(o.x, DefaultX(i.pres)) /\ Same(o.y, DefaultY(i.pres)))
              ELSE IF Len(vis) = 0 THEN <<>>     \* only hidden overplots: either ranges
              ELSE LET ev == TLCEval(Extent(P(vis))) ea == TLCEval(Extent(P(shown))) IN
                   C("WholeDecades", Whole(o.x) /\ Whole(o.y)) \o
                   C("ContainsX", ContainsX(ev.x0, ev.x1, o.x)) \o
                   C("ContainsY", ContainsY(ev.y0, ev.y1, o.y, diff)) \o
                   C("AspectKept", Aspect(o.x, o.y, diff)) \o
                   If(~i.nsigma, C("SmallestAxes", Minimal(ea, o.x, o.y, diff) \/ Minimal(ev, o.x, o.y, diff))) \o
                   If(i.nsigma, C("RoomForRandomness", RLt(RAdd(ev.y1, MarginY(diff)), o.y[2])))
      [] e.ev = "axes" ->
           \* the axes of the drawn figure, and the marks drawn in it
           LET diff == i.pres = "differential" Y == Logs(o.ylim) IN
           C("FigureDrawn", o.ok) \o
           If(o.ok,
             (IF i.pres = "Hartmann" THEN C("HartmannFrameFixed", Same(o.xlim, o.xlim2) /\ Same(o.ylim, o.ylim2))
              ELSE (IF Len(i.ux) = 2 THEN C("UserXDrawn", RSeqClose(o.xlim, i.ux, "1e-9", "1e-9"))
                    ELSE If(\E k \in DOMAIN o.pts : Len(o.pts[k].x) > 0, C("MarksInsideX", \A k \in DOMAIN o.pts : \A m \in DOMAIN o.pts[k].x :
                            RLe(RAdd(o.xlim[1], "0.2999999"), o.pts[k].x[m]) /\ RLe(o.pts[k].x[m], RSub(o.xlim[2], "0.7999999"))))) \o
                   (IF Len(i.uy) = 2 THEN C("UserYDrawn", RSeqClose(Y, i.uy, "1e-9", "1e-9"))
                    ELSE If(\E k \in DOMAIN o.pts : Len(o.pts[k].y) > 0, C("MarksInsideY", \A k \in DOMAIN o.pts : \A m \in DOMAIN o.pts[k].y :
                            LET v == RLog10(o.pts[k].y[m]) g == RSub(MarginY(diff), "1e-7") IN
                            RLe(RAdd(Y[1], g), v) /\ RLe(v, RSub(Y[2], g))))) \o
                   If(Len(i.ux) = 0 /\ Len(i.uy) = 0,
                      C("DrawnAspect", RClose(RSub(Y[2], Y[1]), RMul(IF diff THEN 2 ELSE 1, RSub(o.xlim[2], o.xlim[1])), "1e-9")))))
      [] e.ev = "ticks" ->
           C("AtMostRequested", Len(o.t) <= i.n /\ Len(o.t) >= 2) \o
           C("NiceTicks", Len(o.t) < 2 \/ TicksOK(o.t, i.lo, i.hi)) \o
           C("MinorTicks", Len(o.t) < 2 \/ MinorOK(o.t, o.minor)) \o C("MinorKeepsMajor", o.same))
=============================================================================
