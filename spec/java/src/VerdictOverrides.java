/* Verdict.tla's operator Attempt: the value of an expression, or of the alternative where the expression has none
   (an event whose recorded values are not of the form the specification states). */
import tlc2.overrides.*;
import tlc2.tool.*;
import tlc2.tool.impl.Tool;
import tlc2.tool.coverage.CostModel;
import tlc2.util.Context;
import tlc2.value.impl.Value;
import tla2sany.semantic.ExprOrOpArgNode;

public class VerdictOverrides implements ITLCOverrides {
  public Class[] get() { return new Class[] { VerdictOverrides.class }; }
  @Evaluation(definition = "Attempt", module = "Verdict", warn = false, silent = true)
  public static Value attempt(Tool tool, ExprOrOpArgNode[] args, Context c, TLCState s0, TLCState s1, int control, CostModel cm) {
    try { Value v = (Value) tool.eval(args[0], c, s0, s1, control, cm); v.deepNormalize(); return v; }
    catch (OutOfMemoryError e) { throw e; }
    catch (Throwable e) {
      if (System.getenv("VERIF_DEBUG") != null) { String m = String.valueOf(e.getMessage()); System.out.println("IllTyped: " + m.substring(0, Math.min(600, m.length()))); }
      return (Value) tool.eval(args[1], c, s0, s1, control, cm);
    }
  }
}
