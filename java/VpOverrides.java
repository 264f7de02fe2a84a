import tla2sany.semantic.ExprOrOpArgNode;
import tlc2.overrides.Evaluation;
import tlc2.overrides.ITLCOverrides;
import tlc2.tool.TLCState;
import tlc2.tool.coverage.CostModel;
import tlc2.tool.impl.Tool;
import tlc2.util.Context;
import tlc2.value.impl.*;

/** Try(e): the value of e (a sequence of clauses), or one failed clause carrying the message when e cannot be evaluated. */
public class VpOverrides implements ITLCOverrides {
  @Override
  public Class<?>[] get() {
    return new Class<?>[] {VpOverrides.class};
  }

  static String chain(Throwable e) {
    StringBuilder b = new StringBuilder();
    for (Throwable t = e; t != null && b.length() < 600; t = t.getCause()) {
      String m = t.getMessage();
      b.append(m == null ? t.toString() : m).append(" | ");
    }
    return b.toString().replaceAll("[^ -~]", " ");
  }

  @Evaluation(definition = "Try", module = "Num", warn = false, silent = true)
  public static Value tryEval(final Tool tool, final ExprOrOpArgNode[] args, final Context c, final TLCState s0,
      final TLCState s1, final int control, final CostModel cm) {
    try {
      Value v = (Value) tool.eval(args[0], c, s0, s1, control, cm);
      v.deepNormalize();
      return v;
    } catch (RuntimeException | StackOverflowError e) {
      if (System.getenv("VP_DEBUG") != null) e.printStackTrace();
      return new TupleValue(new Value[] {new TupleValue(new Value[] {
          new StringValue("malformed-observation"), BoolValue.ValFalse, new StringValue(chain(e))})});
    }
  }
}
