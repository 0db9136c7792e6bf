import tlc2.value.impl.*;

/** Evaluation of the dot product of module IntAlg, with an overflow check. */
public class IntAlg {
  public static Value IDot(Value u, Value v) {
    Value[] a = ((TupleValue) u.toTuple()).elems, b = ((TupleValue) v.toTuple()).elems;
    long r = 0;
    for (int i = 0; i < a.length; i++)
      r = Math.addExact(r, (long) ((IntValue) a[i]).val * ((IntValue) b[i]).val);
    return IntValue.gen(Math.toIntExact(r));
  }
}
