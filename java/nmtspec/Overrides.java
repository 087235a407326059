package nmtspec;
public class Overrides implements tlc2.overrides.ITLCOverrides {
  @Override public Class[] get() { return new Class[] { RatOps.class }; }
}
