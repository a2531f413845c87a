public class RealKOverrides implements tlc2.overrides.ITLCOverrides {
  public Class[] get() { return new Class[] { RealKImpl.class }; }
}
