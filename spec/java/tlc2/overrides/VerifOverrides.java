package tlc2.overrides;
public class VerifOverrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    @Override
    public Class[] get() { return new Class[] { Bytes.class, Prims.class }; }
}
