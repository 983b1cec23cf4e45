import tlc2.overrides.ITLCOverrides;

public class NumOverrides implements ITLCOverrides {
    @Override public Class<?>[] get() { return new Class<?>[] { Num.class }; }
}
