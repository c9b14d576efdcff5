package boofcv.struct;

public class ConfigLength implements Configuration {
    public double length, fraction;
    public ConfigLength(double length, double fraction) { this.length = length; this.fraction = fraction; }
    public ConfigLength() { }
    public static ConfigLength fixed(double pixels) { return new ConfigLength(pixels, -1); }
    public static ConfigLength relative(double fraction, double minimum) { return new ConfigLength(minimum, fraction); }
    public boolean isRelative() { return fraction >= 0; }
    public boolean isFixed() { return fraction < 0; }
    public double getLength() { return length; }
    public double getFraction() { return fraction; }
    public ConfigLength copy() { return new ConfigLength(length, fraction); }
    @Override public void checkValidity() { if (length < 0 && fraction < 0) throw new IllegalArgumentException("length and/or fraction must be >= 0"); }
}
