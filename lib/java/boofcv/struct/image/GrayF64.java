package boofcv.struct.image;

public class GrayF64 extends GrayF<GrayF64> {
    public double[] data;
    public GrayF64(int width, int height) { init(ImageDataType.F64, width, height); }
    public GrayF64() { this(0, 0); }
    public double[] getData() { return data; } public void setData(double[] d) { data = d; } public void set(int x, int y, double v) { data[getIndex(x, y)] = v; } public double get(int x, int y) { return data[getIndex(x, y)]; }
    @Override public Object _getData() { return data; }
    @Override public void _setData(Object d) { data = (double[]) d; }
    @Override public GrayF64 createNew(int w, int h) { return w == -1 || h == -1 ? new GrayF64() : new GrayF64(w, h); }
}
