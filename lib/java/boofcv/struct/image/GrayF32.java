package boofcv.struct.image;

public class GrayF32 extends GrayF<GrayF32> {
    public float[] data;
    public GrayF32(int width, int height) { init(ImageDataType.F32, width, height); }
    public GrayF32() { this(0, 0); }
    public float[] getData() { return data; } public void setData(float[] d) { data = d; } public void set(int x, int y, float v) { data[getIndex(x, y)] = v; } public float get(int x, int y) { return data[getIndex(x, y)]; }
    @Override public Object _getData() { return data; }
    @Override public void _setData(Object d) { data = (float[]) d; }
    @Override public GrayF32 createNew(int w, int h) { return w == -1 || h == -1 ? new GrayF32() : new GrayF32(w, h); }
}
