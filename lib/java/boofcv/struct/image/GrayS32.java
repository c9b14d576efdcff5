package boofcv.struct.image;

public class GrayS32 extends GrayI<GrayS32> {
    public int[] data;
    public GrayS32(int width, int height) { init(ImageDataType.S32, width, height); }
    public GrayS32() { this(0, 0); }
    public int[] getData() { return data; } public void setData(int[] d) { data = d; } public void set(int x, int y, int v) { data[getIndex(x, y)] = v; } public int get(int x, int y) { return data[getIndex(x, y)]; }
    @Override public Object _getData() { return data; }
    @Override public void _setData(Object d) { data = (int[]) d; }
    @Override public GrayS32 createNew(int w, int h) { return w == -1 || h == -1 ? new GrayS32() : new GrayS32(w, h); }
}
