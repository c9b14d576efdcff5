package boofcv.struct.image;

public abstract class GrayI16<T extends GrayI16<T>> extends GrayI<T> {
    public short[] data;
    public short[] getData() { return data; } public void setData(short[] d) { data = d; } public void set(int x, int y, int v) { data[getIndex(x, y)] = (short) v; }
    @Override public Object _getData() { return data; }
    @Override public void _setData(Object d) { data = (short[]) d; }
}
