package boofcv.struct.image;

public abstract class GrayI8<T extends GrayI8<T>> extends GrayI<T> {
    public byte[] data;
    public byte[] getData() { return data; } public void setData(byte[] d) { data = d; } public void set(int x, int y, int v) { data[getIndex(x, y)] = (byte) v; }
    @Override public Object _getData() { return data; }
    @Override public void _setData(Object d) { data = (byte[]) d; }
}
