package boofcv.struct.image;

public class GrayU8 extends GrayI8<GrayU8> {
    public GrayU8(int width, int height) { init(ImageDataType.U8, width, height); }
    public GrayU8() { this(0, 0); }
    public int get(int x, int y) { return data[getIndex(x, y)] & 0xff; }
    @Override public GrayU8 createNew(int w, int h) { return w == -1 || h == -1 ? new GrayU8() : new GrayU8(w, h); }
}
