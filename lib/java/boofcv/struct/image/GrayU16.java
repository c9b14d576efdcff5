package boofcv.struct.image;

public class GrayU16 extends GrayI16<GrayU16> {
    public GrayU16(int width, int height) { init(ImageDataType.U16, width, height); }
    public GrayU16() { this(0, 0); }
    @Override public GrayU16 createNew(int w, int h) { return w == -1 || h == -1 ? new GrayU16() : new GrayU16(w, h); }
}
