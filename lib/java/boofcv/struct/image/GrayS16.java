package boofcv.struct.image;

public class GrayS16 extends GrayI16<GrayS16> {
    public GrayS16(int width, int height) { init(ImageDataType.S16, width, height); }
    public GrayS16() { this(0, 0); }
    @Override public GrayS16 createNew(int w, int h) { return w == -1 || h == -1 ? new GrayS16() : new GrayS16(w, h); }
}
