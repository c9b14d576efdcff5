package boofcv.struct.image;

public class GrayS8 extends GrayI8<GrayS8> {
    public GrayS8(int width, int height) { init(ImageDataType.S8, width, height); }
    public GrayS8() { this(0, 0); }
    @Override public GrayS8 createNew(int w, int h) { return w == -1 || h == -1 ? new GrayS8() : new GrayS8(w, h); }
}
