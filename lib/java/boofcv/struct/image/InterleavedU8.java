package boofcv.struct.image;

public class InterleavedU8 extends ImageBase<InterleavedU8> {
    public byte[] data; public int numBands;
    public InterleavedU8(int w, int h, int bands) { imageType = new ImageType(ImageType.Family.INTERLEAVED, ImageDataType.U8, bands); width = w; height = h; numBands = bands; stride = w * bands; data = new byte[w * h * bands]; }
    @Override public void reshape(int w, int h) { width = w; height = h; stride = w * numBands; if (data.length < w * h * numBands) data = new byte[w * h * numBands]; }
    @Override public InterleavedU8 createNew(int w, int h) { return new InterleavedU8(w, h, numBands); }
}
