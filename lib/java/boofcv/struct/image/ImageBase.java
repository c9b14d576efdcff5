package boofcv.struct.image;

public abstract class ImageBase<T extends ImageBase> implements java.io.Serializable, Cloneable {
    public int startIndex, stride, width, height; public boolean subImage = false; public ImageType<?> imageType;
    public boolean isSubimage() { return subImage; }
    public final boolean isInBounds(int x, int y) { return x >= 0 && x < width && y >= 0 && y < height; }
    public final int getWidth() { return width; }
    public final int getHeight() { return height; }
    public final int getStartIndex() { return startIndex; }
    public final int getStride() { return stride; }
    public int getIndex(int x, int y) { return startIndex + y * stride + x; }
    public ImageType getImageType() { verif.Sched.point(); return imageType; }
    public boolean isIntegral() { return imageType.getDataType().isInteger(); }
    public int getNumBands() { return imageType.getNumBands(); }
    public int totalPixels() { return width * height; }
    public void setWidth(int w) { width = w; } public void setHeight(int h) { height = h; } public void setStride(int s) { stride = s; } public void setStartIndex(int s) { startIndex = s; }
    public abstract void reshape(int width, int height);
    public abstract T createNew(int width, int height);
    public T createSameShape() { return createNew(width, height); }
    public void reshape(ImageBase<?> o) { reshape(o.width, o.height); }
    public boolean isSameShape(ImageBase<?> o) { return width == o.width && height == o.height; }
}
