package boofcv.struct.image;

import java.lang.reflect.Array;
public abstract class ImageGray<T extends ImageGray<T>> extends ImageBase<T> {
    protected void init(ImageDataType type, int width, int height) { imageType = new ImageType(ImageType.Family.GRAY, type, 1); this.width = stride = width; this.height = height; _setData(Array.newInstance(type.getDataType(), width * height)); }
    public abstract Object _getData();
    public abstract void _setData(Object data);
    public ImageDataType getDataType() { return imageType.getDataType(); }
    @Override public void reshape(int width, int height) { verif.Sched.point();
        if (this.width == width && this.height == height) return;
        if (isSubimage()) throw new IllegalArgumentException("Can't reshape sub-images");
        if (Array.getLength(_getData()) < width * height) _setData(Array.newInstance(getDataType().getDataType(), width * height));
        this.startIndex = 0; this.stride = this.width = width; this.height = height;
    }
    public <S extends ImageGray<S>> S createSameShape(Class<S> type) { try { return type.getConstructor(int.class, int.class).newInstance(width, height); } catch (Exception e) { throw new RuntimeException(e); } }
}
