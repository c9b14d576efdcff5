package boofcv.struct.image;

public abstract class GrayI<T extends GrayI<T>> extends ImageGray<T> { }
