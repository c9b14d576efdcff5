package boofcv.struct.image;

public abstract class GrayF<T extends GrayF<T>> extends ImageGray<T> { }
