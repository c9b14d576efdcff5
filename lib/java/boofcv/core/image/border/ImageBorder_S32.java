package boofcv.core.image.border;

import boofcv.struct.image.GrayI;
public abstract class ImageBorder_S32<T extends GrayI<T>> extends ImageBorder<T> { }
