package boofcv.core.image.border;

import boofcv.struct.image.ImageBase;
public abstract class ImageBorder<T extends ImageBase<T>> { protected T image; public void setImage(T i) { image = i; } public T getImage() { return image; } }
