package boofcv.core.image.border;

import boofcv.struct.image.GrayF32;
public abstract class ImageBorder_F32 extends ImageBorder<GrayF32> { }
