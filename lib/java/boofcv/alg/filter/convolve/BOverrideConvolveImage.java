package boofcv.alg.filter.convolve;

import boofcv.core.image.border.ImageBorder;
import boofcv.struct.convolve.*;
import boofcv.struct.image.ImageBase;
public class BOverrideConvolveImage {
    public static Horizontal horizontal; public static Vertical vertical; public static Convolve convolve;
    public interface Horizontal { void horizontal(Kernel1D kernel, ImageBase input, ImageBase output, ImageBorder border); }
    public interface Vertical { void vertical(Kernel1D kernel, ImageBase input, ImageBase output, ImageBorder border); }
    public interface Convolve { void convolve(Kernel2D kernel, ImageBase input, ImageBase output, ImageBorder border); }
}
