package boofcv.alg.filter.convolve;

import boofcv.struct.image.ImageBase;
public class BOverrideConvolveImageMean {
    public static Horizontal horizontal; public static Vertical vertical;
    public interface Horizontal { void horizontal(ImageBase input, ImageBase output, int radius); }
    public interface Vertical { void vertical(ImageBase input, ImageBase output, int radius); }
}
