package boofcv.alg.filter.blur;

import boofcv.struct.image.*;
public class BOverrideBlurImageOps {
    public static Mean mean; public static Gaussian gaussian; public static Median median;
    public interface Mean<T extends ImageBase<T>> { void processMean(T input, T output, int radius, T storage); }
    public interface Gaussian<T extends ImageBase<T>> { void processGaussian(T input, T output, double sigma, int radius, T storage); }
    public interface Median<T extends ImageBase<T>> { void processMedian(T input, T output, int radius); }
}
