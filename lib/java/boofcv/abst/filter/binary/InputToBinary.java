package boofcv.abst.filter.binary;

import boofcv.struct.image.*;
public interface InputToBinary<T extends ImageGray<T>> { void process(T input, GrayU8 output); ImageType<T> getInputType(); }
