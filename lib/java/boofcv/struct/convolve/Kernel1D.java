package boofcv.struct.convolve;

public abstract class Kernel1D extends KernelBase { public boolean isOdd() { return width % 2 == 1; } public int getMinDimension() { return width; } @Override public int getDimension() { return 1; } }
