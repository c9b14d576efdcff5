package boofcv.struct.convolve;

public abstract class Kernel2D extends KernelBase { @Override public int getDimension() { return 2; } }
