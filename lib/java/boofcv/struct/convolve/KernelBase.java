package boofcv.struct.convolve;

public abstract class KernelBase { public int width, offset; public int getWidth() { return width; } public int getOffset() { return offset; } public int getRadius() { return width / 2; } public abstract int getDimension(); public abstract boolean isInteger(); }
