package boofcv.struct.convolve;

public class Kernel2D_F32 extends Kernel2D { public float[] data; public Kernel2D_F32(float[] data, int width, int offset) { this.data = data; this.width = width; this.offset = offset; } public float get(int x, int y) { return data[y * width + x]; } public float[] getData() { return data; } public void set(int x, int y, float v) { data[y * width + x] = v; } @Override public boolean isInteger() { return false; } }
