package boofcv.struct.convolve;

public class Kernel2D_S32 extends Kernel2D { public int[] data; public Kernel2D_S32(int[] data, int width, int offset) { this.data = data; this.width = width; this.offset = offset; } public int get(int x, int y) { return data[y * width + x]; } public int[] getData() { return data; } public void set(int x, int y, int v) { data[y * width + x] = v; } @Override public boolean isInteger() { return true; } }
