package boofcv.struct.convolve;

public class Kernel1D_F32 extends Kernel1D { public float[] data; public Kernel1D_F32(float[] data, int width, int offset) { this.data = data; this.width = width; this.offset = offset; } public float get(int i) { return data[i]; } public float[] getData() { return data; } public void set(int i, float v) { data[i] = v; } @Override public boolean isInteger() { return false; } }
