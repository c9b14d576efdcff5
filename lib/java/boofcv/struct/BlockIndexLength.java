package boofcv.struct;

public class BlockIndexLength { public int block, start, length; public void set(int start, int length, int block) { this.block = block; this.start = start; this.length = length; } }
