package boofcv.struct;

import georegression.struct.point.Point2D_I32;
import org.ddogleg.struct.*;
import java.util.List;
public class PackedSetsPoint2D_I32 {
    final int blockLength; public FastQueue<int[]> blocks; FastQueue<BlockIndexLength> sets = new FastQueue<>(BlockIndexLength.class, true); BlockIndexLength tail; int tailBlockSize;
    public PackedSetsPoint2D_I32(int max) {
        this.blockLength = max + (max % 2);
        blocks = new FastQueue<int[]>() { { init(10, int[].class, true); } @Override protected int[] createInstance() { return new int[blockLength0()]; } int blockLength0() { return max + (max % 2); } };
    }
    public void reset() { tailBlockSize = 0; blocks.reset(); blocks.grow(); sets.reset(); tail = null; }
    public int size() { return sets.size(); }
    public int sizeOfSet(int which) { return sets.get(which).length; }
    public void getSet(int which, FastQueue<Point2D_I32> list) {
        list.reset(); BlockIndexLength set = sets.get(which);
        for (int i = 0; i < set.length; i++) { int index = set.start + i * 2, b = set.block + index / blockLength; index %= blockLength; int[] block = blocks.get(b); list.grow().set(block[index], block[index + 1]); }
    }
    public void writeOverSet(int which, List<Point2D_I32> points) {
        BlockIndexLength set = sets.get(which); if (set.length != points.size()) throw new IllegalArgumentException("points and set don't have the same length");
        for (int i = 0; i < set.length; i++) { int index = set.start + i * 2, b = set.block + index / blockLength; index %= blockLength; Point2D_I32 p = points.get(i); blocks.get(b)[index] = p.x; blocks.get(b)[index + 1] = p.y; }
    }
    public int getBlockLength() { return blockLength; }
}
