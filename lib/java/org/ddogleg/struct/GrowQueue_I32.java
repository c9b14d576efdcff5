package org.ddogleg.struct;

public class GrowQueue_I32 {
    public int[] data; public int size;
    public GrowQueue_I32(int maxSize) { data = new int[maxSize]; }
    public GrowQueue_I32() { this(10); }
    public void reset() { size = 0; }
    public void setTo(GrowQueue_I32 o) { resize(o.size); System.arraycopy(o.data, 0, data, 0, size); }
    public void resize(int size) { if (data.length < size) data = new int[size]; this.size = size; }
    public void add(int v) { if (size == data.length) { int[] a = new int[size * 2 + 5]; System.arraycopy(data, 0, a, 0, size); data = a; } data[size++] = v; }
    public int get(int i) { if (i < 0 || i >= size) throw new IndexOutOfBoundsException("index = " + i + "  size = " + size); return data[i]; }
    public boolean isEmpty() { return size == 0; } public void setTo(int[] a, int off, int n) { resize(n); System.arraycopy(a, off, data, 0, n); } public int[] toArray() { return java.util.Arrays.copyOf(data, size); } public void set(int i, int v) { data[i] = v; } public int unsafe_get(int i) { return data[i]; } public int[] getData() { return data; } public void push(int v) { add(v); } public void zero() { java.util.Arrays.fill(data, 0, size, 0); } public void fill(int v) { java.util.Arrays.fill(data, 0, size, v); }
    public int size() { return size; }
    public int getSize() { return size; }
}
