package org.ddogleg.struct;

import java.lang.reflect.Array;
import java.util.*;
public class FastQueue<T> {
    public T[] data; public int size; public Class<T> type; boolean declare;
    public FastQueue(Class<T> type, boolean declareInstances) { this(10, type, declareInstances); }
    public FastQueue(int max, Class<T> type, boolean declareInstances) { init(max, type, declareInstances); }
    protected FastQueue() { }
    protected void init(int max, Class<T> type, boolean declareInstances) { this.type = type; declare = declareInstances; size = 0; data = (T[]) Array.newInstance(type, max); if (declare) for (int i = 0; i < max; i++) data[i] = createInstance(); }
    protected T createInstance() { try { return type.getConstructor().newInstance(); } catch (Exception e) { throw new RuntimeException(e); } }
    public List<T> toList() { List<T> l = new ArrayList<>(); for (int i = 0; i < size; i++) l.add(data[i]); return l; }
    public void reset() { size = 0; }
    public T get(int i) { if (i < 0 || i >= size) throw new IllegalArgumentException("Out of bounds: index=" + i + " size=" + size); return data[i]; }
    public T getTail() { return data[size - 1]; }
    public T grow() { if (size < data.length) return data[size++]; growArray(size * 2 + 5); return data[size++]; }
    public void growArray(int length) { if (data.length >= length) return; T[] d = (T[]) Array.newInstance(type, length); System.arraycopy(data, 0, d, 0, data.length); if (declare) for (int i = data.length; i < length; i++) d[i] = createInstance(); data = d; }
    public void resize(int length) { growArray(length); size = length; }
    public boolean isEmpty() { return size == 0; } public void add(T o) { if (size >= data.length) growArray(size * 2 + 5); data[size++] = o; } public void removeTail() { size--; } public int getMaxSize() { return data.length; } public T[] getData() { return data; }
    public int size() { return size; }
    public int getSize() { return size; }
}
