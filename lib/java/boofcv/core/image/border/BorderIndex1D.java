package boofcv.core.image.border;

public abstract class BorderIndex1D { protected int length; public void setLength(int n) { length = n; } public int getLength() { return length; } }
