package boofcv.core.image.border;

public class BorderIndex1D_Extend extends BorderIndex1D { }
