package boofcv.core.image.border;

public class BorderIndex1D_Reflect extends BorderIndex1D { }
