package boofcv.core.image.border;

public class BorderIndex1D_Wrap extends BorderIndex1D { }
