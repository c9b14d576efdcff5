package boofcv.core.image.border;

public class BorderIndex1D_Exception extends BorderIndex1D { }
