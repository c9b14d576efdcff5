package boofcv.core.image.border;

public class ImageBorder1D_S32 extends ImageBorder_S32 implements ImageBorder1D {
    BorderIndex1D rowWrap, colWrap;
    public ImageBorder1D_S32(Class<?> type) { try { rowWrap = (BorderIndex1D) type.getConstructor().newInstance(); colWrap = (BorderIndex1D) type.getConstructor().newInstance(); } catch (Exception e) { throw new RuntimeException(e); } }
    @Override public BorderIndex1D getRowWrap() { return rowWrap; }
    @Override public BorderIndex1D getColWrap() { return colWrap; }
}
