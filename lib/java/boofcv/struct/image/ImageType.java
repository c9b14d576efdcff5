package boofcv.struct.image;

public class ImageType<T extends ImageBase<T>> {
    public enum Family { GRAY, PLANAR, INTERLEAVED }
    Family family; ImageDataType dataType; int numBands;
    public ImageType(Family family, ImageDataType dataType, int numBands) { this.family = family; this.dataType = dataType; this.numBands = numBands; }
    public static <T extends ImageGray<T>> ImageType<T> single(Class<T> type) { verif.Sched.point(); return new ImageType<>(Family.GRAY, typeOf(type), 1); }
    static ImageDataType typeOf(Class type) {
        if (type == GrayU8.class) return ImageDataType.U8; if (type == GrayS8.class) return ImageDataType.S8; if (type == GrayU16.class) return ImageDataType.U16; if (type == GrayS16.class) return ImageDataType.S16;
        if (type == GrayS32.class) return ImageDataType.S32; if (type == GrayF32.class) return ImageDataType.F32; if (type == GrayF64.class) return ImageDataType.F64; throw new RuntimeException("Unknown type " + type);
    }
    public Family getFamily() { verif.Sched.point(); return family; }
    public ImageDataType getDataType() { verif.Sched.point(); return dataType; }
    public static <T extends ImageGray<T>> ImageType<T> single(ImageDataType type) { return new ImageType<>(Family.GRAY, type, 1); }
    public T createImage(int w, int h) { try { return (T) getImageClass().getConstructor(int.class, int.class).newInstance(w, h); } catch (Exception e) { throw new RuntimeException(e); } }
    @Override public String toString() { return "ImageType( " + family + " " + dataType + " " + numBands + " )"; }
    public int getNumBands() { return numBands; }
    public Class getImageClass() { verif.Sched.point();
        if (family != Family.GRAY) return InterleavedU8.class;
        switch (dataType) { case U8: return GrayU8.class; case S8: return GrayS8.class; case U16: return GrayU16.class; case S16: return GrayS16.class; case S32: return GrayS32.class; case F32: return GrayF32.class; case F64: return GrayF64.class; default: throw new RuntimeException("no class"); }
    }
    public boolean isSameType(ImageType o) { return family == o.family && dataType == o.dataType && numBands == o.numBands; }
}
