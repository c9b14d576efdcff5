package boofcv.struct.image;

public enum ImageDataType {
    U8(true, 8, int.class), S8(true, 8, int.class), U16(true, 16, int.class), S16(true, 16, int.class), S32(true, 32, int.class), S64(true, 64, long.class), F32(false, 32, float.class), F64(false, 64, double.class);
    final boolean integer; final int bits; final Class sum;
    ImageDataType(boolean integer, int bits, Class sum) { this.integer = integer; this.bits = bits; this.sum = sum; }
    public boolean isInteger() { verif.Sched.point(); return integer; }
    public static ImageDataType classToType(Class c) { return ImageType.typeOf(c); }
    public boolean isSigned() { return this != U8 && this != U16; }
    public int getNumBits() { verif.Sched.point(); return bits; }
    public Class getSumType() { return sum; }
    public Class getDataType() { return bits == 8 ? byte.class : bits == 16 ? short.class : this == F32 ? float.class : this == F64 ? double.class : this == S64 ? long.class : int.class; }
}
