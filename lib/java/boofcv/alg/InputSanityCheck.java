package boofcv.alg;

import boofcv.struct.image.ImageBase;
public class InputSanityCheck {
    public static <T extends ImageBase<T>> T checkDeclare(T input, T output) { verif.Sched.point(); if (output == null) return (T) input.createNew(input.width, input.height); output.reshape(input.width, input.height); return output; }
    public static <T extends ImageBase<T>> T checkDeclare(ImageBase<?> input, T output, Class<T> type) { try { if (output == null) return type.getConstructor(int.class, int.class).newInstance(input.width, input.height); } catch (Exception e) { throw new RuntimeException(e); } output.reshape(input.width, input.height); return output; }
    public static void checkSameShape(ImageBase<?> a, ImageBase<?> b) { if (a.width != b.width || a.height != b.height) throw new IllegalArgumentException("Image shapes do not match"); }
    public static void checkSameShape(ImageBase<?> a, ImageBase<?> b, ImageBase<?> c) { checkSameShape(a, b); checkSameShape(a, c); }
}
