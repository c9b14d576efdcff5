package boofcv.core.image.border;

public class ImageBorderValue {
    public static class Value_F32 extends ImageBorder_F32 { public float value; public Value_F32(float v) { value = v; } public float getValue() { return value; } }
    public static class Value_I extends ImageBorder_S32 { public int value; public Value_I(int v) { value = v; } public int getValue() { return value; } }
}
