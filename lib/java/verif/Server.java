package verif;

import java.io.*;
import java.util.*;
import boofcv.abst.filter.binary.*;
import boofcv.alg.filter.binary.ContourPacked;
import boofcv.alg.filter.blur.BOverrideBlurImageOps;
import boofcv.alg.filter.convolve.*;
import boofcv.core.image.border.*;
import boofcv.factory.filter.binary.*;
import boofcv.struct.*;
import boofcv.struct.convolve.*;
import boofcv.struct.image.*;
import georegression.struct.point.Point2D_I32;
import org.ddogleg.struct.FastQueue;
// Executes the calls the explorer sends, with the repository's Java classes and its real native library.
@SuppressWarnings({"unchecked", "rawtypes"})
public class Server {
    static DataInputStream in; static DataOutputStream out; static final Map<Integer, Object> objects = new HashMap<>();
    static final Class[] types = {GrayU8.class, GrayS8.class, GrayU16.class, GrayS16.class, GrayS32.class, GrayF32.class, GrayF64.class};
    interface Reply { void write() throws IOException; }
    static long memory; static final Reply NONE = () -> { };
    public static void main(String[] a) throws Exception {
        in = new DataInputStream(new BufferedInputStream(System.in, 1 << 16)); out = new DataOutputStream(new BufferedOutputStream(new FileOutputStream(FileDescriptor.out), 1 << 16)); System.setOut(System.err);
        if (a.length > 0) System.setErr(new PrintStream(new OutputStream() { public void write(int b) { } public void write(byte[] b, int o, int n) { } }));   // expected failures are described there; the real one still shows
        for (;;) {
            int op; try { op = in.readByte(); } catch (EOFException e) { return; }
            Reply r;
            try { r = perform(op); }
            catch (IOException e) { return; }
            catch (Throwable e) { out.writeByte(e instanceof RuntimeException ? 1 : 2); out.writeUTF(e.getClass().getName()); out.writeUTF(String.valueOf(e.getMessage())); out.flush(); continue; }
            out.writeByte(0); r.write(); out.flush();
        }
    }
    static <T> T obj() throws IOException { return (T) objects.get(in.readInt()); }
    static boolean bool() throws IOException { return in.readByte() != 0; }
    static ImageBase makeImage() throws IOException {
        int type = in.readByte(), w = in.readInt(), h = in.readInt(), start = in.readInt(), stride = in.readInt(), len = in.readInt(); boolean sub = bool(); int[] v = new int[len]; for (int i = 0; i < len; i++) v[i] = in.readInt();
        if (type == 7) return new InterleavedU8(w, h, 2);
        ImageGray g; try { g = (ImageGray) types[type].getConstructor(int.class, int.class).newInstance(0, 0); } catch (Exception e) { throw new RuntimeException(e); }
        g.width = w; g.height = h; g.startIndex = start; g.stride = stride; g.subImage = sub;
        Object d; if (type <= 1) { byte[] b = new byte[len]; for (int i = 0; i < len; i++) b[i] = (byte) v[i]; d = b; } else if (type <= 3) { short[] b = new short[len]; for (int i = 0; i < len; i++) b[i] = (short) v[i]; d = b; }
        else if (type == 4) d = v; else if (type == 5) { float[] b = new float[len]; for (int i = 0; i < len; i++) b[i] = Float.intBitsToFloat(v[i]); d = b; } else { double[] b = new double[len]; for (int i = 0; i < len; i++) b[i] = v[i]; d = b; }
        g._setData(d); return g;
    }
    static void writeData(Object d) throws IOException {
        int n = java.lang.reflect.Array.getLength(d); out.writeInt(n);
        for (int i = 0; i < n; i++) { if (d instanceof byte[]) out.writeInt(((byte[]) d)[i]); else if (d instanceof short[]) out.writeInt(((short[]) d)[i]); else if (d instanceof int[]) out.writeInt(((int[]) d)[i]); else if (d instanceof float[]) out.writeInt(Float.floatToRawIntBits(((float[]) d)[i])); else out.writeInt((int) ((double[]) d)[i]); }
    }
    static KernelBase makeKernel() throws IOException {
        boolean two = bool(), flt = bool(); int width = in.readInt(), offset = in.readInt(), len = in.readInt(); int[] v = new int[len]; float[] f = new float[len]; for (int i = 0; i < len; i++) { v[i] = in.readInt(); f[i] = Float.intBitsToFloat(v[i]); }
        return two ? flt ? new Kernel2D_F32(f, width, offset) : new Kernel2D_S32(v, width, offset) : flt ? new Kernel1D_F32(f, width, offset) : new Kernel1D_S32(v, width, offset);
    }
    static Object dataOf(Object o) { if (o instanceof Kernel1D_S32) return ((Kernel1D_S32) o).data; if (o instanceof Kernel1D_F32) return ((Kernel1D_F32) o).data; if (o instanceof Kernel2D_S32) return ((Kernel2D_S32) o).data; return ((Kernel2D_F32) o).data; }
    interface Make { InputToBinary make(); }
    static Make makeThreshold() throws IOException {
        int kind = in.readByte(), type = in.readByte(); boolean down = bool(), local = bool(), otsu2 = bool(); double a = in.readDouble(), b = in.readDouble(); ConfigLength len = new ConfigLength(in.readDouble(), in.readDouble()); Class c = types[type];
        switch (kind) {
            case 0: return () -> BOverrideFactoryThresholdBinary.globalFixed.handle(a, down, c);
            case 1: return () -> BOverrideFactoryThresholdBinary.globalOtsu.handle(a, b, down, c);
            case 2: return () -> BOverrideFactoryThresholdBinary.localMean.handle(len, a, down, c);
            case 3: return () -> BOverrideFactoryThresholdBinary.blockMean.handle(len, a, down, local, c);
            case 4: return () -> BOverrideFactoryThresholdBinary.blockMinMax.handle(len, a, down, b, local, c);
            default: return () -> BOverrideFactoryThresholdBinary.blockOtsu.handle(otsu2, len, b, a, down, local, c);
        }
    }
    static ImageBorder border(int kind, double value) {
        switch (kind) {
            case 0: return new ImageBorder1D_S32(BorderIndex1D_Extend.class); case 1: return new ImageBorder1D_S32(BorderIndex1D_Reflect.class); case 2: return new ImageBorder1D_S32(BorderIndex1D_Wrap.class); case 3: return new ImageBorderValue.Value_I((int) value); case 4: return new ImageBorder1D_S32(BorderIndex1D_Exception.class);
            case 5: return new ImageBorder1D_F32(BorderIndex1D_Extend.class); case 6: return new ImageBorder1D_F32(BorderIndex1D_Reflect.class); case 7: return new ImageBorder1D_F32(BorderIndex1D_Wrap.class); case 8: return new ImageBorderValue.Value_F32((float) value); default: return new ImageBorder1D_F32(BorderIndex1D_Exception.class);
        }
    }
    // a filter call: read here, run now or later
    static Runnable filterCall() throws IOException {
        int op = in.readByte();
        if (op == 9) { Make m = makeThreshold(); ImageGray i = obj(); GrayU8 o = obj(); return () -> m.make().process(i, o); }
        if (op == 10) { int id = in.readInt(), mi = in.readInt(), ma = in.readInt(); boolean save = bool(), eight = bool(); GrayU8 i = obj(); GrayS32 o = obj(); return () -> { BinaryLabelContourFinder f = BOverrideFactoryBinaryContourFinder.chang2004.createChang2004(); f.setMinContour(mi); f.setMaxContour(ma); f.setSaveInnerContour(save); f.setConnectRule(eight ? ConnectRule.EIGHT : ConnectRule.FOUR); f.process(i, o); synchronized (objects) { objects.put(id, f); } }; }
        ImageBase i = obj(), o = obj();
        if (op == 0) { int radius = in.readInt(); ImageBase st = obj(); return () -> BOverrideBlurImageOps.mean.processMean(i, o, radius, st); }
        if (op == 1) { double sigma = in.readDouble(); int radius = in.readInt(); ImageBase st = obj(); return () -> BOverrideBlurImageOps.gaussian.processGaussian(i, o, sigma, radius, st); }
        KernelBase k = obj();
        if (op <= 4) { ImageBorder b = border(in.readByte(), in.readDouble()); return () -> { if (op == 2) BOverrideConvolveImage.horizontal.horizontal((Kernel1D) k, i, o, b); else if (op == 3) BOverrideConvolveImage.vertical.vertical((Kernel1D) k, i, o, b); else BOverrideConvolveImage.convolve.convolve((Kernel2D) k, i, o, b); }; }
        if (op == 7) return () -> ((BOverrideConvolveImageNormalized.Convolve) BOverrideConvolveImageNormalized.horizontal).convolve((Kernel2D) k, i, o);
        return () -> { if (op == 5) BOverrideConvolveImageNormalized.horizontal.horizontal((Kernel1D) k, i, o); else BOverrideConvolveImageNormalized.vertical.vertical((Kernel1D) k, i, o); };
    }
    static Reply overrides() {
        Object[] o = {BOverrideFactoryThresholdBinary.globalEntropy, BOverrideFactoryThresholdBinary.localGaussian, BOverrideFactoryThresholdBinary.localOtsu, BOverrideBlurImageOps.median, BOverrideConvolveImageMean.horizontal, BOverrideConvolveImageMean.vertical, BOverrideConvolveImageNormalized.convolve,
            BOverrideFactoryThresholdBinary.globalFixed, BOverrideFactoryThresholdBinary.globalOtsu, BOverrideFactoryThresholdBinary.localMean, BOverrideFactoryThresholdBinary.blockMinMax, BOverrideFactoryThresholdBinary.blockMean, BOverrideFactoryThresholdBinary.blockOtsu, BOverrideBlurImageOps.mean, BOverrideBlurImageOps.gaussian,
            BOverrideConvolveImageNormalized.horizontal, BOverrideConvolveImageNormalized.vertical, BOverrideConvolveImage.horizontal, BOverrideConvolveImage.vertical, BOverrideConvolveImage.convolve, BOverrideFactoryBinaryContourFinder.chang2004};
        return () -> { out.writeInt(o.length); for (Object x : o) out.writeByte(x == null ? 0 : 1); };
    }
    static Reply perform(int op) throws IOException {
        switch (op) {
            case 1: objects.clear(); return NONE;
            case 2: org.boofcpp.BoofCPP.initialize(); return overrides();
            case 3: { int id = in.readInt(); objects.put(id, makeImage()); return NONE; }
            case 4: { ImageGray g = obj(); return () -> { out.writeInt(g.width); out.writeInt(g.height); out.writeInt(g.startIndex); out.writeInt(g.stride); out.writeByte(g.subImage ? 1 : 0); writeData(g._getData()); }; }
            case 5: { int id = in.readInt(); InputToBinary t = makeThreshold().make(); objects.put(id, t); return NONE; }
            case 6: { InputToBinary t = obj(); ImageGray i = obj(); GrayU8 o = obj(); t.process(i, o); return NONE; }
            case 7: { InputToBinary t = obj(); ImageType y = t.getInputType(); return () -> { out.writeByte(y.getFamily() == ImageType.Family.GRAY ? 1 : 0); out.writeUTF(y.getDataType().name()); }; }
            case 8: { filterCall().run(); return NONE; }
            case 12: { int id = in.readInt(); objects.put(id, makeKernel()); return NONE; }
            case 13: { KernelBase k = obj(); return () -> { out.writeInt(k.width); out.writeInt(k.offset); writeData(dataOf(k)); }; }
            case 14: { int id = in.readInt(); objects.put(id, BOverrideFactoryBinaryContourFinder.chang2004.createChang2004()); return NONE; }
            case 15: { BinaryLabelContourFinder f = obj(); GrayU8 i = obj(); GrayS32 o = obj(); f.process(i, o); return NONE; }
            case 16: { BinaryLabelContourFinder f = obj(); int which = in.readByte(), v = in.readInt(); if (which == 0) f.setMinContour(v); else if (which == 1) f.setMaxContour(v); else if (which == 2) f.setSaveInnerContour(v != 0); else f.setConnectRule(v == 0 ? ConnectRule.FOUR : ConnectRule.EIGHT); return NONE; }
            case 17: { BinaryLabelContourFinder f = obj(); int mi = f.getMinContour(), ma = f.getMaxContour(); boolean s = f.isSaveInternalContours(); ConnectRule r = f.getConnectRule(); return () -> { out.writeInt(mi); out.writeInt(ma); out.writeInt(s ? 1 : 0); out.writeInt(r == ConnectRule.FOUR ? 0 : r == ConnectRule.EIGHT ? 1 : 2); }; }
            case 18: { BinaryLabelContourFinder f = obj(); List<ContourPacked> l = f.getContours(); return () -> { out.writeInt(l.size()); for (ContourPacked p : l) { out.writeInt(p.id); out.writeInt(p.externalIndex); out.writeInt(p.internalIndexes.size); for (int i = 0; i < p.internalIndexes.size; i++) out.writeInt(p.internalIndexes.data[i]); } }; }
            case 19: { BinaryLabelContourFinder f = obj(); int which = in.readInt(); FastQueue<Point2D_I32> q = new FastQueue<>(Point2D_I32.class, true); for (int i = 0; i < 3; i++) q.grow().set(-9, -9); f.loadContour(which, q); return () -> { out.writeInt(q.size); for (int i = 0; i < q.size; i++) { out.writeInt(q.get(i).x); out.writeInt(q.get(i).y); } }; }
            case 20: { BinaryLabelContourFinder f = obj(); int which = in.readInt(), n = in.readInt(); List<Point2D_I32> l = new ArrayList<>(); for (int i = 0; i < n; i++) { int x = in.readInt(); l.add(new Point2D_I32(x, in.readInt())); } f.writeContour(which, l); return NONE; }
            case 21: { objects.remove(in.readInt()); for (int i = 0; i < 2; i++) { System.gc(); System.runFinalization(); } return NONE; }
            case 30: {
                Runtime rt = Runtime.getRuntime(); if (rt.totalMemory() - rt.freeMemory() > memory + (16 << 20)) { System.gc(); memory = rt.totalMemory() - rt.freeMemory(); }        // so that none is needed while a thread stands in a critical section
                String key = in.readInt() + ""; int n = in.readInt(); Runnable[] jobs = new Runnable[n]; for (int i = 0; i < n; i++) jobs[i] = filterCall(); Sched.learn(key, jobs); Throwable[] r;
                try { r = Sched.run(jobs, en -> { out.writeByte(9); for (boolean e : en) out.writeByte(e ? 1 : 0); out.flush(); return in.readByte(); }); } catch (IOException e) { throw e; } catch (Exception e) { throw new RuntimeException(e); }
                return () -> { for (Throwable t : r) out.writeUTF(t == null ? "" : t.toString()); };
            }
            default: throw new Error("unknown command " + op);
        }
    }
}
