package boofcv.factory.filter.binary;

import boofcv.abst.filter.binary.BinaryLabelContourFinder;
public class BOverrideFactoryBinaryContourFinder {
    public static Chang2004 chang2004;
    public interface Chang2004 { BinaryLabelContourFinder createChang2004(); }
}
