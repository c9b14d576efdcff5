package boofcv.abst.filter.binary;

import boofcv.struct.image.*;
public interface BinaryLabelContourFinder extends BinaryContourFinder { void process(GrayU8 binary, GrayS32 labeled); }
