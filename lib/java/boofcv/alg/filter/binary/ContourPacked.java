package boofcv.alg.filter.binary;

import org.ddogleg.struct.GrowQueue_I32;
public class ContourPacked { public int id; public int externalIndex; public GrowQueue_I32 internalIndexes = new GrowQueue_I32(); public void reset() { id = -1; externalIndex = -1; internalIndexes.reset(); } }
