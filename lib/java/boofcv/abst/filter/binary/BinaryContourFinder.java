package boofcv.abst.filter.binary;

import boofcv.struct.ConnectRule;
import boofcv.alg.filter.binary.ContourPacked;
import georegression.struct.point.Point2D_I32;
import org.ddogleg.struct.FastQueue;
import java.util.List;
public interface BinaryContourFinder {
    List<ContourPacked> getContours();
    void loadContour(int contourID, FastQueue<Point2D_I32> storage);
    void writeContour(int contourID, List<Point2D_I32> storage);
    void setSaveInnerContour(boolean enabled);
    boolean isSaveInternalContours();
    void setMinContour(int length);
    int getMinContour();
    void setMaxContour(int length);
    int getMaxContour();
    void setConnectRule(ConnectRule rule);
    ConnectRule getConnectRule();
}
