package georegression.struct.point;

public class Point2D_I32 { public int x, y; public Point2D_I32(int x, int y) { this.x = x; this.y = y; } public Point2D_I32() { } public void set(int x, int y) { this.x = x; this.y = y; } public Point2D_I32(Point2D_I32 p) { x = p.x; y = p.y; } public void set(Point2D_I32 p) { x = p.x; y = p.y; } public void setTo(Point2D_I32 p) { set(p); } public Point2D_I32 copy() { return new Point2D_I32(x, y); } public int getX() { return x; } public int getY() { return y; } }
