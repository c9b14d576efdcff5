// Reference for blobs and contours, written from the definitions: components by flood fill, contours by following the
// cracks between a blob and the region it borders.
#ifndef CONTOUR_REF_H
#define CONTOUR_REF_H
#include <vector>
#include <cstdint>
#include <cstring>
#include <algorithm>
struct RefContour { uint32_t begin, end; int sx, sy; };
struct ContourRef {
    int w = 0, h = 0; bool eight = false; int N = 0;
    std::vector<uint8_t> fg;          // padded by one pixel of background
    std::vector<int> lab, reg;        // padded: blob label, background region (0 = outside)
    std::vector<int> px, py;          // contour points, packed
    std::vector<RefContour> ext;      // [label-1]
    std::vector<std::pair<int, RefContour>> holes;   // label, contour
    std::vector<int> stack;
    int W = 0;
    int at(int x, int y) const { return (y + 1) * W + x + 1; }

    void flood(std::vector<int>& out, int start, int value, bool diag, uint8_t kind) {
        stack.clear(); stack.push_back(start); out[start] = value;
        int H = h + 2;
        while (!stack.empty()) {
            int p = stack.back(); stack.pop_back(); int x = p % W, y = p / W;
            for (int dy = -1; dy <= 1; dy++) for (int dx = -1; dx <= 1; dx++) {
                if ((dx == 0 && dy == 0) || (!diag && dx != 0 && dy != 0)) continue;
                int xx = x + dx, yy = y + dy;
                if (xx < 0 || yy < 0 || xx >= W || yy >= H) continue;
                int q = yy * W + xx;
                if (fg[q] == kind && out[q] < 0) { out[q] = value; stack.push_back(q); }
            }
        }
    }
    RefContour follow(int x0, int y0, int side0) {
        static const int DX[4] = {1, 0, -1, 0}, DY[4] = {0, 1, 0, -1}, NX[4] = {0, 1, 0, -1}, NY[4] = {-1, 0, 1, 0};
        RefContour c; c.begin = (uint32_t)px.size(); c.sx = x0; c.sy = y0;
        int x = x0, y = y0, s = side0; px.push_back(x); py.push_back(y);
        do {
            int ax = x + DX[s], ay = y + DY[s], lx = ax + NX[s], ly = ay + NY[s];
            bool A = fg[at(ax, ay)], L = fg[at(lx, ly)];
            if (eight ? L : (A && L)) {
                if (!eight) { px.push_back(ax); py.push_back(ay); }
                x = lx; y = ly; s = (s + 3) & 3; px.push_back(x); py.push_back(y);
            } else if (A) { x = ax; y = ay; px.push_back(x); py.push_back(y); }
            else s = (s + 1) & 3;
        } while (!(x == x0 && y == y0 && s == side0));
        // the walk is closed: its last point is the first one again
        if (px.size() - c.begin > 1) { px.pop_back(); py.pop_back(); }
        c.end = (uint32_t)px.size();
        return c;
    }
    void compute(const uint8_t* img, int w_, int h_, bool eight_) {
        w = w_; h = h_; eight = eight_; W = w + 2; int T = W * (h + 2);
        fg.assign(T, 0); lab.assign(T, -1); reg.assign(T, -1); px.clear(); py.clear(); ext.clear(); holes.clear(); N = 0;
        for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) fg[at(x, y)] = img[y * w + x];
        flood(reg, 0, 0, !eight, 0); int R = 0;
        for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
            int p = at(x, y);
            if (fg[p]) {
                if (lab[p] < 0) { flood(lab, p, ++N, eight, 1); ext.push_back(follow(x, y, 0)); }
            } else if (reg[p] < 0) {
                flood(reg, p, ++R, !eight, 0);
                holes.emplace_back(lab[at(x, y - 1)], follow(x, y - 1, 2));
            }
        }
    }
    int label(int x, int y) const { int v = lab[at(x, y)]; return v < 0 ? 0 : v; }
};
#endif
