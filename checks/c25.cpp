// C25: length settings over a full grid around the rounding and sign boundaries, and histories of changed fields.
#include "config_types.h"
#include "util.h"
using namespace boofcv;
const char* mc_property = "C25";
static std::vector<double> grid(double lo, double hi, double step) { std::vector<double> r; for (int i = 0; lo + i * step <= hi; i++) r.push_back(lo + i * step); for (double v : {-1e9, -1e-9, 1e-9, 0.49999999, 0.50000001, 1.49999999, 99.5, 1e6 + 0.5, 2e9}) r.push_back(v); return r; }
static void verify(mc::Ctx& c, const ConfigLength& l, double total) {
    double ln = l.length, fr = l.fraction, want = fr >= 0 ? std::max(fr * total, ln) : ln; bool rel = fr >= 0; c.step(); c.s->checks.fetch_add(6);
    double v = l.compute(total); int i = l.computeI(total), li = l.getLengthI(); int wi = want >= 0 ? (int)std::floor(want + 0.5) : -1;
    if (v != want) c.fail("compute", "length %g, fraction %g of %g is %.12g, expected %.12g", ln, fr, total, v, want);
    if (i != wi) c.fail("computeI", "length %g, fraction %g of %g is %d pixels, expected %d", ln, fr, total, i, wi);
    if (l.isRelative() != rel || l.isFixed() == rel) c.fail("isRelative", "length %g, fraction %g reports relative %d, fixed %d", ln, fr, l.isRelative(), l.isFixed());
    if (ln >= 0 && li != (int)std::floor(ln + 0.5)) c.fail("getLengthI", "length %g is %d pixels", ln, li);
    bool bad = throws([&] { l.checkValidity(); }); if (bad != (ln < 0 && fr < 0)) c.fail("checkValidity", "length %g, fraction %g is reported %s", ln, fr, bad ? "invalid" : "valid");
    if (l.length != ln || l.fraction != fr) c.fail("changed", "reading the setting changed it");
    c.state(mc::mix(mc::hash_bytes(&ln, 8), mc::mix(mc::hash_bytes(&fr, 8), mc::hash_bytes(&total, 8))));
}
void mc_body(mc::Ctx& c) {
    double q = c.thorough ? 0.125 : 0.25; static const std::vector<double> len = grid(-3, c.thorough ? 12 : 8, q), fr = grid(-1, 2, c.thorough ? 0.0625 : 0.125), tot = grid(0, c.thorough ? 40 : 20, 0.5);
    int how = c.choose(4, "made by"); c.shard();
    if (how == 0) { double l = len[c.choose(len.size(), "length")]; c.describe("length %g with every fraction and total", l); for (double f : fr) for (double t : tot) if (t >= 0 && f * t < 2e9) { ConfigLength a(l, f); verify(c, a, t); const Configuration& b = a; c.ok(throws([&] { b.checkValidity(); }) == (l < 0 && f < 0), "checkValidity", "through the base class"); } }
    else if (how == 1) { double l = len[c.choose(len.size(), "length")]; c.describe("fixed(%g)", l); ConfigLength a = ConfigLength::fixed(l); c.ok(a.length == l && a.isFixed() && !a.isRelative(), "fixed", "a fixed length is not what was given"); for (double t : tot) if (t >= 0) { verify(c, a, t); c.ok(a.compute(t) == l, "fixed", "a fixed length depends on the total"); } }
    else if (how == 2) { double f = fr[c.choose(fr.size(), "fraction")]; c.describe("relative(%g)", f); for (int m = -3; m < 15; m++) { ConfigLength a = ConfigLength::relative(f, m); c.ok(a.length == m && a.fraction == f && a.isRelative() == (f >= 0), "relative", "a relative length is not what was given"); for (double t : tot) if (t >= 0 && f * t < 2e9) verify(c, a, t); } }
    else {      // one object whose fields change, copies are independent
        ConfigLength a; c.ok(a.length == -1 && a.fraction == -1 && throws([&] { a.checkValidity(); }), "default", "the default setting is not undefined"); static const double lv[] = {-1, 0, 0.5, 3, 7.4}, fv[] = {-1, 0, 0.3, 1}; double l = -1, f = -1; c.describe("a history of changes");
        for (int i = 0; i < (c.thorough ? 4 : 3); i++) { switch (c.choose(4, "change")) { case 0: a.length = l = lv[c.choose(5, "length")]; break; case 1: a.fraction = f = fv[c.choose(4, "fraction")]; break; case 2: { l = lv[c.choose(5, "length")]; f = -1; ConfigLength b = ConfigLength::fixed(l); a = b; b.length = 99; b.fraction = 5; break; } default: l = (double)c.choose(4, "minimum") - 1; f = fv[c.choose(4, "fraction")]; a = ConfigLength::relative(f, (int)l); }
            c.ok(a.length == l && a.fraction == f, "fields", "the setting's fields changed by themselves"); for (double t : {0., 1., 10., 99.}) verify(c, a, t); }
    }
}
