// C12: in-place edits
#include "mk.hpp"
#include <omp.h>
using namespace m;
#ifndef VT
const char* vf_rule = "Histories of 4-20 edits (cells set inside and outside the grid and among layers, no-data replaced, values reclassified, each with any value of the type) of rasters of ten cell types in every storage mode; after each edit every cell of every layer, the no-data value and the stored length are compared with the model; distinct histories are counted.";
void vf_init() { init(); }
#else
template <class T> void edits(vf::Case& c) {
    auto& r = c.r;
    typedef std::numeric_limits<T> L;
    Built<T> b;
    MkOpt o;
    if (r.chance(.6)) o.gen.mode = 0;
    build(r, b, o);
    Grid<T>& g = b.g;
    string log;
    int steps = (int) r.range(4, 20);
    uint64_t h = g.hash();
    auto value = [&]() -> T { T x = gen_value<T>(r, (int) r.below(3)); if (r.chance(.25) || ndeq((double) x, (double) g.nodata)) x = g.nodata; return x; };
    for (int s = 0; s < steps; s++) {
        omp_set_num_threads((int) r.range(1, 4));
        string what;
        switch (r.below(8)) {
            case 0: case 1: case 2: case 3: {
                int row = (int) r.below(g.rows), col = (int) r.below(g.cols), l = (int) r.below(g.lyrs), i = row * g.cols + col;
                T x = value();
                what = Str() << "SetValue(" << row << "," << col << "," << +x << "," << l + 1 << ")";
                vf::desc("edits " + what + " after " + log + " of " + b.str());
                if (l == 0 && r.chance(.3)) b->SetValue(row, col, x); else b->SetValue(row, col, x, l + 1);
                if (b.index(i) >= 0) { g.v[l][i] = x; vf::tally("cells set"); } else vf::tally("cells not kept left alone");
                break;
            }
            case 4: { // outside
                static const int big[] = {-1, -5, INT_MIN, INT_MAX};
                int row = (int) r.below(g.rows), col = (int) r.below(g.cols), l = (int) r.range(1, g.lyrs);
                switch (r.below(3)) { case 0: row = r.chance(.5) ? g.rows + (int) r.below(3) : big[r.below(4)]; break; case 1: col = r.chance(.5) ? g.cols + (int) r.below(3) : big[r.below(4)]; break; default: l = r.chance(.5) ? g.lyrs + 1 + (int) r.below(2) : r.pickv({0, -1, INT_MIN, INT_MAX}); }
                what = Str() << "SetValue(" << row << "," << col << ",layer " << l << ")";
                vf::desc("edits " + what + " after " + log + " of " + b.str());
                b->SetValue(row, col, value(), l);
                vf::tally("edits outside");
                break;
            }
            case 5: {
                T nd = gen_nodata<T>(r);
                bool used = false;
                for (auto& l: g.v) for (auto x: l) if (ndeq((double) x, (double) nd) && !ndeq((double) x, (double) g.nodata)) used = true;
                if (used) continue; // valid cells would become no-data
                what = Str() << "ReplaceNoData(" << +nd << ")";
                vf::desc("edits " + what + " after " + log + " of " + b.str());
                b->ReplaceNoData(nd);
                for (auto& l: g.v) for (auto& x: l) if (ndeq((double) x, (double) g.nodata)) x = nd;
                g.nodata = nd;
                vf::tally("no-data replaced");
                break;
            }
            case 6: {
                bool frac = false;
                for (auto& l: g.v) for (auto x: l) if ((double) x != std::trunc((double) x)) frac = true;
                if (frac) continue; // the key of a fraction is not specified
                map<int, T> rc;
                vector<int> seen;
                for (int q = 0; q < 8; q++) { int i = (int) r.below(g.n()), l = (int) r.below(g.lyrs); if (std::fabs((double) g.v[l][i]) < 2e9) seen.push_back((int) g.v[l][i]); }
                int k = (int) r.below(10);
                for (int q = 0; q < k; q++) rc[!seen.empty() && r.chance(.7) ? r.pick(seen) : (int) r.range(-6, 9)] = r.chance(.3) && L::lowest() <= -6 ? (T) r.range(-6, 9) : value();
                if (r.chance(.3) && g.nodata > -2e9 && g.nodata < 2e9) rc[(int) g.nodata] = value(); // no-data must stay
                if (r.chance(.4)) { // keys that wide values would wrap to
                    rc[r.pickv({INT_MIN, INT_MAX, -1, 0})] = value();
                    for (auto& l: g.v) { double x = (double) l[r.below(g.n())]; if (std::fabs(x) >= 2147483648. && std::fabs(x) < 9e18) rc[(int) (uint32_t) (uint64_t) (int64_t) x] = value(); }
                }
                what = Str() << "Reclassify(" << rc.size() << " entries)";
                vf::desc("edits " + what + " after " + log + " of " + b.str());
                b->Reclassify(rc);
                for (auto& l: g.v) for (auto& x: l) if (!ndeq((double) x, (double) g.nodata)) { auto f = (double) x >= -2147483648. && (double) x <= 2147483647. ? rc.find((int) x) : rc.end(); x = f == rc.end() ? g.nodata : f->second; }
                vf::tally("reclassifications");
                break;
            }
            default: { // between edits the valid cells may be worked out, once
                if (!b.full || g.nvalid() == 0 || !r.chance(.3)) continue;
                what = "SetCalcPositions";
                vf::desc("edits " + what + " after " + log + " of " + b.str());
                VF_CHECK(b->SetCalcPositions(), "positions", "SetCalcPositions failed");
                b.compacted();
            }
        }
        log += what + "; ";
        h = vf::hash_str(what, h);
        string sig = what.substr(0, what.find('('));
        verify(b, sig, "after " + log);
    }
    vf::distinct(h);
}
M_KIND(edits, 1)
#endif
