// The program show_pattern: images of the elements and of the blocks of a matrix.
#include "bbgen.h"
#include "program.h"
#include "xpm.h"
#include "BlasBooster/Core/Matrix.h"
#include "BlasBooster/Core/BlockedMatrix.h"
#include "BlasBooster/Core/BlockedMatrixGenerator.h"
#include "BlasBooster/Core/BlockSizeGenerator.h"
using namespace bb;

extern "C" int show_pattern_main(int argc, char* argv[]);       // program_show_pattern.cpp

namespace {

struct Color { std::string index, color; double threshold; };

std::string color_name(Ctx& c) { char b[10]; snprintf(b, sizeof b, "%06x", (unsigned)c.below(1 << 24)); return b; }

LAW("show_pattern", 1)
{
    bool blocks = c.chance(2, 3), with_settings = blocks || c.chance(3, 4), sh = c.chance(1, 2);
    size_t bad = c.below(20);
    size_t r = c.size(1, c.big(14)), n = c.size(1, c.big(14)), mn = c.size(1, 3), mx = 2 * mn + c.below(3);
    bool standard_sizes = blocks && c.chance(1, 8);     // of the blocks
    if (standard_sizes) {
        mn = 200; mx = 1000;
        if (c.chance(1, 3)) { r = c.range(990, 1300); n = c.size(1, 3); if (c.chance(1, 2)) std::swap(r, n); c.bulk(); c.tag("standard sizes, large matrix"); }
    }
    // magnitudes in patches: the blocks have different types
    Ref a(r, n);
    for (size_t k = c.size(c.chance(1, 8) ? 0 : 1, 4); k; --k) {
        size_t i0 = c.below(r), j0 = c.below(n), h = c.size(1, r - i0), w = c.size(1, n - j0);
        double v = std::ldexp(c.chance(1, 3) ? -1.5 : 1.25, (int)c.range(0, 24) - 20);
        size_t gaps = c.below(3);
        for (size_t i = i0; i < i0 + h; ++i) for (size_t j = j0; j < j0 + w; ++j) if (!gaps || c.chance(1, gaps + 1)) a(i,j) = v;
    }
    std::vector<Color> palette;
    std::string bi, bc;
    ptree root;
    ThresholdSettings threshold;
    if (with_settings) {
        static const std::string chars = "abcdefXYZ0123 .+#*";
        size_t start = c.below(chars.size()), m = c.size(c.chance(1, 8) ? 0 : 1, 6);
        double t = blocks ? 2.0 : 16.0;
        ptree list;
        for (size_t k = 0; k < m; ++k) {
            t *= blocks ? c.chance(1, 3) ? 0.01 : 0.1 : std::ldexp(1.0, -(int)c.below(8));
            palette.push_back({std::string(1, chars[(start + k) % chars.size()]), color_name(c), t});
            ptree e; e.put("index", palette.back().index); e.put("color", palette.back().color); e.put("threshold", t);
            list.push_back(std::make_pair("", e));
        }
        bi = std::string(1, chars[(start + m) % chars.size()]); bc = color_name(c);
        ptree ps, bs;
        ps.put_child("palette", list); ps.put("background_index", bi); ps.put("background_color", bc);
        root.put_child("pattern_generator_settings", ps);
        if (!standard_sizes || c.chance(1, 4)) bs.put("min_block_size", mn);
        if (!standard_sizes || c.chance(1, 4)) bs.put("max_block_size", mx);
        if (blocks && c.chance(1, 2)) {
            ptree th;
            auto put = [&](char const* name, auto& member, double v) { member = v; th.put(name, v); };
            double single = std::ldexp(1.0, -(int)c.below(22));
            put("significanceThresholdSinglePrecision", threshold.significanceThresholdSinglePrecision, single);
            put("significanceThresholdDoublePrecision", threshold.significanceThresholdDoublePrecision, single * std::ldexp(1.0, -1 - (int)c.below(20)));
            if (c.chance(1, 2)) put("occupationThresholdMatrixDenseFloatDoublePrecision", threshold.occupationThresholdMatrixDenseFloatDoublePrecision, 0.25 * (double)c.below(5));
            if (c.chance(1, 2)) put("occupationThresholdMatrixSparseFloatDoublePrecision", threshold.occupationThresholdMatrixSparseFloatDoublePrecision, 0.25 * (double)c.below(5));
            if (c.chance(1, 2)) put("occupationThresholdMatrixSparseDoubleDoublePrecision", threshold.occupationThresholdMatrixSparseDoubleDoublePrecision, 0.25 * (double)c.below(5));
            // these ones are those of the benchmark, the sizes of the blocks are given beside
            if (c.chance(1, 2)) { th.put("min_block_size", c.size(1, 3)); th.put("max_block_size", c.size(6, 9)); }
            bs.put_child("threshold", th);
            c.tag("thresholds given");
        }
        root.put_child("blocked_matrix_generator_settings", bs);
    }
    size_t border = blocks && c.chance(1, 2) ? c.size(0, 5) : 0;

    MatrixFile m(c.scratch + "/m", a);
    File settings(c.scratch + "/s.json"), image(c.scratch + "/image.xpm"), standard(c.scratch + "/pattern.xpm");
    if (with_settings && bad != 0) { std::ofstream os(settings.name); if (bad == 1) os << "{ x"; else boost::property_tree::write_json(os, root); }
    std::string out_name = standard.name;
    std::vector<std::string> args = {"show_pattern", bad == 2 ? c.scratch + "/none.xml" : m.xml.name};
    if (bad == 3) args.pop_back();
    if (with_settings) { args.push_back(sh ? "-s" : "--settings"); args.push_back(settings.name); }
    if (c.chance(1, 2)) { args.push_back(sh ? "-p" : "--pattern"); args.push_back(out_name = image.name); }
    if (blocks || c.chance(1, 3)) { args.push_back(sh ? "-t" : "--pattern-type"); args.push_back(blocks ? "type-blocks" : "elements"); }
    if (border || c.chance(1, 4)) { args.push_back(sh ? "-w" : "--border_width"); args.push_back(std::to_string(border)); }
    if (bad == 4) { args.push_back("-t"); args.push_back("blocks"); }
    if (bad == 5) args.push_back("--nonsense");
    if (bad == 6) args.push_back("-h");
    bool fails = bad == 2 || bad == 3 || bad == 4 || bad == 5 || (bad < 2 && with_settings), written = !fails && bad != 6;
    c.log() << show(a) << " blocks of " << mn << ".." << mx << " border " << border << " thresholds";
    for (auto& p : palette) c.log() << " " << p.threshold;
    c.log() << " significant from " << threshold.significanceThresholdSinglePrecision << " and " << threshold.significanceThresholdDoublePrecision << " fault " << (written ? -1 : (int)bad) << ": ";
    for (size_t i = 1; i < args.size(); ++i) if (args[i][0] != '/') c.log() << args[i] << " ";
    c.tag(blocks ? "type-blocks" : "elements");
    c.nontrivial(written && a.nnz() && !palette.empty());
    c.step("show_pattern");
    int rc;
    { Directory dir(c.scratch); rc = run(show_pattern_main, args); }
    REQUIRE(rc == fails, "exit code is " << rc);
    REQUIRE(exists(out_name) == written, (written ? "there is no image" : "an image was written"));
    if (!written) return;

    Ref w = a;
    if (blocks) {
        // the blocks of the library are the subject of other properties
        Matrix<Dense,double> d(dense<double>(a));
        auto [rows, cols] = BlockSizeGenerator(mn, mx)(d);
        BlockedDenseMatrix bm = BlockedMatrixGenerator()(d, rows, cols, Threshold(threshold));
        size_t i0 = 0, kinds = 0;
        int first = -1;
        for (size_t p = 0; p < rows.size(); i0 += rows[p], ++p) {
            size_t j0 = 0;
            for (size_t q = 0; q < cols.size(); j0 += cols[q], ++q) {
                int type = (int)bm(p,q)->getTypeIndex();
                if (first < 0) first = type;
                kinds += type != first;
                for (size_t i = 0; i < rows[p]; ++i) for (size_t j = 0; j < cols[q]; ++j)
                    w(i0 + i, j0 + j) = i < border || j < border ? 0.0 : std::pow(10.0, -type);
            }
        }
        if (kinds) c.tag("several types");
        if (rows.size() * cols.size() > 1) c.tag("several blocks");
    }
    Image im = parse(read_text(out_name));
    REQUIRE(im.w == n && im.h == r, "image is " << im.w << " wide and " << im.h << " high");
    REQUIRE(im.colors == palette.size() + 1 && im.cpp == 1, "image has " << im.colors << " colors");
    REQUIRE(im.strings.size() == 1 + im.colors + r, "file has " << im.strings.size() << " strings");
    for (size_t k = 0; k < im.colors; ++k) {
        std::string want = k < palette.size() ? palette[k].index + "\tc #" + palette[k].color : bi + "\tc #" + bc;
        REQUIRE(im.strings[1 + k] == want, "color " << k << " is '" << im.strings[1 + k] << "' instead of '" << want << "'");
    }
    for (size_t i = 0; i < r; ++i) {
        std::string want;
        for (size_t j = 0; j < n; ++j) {
            std::string p = bi;
            for (auto const& k : palette) if (std::fabs(w(i,j)) >= k.threshold) { p = k.index; break; }
            want += p;
        }
        REQUIRE(im.strings[1 + im.colors + i] == want, "row " << i << " is '" << im.strings[1 + im.colors + i] << "' instead of '" << want << "'");
    }
}

} // namespace
