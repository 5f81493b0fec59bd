#include <fstream>
#include "drv.hpp"
#include "ppocr/image/image_from_file.hpp"
#include "ppocr/box_char/make_box_character.hpp"
#include "ppocr/utils/image_compare.hpp"
#include "ppocr/ocr2/image_context.hpp"

using namespace ppocr;
using ocr2::ImageContext;
using namespace drv;

namespace {

void boxes(Json & j, Image const & img)
{
    // the loop of every program which cuts an image
    unsigned x = 0;
    unsigned n = 0;
    j.open('[');
    while (auto const b = make_box_character(img, {x, 0}, img.bounds())) {
        j.open('[').u(b.x()).u(b.y()).u(b.width()).u(b.height()).close(']');
        x = b.x() + b.width();
        if (++n > img.width() + 1) {   // more boxes than columns: the specification says no
            break;
        }
    }
    j.close(']');
}

std::vector<std::pair<unsigned, unsigned>> points(Args & a)
{
    std::vector<std::pair<unsigned, unsigned>> r;
    for (unsigned n = uarg(a); n; --n) { unsigned x = uarg(a); r.emplace_back(x, uarg(a)); }
    return r;
}

// size, quantity of ink, some pixels (those which are inside)
void seen(Json & j, Image const & img, std::vector<std::pair<unsigned, unsigned>> const & at)
{
    unsigned long ink = 0;
    for (Pixel const * p = img.data(); p != img.data_end(); ++p) ink += *p == 'x';
    j.open('{').key("w").u(img.width()).key("h").u(img.height()).key("ink").u(ink).key("at").open('[');
    for (auto const & p : at) {
        if (p.first < img.width() && p.second < img.height()) j.val(static_cast<unsigned char>(img[{p.first, p.second}]));
    }
    j.close(']').close('}');
}

int sign(int c) { return c < 0 ? -1 : c > 0 ? 1 : 0; }

}

int main()
{
    ImageContext ctx;
    return run({
        {"pnm", [](Args & a, Json & j) {
            std::string path = hexarg(a);
            unsigned lum = uarg(a);
            Image img = image_from_file(path.c_str(), lum);
            j.img(img);
        }},
        {"seg", [](Args & a, Json & j) { Image img = imgarg(a); boxes(j, img); }},
        {"rot", [](Args & a, Json & j) { Image img = imgarg(a); j.img(img.rotate90()); }},
        {"sec", [](Args & a, Json & j) {
            Image img = imgarg(a);
            unsigned x = uarg(a), y = uarg(a), w = uarg(a), h = uarg(a);
            j.img(img.section({x, y}, {w, h}));
        }},
        {"clone", [](Args & a, Json & j) { Image img = imgarg(a); j.img(img.clone()); }},
        {"draw", [](Args & a, Json & j) {
            Image img = imgarg(a);
            std::ostringstream os;
            os << img;
            j.bytes(os.str());
        }},
        {"cmp", [](Args & a, Json & j) {
            Image x = imgarg(a), y = imgarg(a);
            j.open('[').val(sign(image_compare(x, y))).b(x == y).b(x != y).b(image_less()(x, y)).close(']');
        }},
        // working image of the recognition loop: one buffer, reused for every character
        {"work", [&](Args & a, Json & j) {
            Image img = imgarg(a);
            unsigned x = uarg(a), y = uarg(a), w = uarg(a), h = uarg(a);
            Image const & wi = ctx.img({w, h}, [&](Pixel * p) { section(img, p, {x, y}, {w, h}); });
            j.open('{').key("img").img(wi);
            Image const & r = ctx.img90();
            j.key("img90").img(r).close('}');
        }},
        // large images, known by a small drawing
        {"bigseg", [](Args & a, Json & j) { Image img = StretchArg(a).image(); boxes(j, img); }},
        {"bigops", [&](Args & a, Json & j) {
            StretchArg s(a);
            Image img = s.image();
            unsigned x = uarg(a), y = uarg(a), w = uarg(a), h = uarg(a);
            auto at = points(a);
            Image turned = img.rotate90();
            Image part = img.section({x, y}, {w, h});
            Image const & wi = ctx.img({w, h}, [&](Pixel * p) { section(img, p, {x, y}, {w, h}); });
            Image back = turned.rotate90().rotate90().rotate90();
            Image other = img.clone();
            j.open('{').key("img"); seen(j, img, at);
            j.key("turned"); seen(j, turned, at);
            j.key("part"); seen(j, part, at);
            j.key("work"); seen(j, wi, at);
            j.key("work90"); seen(j, ctx.img90(), at);
            j.key("back").val(sign(image_compare(back, img))).key("same").b(other == img);
            j.key("parts").val(sign(image_compare(part, wi))).close('}');
        }},
        // the order of two of the same size
        {"bigcmp", [](Args & a, Json & j) {
            Image x = StretchArg(a).image(), y = StretchArg(a).image();
            j.open('[').val(sign(image_compare(x, y))).b(x == y).b(x != y).b(image_less()(x, y)).close(']');
        }},
        // a file of this drawing: head (hexadecimal, without the size), type, what stands for each cell, what ends a row
        {"bigpnm", [](Args & a, Json & j) {
            std::string const path = hexarg(a);
            StretchArg s(a);
            unsigned const type = uarg(a), lum = uarg(a);
            std::string const comments = hexarg(a), end = hexarg(a);
            std::vector<std::string> cells;
            for (unsigned i = 0; i < s.gw * s.gh; ++i) cells.push_back(hexarg(a));
            auto at = points(a);
            {
                std::ofstream os(path, std::ios::binary);
                os << 'P' << type << '\n' << comments << s.width() << ' ' << s.height() << '\n';
                if (type == 3 || type == 6) os << "255\n";
                if (type == 4) {
                    unsigned v = 0, n = 0;
                    auto flush = [&]{ if (n) { os.put(char(v << (8 - n))); } v = n = 0; };
                    s.each([&](unsigned i) { v = v * 2 + (cells[i][0] == '1'); if (++n == 8) flush(); }, flush);
                }
                else {
                    s.each([&](unsigned i) { os << cells[i]; }, [&]{ os << end; });
                }
                if (!os.flush()) { std::fprintf(stderr, "unknown op (no room for a file)\n"); std::exit(3); }
            }
            Image img = image_from_file(path.c_str(), lum);
            ::unlink(path.c_str());
            seen(j, img, at);
        }},
        // positions and sizes: written, read, compared
        {"coord", [](Args & a, Json & j) {
            unsigned x = uarg(a), y = uarg(a), w = uarg(a), h = uarg(a);
            Index const idx(x, y);
            Bounds const bnd(w, h);
            std::stringstream ss;
            ss << idx << '\n' << bnd << " end";
            std::string const text = ss.str();
            Index idx2;
            Bounds bnd2;
            std::string end;
            ss >> idx2 >> bnd2 >> end;
            // a text which is not one leaves the value as it was
            Index idx3(x, y);
            Bounds bnd3(w, h);
            std::istringstream is1("7 x"), is2("8"), is3("");
            is1 >> idx3; is2 >> bnd3; is3 >> idx3;
            Bounds const turned(h, w);
            j.open('{').key("text").bytes(text).key("x").u(idx2.x()).key("y").u(idx2.y())
             .key("w").u(bnd2.width()).key("h").u(bnd2.height()).key("area").u(bnd2.area())
             .key("in").b(bnd.contains(idx)).key("same").b(idx2 == idx && bnd2 == bnd && end == "end")
             .key("kept").b(idx3 == idx && bnd3 == bnd && is1.fail() && is2.fail() && is3.fail())
             .key("eq").b(turned == bnd).key("eqi").b(Index(y, x) == idx);
            Box const box(idx, bnd), alone(bnd), none;
            ss.str("");
            ss.clear();
            ss << box;
            j.key("box").open('[').u(box.left()).u(box.top()).u(box.right()).u(box.bottom()).u(box.width()).u(box.height())
             .b(bool(box)).b(bool(none)).b(box.index() == idx && box.bounds() == bnd && alone.index() == Index(0, 0) && alone.bounds() == bnd
                                            && box.x() == box.left() && box.y() == box.top())
             .close(']').key("boxtext").bytes(ss.str()).close('}');
        }},
        {"at", [](Args & a, Json & j) {
            Image img = imgarg(a);
            unsigned x = uarg(a), y = uarg(a), w = uarg(a), h = uarg(a);
            j.open('{').key("pix").val(static_cast<unsigned char>(img[{x, y}]));
            {
                auto r = hrange(img, {x, y}, w);
                j.key("row").open('[');
                for (bool v : r) j.b(v);
                j.close(']');
                j.key("any").b(rng::any(r)).key("all").b(rng::all(r)).key("none").b(rng::none(r));
            }
            {
                auto r = hrange(img, {x, y}, Bounds(w, h));
                j.key("prof").open('[');
                for (bool v : r) j.b(v);
                j.close(']');
                unsigned n = 1;
                auto it = r.begin(); auto e = r.end();
                while (rng::next_alternation(it, e)) ++n;
                j.key("runs").u(n);
            }
            j.close('}');
        }},
    });
}
