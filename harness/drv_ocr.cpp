#include "drv.hpp"
#include "row.hpp"
#include <cstdint>
#include <fstream>
#include <set>
#include "ppocr/loader2/glyphs_loader.hpp"
#include "ppocr/ocr2/glyphs.hpp"
#include "ppocr/ocr2/words_infos.hpp"
#include "ppocr/ocr2/data_indexes_by_words.hpp"
#include "ppocr/ocr2/data_indexes_ordered.hpp"
#include "ppocr/ocr2/views_index_ordered.hpp"
#include "ppocr/ocr2/filter_by_lines.hpp"
#include "ppocr/ocr2/filter_by_font.hpp"
#include "ppocr/ocr2/disambiguous_with_dict.hpp"
#include "ppocr/ocr2/compute_image.hpp"
#include "ppocr/ocr2/image_context.hpp"
#include "ppocr/ocr2/probabilities.hpp"
#include "ppocr/spell/dictionary.hpp"
#include "ppocr/spell/word_disambiguouser.hpp"
#include "ppocr/utils/read_file.hpp"
#include "ppocr/box_char/box.hpp"

using namespace ppocr;
using namespace drv;

namespace {

std::string slurp(std::string const & path)
{
    std::ifstream f(path, std::ios::binary);
    std::stringstream ss;
    ss << f.rdbuf();
    return ss.str();
}

template<class T> T parse(std::string const & text)
{
    std::istringstream is(text);
    T x;
    is >> x;
    return x;
}

std::vector<std::string> words(Args & a)
{
    std::vector<std::string> v(uarg(a));
    for (auto & s : v) s = hexarg(a);
    return v;
}

std::string str(ocr2::Glyphs::string const & s) { return std::string(s.begin(), s.end()); }

void view(Json & j, ocr2::Glyphs const & g, ocr2::View const & v)
{ j.open('[').bytes(str(g.get_word(v))).u(v.font).close(']'); }

void glyphs2(Json & j, loader2::Glyphs const & gs)
{
    j.open('[');
    for (auto & g : gs) {
        j.open('{').key("img").img(g.img).key("views").open('[');
        for (auto & v : g.views) j.open('[').bytes(v.word).bytes(v.font).u(v.info_line).close(']');
        j.close(']').close('}');
    }
    j.close(']');
}

// a database of words x fonts and candidates lists on it
struct Lists
{
    ocr2::Glyphs glyphs;
    std::vector<ocr2::view_ref_list> lists;
    ocr2::ambiguous_t ambiguous;

    // words fonts lists; a list is: n (word font)*
    explicit Lists(Args & a)
    {
        auto w = words(a);
        unsigned nf = uarg(a);
        std::string text;
        for (auto & s : w) {
            text += "1 1 x\n" + std::to_string(nf) + "\n";
            for (unsigned f = 0; f < nf; ++f) text += s + " f" + std::to_string(f) + " 0\n";
        }
        glyphs = parse<ocr2::Glyphs>(text);
        lists.resize(uarg(a));
        for (auto & l : lists) {
            for (unsigned n = uarg(a); n--;) {
                unsigned x = uarg(a), f = uarg(a);
                l.emplace_back(glyphs[x][f]);
            }
        }
        ambiguous.assign(lists.begin(), lists.end());
    }
    void print(Json & j) const
    {
        j.open('[');
        for (auto & l : lists) {
            j.open('[');
            for (ocr2::View const & v : l) view(j, glyphs, v);
            j.close(']');
        }
        j.close(']');
    }
};

std::vector<Box> boxesarg(Args & a)
{
    std::vector<Box> v;
    for (unsigned n = uarg(a); n--;) {
        unsigned x = uarg(a), y = uarg(a), w = uarg(a), h = uarg(a);
        v.emplace_back(Index(x, y), Bounds(w, h));
    }
    return v;
}

using First = loader2::Strategy<strategies::dvgravity2, loader2::PolicyLoader::img90>;
template<class L> struct first_of;
template<class S, class... Ss> struct first_of<mp_list<S, Ss...>> { using type = S; };
using FirstStrategy = first_of<PpOcrSimpleDatas>::type;

}

int main()
{
    return run({
        // glyph file: written from memory, read back
        {"gio", [](Args & a, Json & j) {
            loader2::Glyphs gs;
            for (unsigned n = uarg(a); n--;) {
                loader2::Glyph g;
                g.img = imgarg(a);
                for (unsigned k = uarg(a); k--;) {
                    std::string w = hexarg(a), f = hexarg(a);
                    g.views.push_back({w, f, uarg(a)});
                }
                gs.push_back(std::move(g));
            }
            std::stringstream ss;
            ss << gs;
            std::string const text = ss.str();
            loader2::Glyphs back;
            ss >> back;
            j.open('{').key("text").bytes(text).key("eof").b(ss.eof()).key("back");
            glyphs2(j, back);
            // one by one, in the same stream
            std::stringstream s2(text);
            loader2::Glyphs one;
            for (std::size_t i = 0; i < gs.size(); ++i) {
                loader2::Glyph g;
                s2 >> g;
                one.push_back(std::move(g));
            }
            j.key("good").b(!s2.fail()).key("one");
            glyphs2(j, one);
            j.key("eq").b(one == gs && back == gs).close('}');
        }},
        {"gread", [](Args & a, Json & j) {
            std::stringstream ss(hexarg(a));
            loader2::Glyphs gs;
            ss >> gs;
            j.open('{').key("eof").b(ss.eof()).key("back");
            glyphs2(j, gs);
            j.close('}');
        }},
        // files of databases which may be damaged, read as the programs read them
        {"gload", [](Args & a, Json & j) {
            auto const gs = utils::load_from_file<loader2::Glyphs>(hexarg(a));
            glyphs2(j, gs);
        }},
        {"oload", [](Args & a, Json & j) {
            auto const g = utils::load_from_file<ocr2::Glyphs>(hexarg(a));
            j.open('[');
            for (auto & vs : g) {
                j.open('[');
                for (auto & v : vs) view(j, g, v);
                j.close(']');
            }
            j.close(']');
        }},
        {"fload", [](Args & a, Json & j) {
            auto const d = utils::load_from_file<PpOcrDatas>(hexarg(a));
            j.open('[');
            for (std::size_t i = 0; i < d.size(); ++i) row(j, d, i);
            j.close(']');
        }},
        {"dload", [](Args & a, Json & j) {      // and words which are asked
            spell::Dictionary d;
            utils::read_file(d, hexarg(a));
            spell::WordDisambiguouser dis;
            j.open('[');
            for (auto & q : words(a)) {
                std::vector<std::vector<std::string>> l;
                for (std::size_t i = 0; i < q.size();) {
                    std::size_t n = 1;
                    while (i + n < q.size() && (q[i + n] & 0xC0) == 0x80) ++n;
                    l.push_back({q.substr(i, n)});
                    i += n;
                }
                std::string out;
                j.b(dis(d, l.begin(), l.end(), out) && out == q);
            }
            j.close(']');
        }},
        {"iload", [](Args & a, Json & j) {
            auto const w = utils::load_from_file<ocr2::WWordsLines>(hexarg(a));
            j.open('[');
            for (auto & x : w) {
                j.open('[').bytes(std::string(x.str_data, x.str_len)).open('[')
                 .u(x.wlines.ascentline).u(x.wlines.capline).u(x.wlines.meanline).u(x.wlines.baseline).close(']').close(']');
            }
            j.close(']');
        }},
        // database as the recognition loads it: glyph text, infos text, queries
        // a large database given by its rule: n views (in n glyphs, or in one), w words, f fonts
        {"bigdb", [](Args & a, Json & j) {
            unsigned const n = uarg(a), w = uarg(a), f = uarg(a), one = uarg(a);
            auto const pre = hexarg(a), infos_text = hexarg(a);
            std::vector<unsigned> asked(uarg(a));
            for (auto & x : asked) x = uarg(a);
            auto const q = words(a);
            auto word = [&](unsigned k) { return pre + std::to_string(k % w); };
            auto font = [&](unsigned k) { return "f" + std::to_string(k % f); };
            std::string text;
            loader2::Glyphs made;
            if (one) text = "1 1 x\n" + std::to_string(n) + "\n";
            for (unsigned k = 0; k < n; ++k) {
                if (!one) text += std::to_string(k % 3 + 1) + " 1 " + std::string(k % 3 + 1, 'x') + "\n1\n";
                text += word(k) + " " + font(k) + " " + std::to_string(k % 5) + "\n";
            }
            auto const g = parse<ocr2::Glyphs>(text);
            auto const gs = parse<loader2::Glyphs>(text);
            std::stringstream ss;
            ss << gs;
            loader2::Glyphs back;
            ss >> back;
            auto const & at = [&](unsigned k) -> ocr2::View const & { return one ? g.at(0).at(k) : g.at(k).at(0); };
            ocr2::WordsInfos const infos(g, parse<ocr2::WWordsLines>(infos_text));
            ocr2::DataIndexesByWords const by_words(g);
            auto const ids = ocr2::get_views_indexes_ordered(g);
            j.open('{').key("n").open('[').u(g.size()).u(gs.size()).u(back.size()).u(ids.size()).close(']').key("views").open('[');
            for (auto k : asked) view(j, g, at(k));
            j.close(']').key("loaded").open('[');
            for (auto k : asked) {
                auto const & x = one ? back.at(0) : back.at(k);
                auto const & v = x.views.at(one ? k : 0);
                j.open('[').u(x.views.size()).u(x.img.width()).bytes(v.word).bytes(v.font).u(v.info_line).close(']');
            }
            j.close(']').key("q").open('[');
            for (auto & s : q) {
                unsigned i = g.word_index_of(s);
                j.open('[');
                if (i == ocr2::Glyphs::no_index) j.val(0);
                else { j.val(1).bytes(str(g.get_word(ocr2::View{i, 0}))); }
                j.close(']');
            }
            j.close(']').key("infos").open('[');
            for (auto k : asked) {
                auto p = infos.get(at(k).word);
                j.open('[');
                if (p) j.u(p->lines.ascentline).u(p->lines.capline).u(p->lines.meanline).u(p->lines.baseline);
                j.close(']');
            }
            j.close(']').key("ids").open('[');
            for (auto k : asked) j.u(ids.at(one ? 0 : k));
            j.close(']').key("sib").open('[');
            for (auto k : asked) {
                j.open('[');
                for (auto i : by_words[one ? 0 : k]) j.u(i);
                j.close(']');
            }
            j.close(']').close('}');
        }},
        {"db", [](Args & a, Json & j) {
            auto const g = parse<ocr2::Glyphs>(hexarg(a));
            auto const infos_text = hexarg(a);
            auto const wl = parse<ocr2::WWordsLines>(infos_text);
            ocr2::WordsInfos const infos(g, wl);
            ocr2::DataIndexesByWords const by_words(g);
            auto const ids = ocr2::get_views_indexes_ordered(g);
            auto q = words(a);
            j.open('{').key("views").open('[');
            for (auto & vs : g) {
                j.open('[');
                for (auto & v : vs) view(j, g, v);
                j.close(']');
            }
            j.close(']').key("q").open('[');
            for (auto & s : q) {
                unsigned i = g.word_index_of(s);
                j.open('[');
                if (i == ocr2::Glyphs::no_index) j.val(0);
                else { j.val(1).bytes(str(g.get_word(ocr2::View{i, 0}))); }
                j.close(']');
            }
            // the index of a word is the one its views have
            j.close(']').key("own").open('[');
            for (auto & vs : g) for (auto & v : vs) j.b(g.word_index_of({g.get_word(v).data(), g.get_word(v).size()}) == v.word);
            j.close(']').key("ids").open('[');
            for (auto i : ids) j.u(i);
            j.close(']').key("sib").open('[');
            for (std::size_t i = 0; i < g.size(); ++i) {
                j.open('[');
                for (auto k : by_words[i]) j.u(k);
                j.close(']');
            }
            j.close(']').key("infos").open('[');
            for (auto & vs : g) {
                j.open('[');
                for (auto & v : vs) {
                    auto p = infos.get(v.word);
                    j.open('[');
                    if (p) j.u(p->lines.ascentline).u(p->lines.capline).u(p->lines.meanline).u(p->lines.baseline);
                    j.close(']');
                }
                j.close(']');
            }
            j.close(']').close('}');
        }},
        // ordered index of a column: values, (x, d)*
        {"range", [](Args & a, Json & j) {
            std::vector<unsigned> v(uarg(a));
            for (auto & x : v) x = uarg(a);
            loader2::Data<First> data(v);
            ocr2::DataIndexesOrdered<First> idx(data);
            j.open('[');
            for (unsigned n = uarg(a); n--;) {
                unsigned x = uarg(a), d = uarg(a);
                j.open('[');
                for (unsigned i : idx.get_range(data, x, d)) j.u(i);
                j.close(']');
            }
            j.close(']');
        }},
        // infos boxes lists
        {"lines", [](Args & a, Json & j) {
            std::string infos_text = hexarg(a);
            auto boxes = boxesarg(a);
            Lists l(a);
            ocr2::WordsInfos infos(l.glyphs, parse<ocr2::WWordsLines>(infos_text));
            ocr2::filter_by_lines(l.ambiguous, infos, boxes);
            l.print(j);
        }},
        {"font", [](Args & a, Json & j) {
            Lists l(a);
            unsigned f = ocr2::filter_by_font(l.ambiguous);
            j.open('{').key("font").val(f == ~0u ? -1 : long(f)).key("lists");
            l.print(j);
            j.close('}');
        }},
        // dictionary words, spaces (increasing), lists
        {"text", [](Args & a, Json & j) {
            auto w = words(a);
            std::vector<unsigned> spaces(uarg(a));
            for (auto & s : spaces) s = uarg(a);
            Lists l(a);
            spell::Dictionary dict;
            if (!w.empty()) dict = spell::Dictionary(w);
            spaces.push_back(l.ambiguous.size());
            std::string out = "old";
            unsigned n = ocr2::disambiguous_with_dict(l.ambiguous, l.glyphs, dict, spaces.cbegin(), out);
            j.open('{').key("text").bytes(out).key("n").u(n).close('}');
        }},
        // recognition of images with a database: glyph file, datas file, images
        {"rec", [](Args & a, Json & j) {
            auto const g = parse<ocr2::Glyphs>(slurp(hexarg(a)));
            auto const datas = parse<PpOcrDatas>(slurp(hexarg(a)));
            ocr2::DataIndexesByWords const by_words(g);
            auto const ids = ocr2::get_views_indexes_ordered(g);
            ocr2::DataIndexesOrdered<FirstStrategy> const first(datas);
            ocr2::Probabilities p1(g.size()), p2(g.size());
            ocr2::ImageContext ictx;
            PpOcrDataCtxs ctx;
            if (g.size() != datas.size()) throw std::runtime_error("sizes");
            j.open('[');
            for (unsigned n = uarg(a); n--;) {
                Image img = imgarg(a);
                Image const & w = ictx.img(img.bounds(), [&](Pixel * p) {
                    section(img, p, {0, 0}, img.bounds());
                });
                auto const l = ocr2::compute_image(
                    PpOcrSimpleDatas{}, PpOcrComplexDatas{}, PpOcrExclusiveDatas{},
                    p1, p2, datas, first, by_words, g, ids, w, ictx.img90(), ctx, 0.5);
                j.open('[');
                for (ocr2::View const & v : l) view(j, g, v);
                j.close(']');
            }
            j.close(']');
        }},
    });
}
