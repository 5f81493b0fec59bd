#include "drv.hpp"
#include "row.hpp"
#include "ppocr/loader2/glyphs_loader.hpp"
#include "ppocr/ocr2/image_context.hpp"

using namespace ppocr;
using namespace drv;

namespace {

template<class S>
using img_t = loader2::Strategy<S, loader2::PolicyLoader::img>;
template<class S>
using img90_t = loader2::Strategy<S, loader2::PolicyLoader::img90>;

// 8 numeric measures with a strategy of their own, through Strategy::load with a
// fresh context: the public interface of a measure
template<class S>
void direct1(Json & j, Image const & a, Image const & b)
{
    typename S::ctx_type ctx;
    ctx.reset();
    put(j, S::load(a, b, ctx));
}

void direct(Json & j, Image const & img, Image const & img90)
{
    using namespace strategies;
    j.open('{').key("n").open('[');
    direct1<dvgravity2>(j, img90, img);
    direct1<dvdirection2>(j, img90, img);
    direct1<dzdensity>(j, img, img90);
    direct1<dzdensity>(j, img90, img);
    direct1<dvdirection2>(j, img, img90);
    direct1<dvgravity2>(j, img, img90);
    direct1<hdirection>(j, img, img90);
    direct1<hdirection>(j, img90, img);
    direct1<hdirection2>(j, img, img90);
    direct1<hdirection2>(j, img90, img);
    direct1<hgravity>(j, img, img90);
    direct1<hgravity>(j, img90, img);
    direct1<hgravity2>(j, img, img90);
    direct1<hgravity2>(j, img90, img);
    direct1<proportionality>(j, img, img90);
    direct1<dvdirection>(j, img, img90);
    direct1<dvdirection>(j, img90, img);
    direct1<dvgravity>(j, img, img90);
    direct1<dvgravity>(j, img90, img);
    direct1<density>(j, img, img90);
    direct1<hbar>(j, img, img90);
    direct1<hbar>(j, img90, img);
    j.close(']').key("a").open('[');
    direct1<alternations>(j, img, img90);
    j.close(']').key("z").open('[');
    direct1<zone>(j, img, img90);
    j.close(']').key("pz").open('[');
    direct1<proportionality_zone>(j, img, img90);
    j.close(']').close('}');
}

template<class T> void get(Args & a, T & x) { a >> x; }
void get(Args & a, std::vector<unsigned> & v) { v.resize(uarg(a)); for (auto & x : v) a >> x; }
void get(Args & a, strategies::zone::value_type & v) { for (auto & x : v) a >> x; }
void get(Args & a, strategies::alternations::value_type & v)
{ for (auto & x : v) { x.start_contains_letter = uarg(a); x.count = uarg(a); } }

struct Rel
{
    Args & a; Json & j; unsigned col; unsigned i = 0;
    template<class Data> void operator()(Data const &)
    {
        if (++i != col) return;
        using S = typename Data::strategy_type;
        using R = typename S::relationship_type;
        typename S::value_type x{}, y{};
        get(a, x); get(a, y);
        unsigned d = uarg(a);
        loader2::Data<S> data(typename loader2::Data<S>::container_type{x});
        // closeness in 1/10000
        auto round = [](double v) { return long(v * 10000. + (v < 0 ? -.5 : .5)); };
        j.open('{').key("c").val(long(R::compute(x, y))).key("dist").val(round(R::dist(x, y)))
            .key("with").val(round(data.dist_with(0, y)))
            .key("in").b(R::in_dist(x, y, d)).key("inwith").b(data.in_dist_with(0, y, d))
            .key("count").u(data.count_posibilities()).close('}');
    }
};

struct RelNoRef { Rel & r; template<class D> void operator()(D const & d) const { r(d); } };

// loads each column of the list with the contexts ctx, the columns from k on first
template<class... S, class Ctx>
void load_all(mp_list<S...>, Image const & img, Image const & img90, Ctx & ctx, std::vector<unsigned> const & order)
{
    using Fn = void (*)(Image const &, Image const &, Ctx &);
    Fn const fns[] = { [](Image const & x, Image const & y, Ctx & c) { (void)S::load(x, y, c); }... };
    for (unsigned i : order) fns[i % sizeof...(S)](img, img90, ctx);
}

template<class L1, class L2, class L3> struct cat3;
template<class... A, class... B, class... C>
struct cat3<mp_list<A...>, mp_list<B...>, mp_list<C...>> { using type = mp_list<A..., B..., C...>; };
using All = cat3<PpOcrSimpleDatas, PpOcrComplexDatas, PpOcrExclusiveDatas>::type;

template<class... S, class Ctx>
void row_with_ctx(mp_list<S...>, Json & j, Image const & img, Image const & img90, Ctx & ctx)
{
    RowParts p;
    (..., p.add(S::load(img, img90, ctx)));
    p.print(j);
}

template<class... S, class Ctx>
void dists(mp_list<S...>, Json & j, PpOcrDatas const & d, Image const & x, Image const & x90, Ctx & ctx)
{
    (..., j.val(long(d.template get<S>().dist_with(0, S::load(x, x90, ctx)) * 10000. + .5)));
}

}

int main()
{
    return run({
        // a row of a database, through the database
        {"row", [](Args & a, Json & j) {
            Image img = imgarg(a);
            PpOcrDatas d;
            d.load(img);
            row(j, d, 0);
        }},
        {"direct", [](Args & a, Json & j) {
            Image img = imgarg(a);
            Image img90 = img.rotate90();
            direct(j, img, img90);
        }},
        // the same database for several images
        {"rows", [](Args & a, Json & j) {
            unsigned n = uarg(a);
            PpOcrDatas d;
            for (unsigned i = 0; i < n; ++i) { Image img = imgarg(a); d.load(img); }
            j.open('[');
            for (unsigned i = 0; i < d.size(); ++i) row(j, d, i);
            j.close(']');
        }},
        // the same contexts for several images, with measures made before in another order
        // n (w h pixels k i1..ik)*
        {"ctx", [](Args & a, Json & j) {
            unsigned n = uarg(a);
            PpOcrDataCtxs ctx;
            j.open('[');
            for (unsigned i = 0; i < n; ++i) {
                Image img = imgarg(a);
                Image img90 = img.rotate90();
                std::vector<unsigned> order(uarg(a));
                for (auto & x : order) x = uarg(a);
                ctx.reset();
                load_all(All{}, img, img90, ctx, order);
                row_with_ctx(All{}, j, img, img90, ctx);
            }
            j.close(']');
        }},
        // the same, with the working images of the recognition: one buffer for all the images
        {"ctxi", [](Args & a, Json & j) {
            unsigned n = uarg(a);
            PpOcrDataCtxs ctx;
            ocr2::ImageContext buffers;
            j.open('[');
            for (unsigned i = 0; i < n; ++i) {
                Image img = imgarg(a);
                std::vector<unsigned> order(uarg(a));
                for (auto & x : order) x = uarg(a);
                Image const & wi = buffers.img(img.bounds(), [&](Pixel * p) { section(img, p, {0, 0}, img.bounds()); });
                Image const & wi90 = buffers.img90();
                ctx.reset();
                load_all(All{}, wi, wi90, ctx, order);
                row_with_ctx(All{}, j, wi, wi90, ctx);
            }
            j.close(']');
        }},
        {"rel", [](Args & a, Json & j) {
            Rel r{a, j, uarg(a)};
            PpOcrDatas d;
            loader2::apply_from_datas(d, RelNoRef{r});
        }},
        // writing and reading a database
        {"dio", [](Args & a, Json & j) {
            unsigned n = uarg(a);
            PpOcrDatas d;
            for (unsigned i = 0; i < n; ++i) { Image img = imgarg(a); d.load(img); }
            std::stringstream ss;
            ss << d;
            std::string const text = ss.str();
            PpOcrDatas d2;
            ss >> d2;
            j.open('{').key("eof").b(ss.eof()).key("size").u(d2.size()).key("rows").open('[');
            for (unsigned i = 0; i < d2.size(); ++i) row(j, d2, i);
            j.close(']');
            std::stringstream ss2;
            ss2 << d2;
            j.key("same").b(ss2.str() == text);
            // equality of rows, all pairs
            j.key("eq").open('[');
            for (unsigned i = 0; i < d2.size(); ++i) {
                for (unsigned k = 0; k < d2.size(); ++k) j.b(d2.eq(i, k));
            }
            j.close(']');
            // what is loaded goes after what was read
            unsigned m = uarg(a);
            for (unsigned i = 0; i < m; ++i) { Image img = imgarg(a); d2.load(img); }
            j.key("after").open('[');
            for (unsigned i = n; i < d2.size(); ++i) row(j, d2, i);
            j.close(']').key("lines");
            lines(j, text);
            j.close('}');
        }},
        // n rows, of m images in turn
        {"bigrows", [](Args & a, Json & j) {
            unsigned const n = uarg(a), m = uarg(a);
            std::vector<Image> imgs;
            for (unsigned i = 0; i < m; ++i) imgs.push_back(imgarg(a));
            PpOcrDatas d;
            for (unsigned i = 0; i < n; ++i) d.load(imgs[i % m]);
            std::stringstream ss;
            ss << d;
            PpOcrDatas d2;
            ss >> d2;
            j.open('{').key("size").open('[').u(d.size()).u(d2.size()).close(']').key("rows").open('[');
            for (unsigned k = uarg(a); k; --k) {
                unsigned const i = uarg(a);
                j.open('[');
                row(j, d, i);
                row(j, d2, i);
                j.close(']');
            }
            j.close(']').close('}');
        }},
        {"bigrow", [](Args & a, Json & j) {
            Image img = StretchArg(a).image();
            PpOcrDatas d;
            d.load(img);
            row(j, d, 0);
        }},
        // an image compared with a row which was written and read, and with one which was not
        {"dcmp", [](Args & a, Json & j) {
            Image x = imgarg(a), y = imgarg(a);
            Image x90 = x.rotate90();
            PpOcrDatas d, d2;
            d.load(y);
            std::stringstream ss;
            ss << d;
            ss >> d2;
            PpOcrDataCtxs ctx;
            ctx.reset();
            j.open('{').key("direct").open('[');
            dists(All{}, j, d, x, x90, ctx);
            j.close(']').key("loaded").open('[');
            dists(All{}, j, d2, x, x90, ctx);
            j.close(']').close('}');
        }},
        // reading a text given as such
        {"din", [](Args & a, Json & j) {
            std::stringstream ss(hexarg(a));
            PpOcrDatas d;
            ss >> d;
            j.open('{').key("size").u(d.size()).key("eof").b(ss.eof()).key("rows").open('[');
            for (unsigned i = 0; i < d.size(); ++i) row(j, d, i);
            j.close(']').close('}');
        }},
    });
}
