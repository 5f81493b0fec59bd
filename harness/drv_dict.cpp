#include "drv.hpp"
#include <cstdint>
#include <list>
#include <memory>
#include "ppocr/utils/reindex.hpp"
#include "ppocr/spell/dictionary.hpp"
#include "ppocr/spell/word_disambiguouser.hpp"
#include "ppocr/container/trie.hpp"
#include "ppocr/utils/utf.hpp"
#include "ppocr/ocr2/replacement.hpp"

using namespace ppocr;
using namespace drv;

namespace {

std::vector<std::string> words(Args & a)
{
    std::vector<std::string> v(uarg(a));
    for (auto & s : v) s = hexarg(a);
    return v;
}

std::string utf8(unsigned c)
{
    std::string s;
    auto add = [&](unsigned x) { s += static_cast<char>(x); };
    if (c < 0x80) add(c);
    else if (c < 0x800) { add(0xC0 | c >> 6); add(0x80 | (c & 63)); }
    else if (c < 0x10000) { add(0xE0 | c >> 12); add(0x80 | (c >> 6 & 63)); add(0x80 | (c & 63)); }
    else { add(0xF0 | c >> 18); add(0x80 | (c >> 12 & 63)); add(0x80 | (c >> 6 & 63)); add(0x80 | (c & 63)); }
    return s;
}

// membership, asked in each of the ways a program can ask
void member(Json & j, spell::Dictionary const & dict, std::string const & q)
{
    spell::WordDisambiguouser dis;
    {
        std::vector<std::vector<std::string>> one{{q}};
        std::string out;
        bool r = !q.empty() && dis(dict, one.begin(), one.end(), out);
        j.b(r && out == q);
    }
    {
        // character by character (a character is its bytes)
        std::list<std::vector<std::string>> l;
        for (std::size_t i = 0; i < q.size();) {
            std::size_t n = 1;
            while (i + n < q.size() && (q[i + n] & 0xC0) == 0x80) ++n;
            l.push_back({q.substr(i, n)});
            i += n;
        }
        std::string out;
        bool r = dis(dict, l.begin(), l.end(), out);
        j.b(r && out == q);
    }
}

template<class Trie, class Q>
void walk(Json & j, Trie const & t, Q const & q)
{
    // 0: no such node, 1: node, 2: terminal node, then number of children
    bool found = true, terminal = false;
    std::size_t n = t.size();
    auto step = [&](auto const & level, auto const & self, std::size_t k) -> void {
        n = level.size();
        if (k == q.size()) return;
        auto it = level.lower_bound(q[k]);
        if (it == level.end() || it->get() != q[k]) { found = false; n = 0; terminal = false; return; }
        terminal = it->is_terminal();
        self(it->childrens(), self, k + 1);
    };
    step(t, step, 0);
    j.open('[').val(!found ? 0 : terminal ? 2 : 1).u(n).close(']');
}

}

int main()
{
    return run({
        // words, queries
        {"dict", [](Args & a, Json & j) {
            auto w = words(a);
            auto q = words(a);
            spell::Dictionary d(w);
            std::stringstream ss;
            ss << d;
            std::string const text = ss.str();
            if (1 < text.size() && text.size() < 100000) {     // a file which is cut, before the whole one
                std::stringstream cut(text.substr(0, text.size() - 1 - w.size() % 3));
                spell::Dictionary d3;
                try { cut >> d3; } catch (std::exception const &) {}
            }
            spell::Dictionary d2;
            ss >> d2;
            std::stringstream ss2;
            ss2 << d2;
            j.open('{').key("q").open('[');
            for (auto & s : q) { j.open('['); member(j, d, s); member(j, d2, s); j.close(']'); }
            j.close(']').key("empty").open('[').b(d.empty()).b(d2.empty()).close(']')
                .key("same").b(ss2.str() == text).key("text").bytes(text).close('}');
        }},
        // a dictionary file, queries
        {"dictf", [](Args & a, Json & j) {
            std::stringstream ss(hexarg(a));
            auto q = words(a);
            spell::Dictionary d;
            ss >> d;
            j.open('{').key("q").open('[');
            for (auto & s : q) { j.open('['); member(j, d, s); j.close(']'); }
            j.close(']').close('}');
        }},
        // a large dictionary given by its rule: every character lo..hi (but the surrogates) followed by every suffix
        {"bigdict", [](Args & a, Json & j) {
            unsigned const lo = uarg(a), hi = uarg(a);
            auto const pre = hexarg(a);
            auto suf = words(a);
            auto q = words(a);
            std::vector<std::string> w;
            for (unsigned c = lo; c <= hi; ++c) {
                if (0xd800 <= c && c <= 0xdfff) continue;
                auto const ch = utf8(c);
                for (auto & s : suf) w.push_back(pre + ch + s);
            }
            spell::Dictionary d(w);
            std::stringstream ss;
            ss << d;
            spell::Dictionary d2;
            ss >> d2;
            std::stringstream ss2;
            ss2 << d2;
            j.open('{').key("q").open('[');
            for (auto & s : q) { j.open('['); member(j, d, s); member(j, d2, s); j.close(']'); }
            j.close(']').key("same").b(ss2.str() == ss.str()).close('}');
        }},
        // tree and flat tree of characters
        {"trie", [](Args & a, Json & j) {
            auto w = words(a);
            auto q = words(a);
            // sorted as the elements of the tree are (char may be signed, strings never are)
            std::sort(w.begin(), w.end(), [](std::string const & x, std::string const & y) {
                return std::lexicographical_compare(x.begin(), x.end(), y.begin(), y.end());
            });
            w.erase(std::unique(w.begin(), w.end()), w.end());
            container::trie<char> t(w.begin(), w.end());
            container::flat_trie<char> f(t);
            j.open('[');
            for (auto & s : q) {
                j.open('[');
                walk(j, t, s);
                if (!f.all().empty()) walk(j, f.childrens(), s);
                else j.open('[').val(s.empty() ? 1 : 0).val(0).close(']');
                j.close(']');
            }
            j.close(']');
        }},
        // an order, elements
        {"ridx", [](Args & a, Json & j) {
            std::vector<unsigned> idx(uarg(a));
            for (auto & i : idx) i = uarg(a);
            auto const w = words(a);
            auto s = w;
            utils::reindex(idx, s);
            // other kinds of elements and of indexes
            std::vector<std::vector<char>> v;
            std::vector<std::unique_ptr<std::string>> p;
            std::vector<unsigned> n;
            for (auto & x : w) {
                v.emplace_back(x.begin(), x.end());
                p.emplace_back(new std::string(x));
                n.push_back(n.size());
            }
            utils::reindex(std::vector<std::size_t>(idx.begin(), idx.end()), v);
            utils::reindex(std::vector<int>(idx.begin(), idx.end()), p);
            if (idx.size() <= 256) utils::reindex(std::vector<unsigned char>(idx.begin(), idx.end()), n);
            else utils::reindex(idx, n);
            bool same = v.size() == s.size() && p.size() == s.size() && n.size() == s.size();
            for (std::size_t i = 0; same && i < s.size(); ++i) {
                same = p[i] && *p[i] == s[i] && std::string(v[i].begin(), v[i].end()) == s[i] && w[n[i]] == s[i];
            }
            j.open('{').key("s").open('[');
            for (auto & x : s) j.bytes(x);
            j.close(']').key("same").b(same).close('}');
        }},
        // n elements (each its number), the order m * i + k modulo n; what is at some places
        {"bigridx", [](Args & a, Json & j) {
            unsigned const n = uarg(a), m = uarg(a), k = uarg(a);
            std::vector<unsigned> idx(n), c(n);
            for (unsigned i = 0; i < n; ++i) { c[i] = i; idx[i] = (static_cast<unsigned long>(m) * i + k) % n; }
            utils::reindex(idx, c);
            unsigned q = uarg(a);
            j.open('{').key("size").u(c.size()).key("at").open('[');
            while (q--) j.u(c[uarg(a)]);
            j.close(']').close('}');
        }},
        // the same of every word of n characters among some, and of words
        {"trieall", [](Args & a, Json & j) {
            std::string al = hexarg(a);
            unsigned const n = uarg(a);
            auto w = words(a);
            auto q = words(a);
            std::vector<std::string> all{""};
            for (unsigned i = 0; i < n; ++i) {
                std::vector<std::string> longer;
                for (auto & s : all) for (char c : al) longer.push_back(s + c);
                all = std::move(longer);
            }
            w.insert(w.end(), all.begin(), all.end());
            std::sort(w.begin(), w.end(), [](std::string const & x, std::string const & y) {
                return std::lexicographical_compare(x.begin(), x.end(), y.begin(), y.end());
            });
            w.erase(std::unique(w.begin(), w.end()), w.end());
            container::trie<char> t(w.begin(), w.end());
            container::flat_trie<char> f(t);
            j.open('[');
            for (auto & s : q) {
                j.open('[');
                walk(j, t, s);
                walk(j, f.childrens(), s);
                j.close(']');
            }
            j.close(']');
        }},
        // words, prefix of the output, positions with their candidates
        {"dis", [](Args & a, Json & j) {
            auto w = words(a);
            std::string out = hexarg(a);
            std::vector<std::vector<std::string>> pos(uarg(a));
            for (auto & p : pos) p = words(a);
            // with objects which were used before, and with new ones
            static spell::Dictionary kept;
            static spell::WordDisambiguouser kept_dis;
            kept = spell::Dictionary(w);
            std::string out2 = out;
            bool r2 = kept_dis(kept, pos.begin(), pos.end(), out2);
            spell::Dictionary d(w);
            spell::WordDisambiguouser dis;
            bool r = dis(d, pos.begin(), pos.end(), out);
            if (r != r2 || out != out2) { j.open('{').key("ok").val(r + 2 * r2 + 4).key("out").bytes(out).close('}'); return; }
            j.open('{').key("ok").b(r).key("out").bytes(out).close('}');
        }},
        {"utf", [](Args & a, Json & j) {
            std::string s = hexarg(a);
            j.open('{').key("it").open('[');
            for (utf::UTF8Iterator it(s.c_str()); *it; ++it) {
                uint32_t c = *it;
                j.open('[');
                for (int sh = 24; sh >= 0; sh -= 8) if (c >> sh) j.val((c >> sh) & 0xFF);
                j.val(-1).val(reinterpret_cast<char const *>(it.pos()) - s.c_str()).val(it.code() == c);
                j.close(']');
            }
            j.close(']').key("uni").open('[');
            for (utf::UTF8toUnicodeIterator it(s.c_str()); *it; ++it) {
                j.open('[').u(*it).val(reinterpret_cast<char const *>(it.pos()) - s.c_str()).close(']');
            }
            j.close(']').close('}');
        }},
        {"repl", [](Args & a, Json & j) {
            std::string s = hexarg(a);
            ocr2::Replacements r;
            for (unsigned n = uarg(a); n--;) { std::string p = hexarg(a); r.push_back({p, hexarg(a)}); }
            ocr2::replace_words(s, r);
            j.bytes(s);
        }},
        {"replf", [](Args & a, Json & j) {
            std::stringstream ss(hexarg(a));
            ocr2::Replacements r;
            ss >> r;
            j.open('[');
            for (auto & x : r) j.open('[').bytes(x.pattern).bytes(x.replace).close(']');
            j.close(']');
        }},
    });
}
