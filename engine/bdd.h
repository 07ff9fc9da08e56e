// Canonical decision diagrams (complement edges) used as the bit-level abstract domain.
#pragma once
#include <cstdint>
#include <cstddef>
#include <vector>
#include <string>
#include <stdexcept>
#include <unordered_map>
#include <chrono>

typedef uint32_t B; // edge: (node index << 1) | complement
static const B F_ = 0, T_ = 1;

struct LimitExceeded : std::runtime_error { using std::runtime_error::runtime_error; };

class Bdd
{
  public:
    struct Node { uint32_t var; B lo, hi; };
    enum Kind : uint8_t { Input, Uninit, Unknown };
    struct Var { uint64_t ord; Kind kind; };

    std::vector<Node> nodes;
    std::vector<Var>  vars;
    size_t            limit = 30u * 1000 * 1000;
    std::chrono::steady_clock::time_point deadline = std::chrono::steady_clock::time_point::max();
    uint64_t          misses = 0;

    Bdd()
    {
        nodes.push_back({ UINT32_MAX, 0, 0 });
        utab.assign(1u << 16, 0);
        umask = utab.size() - 1;
        cache.assign(1u << 21, {});
        cmask = cache.size() - 1;
        rcache.assign(1u << 18, {});
    }
    static B    neg(B a) { return a ^ 1u; }
    uint32_t    newVar(uint64_t ord, Kind k)
    {
        vars.push_back({ ord, k });
        return uint32_t(vars.size() - 1);
    }
    B var(uint32_t v) { return mk(v, F_, T_); }

    B mk(uint32_t v, B lo, B hi)
    {
        if (lo == hi)
            return lo;
        bool c = lo & 1;
        if (c)
        {
            lo ^= 1;
            hi ^= 1;
        }
        size_t h = hash3(v, lo, hi) & umask;
        while (uint32_t i = utab[h])
        {
            const Node& n = nodes[i];
            if (n.var == v && n.lo == lo && n.hi == hi)
                return (i << 1) | c;
            h = (h + 1) & umask;
        }
        if (nodes.size() >= limit)
            throw LimitExceeded("decision diagram node limit");
        uint32_t i = uint32_t(nodes.size());
        nodes.push_back({ v, lo, hi });
        utab[h] = i;
        if (nodes.size() * 2 > utab.size())
            rehash();
        return (i << 1) | c;
    }
    B And(B a, B b) { return ite(a, b, F_); }
    B Or(B a, B b) { return ite(a, T_, b); }
    B Xor(B a, B b) { return ite(a, neg(b), b); }
    B Xnor(B a, B b) { return ite(a, b, neg(b)); }

    B ite(B f, B g, B h)
    {
        if (f == T_) return g;
        if (f == F_) return h;
        if (g == h) return g;
        if (g == f) g = T_; else if (g == neg(f)) g = F_;
        if (h == f) h = F_; else if (h == neg(f)) h = T_;
        if (g == h) return g;
        if (g == T_ && h == F_) return f;
        if (g == F_ && h == T_) return neg(f);
        if (f & 1) { f ^= 1; std::swap(g, h); }
        // commutative normalisation
        if (h == F_ && g < f && !(g & 1)) std::swap(f, g);
        else if (g == T_ && !(h & 1) && h < f) std::swap(f, h);
        B out = 0;
        if (g & 1) { g ^= 1; h ^= 1; out = 1; }
        size_t ci = hash3(f, g, h) & cmask;
        {
            const CE& e = cache[ci];
            if (e.f == f && e.g == g && e.h == h)
                return e.r ^ out;
        }
        if ((++misses & 0xFFFFF) == 0 && std::chrono::steady_clock::now() > deadline)
            throw LimitExceeded("time budget");
        uint32_t v = top(f, g, h);
        B        f0, f1, g0, g1, h0, h1;
        cof(f, v, f0, f1);
        cof(g, v, g0, g1);
        cof(h, v, h0, h1);
        B lo = ite(f0, g0, h0);
        B hi = ite(f1, g1, h1);
        B r  = mk(v, lo, hi);
        cache[hash3(f, g, h) & cmask] = { f, g, h, r };
        return r ^ out;
    }
    bool isConst(B a) const { return a < 2; }

    // generalised cofactor (sibling substitution): agrees with f wherever c holds, never mentions what c excludes
    B restrictTo(B f, B c)
    {
        if (c == T_ || f < 2) return f;
        if (c == F_) return f;
        if (f == c) return T_;
        if (f == neg(c)) return F_;
        B out = f & 1;
        f ^= out;
        size_t ci = hash3(f, c, 0x9E37u) & (rcache.size() - 1);
        {
            const CE& e = rcache[ci];
            if (e.f == f && e.g == c) return e.r ^ out;
        }
        B        r;
        uint32_t vf = nodes[f >> 1].var, vc = nodes[c >> 1].var;
        if (vc != vf && before(vc, vf))
        {
            B c0, c1;
            cof(c, vc, c0, c1);
            r = restrictTo(f, Or(c0, c1));
        }
        else
        {
            B f0, f1, c0, c1;
            cof(f, vf, f0, f1);
            cof(c, vf, c0, c1);
            if (c0 == F_) r = restrictTo(f1, c1);
            else if (c1 == F_) r = restrictTo(f0, c0);
            else
            {
                B lo = restrictTo(f0, c0), hi = restrictTo(f1, c1);
                r    = mk(vf, lo, hi);
            }
        }
        rcache[ci] = { f, c, 0, r };
        return r ^ out;
    }

    // universally quantify all Unknown-kind variables
    B forallUnknown(B f)
    {
        std::unordered_map<B, B> memo;
        return faU(f, memo);
    }
    bool supportHas(B f, Kind k)
    {
        std::unordered_map<uint32_t, bool> seen;
        return supp(f >> 1, k, seen);
    }
    // pick a satisfying assignment
    template<typename Set>
    void support(B f, Set& out)
    {
        std::unordered_map<uint32_t, bool> seen;
        std::vector<uint32_t>              st{ f >> 1 };
        while (!st.empty())
        {
            uint32_t i = st.back();
            st.pop_back();
            if (!i || seen[i]) continue;
            seen[i] = true;
            out.insert(nodes[i].var);
            st.push_back(nodes[i].lo >> 1);
            st.push_back(nodes[i].hi >> 1);
        }
    }
    bool pick(B f, std::unordered_map<uint32_t, bool>& out)
    {
        if (f == F_) return false;
        while (f != T_)
        {
            const Node& n = nodes[f >> 1];
            B           c = f & 1, lo = n.lo ^ c, hi = n.hi ^ c;
            if (lo != F_) { out[n.var] = false; f = lo; }
            else { out[n.var] = true; f = hi; }
        }
        return true;
    }
    bool eval(B f, const std::unordered_map<uint32_t, bool>& a)
    {
        while (f > 1)
        {
            const Node& n  = nodes[f >> 1];
            auto        it = a.find(n.var);
            bool        v  = it != a.end() && it->second;
            f              = (v ? n.hi : n.lo) ^ (f & 1);
        }
        return f == T_;
    }
    size_t size(B f)
    {
        std::unordered_map<uint32_t, bool> seen;
        return cnt(f >> 1, seen);
    }

  private:
    struct CE { B f = 0, g = 0, h = 0, r = 0; };
    std::vector<uint32_t> utab;
    size_t                umask;
    std::vector<CE>       cache;
    std::vector<CE>       rcache;
    size_t                cmask;

    static size_t hash3(uint64_t a, uint64_t b, uint64_t c)
    {
        uint64_t x = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15u) * 0xC2B2AE3D27D4EB4Full ^ (c + 0x1234567u) * 0x165667B19E3779F9ull;
        x ^= x >> 29;
        x *= 0xBF58476D1CE4E5B9ull;
        x ^= x >> 32;
        return size_t(x);
    }
    void rehash()
    {
        utab.assign(utab.size() * 2, 0);
        umask = utab.size() - 1;
        for (uint32_t i = 1; i < nodes.size(); ++i)
        {
            size_t h = hash3(nodes[i].var, nodes[i].lo, nodes[i].hi) & umask;
            while (utab[h]) h = (h + 1) & umask;
            utab[h] = i;
        }
        // keep the operation cache in step with the diagram
        if (cache.size() < utab.size() / 2 && cache.size() < (1u << 25))
        {
            cache.assign(cache.size() * 2, {});
            cmask = cache.size() - 1;
        }
    }
  public:
    bool before(uint32_t a, uint32_t b) const
    {
        if (vars[a].ord != vars[b].ord) return vars[a].ord < vars[b].ord;
        return a < b;
    }
    uint32_t top(B f, B g, B h) const
    {
        uint32_t v = nodes[f >> 1].var;
        if (g > 1) { uint32_t w = nodes[g >> 1].var; if (w != v && before(w, v)) v = w; }
        if (h > 1) { uint32_t w = nodes[h >> 1].var; if (w != v && before(w, v)) v = w; }
        return v;
    }
    void cof(B f, uint32_t v, B& lo, B& hi) const
    {
        const Node& n = nodes[f >> 1];
        if (f < 2 || n.var != v) { lo = hi = f; return; }
        lo = n.lo ^ (f & 1);
        hi = n.hi ^ (f & 1);
    }
  private:
    B faU(B f, std::unordered_map<B, B>& memo)
    {
        if (f < 2) return f;
        auto it = memo.find(f);
        if (it != memo.end()) return it->second;
        Node n  = nodes[f >> 1];
        B    lo = faU(n.lo ^ (f & 1), memo), hi = faU(n.hi ^ (f & 1), memo);
        B    r  = vars[n.var].kind == Unknown ? And(lo, hi) : ite(var(n.var), hi, lo);
        memo[f] = r;
        return r;
    }
    bool supp(uint32_t i, Kind k, std::unordered_map<uint32_t, bool>& seen)
    {
        if (!i || seen.count(i)) return false;
        seen[i] = true;
        if (vars[nodes[i].var].kind == k) return true;
        return supp(nodes[i].lo >> 1, k, seen) || supp(nodes[i].hi >> 1, k, seen);
    }
    size_t cnt(uint32_t i, std::unordered_map<uint32_t, bool>& seen)
    {
        if (!i || seen.count(i)) return 0;
        seen[i] = true;
        return 1 + cnt(nodes[i].lo >> 1, seen) + cnt(nodes[i].hi >> 1, seen);
    }
};
