// C18: matrices and vectors in external memory against dense matrices in internal memory.
#include "vp.h"
#include "vp_monitor.h"
#include <stxxl/bits/containers/matrix.h>
#include <algorithm>
#include <memory>
using namespace stxxl;

template <class T> struct Dense { size_t h, w; std::vector<T> v; Dense(size_t h_ = 0, size_t w_ = 0) : h(h_), w(w_), v(h_ * w_, T(0)) { } T& at(size_t r, size_t c) { return v[r * w + c]; } const T& at(size_t r, size_t c) const { return v[r * w + c]; }
    Dense transposed() const { Dense d(w, h); for (size_t r = 0; r < h; ++r) for (size_t c = 0; c < w; ++c) d.at(c, r) = at(r, c); return d; }
    static Dense product(const Dense& a, const Dense& b) { Dense d(a.h, b.w); for (size_t i = 0; i < a.h; ++i) for (size_t k = 0; k < a.w; ++k) { T x = a.at(i, k); if (x != T(0)) for (size_t j = 0; j < b.w; ++j) d.v[i * d.w + j] = (T)(d.v[i * d.w + j] + x * b.v[k * b.w + j]); } return d; } };

template <class T> static T small_value(vp::Rng& r) { return (T)r.next(); }
template <> double small_value<double>(vp::Rng& r) { return (double)(int64_t)(r(2001)) - 1000.0; } // sums and products stay exact

template <class T, unsigned B>
struct MatTest {
    typedef matrix<T, B> M; typedef Dense<T> D; typedef block_scheduler<matrix_swappable_block<T, B> > S; typedef column_vector<T> CV; typedef row_vector<T> RV;
    vp::Ctx& ctx; vp::Rng& r; S* bs; std::ostringstream hist; size_t memory;
    MatTest(vp::Ctx& c) : ctx(c), r(c.rng), bs(NULL), memory(0) { }
    void open(size_t blocks) { memory = blocks; bs = new S((int_type)(blocks * B * B * sizeof(T))); }
    void close() { delete bs; bs = NULL; }
    size_t dim(size_t maxb) { switch (r(6)) { case 0: return 1 + r(3); case 1: return B * (1 + r(maxb)); case 2: return std::max<size_t>(1, B * (1 + r(maxb)) - 1); case 3: return std::min(B * maxb, B * (1 + r(maxb)) + 1); default: return 1 + r(B * maxb); } }
    std::string where() { std::ostringstream o; o << " (blocks of " << B << " by " << B << ", " << memory << " in memory; history" << hist.str() << ")"; return o.str(); }
    // fills with values, leaving some blocks untouched
    void fill(M& m, D& d, unsigned zeros) {
        std::vector<char> skip; size_t bw = (d.w + B - 1) / B, bh = (d.h + B - 1) / B; for (size_t i = 0; i < bw * bh; ++i) skip.push_back(r.chance(zeros, 8)); unsigned how = (unsigned)r(3);
        if (how == 0 && zeros == 0) { for (typename M::row_major_iterator i = m.begin(); i != m.end(); ++i) { T x = small_value<T>(r); *i = x; d.at(i.get_row(), i.get_col()) = x; } }
        else if (how == 1 && zeros == 0) { for (typename M::col_major_iterator i = m.begin(); !i.empty(); ++i) { T x = small_value<T>(r); *i = x; d.at(i.get_row(), i.get_col()) = x; } }
        else for (size_t k = 0; k < skip.size(); ++k) if (!skip[k]) { typename M::iterator it = m(k / bw * B, k % bw * B); for (size_t a = k / bw * B; a < std::min(d.h, (k / bw + 1) * B); ++a) for (size_t b = k % bw * B; b < std::min(d.w, (k % bw + 1) * B); ++b) { it.set_pos(a, b); T x = small_value<T>(r); *it = x; d.at(a, b) = x; } }
    }
    void compare(const M& m, const D& d, const char* what) {
        VP_CHECK((size_t)m.get_height() == d.h && (size_t)m.get_width() == d.w, "matrix-dimensions", what << " is " << m.get_height() << " by " << m.get_width() << ", expected " << d.h << " by " << d.w << where());
        unsigned how = (unsigned)r(4); size_t n = 0;
        if (how == 0) { for (typename M::const_row_major_iterator i = m.begin(); i != m.end(); ++i, ++n) check(d, i.get_row(), i.get_col(), *i, n / d.w, n % d.w, what); }
        else if (how == 1) { for (typename M::const_col_major_iterator i = m.cbegin(); i; ++i, ++n) check(d, i.get_row(), i.get_col(), *i, n % d.h, n / d.h, what); }
        else if (how == 2) { typename M::const_row_major_iterator i = m(d.h - 1, d.w - 1); for ( ; !i.empty(); --i, ++n) { size_t k = d.h * d.w - 1 - n; check(d, i.get_row(), i.get_col(), *i, k / d.w, k % d.w, what); } }
        else { typename M::const_col_major_iterator i = m(d.h - 1, d.w - 1); for ( ; !i.empty(); --i, ++n) { size_t k = d.h * d.w - 1 - n; check(d, i.get_row(), i.get_col(), *i, k % d.h, k / d.h, what); } }
        VP_EQ(n, d.h * d.w, "matrix-iteration", "elements seen of " << what << where()); vp::count("matrix_elements_compared", n);
    }
    void check(const D& d, int_type row, int_type col, const T& x, size_t er, size_t ec, const char* what) {
        VP_CHECK((size_t)row == er && (size_t)col == ec, "matrix-iteration", "iterator of " << what << " at " << row << "," << col << ", expected " << er << "," << ec << where());
        VP_CHECK(x == d.at(er, ec), "matrix-content", "element " << er << "," << ec << " of " << what << " (" << d.h << " by " << d.w << ") is " << +x << ", expected " << +d.at(er, ec) << where());
    }
    void compare_vector(const vector<T>& v, const std::vector<T>& e, const char* what) { VP_EQ((size_t)v.size(), e.size(), "matrix-vector-size", what << where()); for (size_t i = 0; i < e.size(); ++i) VP_CHECK(v[i] == e[i], "matrix-vector-content", "element " << i << " of " << e.size() << " of " << what << " is " << +v[i] << ", expected " << +e[i] << where()); vp::count("vector_elements_compared", e.size()); }
    template <class V> void fill_vector(V& v, std::vector<T>& e) { for (size_t i = 0; i < e.size(); ++i) v[i] = e[i] = r.chance(1, 6) ? T(0) : small_value<T>(r); }
    unsigned multiplication() { return (unsigned)r(7); } unsigned scheduling() { return (unsigned)r(3); }

    // histories on several matrices
    void run() {
        const size_t maxb = sizeof(T) * B * B > 4096 ? 2 : 3; open(r.chance(1, 2) ? r.range(6, 12) : r.range(12, 60)); bool roomy = memory >= 60;
        {
            std::vector<std::unique_ptr<M> > m; std::vector<D> d; size_t dims[3] = { dim(maxb), dim(maxb), dim(maxb) };
            for (unsigned i = 0; i < 4; ++i) { D x(dims[r(3)], dims[r(3)]); m.push_back(std::unique_ptr<M>(new M(*bs, x.h, x.w))); if (r.chance(4, 5)) fill(*m.back(), x, (unsigned)r(5)); d.push_back(x); hist << " new" << x.h << "x" << x.w; }
            for (size_t ops = r.range(6, 26); ops > 0; --ops) {
                size_t a = r(4), b = r(4), c = r(4); unsigned op = (unsigned)r(19); ctx.note(op * 64 + a * 16 + b * 4 + c); hist << " " << op << "/" << a << b << c;
                for (unsigned t = 0; t < 6 && (op == 0 || op == 1 || op == 3 || op == 4) && (d[a].h != d[b].h || d[a].w != d[b].w); ++t) b = r(4);
                for (unsigned t = 0; t < 12 && (op == 2 || op == 5) && (d[a].w != d[b].h || (op == 5 && d[b].h != d[b].w)); ++t) { a = r(4); b = r(4); }
                bool same = d[a].h == d[b].h && d[a].w == d[b].w;
                switch (op) {
                case 0: if (same) { *m[c] = *m[a] + *m[b]; D x(d[a].h, d[a].w); for (size_t i = 0; i < x.v.size(); ++i) x.v[i] = (T)(d[a].v[i] + d[b].v[i]); d[c] = x; vp::count("matrix_sums"); } break;
                case 1: if (same) { *m[c] = *m[a] - *m[b]; D x(d[a].h, d[a].w); for (size_t i = 0; i < x.v.size(); ++i) x.v[i] = (T)(d[a].v[i] - d[b].v[i]); d[c] = x; vp::count("matrix_differences"); } break;
                case 2: if (d[a].w == d[b].h) { if (grows(d[a], d[b])) break; unsigned alg = multiplication(), sch = scheduling(); if (alg == 3 && !roomy) alg = 1; hist << "(" << alg << sch << ")"; if (r.chance(1, 4)) *m[c] = *m[a] * *m[b]; else *m[c] = m[a]->multiply(*m[b], alg, sch); d[c] = D::product(d[a], d[b]); vp::count("matrix_products"); } break;
                case 3: if (same) { *m[a] += *m[b]; D y = d[b]; for (size_t i = 0; i < y.v.size(); ++i) d[a].v[i] = (T)(d[a].v[i] + y.v[i]); vp::count(a == b ? "matrix_added_to_itself" : "matrix_sums"); } break;
                case 4: if (same) { *m[a] -= *m[b]; D y = d[b]; for (size_t i = 0; i < y.v.size(); ++i) d[a].v[i] = (T)(d[a].v[i] - y.v[i]); vp::count(a == b ? "matrix_subtracted_from_itself" : "matrix_differences"); } break;
                case 5: if (d[a].w == d[b].h && d[b].h == d[b].w && !grows(d[a], d[b])) { *m[a] *= *m[b]; d[a] = D::product(d[a], d[b]); vp::count("matrix_products"); } break;
                case 6: { if (grows(d[a], d[a], 64)) break; T s = r.chance(1, 4) ? T(0) : (T)(r(7) + 1); if (r.chance(1, 2)) { *m[a] *= s; } else { *m[c] = *m[a] * s; if (c != a) d[c] = d[a]; a = c; } for (size_t i = 0; i < d[a].v.size(); ++i) d[a].v[i] = (T)(d[a].v[i] * s); vp::count("matrix_scaled"); break; }
                case 7: case 8: m[a]->transpose(); d[a] = d[a].transposed(); vp::count("matrix_transposed"); break;
                case 9: m[a]->set_zero(); std::fill(d[a].v.begin(), d[a].v.end(), T(0)); break;
                case 10: m[a].reset(new M(*m[b])); d[a] = d[b]; vp::count("matrix_copies"); break;
                case 11: *m[a] = *m[b]; d[a] = d[b]; vp::count("matrix_copies"); break;
                case 12: { std::unique_ptr<M> x(new M(*m[a])); D y = d[a]; write_some(*x, y); compare(*x, y, "a changed copy"); compare(*m[a], d[a], "the original of a changed copy"); if (r.chance(1, 2)) { m[b] = std::move(x); d[b] = y; } break; }
                case 13: case 14: write_some(*m[a], d[a]); break;
                case 15: { D x(dims[r(3)], dims[r(3)]); m[a].reset(new M(*bs, x.h, x.w)); fill(*m[a], x, (unsigned)r(9)); d[a] = x; break; }
                case 16: { std::vector<T> e(d[a].w), f(d[a].h), out; CV x(e.size()); fill_vector(x, e); if (grows(d[a], d[a])) break; out.assign(d[a].h, T(0)); for (size_t i = 0; i < d[a].h; ++i) for (size_t j = 0; j < d[a].w; ++j) out[i] = (T)(out[i] + d[a].at(i, j) * e[j]); CV z = *m[a] * x; compare_vector(z, out, "matrix * column"); compare_vector(x, e, "the column"); vp::count("matrix_vector_products"); break; }
                case 17: { std::vector<T> e(d[a].h), out; RV x(e.size()); fill_vector(x, e); if (grows(d[a], d[a])) break; out.assign(d[a].w, T(0)); for (size_t i = 0; i < d[a].h; ++i) for (size_t j = 0; j < d[a].w; ++j) out[j] = (T)(out[j] + e[i] * d[a].at(i, j)); RV z = x * *m[a]; compare_vector(z, out, "row * matrix"); if (r.chance(1, 2)) { RV y = m[a]->multiply_from_left(x); compare_vector(y, out, "multiply_from_left"); } vp::count("vector_matrix_products"); break; }
                default: { std::vector<T> e(dims[r(3)]), f(dims[r(3)]); CV x(e.size()); RV y(f.size()); fill_vector(x, e); fill_vector(y, f); m[a].reset(new M(*bs, x, y)); D z(e.size(), f.size()); for (size_t i = 0; i < z.h; ++i) for (size_t j = 0; j < z.w; ++j) z.at(i, j) = (T)(e[i] * f[j]); d[a] = z; compare(*m[a], d[a], "the outer product"); vp::count("outer_products"); }
                }
                vp::count("matrix_ops"); compare(*m[a], d[a], "the first operand"); if (c != a) compare(*m[c], d[c], "the result"); if (b != a && b != c) compare(*m[b], d[b], "the second operand");
            }
            for (unsigned i = 0; i < 4; ++i) compare(*m[i], d[i], "a matrix at the end"); VP_EQ((long)bs->is_simulating(), 0l, "matrix-scheduler", "simulation left on");
        }
        close();
    }
    // doubles are only exact while they stay small
    bool grows(const D& a, const D& b, double by = 0) { if (T(0.5) == T(0)) return false; double x = 0, y = 0; for (size_t i = 0; i < a.v.size(); ++i) x = std::max(x, std::abs((double)a.v[i])); for (size_t i = 0; i < b.v.size(); ++i) y = std::max(y, std::abs((double)b.v[i])); return (by ? x * by : x * std::max(y, 1000.0) * (double)(a.w + a.h)) > 1e13; }
    void write_some(M& m, D& d) {
        size_t row = r(d.h), col = r(d.w); std::ostringstream o; typename M::iterator it = m(row, col);
        for (size_t k = r.range(1, 40); k > 0; --k) {
            switch (r(6)) {
            case 0: row = r(d.h); it.set_row(row); break; case 1: col = r(d.w); it.set_col(col); break; case 2: row = r(d.h); col = r(d.w); it.set_pos(row, col); break; case 3: row = r(d.h); col = r(d.w); it.set_pos(std::make_pair((int_type)row, (int_type)col)); break;
            case 4: { row = r(d.h); col = r(d.w); typename M::iterator jt = m(row, col); if (r.chance(1, 2)) *jt; it = jt; break; }
            default: { typename M::row_major_iterator i(it); ++i; if (row + 1 == d.h && col + 1 == d.w) { VP_CHECK(i.empty() && !i && i == m.end(), "matrix-iteration", "row-major iterator behind the last element" << where()); } else { if (++col == d.w) { col = 0; ++row; } VP_CHECK((size_t)i.get_row() == row && (size_t)i.get_col() == col, "matrix-iteration", "row-major iterator" << where()); it = i; } }
            }
            VP_CHECK((size_t)it.get_row() == row && (size_t)it.get_col() == col && it.get_pos() == std::make_pair((int_type)row, (int_type)col) && !it.empty(), "matrix-iteration", "position " << it.get_row() << "," << it.get_col() << " expected " << row << "," << col << where());
            VP_CHECK(*it == d.at(row, col), "matrix-content", "element " << row << "," << col << " before writing is " << +*it << ", expected " << +d.at(row, col) << where());
            T x = r.chance(1, 8) ? T(0) : small_value<T>(r); *it = x; d.at(row, col) = x; vp::count("matrix_writes");
        }
    }
    // iterators of several matrices
    void iterators() {
        open(r.range(12, 30));
        {
            D d1(dim(3), dim(3)), d2(dim(3), dim(3)); M m1(*bs, d1.h, d1.w), m2(*bs, d2.h, d2.w); fill(m1, d1, 2); fill(m2, d2, 2); if (r.chance(1, 2)) { m1.transpose(); d1 = d1.transposed(); }
            const M& c1 = m1; const M& c2 = m2; M* ms[2] = { &m1, &m2 }; const M* cs[2] = { &c1, &c2 }; D* ds[2] = { &d1, &d2 };
            struct Slot { unsigned m; bool end; size_t r, c; }; typedef typename M::iterator I; typedef typename M::const_iterator C; std::vector<I> it; std::vector<C> ct; std::vector<Slot> si, sc;
            for (unsigned i = 0; i < 3; ++i) { Slot s = { (unsigned)r(2), false, 0, 0 }; it.push_back(ms[s.m]->begin()); si.push_back(s); s.m = (unsigned)r(2); ct.push_back(cs[s.m]->begin()); sc.push_back(s); }
            for (unsigned step = 0; step < 200; ++step) {
                unsigned i = (unsigned)r(3), j = (unsigned)r(3); Slot& s = si[i]; Slot& t = sc[i]; ctx.note(step * 9 + i * 3 + j);
                switch (r(12)) {
                case 0: it[i] = it[j]; si[i] = si[j]; break;
                case 1: ct[i] = ct[j]; sc[i] = sc[j]; break;
                case 2: ct[i] = C(it[j]); sc[i] = si[j]; break;
                case 3: { I x(it[j]); it[i] = x; si[i] = si[j]; break; }
                case 4: s.m = (unsigned)r(2); s.end = r.chance(1, 6); s.r = r(ds[s.m]->h); s.c = r(ds[s.m]->w); if (s.end) it[i] = ms[s.m]->end(); else it[i] = (*ms[s.m])(s.r, s.c); break;
                case 5: t.m = (unsigned)r(2); t.end = r.chance(1, 6); t.r = r(ds[t.m]->h); t.c = r(ds[t.m]->w); if (t.end) ct[i] = cs[t.m]->cend(); else ct[i] = (*cs[t.m])(t.r, t.c); break;
                case 6: if (!s.end) { s.r = r(ds[s.m]->h); it[i].set_row(s.r); } break;
                case 7: if (!t.end) { t.c = r(ds[t.m]->w); ct[i].set_col(t.c); } break;
                case 8: if (!s.end) { typename M::row_major_iterator x(it[i]); move<true>(x, s, *ds[s.m], r.chance(1, 2)); it[i] = x; } break;
                case 9: if (!s.end) { typename M::col_major_iterator x(it[i]); move<false>(x, s, *ds[s.m], r.chance(1, 2)); it[i] = x; } break;
                case 10: if (!t.end) { typename M::const_row_major_iterator x(ct[i]); move<true>(x, t, *ds[t.m], r.chance(1, 2)); ct[i] = x; } break;
                default: if (!t.end) { typename M::const_col_major_iterator x(ct[i]); move<false>(x, t, *ds[t.m], r.chance(1, 2)); ct[i] = x; } break;
                }
                for (unsigned k = 0; k < 3; ++k) {
                    const Slot& a = si[k]; const Slot& b = sc[k]; VP_CHECK(it[k].empty() == a.end && (bool)it[k] == !a.end && ct[k].empty() == b.end && (bool)ct[k] == !b.end, "matrix-iterator", "empty()" << where());
                    if (!a.end) VP_CHECK((size_t)it[k].get_row() == a.r && (size_t)it[k].get_col() == a.c && *it[k] == ds[a.m]->at(a.r, a.c), "matrix-iterator", "iterator " << k << " at " << it[k].get_row() << "," << it[k].get_col() << " of matrix " << a.m << " gives " << +*it[k] << ", expected position " << a.r << "," << a.c << " and " << +ds[a.m]->at(a.r, a.c) << where());
                    if (!b.end) VP_CHECK((size_t)ct[k].get_row() == b.r && (size_t)ct[k].get_col() == b.c && *ct[k] == ds[b.m]->at(b.r, b.c), "matrix-iterator", "constant iterator " << k << " of matrix " << b.m << " gives " << +*ct[k] << ", expected " << +ds[b.m]->at(b.r, b.c) << where());
                    for (unsigned l = 0; l < 3; ++l) { const Slot& c = si[l]; bool eq = a.m == c.m && a.end == c.end && (a.end || (a.r == c.r && a.c == c.c)); VP_CHECK((it[k] == it[l]) == eq && (it[k] != it[l]) == !eq, "matrix-iterator-compare", "iterators at " << a.r << "," << a.c << (a.end ? " (end)" : "") << " and " << c.r << "," << c.c << (c.end ? " (end)" : "") << " of matrices " << a.m << " and " << c.m << where());
                        const Slot& e = sc[l]; bool ceq = b.m == e.m && b.end == e.end && (b.end || (b.r == e.r && b.c == e.c)); VP_CHECK((ct[k] == ct[l]) == ceq && (ct[k] != ct[l]) == !ceq, "matrix-iterator-compare", "constant iterators" << where()); }
                }
                if (!si[i].end && r.chance(1, 2)) { T x = small_value<T>(r); *it[i] = x; ds[si[i].m]->at(si[i].r, si[i].c) = x; }
                vp::count("iterator_steps");
            }
            it.clear(); ct.clear(); compare(m1, d1, "the first matrix"); compare(m2, d2, "the second matrix");
        }
        close();
    }
    template <bool ROW, class It, class Slot> void move(It& x, Slot& s, const D& d, bool fwd) {
        size_t n = d.h * d.w, k = ROW ? s.r * d.w + s.c : s.c * d.h + s.r; if (fwd) ++x; else --x;
        if (fwd ? k + 1 == n : k == 0) s.end = true; else { k = fwd ? k + 1 : k - 1; s.r = ROW ? k / d.w : k % d.h; s.c = ROW ? k % d.w : k / d.h; }
        if (!s.end) { VP_CHECK((size_t)x.get_row() == s.r && (size_t)x.get_col() == s.c && *x == d.at(s.r, s.c), "matrix-iteration", "moved iterator" << where()); } else VP_CHECK(x.empty(), "matrix-iteration", "iterator moved out of the matrix is not empty" << where());
    }
    // large products, with every algorithm
    void product() {
        size_t maxb = sizeof(T) * B * B > 4096 ? (ctx.thorough ? 9 : 6) : (ctx.thorough ? 18 : 9); bool roomy = r.chance(1, 2); open(roomy ? r.range(80, 200) : r.range(5, 30));
        {
            unsigned alg = multiplication(), sch = scheduling(); if (alg == 3 && !roomy) alg = 2; bool square = r.chance(1, 3); size_t n = side(maxb), m = square ? n : side(maxb), l = square ? n : side(maxb);
            if (alg == 0) { n = std::min<size_t>(n, 4 * B + 3); m = std::min<size_t>(m, 4 * B + 1); }
            hist << " product " << n << "x" << l << "x" << m << " algorithm " << alg << " scheduling " << sch; ctx.note(((n * 1000 + m) * 1000 + l) * 21 + alg * 3 + sch); bool ta = r.chance(1, 3), tb = r.chance(1, 3); if (ta) hist << " left transposed"; if (tb) hist << " right transposed";
            D a(ta ? l : n, ta ? n : l), b(tb ? m : l, tb ? l : m); M x(*bs, a.h, a.w), y(*bs, b.h, b.w); unsigned za = r.chance(1, 2) ? 0 : (unsigned)r(8), zb = r.chance(1, 2) ? 0 : (unsigned)r(8); fill(x, a, za); fill(y, b, zb);
            if (ta) { x.transpose(); a = a.transposed(); } if (tb) { y.transpose(); b = b.transposed(); }
            bool self = n == l && l == m && r.chance(1, 5); D c = D::product(a, self ? a : b); M z = x.multiply(self ? x : y, alg, sch); compare(z, c, "the product"); compare(x, a, "the left factor"); compare(y, b, "the right factor");
            if (r.chance(1, 3)) { z.transpose(); compare(z, c.transposed(), "the transposed product"); z.transpose(); D s = c; M sum = z + z; for (size_t i = 0; i < s.v.size(); ++i) s.v[i] = (T)(s.v[i] + s.v[i]); compare(sum, s, "twice the product"); }
            std::ostringstream k; k << "algorithm " << alg << ", scheduling " << sch; vp::cov("multiplication", k.str()); vp::count("large_products"); if (!roomy) vp::count("products_with_swapping");
        }
        close();
    }
    // products of matrices of few blocks, most of them zero, in many patterns
    void fill_blocks(M& m, D& d, const std::vector<char>& on) {
        size_t bw = (d.w + B - 1) / B; for (size_t k = 0; k < on.size(); ++k) if (on[k]) { typename M::iterator it = m(k / bw * B, k % bw * B); for (size_t a = k / bw * B; a < std::min(d.h, (k / bw + 1) * B); ++a) for (size_t b = k % bw * B; b < std::min(d.w, (k % bw + 1) * B); ++b) if (a % 5 == k % 5 || b % 7 == 3) { it.set_pos(a, b); T x = small_value<T>(r); *it = x; d.at(a, b) = x; } }
    }
    void sparse() {
        open(r.range(80, 160));
        for (unsigned q = 0; q < 6; ++q) {
            size_t nb = r.chance(3, 4) ? 2 : r.range(2, 4), n = nb * B - r(2), l = (r.chance(3, 4) ? nb : 2) * B, m = nb * B - r(2); D a(n, l), b(l, m); M x(*bs, n, l), y(*bs, l, m); size_t bl = (l + B - 1) / B, bn = (n + B - 1) / B, bm = (m + B - 1) / B;
            std::vector<char> f(bn * bl), g(bl * bm); unsigned most = (unsigned)r.range(1, 3); for (unsigned i = 0; i < most; ++i) f[r(f.size())] = 1; most = (unsigned)r.range(1, 3); for (unsigned i = 0; i < most; ++i) g[r(g.size())] = 1;
            fill_blocks(x, a, f); fill_blocks(y, b, g); D c = D::product(a, b); hist << " sparse " << n << "x" << l << "x" << m; ctx.note(r.next());
            for (unsigned k = 0; k < 3; ++k) { unsigned alg = multiplication(), sch = scheduling(); if (alg == 0 || k == 0) alg = 3; hist << " (" << alg << sch << ")"; M z = x.multiply(y, alg, sch); compare(z, c, "the product of sparse matrices"); vp::count("sparse_products"); }
        }
        close();
    }
    // one of two matrices that share their blocks is changed
    void shared() {
        open(r.range(20, 60));
        for (unsigned op = 0; op < 9; ++op) {
            size_t h = dim(2), w = op == 4 ? h : dim(2); D d(h, w), e(h, w), f(h, w); M x(*bs, h, w), o(*bs, h, w); fill(x, d, (unsigned)r(4)); fill(o, f, (unsigned)r(4)); if (r.chance(1, 2)) { x.transpose(); o.transpose(); d = d.transposed(); f = f.transposed(); }
            M y(x); M y2(*bs, d.h, d.w); y2 = x; e = d; bool first = r.chance(1, 2); M& t = first ? x : y; D& u = first ? d : e; hist << " shared op " << op;
            T s = op == 0 ? T(0) : (T)(1 + r(4));
            switch (op) {
            case 0: case 1: t *= s; for (size_t i = 0; i < u.v.size(); ++i) u.v[i] = (T)(u.v[i] * s); break;
            case 2: t += o; for (size_t i = 0; i < u.v.size(); ++i) u.v[i] = (T)(u.v[i] + f.v[i]); break;
            case 3: t -= o; for (size_t i = 0; i < u.v.size(); ++i) u.v[i] = (T)(u.v[i] - f.v[i]); break;
            case 4: t *= o; u = D::product(u, f); break;
            case 5: t.transpose(); u = u.transposed(); break;
            case 6: t.set_zero(); std::fill(u.v.begin(), u.v.end(), T(0)); break;
            case 7: write_some(t, u); break;
            default: t = o; u = f; if (r.chance(1, 2)) write_some(t, u); }
            compare(x, d, "a matrix that was copied"); compare(y, e, "its copy"); compare(y2, first ? e : d, "an assigned copy"); compare(o, f, "the other operand"); vp::count("shared_matrix_changes");
        }
        close();
    }
    size_t side(size_t maxb) { size_t nb = 1 + r(maxb); switch (r(4)) { case 0: return nb * B; case 1: return nb * B - (nb > 1 || B > 1 ? r(B) : 0); default: return nb * B - B + 1 + r(B); } }
    // vectors
    void vectors() {
        size_t n = r.boundary(300, 3) + 1; std::vector<T> a(n), b(n), e(n); CV x(n), y(n); RV p(n), q(n); fill_vector(x, a); fill_vector(y, b); for (size_t i = 0; i < n; ++i) { p[i] = a[i]; q[i] = b[i]; } T s = (T)(r(9));
        for (unsigned k = 0; k < 8; ++k) {
            ctx.note(n * 8 + k);
            switch (k) {
            case 0: for (size_t i = 0; i < n; ++i) e[i] = (T)(a[i] + b[i]); compare_vector(x + y, e, "column + column"); compare_vector(p + q, e, "row + row"); break;
            case 1: for (size_t i = 0; i < n; ++i) e[i] = (T)(a[i] - b[i]); compare_vector(x - y, e, "column - column"); compare_vector(p - q, e, "row - row"); break;
            case 2: for (size_t i = 0; i < n; ++i) e[i] = (T)(a[i] * s); compare_vector(x * s, e, "column * scalar"); compare_vector(p * s, e, "row * scalar"); break;
            case 3: { T z = T(0); for (size_t i = 0; i < n; ++i) z = (T)(z + a[i] * b[i]); VP_CHECK(p * y == z, "matrix-vector-content", "row * column"); break; }
            case 4: { CV u(x); RV v(p); u += y; v += q; for (size_t i = 0; i < n; ++i) e[i] = (T)(a[i] + b[i]); compare_vector(u, e, "column += column"); compare_vector(v, e, "row += row"); u += u; for (size_t i = 0; i < n; ++i) e[i] = (T)(e[i] + e[i]); compare_vector(u, e, "column += itself"); break; }
            case 5: { CV u(x); RV v(p); u -= y; v -= q; for (size_t i = 0; i < n; ++i) e[i] = (T)(a[i] - b[i]); compare_vector(u, e, "column -= column"); compare_vector(v, e, "row -= row"); break; }
            case 6: { CV u(x); RV v(p); u *= s; v *= s; for (size_t i = 0; i < n; ++i) e[i] = (T)(a[i] * s); compare_vector(u, e, "column *= scalar"); compare_vector(v, e, "row *= scalar"); break; }
            default: { CV u(x); RV v(p); u.set_zero(); v.set_zero(); e.assign(n, T(0)); compare_vector(u, e, "column set to zero"); compare_vector(v, e, "row set to zero"); }
            }
            compare_vector(x, a, "the column"); compare_vector(q, b, "the row"); vp::count("vector_ops");
        }
    }
};
template <class T, unsigned B, int W> static void go(vp::Ctx& ctx) {
    vp::MonStat before = vp::monitor_stat(); { MatTest<T, B> t(ctx); if (W == 0) t.run(); else if (W == 1) t.iterators(); else if (W == 2) t.product(); else if (W == 4) t.sparse(); else if (W == 5) t.shared(); else t.vectors(); }
    VP_EQ((uint64_t)vp::monitor_stat().live_bytes, before.live_bytes, "matrix-leak", "external bytes held at the end"); vp::nontrivial(ctx.h);
}
