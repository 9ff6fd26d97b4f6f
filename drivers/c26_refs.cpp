// C26: reference-counting pointers against an ownership model, and across threads.
#include "vp.h"
#include "vp_monitor.h"
#include <stxxl/bits/common/counting_ptr.h>
#include <stxxl/bits/common/external_shared_ptr.h>
#include <stxxl/io>
#include <stxxl/vector>
#include <stxxl/stack>
#include <stxxl/queue>
#include <stxxl/map>
#include <stxxl/mng>
#include <algorithm>
#include <atomic>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <thread>
#include <unistd.h>
using namespace stxxl;

// every object is known by a number; the table tells how often it was destroyed
static std::mutex tab_mtx; static std::map<int, int> tab_live; static std::map<int, int> tab_dead; static int tab_serial = 0;
static int tab_new() { std::lock_guard<std::mutex> l(tab_mtx); int id = ++tab_serial; tab_live[id] = 1; return id; }
static void tab_gone(int id) { std::lock_guard<std::mutex> l(tab_mtx); if (!tab_live.erase(id)) vp::fail_async("refs-destroyed-twice", "object " + std::to_string(id) + " destroyed again"); tab_dead[id]++; }
static bool tab_is(int id) { std::lock_guard<std::mutex> l(tab_mtx); return tab_live.count(id) > 0; }
static size_t tab_size() { std::lock_guard<std::mutex> l(tab_mtx); return tab_live.size(); }
static void tab_reset() { std::lock_guard<std::mutex> l(tab_mtx); tab_live.clear(); tab_dead.clear(); }

template <class Base> struct Obj : public Base {
    int id; int value; std::string text; counting_ptr<Obj> next;
    explicit Obj(int v) : id(tab_new()), value(v), text(std::to_string(v)) { }
    Obj(const Obj& o) : Base(o), id(tab_new()), value(o.value), text(o.text), next(o.next) { }
    Obj& operator = (const Obj& o) { Base::operator = (o); value = o.value; text = o.text; return *this; }
    void set(int v) { value = v; text = std::to_string(v); }
    bool ok() const { return text == std::to_string(value); }
    virtual ~Obj() { tab_gone(id); id = -1; }
};
template <class Base> struct Sub : public Obj<Base> { std::string more; explicit Sub(int v) : Obj<Base>(v), more("derived") { } };

struct ByObject { template <class P> bool operator () (const P& a, const P& b) const { return std::less<const void*>()(a.get(), b.get()); } };
template <class Base> static void history(vp::Ctx& ctx) {
    typedef Obj<Base> O; typedef counting_ptr<O> P; typedef const_counting_ptr<O> C; vp::Rng& r = ctx.rng; tab_reset(); int serial = 0;
    const size_t NP = 6, NC = 4;
    {
        std::vector<P> p(NP); std::vector<C> c(NC); std::vector<P>* list = new std::vector<P>; std::map<P, int, ByObject> keyed;
        // model: object number per holder (0 none), value and next per object
        std::vector<int> mp(NP, 0), mc(NC, 0), ml; std::map<int, int> val, nxt; std::set<int> mk;
        for (size_t ops = r.range(10, 120); ops > 0; --ops) {
            size_t a = r(NP), b = r(NP), k = r(NC); unsigned op = (unsigned)r(22); ctx.note(op * 100 + a * 10 + b);
            switch (op) {
            case 0: case 1: { int v = ++serial; if (r.chance(1, 3)) p[a] = new Sub<Base>(v); else { P t(new O(v)); VP_CHECK(t.unique() && t->get_reference_count() == 1, "refs-count", "a new object has " << t->get_reference_count() << " references"); p[a] = t; } mp[a] = p[a]->id; val[mp[a]] = v; nxt[mp[a]] = 0; break; }
            case 2: p[a] = p[b]; mp[a] = mp[b]; break;
            case 3: p[a] = p[a]; break;                                   // itself
            case 4: p[a] = p[b].get(); mp[a] = mp[b]; break;              // a plain pointer to a managed object
            case 5: p[a] = p[a].get(); break;
            case 6: p[a].swap(p[b]); std::swap(mp[a], mp[b]); break;
            case 7: if (r.chance(1, 2)) { using std::swap; swap(p[a], p[b]); } else std::swap(p[a], p[b]); std::swap(mp[a], mp[b]); break;
            case 8: if (r.chance(1, 2)) p[a] = P(); else p[a] = (O*)NULL; mp[a] = 0; break;
            case 9: { P t(p[a]), u(t); VP_CHECK(t == p[a] && u == t && !(t != u), "refs-compare", "copies are different"); if (mp[a]) { VP_EQ((size_t)t->get_reference_count(), (size_t)u->get_reference_count(), "refs-count", "copies"); VP_CHECK(!t.unique(), "refs-count", "unique with three pointers"); } break; }
            case 10: { bool shared = mp[a] && !p[a].unique(); int old = mp[a]; p[a].unify(); if (shared) { int id = p[a]->id; VP_CHECK(id != old, "refs-unify", "unify() kept a shared object"); mp[a] = id; val[id] = val[old]; nxt[id] = nxt[old]; vp::count("unified"); } else if (old) VP_EQ(p[a]->id, old, "refs-unify", "unify() replaced an unshared object"); VP_CHECK(!mp[a] || p[a].unique(), "refs-unify", "not unique after unify()"); break; }
            case 11: if (mp[a]) { p[a].unify(); if (p[a]->id != mp[a]) { int id = p[a]->id; val[id] = val[mp[a]]; nxt[id] = nxt[mp[a]]; mp[a] = id; } int v = ++serial; p[a]->set(v); val[mp[a]] = v; } break; // copy on write
            case 12: if (mp[a] && mp[b] && mp[a] != mp[b]) { *p[a] = *p[b]; val[mp[a]] = val[mp[b]]; } break; // contents only
            case 13: c[k] = p[a]; mc[k] = mp[a]; break;
            case 14: { size_t j = r(NC); c[k] = c[j]; mc[k] = mc[j]; if (r.chance(1, 4)) c[k] = c[k]; if (r.chance(1, 4)) c[k] = c[k].get(); break; }
            case 15: { size_t j = r(NC); if (r.chance(1, 2)) c[k].swap(c[j]); else { using std::swap; swap(c[k], c[j]); } std::swap(mc[k], mc[j]); break; }
            case 16: { C t(p[a]), u(t), w(p[a].get()); VP_CHECK(t == p[a] && !(t != p[a]) && u == t && !(w != u), "refs-compare", "constant copies"); if (r.chance(1, 2)) { c[k] = C(); mc[k] = 0; } else { c[k] = u; mc[k] = mp[a]; } break; }
            case 17: list->push_back(p[a]); ml.push_back(mp[a]); if (r.chance(1, 5)) { list->insert(list->begin() + r(list->size()), p[b]); ml.clear(); for (size_t i = 0; i < list->size(); ++i) ml.push_back((*list)[i] ? (*list)[i]->id : 0); } break;
            case 18: if (!ml.empty()) { size_t i = r(ml.size()); list->erase(list->begin() + i); ml.erase(ml.begin() + i); } else { keyed.clear(); mk.clear(); } break;
            case 19: if (mp[a]) { keyed[p[a]] = 1; mk.insert(mp[a]); } break;
            case 20: { // linked objects: only to an older one, so that no cycle arises
                if (mp[a] && mp[b] && mp[b] < mp[a]) { p[a]->next = p[b]; nxt[mp[a]] = mp[b]; } else if (mp[a]) { p[a]->next = P(); nxt[mp[a]] = 0; } break; }
            default: if (mp[a]) { int n = nxt[mp[a]]; p[a] = p[a]->next; mp[a] = n; vp::count("list_steps"); } // may drop the object which holds the next pointer
            }
            // holders of every object, through the links of living objects as well
            std::map<int, int> refs; for (size_t i = 0; i < NP; ++i) if (mp[i]) refs[mp[i]]++; for (size_t i = 0; i < NC; ++i) if (mc[i]) refs[mc[i]]++; for (size_t i = 0; i < ml.size(); ++i) if (ml[i]) refs[ml[i]]++; for (std::set<int>::iterator i = mk.begin(); i != mk.end(); ++i) refs[*i]++;
            { std::vector<int> todo; std::set<int> seen; for (std::map<int, int>::iterator i = refs.begin(); i != refs.end(); ++i) todo.push_back(i->first); while (!todo.empty()) { int x = todo.back(); todo.pop_back(); if (!seen.insert(x).second) continue; if (nxt[x]) { refs[nxt[x]]++; todo.push_back(nxt[x]); } } }
            for (std::map<int, int>::iterator i = refs.begin(); i != refs.end(); ++i) VP_CHECK(tab_is(i->first), "refs-destroyed-early", "object " << i->first << " with " << i->second << " references is gone after operation " << op);
            VP_EQ(tab_size(), refs.size(), "refs-not-destroyed", "objects alive after operation " << op);
            for (size_t i = 0; i < NP; ++i) { VP_CHECK(p[i].valid() == (mp[i] != 0) && p[i].empty() == (mp[i] == 0) && (bool)p[i] == (mp[i] != 0), "refs-valid", "valid() or empty() of pointer " << i); if (mp[i]) { VP_CHECK(p[i]->id == mp[i] && p[i]->ok() && (*p[i]).value == val[mp[i]], "refs-content", "pointer " << i << " refers to object " << p[i]->id << " with value " << p[i]->value << ", expected " << mp[i] << " with " << val[mp[i]]); VP_EQ((size_t)p[i]->get_reference_count(), (size_t)refs[mp[i]], "refs-count", "references of object " << mp[i] << " after operation " << op); VP_EQ(p[i].unique(), refs[mp[i]] == 1, "refs-unique", "unique() of object " << mp[i]); } else VP_CHECK(!p[i].unique(), "refs-unique", "unique() of an empty pointer"); }
            for (size_t i = 0; i < NC; ++i) { VP_CHECK(c[i].valid() == (mc[i] != 0) && c[i].empty() == (mc[i] == 0), "refs-valid", "valid() or empty() of constant pointer " << i); if (mc[i]) { VP_CHECK(c[i]->id == mc[i] && (*c[i]).value == val[mc[i]], "refs-content", "constant pointer " << i); VP_EQ(c[i].unique(), refs[mc[i]] == 1, "refs-unique", "unique() of object " << mc[i]); } }
            for (size_t i = 0; i < NP; ++i) for (size_t j = 0; j < NP; ++j) VP_CHECK((p[i] == p[j]) == (mp[i] == mp[j]) && (p[i] != p[j]) == (mp[i] != mp[j]), "refs-compare", "pointers " << i << " and " << j);
            vp::count("pointer_ops");
        }
        delete list;
    }
    VP_EQ(tab_size(), (size_t)0, "refs-not-destroyed", "objects alive when all pointers are gone"); vp::count("objects", tab_dead.size()); vp::nontrivial(ctx.h);
}
VP_SCENARIO_T(history, history_plain, 400, 8000, counted_object);
VP_SCENARIO_T(history, history_atomic, 400, 8000, atomic_counted_object);

// several threads hold the same objects
VP_SCENARIO(threads, 25, 400) {
    typedef Obj<atomic_counted_object> O; typedef counting_ptr<O> P; typedef const_counting_ptr<O> C; vp::Rng& r = ctx.rng; tab_reset();
    const size_t NT = r.range(2, 6), NO = r.range(1, 5), rounds = ctx.scale(300, 3000); std::vector<uint64_t> seeds; for (size_t i = 0; i < NT; ++i) seeds.push_back(r.next());
    {
        std::vector<P> objs; for (size_t i = 0; i < NO; ++i) objs.push_back(P(new O((int)i))); std::vector<int> first; for (size_t i = 0; i < NO; ++i) first.push_back(objs[i]->id);
        std::vector<std::vector<P> > start(NT, objs); bool keep = r.chance(1, 2); if (!keep) objs.clear(); // the last thread destroys them
        // a mailbox per thread hands pointers over
        std::vector<std::vector<P> > box(NT); std::vector<std::mutex> bm(NT); std::atomic<int> done(0); std::atomic<uint64_t> handed(0), cow(0); std::atomic<bool> bad(false);
        std::vector<std::thread> th;
        for (size_t t = 0; t < NT; ++t) th.push_back(std::thread([&, t]() {
            vp::Rng q(seeds[t]); std::vector<P> mine; mine.swap(start[t]); std::vector<C> cmine(2);
            for (size_t i = 0; i < rounds; ++i) {
                switch (q(8)) {
                case 0: mine.push_back(mine[q(mine.size())]); break;
                case 1: if (mine.size() > 1) { size_t j = q(mine.size()); mine[j] = mine.back(); mine.pop_back(); } break;
                case 2: { P x(mine[q(mine.size())]), y; y = x; if (!y->ok()) bad = true; break; }
                case 3: { size_t to = q(NT); P x(mine[q(mine.size())]); std::lock_guard<std::mutex> l(bm[to]); box[to].push_back(x); handed++; break; }
                case 4: { std::vector<P> got; { std::lock_guard<std::mutex> l(bm[t]); got.swap(box[t]); } for (size_t j = 0; j < got.size() && mine.size() < 40; ++j) mine.push_back(got[j]); break; }
                case 5: { size_t j = q(mine.size()); P x(mine[j]); x.unify(); if (!x.unique()) bad = true; int v = (int)(t * 1000000 + i); x->set(v); if (q(2)) mine[j] = x; cow++; if (x->value != v || !x->ok()) bad = true; break; } // an own copy, since somebody else may refer to it
                case 6: cmine[q(2)] = mine[q(mine.size())]; if (cmine[0].valid() && !cmine[0]->ok()) bad = true; break;
                default: { size_t j = q(mine.size()); if (mine[j].unique()) { mine[j]->set((int)i); } else if (!mine[j]->ok()) bad = true; } // nobody else has it: free to change
                }
            }
            done++;
        }));
        for (size_t t = 0; t < NT; ++t) th[t].join();
        VP_CHECK(!bad, "refs-threads", "an object seen by a thread was changed, damaged or not unique after unify()");
        box.clear();
        if (keep) { for (size_t i = 0; i < NO; ++i) { VP_CHECK(objs[i].unique() && objs[i]->id == first[i] && objs[i]->value == (int)i && objs[i]->ok(), "refs-threads", "object " << i << " has " << objs[i]->get_reference_count() << " references, value " << objs[i]->value << " when the threads are gone"); VP_CHECK(tab_is(first[i]), "refs-destroyed-early", "object " << i); } VP_EQ(tab_size(), NO, "refs-not-destroyed", "objects alive with " << NO << " held"); objs.clear(); }
        VP_EQ(tab_size(), (size_t)0, "refs-not-destroyed", "objects alive after the threads"); vp::count("handed_over", handed); vp::count("concurrent_copies_on_write", cow); vp::count("thread_runs");
    }
    ctx.note(seeds[0]); vp::nontrivial(ctx.h);
}
// requests and their files: the last reference goes in the user's or in the worker's thread
VP_SCENARIO(requests, 12, 200) {
    vp::Rng& r = ctx.rng; std::string name = ctx.tmp + "/refs"; ::unlink(name.c_str());
    { std::unique_ptr<file> f; file* raw = r.chance(1, 2) ? (file*)new syscall_file(name, file::RDWR | file::CREAT, (int)r(2)) : (file*)new mem_file((int)r(2)); f.reset(raw); f->set_size(64 * 4096);
      char* buf = (char*)aligned_alloc<4096>(64 * 4096); memset(buf, 7, 64 * 4096); std::vector<request_ptr> held; std::vector<char> busy(64, 0);
      for (size_t q = 0; q < 200; ++q) {
          size_t b = r(64); request_ptr x; if (busy[b]) { wait_all(held.begin(), held.end()); held.clear(); std::fill(busy.begin(), busy.end(), 0); }
          if (r.chance(1, 4)) { request_ptr y; { request_ptr z = f->awrite(buf + b * 4096, (file::offset_type)b * 4096, 4096); y = z; x = z; x = y; } y = x; y = request_ptr(); } else x = f->aread(buf + b * 4096, (file::offset_type)b * 4096, 4096);
          busy[b] = 1; VP_CHECK(x.valid() && x->get_reference_count() >= 1, "refs-request", "references of a request"); if (r.chance(2, 3)) held.push_back(x); else if (r.chance(1, 2)) { x->wait(); VP_CHECK(x->poll(), "refs-request", "a request waited for"); busy[b] = 0; } else { std::thread t([x]() mutable { x->wait(); x = request_ptr(); }); x = request_ptr(); t.join(); busy[b] = 0; }
          if (r.chance(1, 20)) { std::vector<request_ptr> copy(held); held.clear(); std::thread t([copy]() mutable { for (size_t i = 0; i < copy.size(); ++i) { copy[i]->wait(); copy[i] = request_ptr(); } }); t.join(); std::fill(busy.begin(), busy.end(), 0); }
          vp::count("request_references");
      }
      wait_all(held.begin(), held.end()); for (size_t i = 0; i < held.size(); ++i) { for (int spin = 0; spin < 20000 && !held[i].unique(); ++spin) usleep(100); VP_CHECK(held[i].unique(), "refs-request", "a finished request is still held " << held[i]->get_reference_count() << " times"); }
      held.clear(); VP_EQ(f->get_request_nref(), (unsigned_type)0, "refs-request-file", "requests counted by the file after all are gone"); aligned_dealloc<4096>(buf); }
    ::unlink(name.c_str()); ctx.note(r.next()); vp::nontrivial(ctx.h);
}
// shared ownership kept in external memory
struct Shared { int id; int v; explicit Shared(int x) : id(tab_new()), v(x) { } ~Shared() { tab_gone(id); } };
typedef std::shared_ptr<Shared> SP; typedef external_shared_ptr<SP> XP;
struct IntLess { bool operator () (int a, int b) const { return a < b; } static int max_value() { return std::numeric_limits<int>::max(); } };
VP_SCENARIO(external_shared, 40, 600) {
    vp::leak_exempt();
    vp::Rng& r = ctx.rng; tab_reset(); vp::MonStat before = vp::monitor_stat();
    {
        typedef stxxl::vector<XP, 1, lru_pager<2>, 4096> V; V v; std::vector<int> m;
        typedef STACK_GENERATOR<XP, external, grow_shrink, 2, 4096>::result S; S s; std::vector<int> ms; typedef queue<XP, 4096> Q; Q q(2, 2); std::vector<int> mq; std::map<int, std::weak_ptr<Shared> > weak; std::map<int, long> holds; int serial = 0;
        stxxl::map<int, XP, IntLess, 4096, 4096> mp(4 * 4096, 4 * 4096); std::map<int, int> mm;
        std::vector<SP> inner; // references in internal memory
        for (size_t ops = r.range(200, 1500); ops > 0; --ops) {
            unsigned op = (unsigned)r(12); SP o;
            if (op < 6) { // wrap a new or an old object
                if (!inner.empty() && r.chance(1, 2)) o = inner[r(inner.size())]; else { o = SP(new Shared(++serial)); weak[serial] = o; holds[serial] = 0; if (r.chance(1, 5)) { inner.push_back(o); } }
                XP x(o), y(x), z; z = y; VP_CHECK(z == x && z.get() == o, "shared-content", "a copied wrapper"); holds[o->v]++;
                if (op < 2) { v.push_back(z); m.push_back(o->v); } else if (op < 3) { s.push(z); ms.push_back(o->v); } else if (op < 4) { q.push(z); mq.push_back(o->v); } else if (mm.count(o->v)) { z.unwrap(); holds[o->v]--; } else { mp[o->v] = z; mm[o->v] = o->v; }
            }
            else if (op == 6 && !m.empty()) { XP x = v.back(); VP_CHECK(x.get()->v == m.back(), "shared-content", "wrapper from a vector"); x.unwrap(); holds[m.back()]--; v.pop_back(); m.pop_back(); vp::count("unwrapped"); }
            else if (op == 7 && !ms.empty()) { XP x = s.top(); VP_CHECK(x.get()->v == ms.back(), "shared-content", "wrapper from a stack"); s.pop(); x.unwrap(); holds[ms.back()]--; ms.pop_back(); vp::count("unwrapped"); }
            else if (op == 8 && !mq.empty()) { XP x = q.front(); VP_CHECK(x.get()->v == mq.front(), "shared-content", "wrapper from a queue"); q.pop(); x.unwrap(); holds[mq.front()]--; mq.erase(mq.begin()); vp::count("unwrapped"); }
            else if (op == 9 && !mm.empty()) { std::map<int, int>::iterator i = mm.lower_bound((int)r(serial + 1)); if (i == mm.end()) i = mm.begin(); XP x = mp[i->first]; VP_CHECK(x.get()->v == i->second, "shared-content", "wrapper from a map"); x.unwrap(); holds[i->second]--; mp.erase(i->first); mm.erase(i); vp::count("unwrapped"); }
            else if (op == 10 && !inner.empty()) { size_t i = r(inner.size()); inner.erase(inner.begin() + i); }
            else if (!m.empty()) { size_t i = r(m.size()); const V& cv = v; XP x = cv[i]; SP g = x.get(); VP_CHECK(g->v == m[i] && tab_is(g->id), "shared-content", "object of element " << i); if (r.chance(1, 3)) { size_t j = r(m.size()); XP y = cv[j]; v[i] = y; v[j] = x; std::swap(m[i], m[j]); } }
            o.reset(); ctx.note(op); vp::count("shared_ops");
            if (r.chance(1, 40) || ops == 1) for (std::map<int, std::weak_ptr<Shared> >::iterator i = weak.begin(); i != weak.end(); ++i) { long e = holds[i->first]; for (size_t k = 0; k < inner.size(); ++k) if (inner[k]->v == i->first) e++; VP_EQ(i->second.use_count(), e, "shared-count", "references of object " << i->first); }
        }
        // give everything up
        while (!m.empty()) { XP x = v.back(); VP_EQ(x.get()->v, m.back(), "shared-content", "vector"); x.unwrap(); v.pop_back(); m.pop_back(); } while (!ms.empty()) { XP x = s.top(); s.pop(); VP_EQ(x.get()->v, ms.back(), "shared-content", "stack"); x.unwrap(); ms.pop_back(); } for (size_t i = 0; i < mq.size(); ++i) { XP x = q.front(); q.pop(); VP_EQ(x.get()->v, mq[i], "shared-content", "queue"); x.unwrap(); } for (std::map<int, int>::iterator i = mm.begin(); i != mm.end(); ++i) { XP x = mp[i->first]; VP_EQ(x.get()->v, i->second, "shared-content", "map"); x.unwrap(); }
        inner.clear(); VP_EQ(tab_size(), (size_t)0, "shared-not-destroyed", "objects alive after all were given up"); vp::count("objects", tab_dead.size());
    }
    VP_EQ((uint64_t)vp::monitor_stat().live_bytes, before.live_bytes, "shared-leak", "external bytes held"); vp::nontrivial(ctx.h);
}
