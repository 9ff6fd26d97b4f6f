// C24: the external memory held, observed by the allocation monitor and by the block manager's own counters.
#pragma once
#include "vp.h"
#include "vp_monitor.h"
#include "records.h"
#include <stxxl/bits/mng/block_manager.h>
#include <algorithm>
#include <memory>
#include <string>
#include <vector>

struct Held {
    uint64_t live, current, blocks, max0; std::string w;
    Held() { vp::MonStat m = vp::monitor_stat(); live = m.live_bytes; blocks = m.live_blocks; current = stxxl::block_manager::get_instance()->get_current_allocation(); }
    uint64_t bytes(const std::string& what) {
        stxxl::block_manager* bm = stxxl::block_manager::get_instance(); uint64_t h = vp::monitor_stat().live_bytes - live; VP_EQ((uint64_t)bm->get_current_allocation() - current, h, "allocation-counter", "get_current_allocation() " << what);
        VP_CHECK(bm->get_maximum_allocation() >= bm->get_current_allocation(), "allocation-counter", "the maximum allocation is below the current one " << what); vp::count("held_checks"); return h; }
    void exact(uint64_t expect, const std::string& what) { uint64_t h = bytes(what); VP_EQ(h, expect, "holds-exactly", "external bytes held " << what); if (expect) vp::count("exact_checks"); else vp::count("empty_checks"); }
    void atmost(uint64_t limit, const std::string& what) { uint64_t h = bytes(what); VP_CHECK(h <= limit, "holds-too-much", h << " external bytes held, at most " << limit << " expected " << what); vp::count("bound_checks"); }
    void atleast(uint64_t limit, const std::string& what) { uint64_t h = bytes(what); VP_CHECK(h >= limit, "holds-too-little", h << " external bytes held, at least " << limit << " expected " << what); }
    // everything is given back; the block manager can hand it out again
    void none(const std::string& what) { uint64_t h = bytes(what); VP_EQ(h, (uint64_t)0, "leak", "external bytes held " << what); VP_EQ(vp::monitor_stat().live_blocks, blocks, "leak", "external blocks held " << what); vp::count("returned_checks"); }
};
template <class T> struct VecStream { typedef T value_type; const std::vector<T>& v; size_t i; VecStream(const std::vector<T>& v_) : v(v_), i(0) { } bool empty() const { return i == v.size(); } const T& operator * () const { return v[i]; } const T* operator -> () const { return &v[i]; } VecStream& operator ++ () { ++i; return *this; } };
