// Bounded-exhaustive exploration of operation sequences on the real generated code,
// next to a reference model.  A World provides:
//   static int n_ops(); static std::string op_name(int);
//   void reset(); bool enabled(int op) /* model only */; void apply(int op) /* impl + model + checks */;
//   std::string state() /* canonical model state */; void finish() /* destroy all, final checks */;
#pragma once
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include <deque>
#include <unistd.h>

extern "C" {
void trk_reset();
uint32_t trk_born();
uint64_t trk_live();
uint32_t trk_errors(char *buf, size_t len);
}
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#endif

namespace mc {
inline std::vector<int> g_seq;
inline std::string (*g_name)(int) = nullptr;
inline const char *g_world = "?";
inline std::set<std::string> g_seen;
inline std::string seq_text()
{
    std::string r;
    for (int o : g_seq) {
        if (!r.empty())
            r += "; ";
        r += g_name ? g_name(o) : std::to_string(o);
    }
    return r;
}
inline bool g_failed = false;
// key = world + last op + kind
inline void fail(const std::string &kind, const std::string &msg)
{
    g_failed = true;
    std::string key = std::string(g_world) + "/" + (g_seq.empty() ? "-" : g_name(g_seq.back())) + "/" + kind;
    if (!g_seen.insert(key).second)
        return;
    if (g_seen.size() > 40)
        return;
    printf("VIOL\t%s\t%s\t%s\n", key.c_str(), msg.c_str(), seq_text().c_str());
    fflush(stdout);
}
inline void on_death()
{
    std::string key = std::string(g_world) + "/" + (g_seq.empty() ? "-" : g_name(g_seq.back())) + "/crash";
    printf("VIOL\t%s\tmemory error or abort (see stderr)\t%s\n", key.c_str(), seq_text().c_str());
    fflush(stdout);
}
inline void on_signal(int s)
{
    on_death();
    signal(s, SIG_DFL);
    raise(s);
}
inline void install()
{
    signal(SIGABRT, on_signal);
    signal(SIGSEGV, on_signal);
    signal(SIGILL, on_signal);
    signal(SIGBUS, on_signal);
    signal(SIGFPE, on_signal);
#if defined(__SANITIZE_ADDRESS__)
    __sanitizer_set_death_callback(on_death);
#endif
}
inline size_t heap_bytes()
{
#if defined(__SANITIZE_ADDRESS__)
    return __sanitizer_get_current_allocated_bytes();
#else
    return 0;
#endif
}
#define MC_CHECK(kind, cond, msg) \
    do { if (!(cond)) { std::string m_ = (msg); mc::fail(kind, m_); } } while (0)

struct Stats {
    uint64_t sequences = 0, steps = 0;
    std::unordered_set<uint64_t> states;
    std::vector<std::string> samples;
};

template <class W> struct Explorer {
    W w;
    Stats st;
    int shard = 0, nshards = 1;
    uint64_t visited[64];
    void run_seq(const std::vector<int> &seq)
    {
        g_seq.clear();
        g_failed = false;
        w.reset();
        size_t nv = 0;
        for (int o : seq) {
            if (!w.enabled(o)) {
                mc::fail("engine", "replay diverged: operation no longer enabled");
                break;
            }
            g_seq.push_back(o);
            w.apply(o);
            ++st.steps;
            if (g_failed) // implementation and model no longer agree: do not go on from here
                break;
            if (nv < 64) // recorded after finish(), which checks that the heap is balanced
                visited[nv++] = std::hash<std::string>()(w.state());
        }
        w.finish();
        for (size_t k = 0; k < nv; ++k)
            st.states.insert(visited[k]);
        ++st.sequences;
        if (st.sequences % 4099 == 7 && st.samples.size() < 6)
            st.samples.push_back(std::string(g_world) + ": " + seq_text());
    }
    // all enabled sequences up to depth (only maximal ones are executed: they contain the others)
    void dfs(int depth)
    {
        std::vector<int> seq;
        uint64_t cnt = 0;
        rec(seq, depth, cnt);
    }
    void rec(std::vector<int> &seq, int depth, uint64_t &cnt)
    {
        if ((int)seq.size() == depth) {
            run_seq(seq);
            return;
        }
        // enabledness depends on the model only: replay the model through the real world once per node
        std::vector<int> en;
        {
            w.model_replay(seq);
            for (int o = 0; o < W::n_ops(); ++o)
                if (w.enabled(o))
                    en.push_back(o);
        }
        if (en.empty()) {
            run_seq(seq);
            return;
        }
        for (int o : en) {
            if ((int)seq.size() == (depth > 1 ? 1 : 0)) {
                if ((int)(cnt++ % nshards) != shard)
                    continue;
            }
            seq.push_back(o);
            rec(seq, depth, cnt);
            seq.pop_back();
        }
    }
    // breadth first over canonical model states until closure: deep states by a shortest history
    void bfs(int max_states)
    {
        std::map<std::string, std::vector<int>> seen;
        std::deque<std::string> q;
        w.model_replay({});
        seen[w.state()] = {};
        q.push_back(w.state());
        uint64_t n = 0;
        bool closed = true;
        while (!q.empty()) {
            auto hist = seen[q.front()];
            q.pop_front();
            w.model_replay(hist);
            std::vector<int> en;
            for (int o = 0; o < W::n_ops(); ++o)
                if (w.enabled(o))
                    en.push_back(o);
            for (int o : en) {
                auto h = hist;
                h.push_back(o);
                if ((int)(n++ % nshards) == shard)
                    run_seq(h);
                w.model_replay(h);
                auto s = w.state();
                if (!seen.count(s)) {
                    if ((int)seen.size() >= max_states) {
                        closed = false;
                        continue;
                    }
                    seen[s] = h;
                    q.push_back(s);
                }
            }
        }
        printf("BFS\t%s\tstates=%zu\tclosed=%d\n", g_world, seen.size(), (int)closed);
    }
    void report()
    {
        for (auto &s : st.samples)
            printf("SAMPLE\t%s\n", s.c_str());
        for (auto &s : st.states)
            printf("STATE\t%s\t%llx\n", g_world, (unsigned long long)s);
        printf("STATS\t%s\tseq=%llu\tsteps=%llu\n", g_world, (unsigned long long)st.sequences,
               (unsigned long long)st.steps);
        fflush(stdout);
    }
};
template <class W> void explore(const char *name, int depth, int bfs_states, int shard, int nshards)
{
    g_world = name;
    g_name = [](int o) { return W::op_name(o); };
    {
        Explorer<W> e;
        e.shard = shard;
        e.nshards = nshards;
        e.dfs(depth);
        if (bfs_states > 0)
            e.bfs(bfs_states);
        e.report();
    }
}
} // namespace mc
