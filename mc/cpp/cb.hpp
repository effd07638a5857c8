// P06 world: callbacks implemented in C++, held, called, moved between threads and dropped by Rust.
#include "explore.hpp"
#include "Hub.hpp"
#include "Keeper.hpp"
#include "Obj.hpp"
#include "Cb.hpp"
#include <memory>
#include <set>
#include <optional>
#include <thread>
#include <variant>
using namespace fg;
extern "C" int64_t obj_live();

struct Rec {
    std::vector<std::string> log;
    std::set<int> alive;
    int destroyed = 0;
    bool wrong_thread = false;
};
static Rec REC;
struct Act { int what = 0; };   // what a callback does inside its next note()
static Act ARM[64];
static int next_id, nest;
static std::thread::id expect_thread_not, main_thread;
static bool expect_other_thread;
struct W;
static void perform_nested(int what);

class Impl : public Cb {
public:
    int id, sum = 0;
    // memory of the object itself, to be sure that it is really released and not read afterwards
    std::unique_ptr<int> own;
    explicit Impl(int id) : id(id), own(new int(id)) { REC.alive.insert(id); }
    ~Impl() noexcept override
    {
        if (REC.alive.erase(id) != 1)
            mc::fail("destroyed_twice", "callback " + std::to_string(id) + " destroyed again");
        ++REC.destroyed;
        REC.log.push_back("~" + std::to_string(id) + (std::this_thread::get_id() == main_thread ? "" : "@t"));
    }
    void put(const std::string &s) const { REC.log.push_back(std::to_string(*own) + "." + s + (std::this_thread::get_id() == main_thread ? "" : "@t")); }
    void note(int32_t a, bool b, std::string_view s) const noexcept override
    {
        put("note(" + std::to_string(a) + "," + (b ? "1" : "0") + "," + std::string(s) + ")");
        int w = ARM[id].what;
        if (w && nest == 0) {
            ++nest;
            ARM[id].what = 0;
            perform_nested(w);
            --nest;
            put("back");
        }
    }
    void noArgs() const noexcept override { put("noArgs()"); }
    int64_t bump(int64_t x, uint8_t y) noexcept override
    {
        put("bump(" + std::to_string(x) + "," + std::to_string(y) + ")");
        sum = (sum + 1) % 3;
        return x * 10 + y + sum;
    }
    std::optional<int32_t> ask(bool some) const noexcept override
    {
        put(std::string("ask(") + (some ? "1" : "0") + ")");
        if (some)
            return *own + 100;
        return {};
    }
    Obj swapObj(Obj o) const noexcept override
    {
        put("swapObj(" + std::to_string(o.v()) + ")");
        return Obj(o.v() + 1000);
    }
    void seeObj(ObjRef o) const noexcept override { put("seeObj(" + std::to_string(o.v()) + ")"); }
    Obj keepObj(Obj o) const noexcept override { put("keepObj(" + std::to_string(o.v()) + ")"); return o; }
    void text(RustString s) const noexcept override { put("text(" + s.to_std_string() + ")"); }
};

// model
struct MCb { int id = 0; int sum = 0; int arm = 0; };
struct OpD { std::string name; int k, i, x; };
enum { PUT, ONCE, NOTE, NOARGS, BUMP, ASK, SWAPOBJ, SEEOBJ, KEEPOBJ, TEXT, DROP, DROP_T, DROP_P, CALL_T, GIVE_T, SWAP, KEEP, KEEPER_CALL, KEEPER_DEL, KEEPER_MOVE, TAKE_BACK, REFCALL, ARMED, PUT_T, BOTH };
static std::vector<OpD> make_ops()
{
    std::vector<OpD> r;
    auto two = [&](const char *n, int k, int x = 0) { for (int i = 0; i < 2; ++i) r.push_back({ std::string(n) + "(" + std::to_string(i) + ")", k, i, x }); };
    auto one = [&](const char *n, int k, int x = 0) { r.push_back({ n, k, 0, x }); };
    two("register", PUT);
    two("note", NOTE);
    two("bump", BUMP);
    two("drop", DROP);
    two("drop_on_thread", DROP_T);
    two("drop_while_unwinding", DROP_P);
    two("call_on_thread", CALL_T);
    two("arm_nested_call_of_other", ARMED, 1);
    two("arm_nested_drop_of_other", ARMED, 2);
    two("arm_nested_register_other", ARMED, 3);
    one("call_both_in_order", BOTH);
    one("swap_in_rust", SWAP);
    one("call_twice_and_drop", ONCE);
    one("register_then_call_and_drop_on_thread", GIVE_T);
    one("store_in_object", KEEP);
    one("call_through_object", KEEPER_CALL);
    one("delete_object", KEEPER_DEL);
    one("move_from_object_to_slot", TAKE_BACK);
    one("call_by_reference", REFCALL);
    one("no_args", NOARGS);
    one("ask_none", ASK, 0);
    one("ask_some", ASK, 1);
    one("object_by_value_and_back", SWAPOBJ);
    one("object_by_reference", SEEOBJ);
    one("object_through", KEEPOBJ);
    one("string_by_value", TEXT);
    return r;
}
static std::vector<OpD> OPS = make_ops();

struct W {
    MCb slot[2], kept;
    bool keeper = false; // keeper object exists
    std::unique_ptr<Keeper> real_keeper;
    bool impl = false;
    int ids = 0, dead = 0;
    size_t heap0 = 0;
    static int n_ops() { return (int)OPS.size(); }
    static std::string op_name(int o) { return OPS[o].name; }
    void clear()
    {
        slot[0] = slot[1] = kept = MCb();
        keeper = false;
        ids = 0;
        dead = 0;
    }
    static W *cur;
    void reset()
    {
        clear();
        cur = this;
        impl = true;
        real_keeper.reset();
        REC = Rec();
        next_id = 0;
        nest = 0;
        main_thread = std::this_thread::get_id();
        for (auto &a : ARM) a = Act();
    }
    void model_replay(const std::vector<int> &s)
    {
        clear();
        impl = false;
        for (int o : s) apply(o);
    }
    bool enabled(int o)
    {
        auto &d = OPS[o];
        if (ids > 50) return false;
        switch (d.k) {
        case PUT: case ONCE: case GIVE_T: case REFCALL: case DROP: case DROP_T: case DROP_P: case SWAP: return true;
        case ARMED: return slot[d.i].id != 0 && slot[d.i].arm == 0;
        case NOTE: case BUMP: case CALL_T: return slot[d.i].id != 0;
        case BOTH: return slot[0].id != 0 && slot[1].id != 0;
        case KEEP: return !keeper;
        case KEEPER_CALL: case KEEPER_DEL: return keeper;
        case TAKE_BACK: return keeper && kept.id != 0;
        default: return slot[0].id != 0;
        }
    }
    std::vector<std::string> want;
    void log(const MCb &c, const std::string &s, bool t = false) { want.push_back(std::to_string(c.id) + "." + s + (t ? "@t" : "")); }
    void kill(MCb &c, bool t = false)
    {
        if (c.id) {
            want.push_back("~" + std::to_string(c.id) + (t ? "@t" : ""));
            ++dead;
            c = MCb();
        }
    }
    MCb fresh() { MCb c; c.id = ++ids; return c; }
    static std::unique_ptr<Cb> mk() { int id = ++next_id; return std::unique_ptr<Cb>(new Impl(id)); }
    // model of one note() call, including what the armed callback does
    void m_note(int which, int a, bool t = false, int depth = 0)
    {
        MCb &c = slot[which];
        log(c, "note(" + std::to_string(a) + "," + (a % 2 ? "1" : "0") + "," + std::string((size_t)(a % 5), 'x') + ")", t);
        int w = c.arm;
        if (w && depth == 0) {
            c.arm = 0;
            MCb &o = slot[1 - which];
            int id = c.id;
            if (w == 1 && o.id) m_note(1 - which, 30 + (1 - which), t, 1);
            if (w == 2) kill(o, t);
            if (w == 3) { MCb n = fresh(); kill(o, t); o = n; }
            MCb tmp; tmp.id = id;
            log(tmp, "back", t);
        }
    }
    void i_ret(const char *what, long got, long exp)
    {
        MC_CHECK(what, got == exp, std::string(what) + ": Rust received " + std::to_string(got) + ", the callback returned " + std::to_string(exp));
    }
    void apply(int o)
    {
        auto &d = OPS[o];
        want.clear();
        if (impl) REC.log.clear();
        MCb &c = slot[d.i];
        switch (d.k) {
        case PUT: {
            MCb n = fresh();
            kill(c);
            c = n;
            if (impl) Hub::put((uint8_t)d.i, mk());
            break;
        }
        case NOTE:
            m_note(d.i, 10 + d.i);
            if (impl) { Hub::note((uint8_t)d.i, 10 + d.i); }
            break;
        case BUMP:
            c.sum = (c.sum + 1) % 3;
            log(c, "bump(" + std::to_string(5 + d.i) + ",200)");
            if (impl) i_ret("bump", Hub::bump((uint8_t)d.i, 5 + d.i), (5 + d.i) * 10 + 200 + c.sum);
            break;
        case DROP:
            kill(c);
            if (impl) Hub::drop_it((uint8_t)d.i);
            break;
        case DROP_P:
            kill(c);
            if (impl) Hub::drop_unwinding((uint8_t)d.i);
            break;
        case DROP_T:
            kill(c, true);
            if (impl) Hub::drop_on_thread((uint8_t)d.i);
            break;
        case CALL_T:
            m_note(d.i, 20 + d.i, true);
            if (impl) Hub::note_on_thread((uint8_t)d.i, 20 + d.i);
            break;
        case ARMED:
            c.arm = d.x;
            if (impl) ARM[c.id].what = d.x + 10 * (1 - d.i);
            break;
        case BOTH: {
            // both in one Rust call, alternating
            MCb &a = slot[0], &b = slot[1];
            log(a, "noArgs()"); log(b, "noArgs()"); log(a, "text(one)"); log(b, "text(two)"); log(b, "noArgs()"); log(a, "noArgs()");
            if (impl) Hub::both();
            break;
        }
        case SWAP:
            std::swap(slot[0], slot[1]);
            if (impl) {
                Hub::swap_them();
                for (int i = 0; i < 2; ++i) // nested actions are meant for the other slot
                    if (slot[i].id && slot[i].arm) ARM[slot[i].id].what = slot[i].arm + 10 * (1 - i);
            }
            break;
        case ONCE: {
            MCb n = fresh();
            log(n, "note(3,1,xxx)");
            log(n, "note(4,0,xxxx)");
            kill(n);
            if (impl) Hub::once(mk());
            break;
        }
        case GIVE_T: {
            MCb n = fresh();
            log(n, "note(7,1,xx)", true);
            kill(n, true);
            if (impl) Hub::give_to_thread(mk());
            break;
        }
        case KEEP:
            keeper = true;
            kept = fresh();
            if (impl) real_keeper.reset(new Keeper(mk()));
            break;
        case KEEPER_CALL:
            if (kept.id) { kept.sum = (kept.sum + 1) % 3; log(kept, "bump(9,1)"); }
            if (impl) i_ret("keeper_bump", real_keeper->bump(), kept.id ? 91 + kept.sum : -1);
            break;
        case KEEPER_DEL:
            keeper = false;
            kill(kept);
            if (impl) real_keeper.reset();
            break;
        case TAKE_BACK:
            kill(slot[1]);
            slot[1] = kept;
            kept = MCb();
            if (impl) real_keeper->into_slot(1);
            break;
        case REFCALL: {
            MCb n = fresh();
            log(n, "note(8,0,xxx)");
            if (impl) {
                Impl local(++next_id);
                auto cs = Cb::reference_to_c_interface(local);
                Hub::by_ref(&cs);
            }
            kill(n);
            break;
        }
        case NOARGS: log(c, "noArgs()"); if (impl) Hub::no_args(0); break;
        case ASK:
            log(c, std::string("ask(") + (d.x ? "1" : "0") + ")");
            if (impl) i_ret("ask", Hub::ask(0, d.x != 0), d.x ? c.id + 100 : -1);
            break;
        case SWAPOBJ:
            log(c, "swapObj(6)");
            if (impl) i_ret("swapObj", Hub::swap_obj(0, 6), 1006);
            break;
        case SEEOBJ: log(c, "seeObj(17)"); if (impl) Hub::see_obj(0, 17); break;
        case KEEPOBJ: log(c, "keepObj(18)"); if (impl) i_ret("keepObj", Hub::keep_obj(0, 18), 18); break;
        case TEXT: log(c, "text(h\xc3\xa9)"); if (impl) Hub::text(0); break;
        }
        if (impl) {
            auto join = [](const std::vector<std::string> &v) { std::string r; for (auto &x : v) r += x + " "; return r; };
            MC_CHECK("calls", REC.log == want, "the callbacks saw: " + join(REC.log) + "; expected: " + join(want));
            std::set<int> live;
            for (auto *m : { &slot[0], &slot[1], &kept }) if (m->id) live.insert(m->id);
            MC_CHECK("alive", REC.alive == live, "callback objects alive: " + std::to_string(REC.alive.size()) + ", held by Rust: " + std::to_string(live.size()));
            MC_CHECK("objects", obj_live() == 0, "objects handed to callbacks still alive: " + std::to_string(obj_live()));
        }
    }
    std::string state()
    {
        auto f = [](const MCb &c) { return c.id ? std::to_string(c.sum) + "/" + std::to_string(c.arm) : std::string("-"); };
        return f(slot[0]) + "," + f(slot[1]) + "," + (keeper ? f(kept) : "x");
    }
    void finish()
    {
        real_keeper.reset();
        Hub::drop_it(0);
        Hub::drop_it(1);
        MC_CHECK("leak", REC.alive.empty(), std::to_string(REC.alive.size()) + " callback objects never destroyed");
        MC_CHECK("objects", obj_live() == 0, "objects leaked: " + std::to_string(obj_live()));
    }
};
W *W::cur;
static void perform_nested(int what)
{
    int other = what / 10;
    switch (what % 10) {
    case 1: if (W::cur) Hub::note_if((uint8_t)other, 30 + other); break;
    case 2: Hub::drop_it((uint8_t)other); break;
    case 3: Hub::put((uint8_t)other, W::mk()); break;
    }
}
int main(int argc, char **argv)
{
    mc::install();
    // args: depth bfs shard nshards
    mc::explore<W>("callbacks", atoi(argv[1]), atoi(argv[2]), atoi(argv[3]), atoi(argv[4]));
    return 0;
}
