// Several objects at work at once (C35): the scenarios of other drivers, each in a thread of its own.
// params: mode=turns|free, sched=<digits>, seed=N
//   turns: one thread at a time; at every event and every transfer of data the next of sched goes on (then a random one)
//   free:  all at once, as the machine has it (built with the thread sanitizer, a data race ends the process)
// ops: lane N DRIVER k=v... ; N <op of that driver>
#include <algorithm>
#include <atomic>
#include <condition_variable>
#include <deque>
#include <limits>
#include <list>
#include <memory>
#include <mutex>
#include <random>
#include <set>
#include <thread>
#include <unordered_map>
#include <chrono>
#include "carrier.h"
#include <frnetlib/Packet.h>
#include <frnetlib/Packetable.h>
#include <frnetlib/WebFrame.h>
#include <frnetlib/HttpRequest.h>
#include <frnetlib/HttpResponse.h>
#include <frnetlib/URL.h>
#include <frnetlib/NetworkEncoding.h>
#include <frnetlib/TcpSocket.h>
#include <frnetlib/TcpListener.h>
#include <frnetlib/WebSocket.h>
#include <frnetlib/Sha1.h>
#include <frnetlib/Base64.h>
#include <mbedtls/sha1.h>
#include <mbedtls/base64.h>

namespace vd
{
    struct Kind { std::function<void(const Scenario &)> body, reset; };
    static std::map<std::string, Kind> kinds;
    static std::string adding;
    static int capture(int, char **, const std::function<void(const Scenario &)> &body,
                       const std::function<void(const Scenario &)> &reset = vd::reset_event, int = 0, int = 0)
    {
        kinds[adding] = {body, reset};
        return 0;
    }
}
#define run_all vd::capture
#define main lane_main
namespace l_packet {
#include "packet.cpp"
}
namespace l_stream {
#include "stream.cpp"
}
namespace l_http {
#include "http.cpp"
}
namespace l_url {
#include "url.cpp"
}
namespace l_api {
#include "api.cpp"
}
namespace l_ws {
#include "ws.cpp"
}
#undef run_all
#undef main
using namespace vd;

struct Crew
{
    std::mutex m;
    std::condition_variable cv;
    int who = -1;
    std::set<int> alive;
    std::string sched;
    size_t at = 0;
    unsigned long long x = 1;
    int pick()
    {
        if(at < sched.size())
        {
            int n = sched[at++] - '0';
            if(alive.count(n)) return n;
        }
        x ^= x << 13; x ^= x >> 7; x ^= x << 17;
        auto it = alive.begin();
        std::advance(it, (long)(x % alive.size()));
        return *it;
    }
    void go(std::unique_lock<std::mutex> &l, int me)
    {
        who = pick();
        if(who == me) return;
        cv.notify_all();
        cv.wait(l, [&] { return who == me; });
    }
};
static Crew *crew = nullptr;

static void body(const Scenario &s)
{
    std::map<int, Scenario> lanes;
    std::map<int, std::string> drv;
    for(auto &o : s.ops)
    {
        if(o[0] == "lane")
        {
            int n = atoi(o[1].c_str());
            drv[n] = o[2];
            lanes[n].id = n;
            for(size_t a = 3; a < o.size(); a++)
            {
                auto p = o[a].find('=');
                lanes[n].params[o[a].substr(0, p)] = o[a].substr(p + 1);
            }
        }
        else lanes[atoi(o[0].c_str())].ops.push_back(std::vector<std::string>(o.begin() + 1, o.end()));
    }
    Crew c;
    bool turns = s.ps("mode") == "turns";
    c.sched = s.ps("sched");
    c.x = (unsigned long long)s.pi("seed", 1) * 2654435761u + 88172645463325252ull;
    crew = &c;
    turn = turns ? [] {
        std::unique_lock<std::mutex> l(crew->m);
        crew->go(l, lane);
    } : (void (*)())nullptr;
    std::atomic<int> ready(0);
    std::vector<std::thread> ts;
    for(auto &p : lanes) c.alive.insert(p.first);
    for(auto &p : lanes)
    {
        int n = p.first;
        const Scenario *sc = &p.second;
        const std::string *d = &drv[n];
        ts.emplace_back([&c, &ready, &lanes, n, sc, d, turns] {
            lane = n;
            lane_kind = d->c_str();
            if(turns)
            {
                std::unique_lock<std::mutex> l(c.m);
                c.cv.wait(l, [&] { return c.who == n; });
            }
            else
            {
                ready.fetch_add(1, std::memory_order_relaxed);
                while(ready.load(std::memory_order_relaxed) < (int)lanes.size()) {}
            }
            auto &k = kinds.at(*d);
            try
            {
                k.reset(*sc);
                k.body(*sc);
            }
            catch(const std::exception &ex) { mute = false; Ev("Escaped").s("what", ex.what()).emit(); }
            if(turns)
            {
                std::unique_lock<std::mutex> l(c.m);
                c.alive.erase(n);
                if(!c.alive.empty()) { c.who = c.pick(); c.cv.notify_all(); }
            }
        });
    }
    if(turns)
    {
        std::unique_lock<std::mutex> l(c.m);
        c.who = c.pick();
        c.cv.notify_all();
    }
    for(auto &t : ts) t.join();
    turn = nullptr;
}

int main(int argc, char **argv)
{
    for(auto &p : std::vector<std::pair<std::string, int (*)(int, char **)>>{{"packet", l_packet::lane_main}, {"stream", l_stream::lane_main},
        {"http", l_http::lane_main}, {"url", l_url::lane_main}, {"api", l_api::lane_main}, {"ws", l_ws::lane_main}})
    {
        adding = p.first;
        p.second(argc, argv);
    }
    return run_all(argc, argv, body, [](const Scenario &s) { Ev("Reset").i("sc", s.id).emit(); });
}
