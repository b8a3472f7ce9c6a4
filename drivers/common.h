// Shared by every driver: script parsing, event recording, crash containment, allocation tracking.
#pragma once
#include <string>
#include <vector>
#include <map>
#include <functional>
#include <fstream>
#include <sstream>
#include <iostream>
#include <cstring>
#include <cstdlib>
#include <cstdint>
#include <new>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>

namespace vd
{
    typedef std::string Bytes;

    // ---- largest single allocation since the last reset; requests above the cap fail as on a small machine
    static thread_local size_t alloc_max = 0;
    static const size_t alloc_cap = size_t(256) << 20;
    static inline void alloc_reset() { alloc_max = 0; }

    static int trace_fd = -1;
    static thread_local bool mute = false;      // events are not recorded (a driver records its own instead)
    // several scenarios may take place at once (crew.cpp): the events of each carry its number, and turns change at them
    static thread_local int lane = -1;
    static thread_local const char *lane_kind = "";
    static void (*turn)() = nullptr;
    static inline void maybe_turn() { if(turn && lane >= 0) turn(); }

    class Ev
    {
    public:
        explicit Ev(const std::string &name) : out("{\"e\":\"" + (lane >= 0 && name == "Reset" ? "Open" : name) + "\"")
        {
            if(lane >= 0) i("ln", lane).s("drv", lane_kind);
        }
        Ev &i(const std::string &k, long long v) { out += ",\"" + k + "\":" + std::to_string(v); return *this; }
        Ev &t(const std::string &k, bool v) { out += ",\"" + k + "\":" + (v ? "true" : "false"); return *this; }
        Ev &s(const std::string &k, const std::string &v) { out += ",\"" + k + "\":" + quote(v); return *this; }
        Ev &b(const std::string &k, const Bytes &v) { out += ",\"" + k + "\":" + arr(v); return *this; }
        Ev &raw(const std::string &k, const std::string &v) { out += ",\"" + k + "\":" + v; return *this; }
        void emit()
        {
            if(mute) return;
            out += "}\n";
            const char *p = out.data();
            size_t n = out.size();
            while(n)
            {
                ssize_t w = ::syscall(1 /*write*/, trace_fd, p, n);
                if(w <= 0) _exit(99);
                p += w; n -= size_t(w);
            }
            maybe_turn();
        }
        static std::string arr(const Bytes &v)
        {
            std::string o = "[";
            for(size_t a = 0; a < v.size(); a++)
            {
                if(a) o += ',';
                o += std::to_string((unsigned)(unsigned char)v[a]);
            }
            return o + "]";
        }
        static std::string quote(const std::string &v)
        {
            std::string o = "\"";
            for(unsigned char c : v)
            {
                if(c == '"' || c == '\\') { o += '\\'; o += (char)c; }
                else if(c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
                else o += (char)c;
            }
            return o + "\"";
        }
    private:
        std::string out;
    };

    static inline Bytes unhex(const std::string &h)
    {
        Bytes r;
        if(h == "-") return r;
        auto v = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
        for(size_t a = 0; a + 1 < h.size(); a += 2) r.push_back((char)(v(h[a]) * 16 + v(h[a + 1])));
        return r;
    }

    struct Scenario
    {
        long long id = 0;
        std::map<std::string, std::string> params;
        std::vector<std::vector<std::string>> ops;
        long long pi(const std::string &k, long long def = 0) const
        {
            auto it = params.find(k);
            return it == params.end() ? def : atoll(it->second.c_str());
        }
        std::string ps(const std::string &k, const std::string &def = "") const
        {
            auto it = params.find(k);
            return it == params.end() ? def : it->second;
        }
    };

    static inline std::vector<std::string> split(const std::string &l, char c = ' ')
    {
        std::vector<std::string> r;
        std::stringstream ss(l);
        std::string w;
        while(std::getline(ss, w, c)) if(!w.empty()) r.push_back(w);
        return r;
    }

    static inline std::vector<Scenario> load(const char *path)
    {
        std::vector<Scenario> v;
        std::ifstream f(path);
        std::string l;
        while(std::getline(f, l))
        {
            if(l.empty() || l[0] == '#') continue;
            auto w = split(l);
            if(w[0] == "S")
            {
                Scenario s;
                s.id = atoll(w[1].c_str());
                for(size_t a = 2; a < w.size(); a++)
                {
                    auto p = w[a].find('=');
                    s.params[w[a].substr(0, p)] = w[a].substr(p + 1);
                }
                v.push_back(s);
            }
            else if(w[0] == "E") continue;
            else v.back().ops.push_back(w);
        }
        return v;
    }

    static inline void reset_event(const Scenario &s)
    {
        Ev e("Reset");
        e.i("sc", s.id);
        for(auto &p : s.params)
        {
            if(!p.second.empty() && (isdigit(p.second[0]) || (p.second[0] == '-' && p.second.size() > 1)) &&
               p.second.find_first_not_of("-0123456789") == std::string::npos && p.second.size() < 10)
                e.raw(p.first, p.second);
            else if(p.second.compare(0, 2, "x:") == 0)
                e.b(p.first, unhex(p.second.substr(2)));
            else
                e.s(p.first, p.second);
        }
        e.emit();
    }

    // Runs every scenario; a crash or hang is contained in a child process and recorded as an event.
    static inline int run_all(int argc, char **argv, const std::function<void(const Scenario &)> &body,
                              const std::function<void(const Scenario &)> &reset_event = vd::reset_event,
                              int cpu_limit_s = 10, int wall_limit_s = 40)
    {
        if(argc < 3) return 2;
        auto scen = load(argv[1]);
        trace_fd = ::open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
        if(trace_fd < 0) return 3;
        int hi = ::fcntl(trace_fd, F_DUPFD, 900);
        if(hi >= 0) { ::close(trace_fd); trace_fd = hi; }
        auto *cur = (volatile long *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        size_t start = 0;
        int bad = 0;
        while(start < scen.size())
        {
            if(bad >= 6) // enough evidence; the remaining scenarios are not run
            {
                for(size_t a = start; a < scen.size(); a++) reset_event(scen[a]);
                break;
            }
            *cur = (long)start;
            pid_t pid = fork();
            if(pid == 0)
            {
                for(size_t a = start; a < scen.size(); a++)
                {
                    *cur = (long)a;
                    struct itimerval tv = {};
                    tv.it_value.tv_sec = cpu_limit_s;
                    setitimer(ITIMER_PROF, &tv, nullptr);
                    tv.it_value.tv_sec = wall_limit_s;
                    setitimer(ITIMER_REAL, &tv, nullptr);
                    reset_event(scen[a]);
                    try
                    {
                        body(scen[a]);
                    }
                    catch(const std::exception &ex)
                    {
                        Ev("Escaped").s("what", ex.what()).emit();
                    }
                    catch(...)
                    {
                        Ev("Escaped").s("what", "?").emit();
                    }
                }
                _exit(0);
            }
            int st = 0;
            while(waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
            if(WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
            if(WIFEXITED(st) && WEXITSTATUS(st) == 99) return 4;
            std::string why = WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st));
            bool hang = WIFSIGNALED(st) && (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGPROF);
            // terminate a possibly unfinished line
            Ev(hang ? "Hang" : "Crash").s("why", why).emit();
            bad += hang ? 3 : 1;
            start = (size_t)*cur + 1;
        }
        return 0;
    }
}

void *operator new(size_t n)
{
    if(n > vd::alloc_max) vd::alloc_max = n;
    if(n > vd::alloc_cap) throw std::bad_alloc();
    void *p = malloc(n ? n : 1);
    if(!p) throw std::bad_alloc();
    return p;
}
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
