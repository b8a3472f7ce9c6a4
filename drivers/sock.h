// A scripted transport: an fr::Socket whose raw reads and writes follow a script.
#pragma once
#include "common.h"
#include <chrono>
#include "frnetlib/Socket.h"
#include "frnetlib/Sendable.h"

namespace vd
{
    // input items: D<hex> data segment, W would-block, T timeout, X end of stream, E error
    // output items: A<n> accept up to n bytes, W would-block, T timeout, E error; exhausted: accept everything
    struct Item { char k; Bytes d; size_t n = 0; };

    static inline std::vector<Item> parse_items(const std::string &s)
    {
        std::vector<Item> v;
        if(s == "-") return v;
        for(auto &w : split(s, ','))
        {
            Item it;
            it.k = w[0];
            if(it.k == 'D') it.d = unhex(w.substr(1));
            if(it.k == 'A') it.n = (size_t)atoll(w.c_str() + 1);
            v.push_back(it);
        }
        return v;
    }

    class ScriptSocket : public fr::Socket
    {
    public:
        std::vector<Item> in, out;
        size_t ip = 0, op = 0, ioff = 0;
        Bytes sent_bytes;          // everything the library handed over and the transport accepted
        size_t max_asked = 0;      // largest read asked for
        size_t total_read = 0;
        long long nreads = 0, nwrites = 0;
        bool is_open = true;
        bool blocking = true;
        int closes = 0;
        Status connect_status = Status::Success;
        int end_kind = 'X';        // what happens when the input script is exhausted

        ~ScriptSocket() override {}

        Status connect(const std::string &, const std::string &, std::chrono::seconds) override
        {
            is_open = connect_status == Status::Success;
            return connect_status;
        }
        Status set_blocking(bool b) override { blocking = b; return Status::Success; }
        bool get_blocking() const override { return blocking; }
        bool connected() const override { return is_open; }
        int32_t get_socket_descriptor() const override { return is_open ? 77 : -1; }
        void set_descriptor(void *d) override { is_open = d != nullptr; }
        void reconfigure_socket() override {}
        void close_socket() override { if(is_open) ++closes; is_open = false; }

        Status fail(char k)
        {
            switch(k)
            {
                case 'W': return Status::WouldBlock;
                case 'T': return Status::Timeout;
                case 'X': return Status::Disconnected;
                default: return Status::ReceiveError;
            }
        }

        Status receive_raw(void *data, size_t size, size_t &received) override
        {
            received = 0;
            maybe_turn();
            if(++nreads > 2000000) { Ev("Spin").emit(); _exit(87); }
            if(!is_open) return Status::ReceiveError;
            if(size > max_asked) max_asked = size;
            if(size == 0) return Status::Disconnected; // as recv(…, 0) == 0 is taken
            if(ip >= in.size()) return fail((char)end_kind);
            Item &it = in[ip];
            if(it.k != 'D')
            {
                if(it.k != 'X' && it.k != 'E') ++ip; // end of stream and errors persist
                return fail(it.k);
            }
            size_t n = std::min(size, it.d.size() - ioff);
            memcpy(data, it.d.data() + ioff, n);
            ioff += n;
            total_read += n;
            if(ioff >= it.d.size()) { ++ip; ioff = 0; }
            received = n;
            if(n == 0) return receive_raw(data, size, received);
            return Status::Success;
        }

        Status send_raw(const char *data, size_t size, size_t &sent) override
        {
            if(++nwrites > 2000000) { Ev("Spin").emit(); _exit(87); }
            if(!is_open) return Status::SendError;
            while(sent < size)
            {
                maybe_turn();
                if(op >= out.size())
                {
                    sent_bytes.append(data + sent, size - sent);
                    sent = size;
                    break;
                }
                Item &it = out[op];
                if(it.k == 'A')
                {
                    size_t n = std::min(it.n, size - sent);
                    sent_bytes.append(data + sent, n);
                    sent += n;
                    ++op;
                    continue;
                }
                if(it.k != 'E') ++op;
                return it.k == 'E' ? Status::SendError : fail(it.k);
            }
            return Status::Success;
        }
    };
}
