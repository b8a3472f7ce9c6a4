// What carries the bytes of a framed exchange: a scripted fr::Socket (t=s), a TcpSocket on the simulated kernel (t=k) or an
// SSLSocket on it (t=t), at whose other end an independent TLS endpoint turns the script's data into records and back.
// The script is the same for all: input items D<hex> W T X E, output items A<n> W T E; the kernel may also be interrupted (I).
// On the kernel a descriptor is blocking or not: W and T both stand for the outcome it has when there is nothing to do.
#pragma once
#include "simkern.h"
#include "sock.h"
#include <memory>
#include <frnetlib/TcpSocket.h>
#include <frnetlib/SSLSocket.h>
#include <frnetlib/SSLContext.h>
#include <mbedtls/ssl.h>

namespace vd
{
    static std::string cert_dir;

    struct TlsEnd
    {
        mbedtls_ssl_context ssl;
        Bytes inq, outq, got;
        bool hs = false, dead = false;
        static int rng(void *, unsigned char *o, size_t n)
        {
            static unsigned long long s = 88172645463325252ull;
            for(size_t a = 0; a < n; a++) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; o[a] = (unsigned char)(s >> 11); }
            return 0;
        }
        struct Conf
        {
            mbedtls_ssl_config conf;
            mbedtls_x509_crt crt;
            mbedtls_pk_context key;
            Conf(bool server)
            {
                mbedtls_ssl_config_init(&conf);
                mbedtls_x509_crt_init(&crt);
                mbedtls_pk_init(&key);
                mbedtls_ssl_config_defaults(&conf, server ? MBEDTLS_SSL_IS_SERVER : MBEDTLS_SSL_IS_CLIENT, MBEDTLS_SSL_TRANSPORT_STREAM, MBEDTLS_SSL_PRESET_DEFAULT);
                mbedtls_ssl_conf_rng(&conf, rng, nullptr);
                mbedtls_ssl_conf_authmode(&conf, MBEDTLS_SSL_VERIFY_NONE);
                if(server && (mbedtls_x509_crt_parse_file(&crt, (cert_dir + "good.pem").c_str()) != 0 ||
                   mbedtls_pk_parse_keyfile(&key, (cert_dir + "key.pem").c_str(), nullptr) != 0 || mbedtls_ssl_conf_own_cert(&conf, &crt, &key) != 0))
                    _exit(99);
            }
        };
        static mbedtls_ssl_config *config(bool server)
        {
            static Conf *c[2] = {};
            if(!c[server]) c[server] = new Conf(server);
            return &c[server]->conf;
        }
        explicit TlsEnd(bool server)
        {
            bool was = vk::active;
            vk::active = false;
            mbedtls_ssl_init(&ssl);
            mbedtls_ssl_setup(&ssl, config(server));
            vk::active = was;
            mbedtls_ssl_set_bio(&ssl, this, [](void *c, const unsigned char *b, size_t n) -> int {
                ((TlsEnd *)c)->outq.append((const char *)b, n);
                return (int)n;
            }, [](void *c, unsigned char *b, size_t n) -> int {
                auto *p = (TlsEnd *)c;
                size_t k = std::min(n, p->inq.size());
                if(!k) return MBEDTLS_ERR_SSL_WANT_READ;
                memcpy(b, p->inq.data(), k);
                p->inq.erase(0, k);
                return (int)k;
            }, nullptr);
        }
        ~TlsEnd() { mbedtls_ssl_free(&ssl); }
        // what can be done now: the handshake, then the application data which has arrived
        void pump()
        {
            if(dead) return;
            if(!hs)
            {
                int r = mbedtls_ssl_handshake(&ssl);
                if(r == 0) hs = true;
                else
                {
                    dead = r != MBEDTLS_ERR_SSL_WANT_READ && r != MBEDTLS_ERR_SSL_WANT_WRITE;
                    return;
                }
            }
            for(;;)
            {
                unsigned char b[4096];
                int r = mbedtls_ssl_read(&ssl, b, sizeof b);
                if(r <= 0)
                {
                    dead = r != MBEDTLS_ERR_SSL_WANT_READ && r != MBEDTLS_ERR_SSL_WANT_WRITE;
                    return;
                }
                got.append((const char *)b, (size_t)r);
            }
        }
        void put(const Bytes &d)
        {
            size_t off = 0;
            while(off < d.size())
            {
                int w = mbedtls_ssl_write(&ssl, (const unsigned char *)d.data() + off, d.size() - off);
                if(w <= 0) { dead = true; return; }
                off += (size_t)w;
            }
        }
    };

    static size_t asked = 0;            // how much the reading call in progress asked for
    template<typename B> struct Seen : B
    {
        using B::B;
        size_t total_read = 0;
        fr::Socket::Status receive_raw(void *data, size_t size, size_t &received) override
        {
            asked = size;
            auto st = B::receive_raw(data, size, received);
            total_read += received;
            return st;
        }
        void addr(const std::string &a) { this->set_remote_address(a); }
    };

    struct Carrier
    {
        char kind;
        std::vector<Item> in, out;
        size_t ip = 0, op = 0, ioff = 0;
        bool nb;
        size_t cut = 0;                 // TLS: deliver at most so many bytes of a record at once (0: all)
        Bytes sent_bytes;
        long long n = 0;
        int fd = -1;
        std::unique_ptr<TlsEnd> end;
        std::unique_ptr<Seen<fr::TcpSocket>> tcp;
        std::unique_ptr<Seen<fr::SSLSocket>> tls;
        std::function<void(char, const Bytes &)> on_read, on_write;     // as the kernel sees them (TLS: the data of the records)
        static Carrier *&self() { static Carrier *c = nullptr; return c; }

        struct On
        {
            bool m;
            On() : m(mute) { vk::active = true; mute = true; vk::calls = 0; }
            ~On() { vk::active = false; mute = m; }
        };
        void tick() { vk::calls = 0; if(++n > 2000000) { mute = false; Ev("Spin").emit(); _exit(87); } }
        void say(std::function<void(char, const Bytes &)> &f, char k, const Bytes &b)
        {
            if(!f) return;
            bool m = mute;
            mute = false;
            f(k, b);
            mute = m;
        }
        char outcome(char k) const { return k == 'W' || k == 'T' ? (vk::tab[fd].nb ? 'W' : 'T') : k; }
        // the next piece of input, or the kind of failure
        char take(size_t max, Bytes &b)
        {
            while(ip < in.size() && in[ip].k == 'D' && in[ip].d.size() == ioff) { ++ip; ioff = 0; }
            if(ip >= in.size()) return 'X';
            auto &it = in[ip];
            if(it.k == 'D')
            {
                size_t k = std::min(max, it.d.size() - ioff);
                b = it.d.substr(ioff, k);
                if(!vk::peeking) ioff += k;
                return 'D';
            }
            if(it.k != 'X' && it.k != 'E') ++ip;
            return it.k;
        }
        static ssize_t rx(int f, void *d, size_t n)
        {
            auto *c = self();
            if(!c || f != c->fd) return -EBADF;
            c->tick();
            if(c->end)
            {
                c->end->pump();
                if(c->end->outq.empty() && c->end->hs)
                {
                    Bytes b;
                    char k = c->outcome(c->take(std::min<size_t>(asked ? asked : 1, 4096), b));
                    if(k != 'I') c->say(c->on_read, k, b);
                    if(k != 'D') return k == 'X' ? 0 : k == 'E' ? -ECONNRESET : k == 'I' ? -EINTR : -EAGAIN;
                    c->end->put(b);
                }
                auto &q = c->end->outq;
                size_t k = std::min(n, q.size());
                if(c->cut && c->end->hs) k = std::min(k, c->cut);
                if(!k) { mute = false; Ev("Stuck").emit(); _exit(88); }
                memcpy(d, q.data(), k);
                if(!vk::peeking) q.erase(0, k);
                return (ssize_t)k;
            }
            if(n == 0) return 0;
            Bytes b;
            char k = c->outcome(c->take(n, b));
            if(k != 'I' && !vk::peeking) c->say(c->on_read, k, b);
            if(k == 'D') { memcpy(d, b.data(), b.size()); return (ssize_t)b.size(); }
            return k == 'X' ? 0 : k == 'E' ? -ECONNRESET : k == 'I' ? -EINTR : -EAGAIN;
        }
        static ssize_t tx(int f, const void *d, size_t n)
        {
            auto *c = self();
            if(!c || f != c->fd) return -EBADF;
            c->tick();
            size_t k = n;
            if((!c->end || c->end->hs) && c->op < c->out.size())
            {
                auto &it = c->out[c->op];
                if(it.k != 'E') ++c->op;
                if(it.k == 'I') return -EINTR;
                if(it.k != 'A')
                {
                    char o = c->outcome(it.k);
                    c->say(c->on_write, o, "");
                    return o == 'E' || o == 'X' ? -EPIPE : -EAGAIN;
                }
                k = std::min(n, it.n);
            }
            Bytes b((const char *)d, k);
            if(c->end)
            {
                c->end->inq += b;
                c->end->pump();
                b.swap(c->end->got);
                c->end->got.clear();
            }
            c->sent_bytes += b;
            if(!b.empty()) c->say(c->on_write, 'D', b);
            return (ssize_t)k;
        }

        Carrier(char kind_, std::vector<Item> i, std::vector<Item> o, bool nb_, size_t cut_) : kind(kind_), in(i), out(o), nb(nb_), cut(cut_)
        {
            self() = this;
            vk::tab.clear();
            vk::lists.clear();
            vk::next_list = 1;
            vk::q.clear();
            vk::cands = "4";
            vk::rx_hook = rx;
            vk::tx_hook = tx;
            vk::notify = [](char w, int f) { if(w == 'c') self()->fd = f; };
            if(kind == 'k')
            {
                tcp.reset(new Seen<fr::TcpSocket>());
                On on;
                fd = vk::lowest();
                vk::tab[fd] = vk::FD();
                vk::tab[fd].est = true;
                tcp->set_descriptor(&fd);
                tcp->set_blocking(!nb);
            }
            else
            {
                static std::shared_ptr<fr::SSLContext> ctx(new fr::SSLContext());
                tls.reset(new Seen<fr::SSLSocket>(ctx));
                end.reset(new TlsEnd(true));
                tls->verify_certificates(false);
                std::vector<Item> none;
                none.swap(in);
                On on;
                tls->connect("host.test", "443", std::chrono::seconds(0));
                if(nb) tls->set_blocking(false);
                none.swap(in);
                op = ip = 0;
                sent_bytes.clear();
            }
        }
        ~Carrier()
        {
            { On on; tcp.reset(); tls.reset(); }
            self() = nullptr;
        }
        fr::Socket &sock() { return tcp ? static_cast<fr::Socket &>(*tcp) : *tls; }
        size_t total_read() const { return tcp ? tcp->total_read : tls->total_read; }
        void addr(const std::string &a) { if(tcp) tcp->addr(a); else tls->addr(a); }
    };
}
