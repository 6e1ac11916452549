edits = [('libamqpprox/amqpprox_maybesecuresocketadaptor.h', '''                result = 1 + result;

                recordReadUsage(result);
                return result;''', '''                recordReadUsage(result);
                return 1 + result;''')]
demo = r'''
#include <amqpprox_maybesecuresocketadaptor.h>
#include <cstdio>
using namespace Bloomberg::amqpprox;
using boost::system::error_code;
struct Io { struct Stream *s = nullptr; };
struct Tls {};
struct Timer {
    Timer(Io &) {}
    void cancel() {}
    int  expiry() { return 0; }
    void expires_at(int) {}
    template <typename D> void expires_after(D) {}
    template <typename H> void async_wait(H) {}
};
struct Stream {
    typedef int executor_type;
    std::function<void(error_code, size_t)> reader;
    Stream(Io &io, Tls &) { io.s = this; }
    Stream &next_layer() { return *this; }
    template <typename H> void async_handshake(int, H h) { h(error_code()); }
    template <typename B> size_t read_some(const B &b, error_code &ec) { ec = error_code(); return b.size() ? 1 : 0; }
    template <typename B, typename H> void async_read_some(const B &, H h) { reader = h; }
};
int main()
{
    Io   io;
    Tls  tls;
    auto a = std::make_shared<MaybeSecureSocketAdaptor<Stream, Timer, Io, Tls>>(io, tls, true);
    a->async_handshake(boost::asio::ssl::stream_base::client, [](error_code) {});
    a->setReadRateLimit(10);
    // two octets per notification: one read ahead, one read directly
    int total = 0;
    for (int i = 0; i < 100; ++i) {
        io.s->reader = nullptr;
        a->async_read_some(boost::asio::null_buffers(), [](error_code, size_t) {});
        if (!io.s->reader)
            break;
        io.s->reader(error_code(), 1);
        char       buf[2];
        error_code ec;
        total += a->read_some(boost::asio::buffer(buf, 2), ec);
    }
    // quota of the first, unclocked period and of the second
    if (total > 20) {
        printf("%d octets read within two periods of 10\n", total);
        return 1;
    }
    return 0;
}
'''
meta = {'property': 'P12', 'needs': 'a TLS connection with a data rate limit and many small records, so that the octet read ahead is a large part of the traffic',
        'what_it_breaks': 'octets read ahead on TLS connections are not counted, so that more than the limit is read'}
