edits = [('libamqpprox/amqpprox_connector.cpp', '''        if (existingResponseData > 0) {
            // Expand and copy''', '''        if (newLength <= d_synthesizedReplyBuffer.size()) {
            // There is room for this message in the buffer already held
        }
        else if (existingResponseData > 0) {
            // Expand and copy''')]
demo = r'''
#include <amqpprox_bufferpool.h>
#include <amqpprox_connector.h>
#include <amqpprox_connectorutil.h>
#include <amqpprox_eventsource.h>
#include <amqpprox_method.h>
#include <amqpprox_methods_open.h>
#include <amqpprox_methods_openok.h>
#include <amqpprox_methods_start.h>
#include <amqpprox_methods_startok.h>
#include <amqpprox_methods_tune.h>
#include <amqpprox_methods_tuneok.h>
#include <amqpprox_constants.h>
#include <amqpprox_sessionstate.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
using namespace Bloomberg::amqpprox;
template <typename T> void give(Connector &c, const T &t, FlowType d)
{
    char   mem[65536];
    Buffer b(mem, sizeof mem);
    Method::encode(b, t);
    size_t n = b.offset();
    Method m;
    Method::decode(&m, mem, n);
    c.receive(m, d);
}
// Every array comes with a guard behind it
static bool trampled = false;
static void check(void *p)
{
    char  *q = static_cast<char *>(p) - 64;
    size_t n;
    memcpy(&n, q, sizeof n);
    for (int i = 0; i < 64; ++i) {
        if (q[64 + n + i] != 0x5a) {
            trampled = true;
        }
    }
    free(q);
}
void *operator new[](size_t n)
{
    char *q = static_cast<char *>(malloc(n + 128));
    memcpy(q, &n, sizeof n);
    memset(q + 64 + n, 0x5a, 64);
    return q + 64;
}
void operator delete[](void *p) noexcept
{
    if (p) check(p);
}
void operator delete[](void *p, size_t) noexcept
{
    if (p) check(p);
}
static size_t run(size_t vhost, size_t *both)
{
    SessionState state;
    EventSource  events;
    BufferPool   pool({});
    Connector    c(&state, &events, &pool, "here");
    c.setConnectionCreationHandler([] {});
    c.receive(Buffer(Constants::protocolHeader(), Constants::protocolHeaderLength()));
    methods::StartOk so;
    methods::TuneOk  to;
    methods::Open    o;
    char   mem[512] = {};
    mem[0]          = char(vhost);
    memset(mem + 1, 'v', vhost);
    Buffer b(mem, vhost + 3);
    methods::Open::decode(&o, b);
    give(c, so, FlowType::INGRESS);
    give(c, to, FlowType::INGRESS);
    give(c, o, FlowType::INGRESS);
    c.synthesizeProtocolHeader();
    c.resetOutBuffer();
    give(c, ConnectorUtil::synthesizedStart(), FlowType::EGRESS);
    size_t l = c.outBuffer().size();
    c.resetOutBuffer();
    give(c, ConnectorUtil::synthesizedTune(), FlowType::EGRESS);
    *both = c.outBuffer().size();
    return l;
}
int main()
{
    size_t both;
    for (size_t v = 1; v < 256; ++v) {
        run(v, &both);
        if (both != 20 + 15 + v) {
            printf("answers lost\n");
            return 2;
        }
    }
    if (trampled) {
        printf("written past the end of the buffer\n");
        return 1;
    }
    return 0;
}
'''
meta = {'property': 'P07', 'needs': 'two answers in one write (tune-ok and open) where the second one by itself, but not together with the first, fits the buffer taken for the first',
        'what_it_breaks': 'the second answer is written past the end of the buffer of the first: not a complete frame, and into memory of someone else'}
