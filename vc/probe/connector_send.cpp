// Contracts of the connector's message output: framing, appending to what is already waiting, protocol and proxy headers.
#include "vc.h"
#include <amqpprox_connector.h>
#include <amqpprox_bufferpool.h>
#include <amqpprox_frame.h>
#include <new>

using namespace Bloomberg::amqpprox;

// @init Bloomberg::amqpprox::\(anonymous.namespace\)::(legacyP|p)rotocolHeader$

namespace {
struct Ghost {
    int         encoded, framed;
    bool        encodeOk, frameOk;
    size_t      length;
    const void *payload;
    const void *frameAt;
    const void *source;
} g;

bool encode(Buffer &b, const void *m)
{
    ++g.encoded;
    g.source   = m;
    g.payload  = b.originalPtr();
    vc_ensure(b.offset() == 0 && vc_room(b.originalPtr()) >= b.size(), "the message is written to the start of a buffer that is there");
    g.encodeOk = vc_any_bool();
    if (g.encodeOk) {
        g.length = vc_any_u64();
        vc_assume(g.length <= b.size());
        b.d_offset = g.length;
    }
    return g.encodeOk;
}
}

// @replaces Method::encode(start) | bool Bloomberg::amqpprox::Method::encode<Bloomberg::amqpprox::methods::Start>
OBS bool ks_encStart(Buffer &b, const methods::Start &m) { return encode(b, &m); }
// @replaces Method::encode(start-ok) | bool Bloomberg::amqpprox::Method::encode<Bloomberg::amqpprox::methods::StartOk>
OBS bool ks_encStartOk(Buffer &b, const methods::StartOk &m) { return encode(b, &m); }
// @replaces Method::encode(tune) | bool Bloomberg::amqpprox::Method::encode<Bloomberg::amqpprox::methods::Tune>
OBS bool ks_encTune(Buffer &b, const methods::Tune &m) { return encode(b, &m); }
// @replaces Method::encode(tune-ok) | bool Bloomberg::amqpprox::Method::encode<Bloomberg::amqpprox::methods::TuneOk>
OBS bool ks_encTuneOk(Buffer &b, const methods::TuneOk &m) { return encode(b, &m); }
// @replaces Method::encode(open) | bool Bloomberg::amqpprox::Method::encode<Bloomberg::amqpprox::methods::Open>
OBS bool ks_encOpen(Buffer &b, const methods::Open &m) { return encode(b, &m); }
// @replaces Method::encode(open-ok) | bool Bloomberg::amqpprox::Method::encode<Bloomberg::amqpprox::methods::OpenOk>
OBS bool ks_encOpenOk(Buffer &b, const methods::OpenOk &m) { return encode(b, &m); }
// @replaces Method::encode(close) | bool Bloomberg::amqpprox::Method::encode<Bloomberg::amqpprox::methods::Close>
OBS bool ks_encClose(Buffer &b, const methods::Close &m) { return encode(b, &m); }
// @replaces Method::encode(close-ok) | bool Bloomberg::amqpprox::Method::encode<Bloomberg::amqpprox::methods::CloseOk>
OBS bool ks_encCloseOk(Buffer &b, const methods::CloseOk &m) { return encode(b, &m); }

// @replaces Frame::encode | Bloomberg::amqpprox::Frame::encode\(
OBS bool ks_frame(void *at, size_t *size, const Frame &f)
{
    ++g.framed;
    vc_ensure(f.type == 1 && f.channel == 0 && f.payload == g.payload && f.length == g.length, "the message is the payload of a method frame of channel 0");
    vc_ensure(vc_room(at) >= g.length + 8, "there is room for the frame");
    g.frameAt = at;
    g.frameOk = vc_any_bool();
    *size     = g.frameOk ? g.length + 8 : 0;
    return g.frameOk;
}
// @replaces BufferPool::acquireBuffer | Bloomberg::amqpprox::BufferPool::acquireBuffer\(
OBS void ks_acquire(BufferPool *, BufferHandle *h, size_t n)
{
    h->d_data   = vc_any_bytes(n);
    h->d_size   = n;
    h->d_source = nullptr;
}
// @replaces BufferHandle::release | BufferHandle::release\(
OBS void ks_release(BufferHandle *h)
{
    h->d_data   = nullptr;
    h->d_source = nullptr;
    h->d_size   = 0;
}
// @replaces Frame::getMaxFrameSize | Bloomberg::amqpprox::Frame::getMaxFrameSize\(
OBS size_t ks_max()
{
    static size_t m;
    vc_assume(m >= 4096 && m <= 0xffffffff);
    return m;
}

namespace {
template <typename T>
void sends(Connector &c, const T &m, bool in, uint64_t have, uint64_t cap, uint64_t j)
{
    g = Ghost();
    // what is waiting, if anything, is the beginning of the reply buffer
    vc_assume(have <= cap && cap <= 0xffffffff);
    uint8_t *old                      = static_cast<uint8_t *>(vc_any_bytes(cap));
    c.d_synthesizedReplyBuffer.d_data = old;
    c.d_synthesizedReplyBuffer.d_size = cap;
    c.d_buffer                        = have ? Buffer(old, have) : Buffer();
    uint8_t oldAtJ                    = 0;
    if (j < have)
        oldAtJ = old[j];
    c.sendResponse<T>(m, in);
    vc_ensure(g.encoded == 1 && g.source == &m, "that message is encoded");
    if (!g.encodeOk) {
        vc_ensure(g.framed == 0 && c.outBuffer().size() == have, "a message that cannot be encoded is not sent");
        return;
    }
    vc_ensure(g.framed == 1, "it is framed once");
    if (g.frameOk) {
        Buffer o = c.outBuffer();
        vc_ensure(o.size() == have + g.length + 8 && o.offset() == 0, "the frame follows what was waiting");
        vc_ensure(g.frameAt == static_cast<const uint8_t *>(o.originalPtr()) + have, "directly");
        vc_ensure(c.d_sendToIngressSide == in, "to the given side");
        vc_ensure(c.d_synthesizedReplyBuffer.d_data == o.originalPtr() && vc_room(o.originalPtr()) >= o.size(), "and stays in a buffer of the connector");
        if (j < have)
            vc_ensure(static_cast<const uint8_t *>(o.originalPtr())[j] == oldAtJ, "what was waiting is kept");
    }
}
}

// @contract Connector::sendResponse(start): one frame appended to what is waiting | Connector::sendResponse<methods::Start>
OBS void c_sendStart(Connector &c, const methods::Start &m, bool in, uint64_t have, uint64_t cap, uint64_t j) { sends(c, m, in, have, cap, j); }
// @contract Connector::sendResponse(start-ok): one frame appended to what is waiting | Connector::sendResponse<methods::StartOk>
OBS void c_sendStartOk(Connector &c, const methods::StartOk &m, bool in, uint64_t have, uint64_t cap, uint64_t j) { sends(c, m, in, have, cap, j); }
// @contract Connector::sendResponse(tune): one frame appended to what is waiting | Connector::sendResponse<methods::Tune>
OBS void c_sendTune(Connector &c, const methods::Tune &m, bool in, uint64_t have, uint64_t cap, uint64_t j) { sends(c, m, in, have, cap, j); }
// @contract Connector::sendResponse(tune-ok): one frame appended to what is waiting | Connector::sendResponse<methods::TuneOk>
OBS void c_sendTuneOk(Connector &c, const methods::TuneOk &m, bool in, uint64_t have, uint64_t cap, uint64_t j) { sends(c, m, in, have, cap, j); }
// @contract Connector::sendResponse(open): one frame appended to what is waiting | Connector::sendResponse<methods::Open>
OBS void c_sendOpen(Connector &c, const methods::Open &m, bool in, uint64_t have, uint64_t cap, uint64_t j) { sends(c, m, in, have, cap, j); }
// @contract Connector::sendResponse(open-ok): one frame appended to what is waiting | Connector::sendResponse<methods::OpenOk>
OBS void c_sendOpenOk(Connector &c, const methods::OpenOk &m, bool in, uint64_t have, uint64_t cap, uint64_t j) { sends(c, m, in, have, cap, j); }
// @contract Connector::sendResponse(close): one frame appended to what is waiting | Connector::sendResponse<methods::Close>
OBS void c_sendClose(Connector &c, const methods::Close &m, bool in, uint64_t have, uint64_t cap, uint64_t j) { sends(c, m, in, have, cap, j); }
// @contract Connector::sendResponse(close-ok): one frame appended to what is waiting | Connector::sendResponse<methods::CloseOk>
OBS void c_sendCloseOk(Connector &c, const methods::CloseOk &m, bool in, uint64_t have, uint64_t cap, uint64_t j) { sends(c, m, in, have, cap, j); }

// @contract Connector::synthesizeProtocolHeader: the AMQP 0-9-1 header is waiting for the broker | Connector::synthesizeProtocolHeader()
OBS void c_protocolHeader(Connector &c)
{
    c.synthesizeProtocolHeader();
    Buffer o = c.outBuffer();
    vc_ensure(o.size() == 8 && o.offset() == 0 && vc_room(o.originalPtr()) >= 8, "eight octets");
    const uint8_t *p = static_cast<const uint8_t *>(o.originalPtr());
    vc_ensure((p[0] == 'A') & (p[1] == 'M') & (p[2] == 'Q') & (p[3] == 'P') & (p[4] == 0) & (p[5] == 0) & (p[6] == 9) & (p[7] == 1), "AMQP 0 0 9 1");
}

// @contract Connector::synthesizeProxyProtocolHeader: exactly the given text is waiting for the broker | Connector::synthesizeProxyProtocolHeader(string)
OBS void c_proxyHeaderOut(Connector &c, const std::string &h, uint64_t j)
{
    vc_assume(h.size() > 0 && h.size() < 100000);
    c.synthesizeProxyProtocolHeader(h);
    Buffer o = c.outBuffer();
    vc_ensure(o.size() == h.size() && o.offset() == 0 && vc_room(o.originalPtr()) >= h.size(), "its length");
    if (j < h.size())
        vc_ensure(static_cast<const char *>(o.originalPtr())[j] == h.data()[j], "every octet of it");
}
