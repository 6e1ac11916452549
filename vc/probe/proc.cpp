// Observers for packet processing.
#include <amqpprox_buffer.h>
#include <amqpprox_connector.h>
#include <amqpprox_frame.h>
#include <amqpprox_method.h>
#include <amqpprox_packetprocessor.h>
#include <amqpprox_sessionstate.h>
#include <new>

using namespace Bloomberg::amqpprox;
#define OBS extern "C" __attribute__((used))

OBS unsigned long sizeof_PacketProcessor() { return sizeof(PacketProcessor); }
OBS unsigned long sizeof_Connector() { return sizeof(Connector); }
OBS unsigned long sizeof_SessionState() { return sizeof(SessionState); }
OBS void make_processor(void *p, SessionState &s, Connector &c) { new (p) PacketProcessor(s, c); }
OBS Buffer *pp_remaining(PacketProcessor &p) { return new Buffer(p.remaining()); }
OBS Buffer *pp_ingress(PacketProcessor &p) { return new Buffer(p.ingressWrite()); }
OBS Buffer *pp_egress(PacketProcessor &p) { return new Buffer(p.egressWrite()); }
OBS int connector_state(const Connector &c) { return (int)c.state(); }
OBS bool connector_side(Connector &c) { return c.sendToIngressSide(); }
OBS Buffer *connector_out(Connector &c) { return new Buffer(c.outBuffer()); }
OBS int state_awaiting_header() { return (int)Connector::State::AWAITING_PROTOCOL_HEADER; }
OBS int state_open() { return (int)Connector::State::OPEN; }
OBS int flow_ingress() { return (int)FlowType::INGRESS; }
OBS int flow_egress() { return (int)FlowType::EGRESS; }

namespace {
struct T { uint64_t v[10]; };
T totals(const SessionState &s)
{
    T t;
    s.getTotals(&t.v[0], &t.v[1], &t.v[2], &t.v[3], &t.v[4], &t.v[5], &t.v[6], &t.v[7], &t.v[8], &t.v[9]);
    return t;
}
}
OBS unsigned long in_packets(const SessionState &s) { return totals(s).v[0]; }
OBS unsigned long in_frames(const SessionState &s) { return totals(s).v[1]; }
OBS unsigned long in_bytes(const SessionState &s) { return totals(s).v[2]; }
OBS unsigned long in_lat(const SessionState &s) { return totals(s).v[3]; }
OBS unsigned long in_latn(const SessionState &s) { return totals(s).v[4]; }
OBS unsigned long eg_packets(const SessionState &s) { return totals(s).v[5]; }
OBS unsigned long eg_frames(const SessionState &s) { return totals(s).v[6]; }
OBS unsigned long eg_bytes(const SessionState &s) { return totals(s).v[7]; }
OBS unsigned long eg_lat(const SessionState &s) { return totals(s).v[8]; }
OBS unsigned long eg_latn(const SessionState &s) { return totals(s).v[9]; }
#include <amqpprox_constants.h>
OBS unsigned long header_length() { return Constants::protocolHeaderLength(); }
