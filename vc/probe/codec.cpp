// Observers used by the contracts: they read objects only through the classes'
// own interface, so that contracts do not depend on how objects are laid out.
#include <amqpprox_buffer.h>
#include <amqpprox_frame.h>
#include <amqpprox_method.h>
#include <amqpprox_methods_close.h>
#include <amqpprox_methods_closeok.h>
#include <amqpprox_methods_open.h>
#include <amqpprox_methods_openok.h>
#include <amqpprox_methods_start.h>
#include <amqpprox_methods_startok.h>
#include <amqpprox_methods_tune.h>
#include <amqpprox_methods_tuneok.h>

using namespace Bloomberg::amqpprox;
#define OBS extern "C" __attribute__((used))

OBS unsigned long sizeof_Frame() { return sizeof(Frame); }
OBS unsigned char frame_type(const Frame &f) { return f.type; }
OBS unsigned short frame_channel(const Frame &f) { return f.channel; }
OBS unsigned int frame_length(const Frame &f) { return f.length; }
OBS const void *frame_payload(const Frame &f) { return f.payload; }
OBS unsigned long frame_max() { return Frame::getMaxFrameSize(); }

OBS unsigned long sizeof_Method() { return sizeof(Method); }
OBS unsigned short method_class(const Method &m) { return m.classType; }
OBS unsigned short method_method(const Method &m) { return m.methodType; }
OBS const void *method_payload(const Method &m) { return m.payload; }
OBS unsigned long method_length(const Method &m) { return m.length; }

OBS unsigned long sizeof_Start() { return sizeof(methods::Start); }
OBS unsigned char start_major(const methods::Start &m) { return m.versionMajor(); }
OBS unsigned char start_minor(const methods::Start &m) { return m.versionMinor(); }
OBS const FieldTable *start_properties(const methods::Start &m) { return &m.properties(); }
OBS const std::string *start_mechanisms(const methods::Start &m) { return &m.mechanisms(); }
OBS const std::string *start_locales(const methods::Start &m) { return &m.locales(); }

OBS unsigned long sizeof_StartOk() { return sizeof(methods::StartOk); }
OBS const FieldTable *startok_properties(const methods::StartOk &m) { return &m.properties(); }
OBS const std::string *startok_mechanism(const methods::StartOk &m) { return &m.mechanism(); }
OBS const std::string *startok_response(const methods::StartOk &m) { return &m.response(); }
OBS const std::string *startok_locale(const methods::StartOk &m) { return &m.locale(); }

OBS unsigned long sizeof_Tune() { return sizeof(methods::Tune); }
OBS unsigned short tune_channelmax(const methods::Tune &m) { return m.channelMax(); }
OBS unsigned int tune_framemax(const methods::Tune &m) { return m.frameMax(); }
OBS unsigned short tune_heartbeat(const methods::Tune &m) { return m.heartbeatInterval(); }
OBS unsigned long sizeof_TuneOk() { return sizeof(methods::TuneOk); }
OBS unsigned short tuneok_channelmax(const methods::TuneOk &m) { return m.channelMax(); }
OBS unsigned int tuneok_framemax(const methods::TuneOk &m) { return m.frameMax(); }
OBS unsigned short tuneok_heartbeat(const methods::TuneOk &m) { return m.heartbeatInterval(); }

OBS unsigned long sizeof_Open() { return sizeof(methods::Open); }
OBS const std::string *open_vhost(const methods::Open &m) { return &m.virtualHost(); }
OBS unsigned long sizeof_OpenOk() { return sizeof(methods::OpenOk); }

OBS unsigned long sizeof_Close() { return sizeof(methods::Close); }
OBS unsigned short close_code(const methods::Close &m) { return m.replyCode(); }
OBS const std::string *close_text(const methods::Close &m) { return &m.replyString(); }
OBS unsigned short close_classid(const methods::Close &m) { return m.classId(); }
OBS unsigned short close_methodid(const methods::Close &m) { return m.methodId(); }
OBS unsigned long sizeof_CloseOk() { return sizeof(methods::CloseOk); }

// one entry point per message that is framed and sent
OBS bool encode_Start(Buffer &b, const methods::Start &m) { return Method::encode(b, m); }
OBS bool encode_StartOk(Buffer &b, const methods::StartOk &m) { return Method::encode(b, m); }
OBS bool encode_Tune(Buffer &b, const methods::Tune &m) { return Method::encode(b, m); }
OBS bool encode_TuneOk(Buffer &b, const methods::TuneOk &m) { return Method::encode(b, m); }
OBS bool encode_Open(Buffer &b, const methods::Open &m) { return Method::encode(b, m); }
OBS bool encode_OpenOk(Buffer &b, const methods::OpenOk &m) { return Method::encode(b, m); }
OBS bool encode_Close(Buffer &b, const methods::Close &m) { return Method::encode(b, m); }
OBS bool encode_CloseOk(Buffer &b, const methods::CloseOk &m) { return Method::encode(b, m); }
