import os
import build
import libmodels as L
import streams  # noqa

PROBE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'probe')

COMMON = [
    'machine model: LLVM 18 IR semantics of clang -O1 -disable-llvm-passes for x86-64; integers are bit vectors (no mathematical integers); '
    'the IR is generated from the unmodified source on every run; the shipped build uses g++',
    'logging is assumed to have no effect on state (log record bodies are not executed)',
    'memory allocation always succeeds; objects are at most 2^40 octets',
    'one call at a time: no other thread changes the objects of a function while it runs',
    'assumed library contracts: entries of trusted_base (vc/libmodels.py), checked only by the harness runs on the real code',
]


class Prop:
    id = ''
    tus = []
    assumptions = COMMON
    harness = None
    loopspecs = {}

    def contracts(self):
        raise NotImplementedError

    def targets(self, cons):
        return [c for c in cons if getattr(c, 'verify', True)]

    def lib(self):
        return L.base.clone()

    def harness_seconds(self, thorough):
        return 120 if thorough else 15


def codec_harness(pid):
    return {'src': 'codec.cpp', 'tus': ['amqpprox_types', 'amqpprox_fieldvalue', 'amqpprox_fieldtable', 'amqpprox_frame', 'amqpprox_method',
                                        'amqpprox_buffer', 'amqpprox_constants', 'amqpprox_logging'] +
            ['amqpprox_methods_' + m for m in ('start', 'startok', 'tune', 'tuneok', 'open', 'openok', 'close', 'closeok')],
            'args': ['--mode', pid]}


def session_harness(pid):
    """simulated sockets around the real session, connector and packet processor; every unit of the library is linked"""
    return {'src': 'session.cpp', 'tus': build.all_tus() + ['AUTHPROTO'], 'args': ['--mode', pid]}


def limits_harness(pid):
    return {'src': 'limits.cpp', 'tus': ['amqpprox_connectionlimitermanager', 'amqpprox_dataratelimit', 'amqpprox_dataratelimitmanager',
                                         'amqpprox_fixedwindowconnectionratelimiter', 'amqpprox_connectionlimiterinterface', 'amqpprox_logging'],
            'args': ['--mode', pid]}


def parts_harness(pid):
    return {'src': 'parts.cpp', 'tus': build.all_tus() + ['AUTHPROTO'], 'args': ['--mode', pid]}


SESSION_TUS = ['amqpprox_session', 'amqpprox_sessionstate', 'amqpprox_closeerror', 'amqpprox_buffer', 'amqpprox_bufferhandle', 'amqpprox_backend',
               'amqpprox_connector', 'amqpprox_methods_close', 'amqpprox_proxyprotocolheaderv1', 'amqpprox_packetprocessor', 'amqpprox_flowtype', 'amqpprox_frame',
               'amqpprox_reply', 'amqpprox_constants', PROBE + '/session_io.cpp']
EST_TUS = ['amqpprox_session', 'amqpprox_sessionstate', 'amqpprox_authinterceptinterface', 'amqpprox_connectionselectorinterface', 'amqpprox_flowtype',
           PROBE + '/session_est.cpp']
