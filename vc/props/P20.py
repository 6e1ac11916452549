from props.base import Prop, PROBE, SESSION_TUS, session_harness
import cpp
import containers  # noqa
import streams  # noqa


class P20(Prop):
    id = 'P20'
    harness = session_harness(id)
    tus = SESSION_TUS + [
           'amqpprox_connector', 'amqpprox_sessionstate', 'amqpprox_closeerror', 'amqpprox_buffer', 'amqpprox_constants', 'amqpprox_eventsource', 'amqpprox_flowtype', 'amqpprox_reply', 'amqpprox_bufferhandle',
           'amqpprox_methods_close', 'amqpprox_methods_closeok', 'amqpprox_methods_open', 'amqpprox_methods_openok', 'amqpprox_methods_start', 'amqpprox_methods_startok',
           'amqpprox_methods_tune', 'amqpprox_methods_tuneok',
           PROBE + '/proxyhdr.cpp', PROBE + '/connector_send.cpp']

    def contracts(self):
        return cpp.contracts('proxyhdr.cpp') + cpp.contracts('connector_send.cpp', '^c_proxyHeaderOut$') + \
            cpp.contracts('session_io.cpp', r'c_(proxyHeader|endpoint)$')


PROP = P20()
