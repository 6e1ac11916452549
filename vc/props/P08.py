from props.base import Prop, PROBE, session_harness
import cpp
import containers  # noqa
import streams  # noqa


class P08(Prop):
    id = 'P08'
    harness = session_harness(id)
    tus = ['amqpprox_connector', 'amqpprox_sessionstate', 'amqpprox_closeerror', 'amqpprox_buffer', 'amqpprox_constants', 'amqpprox_eventsource', 'amqpprox_flowtype', 'amqpprox_reply', 'amqpprox_bufferhandle', 'amqpprox_frame', 'amqpprox_method', 'amqpprox_types', 'amqpprox_fieldtable', 'amqpprox_fieldvalue',
           'amqpprox_methods_close', 'amqpprox_methods_closeok', 'amqpprox_methods_open', 'amqpprox_methods_openok', 'amqpprox_methods_start', 'amqpprox_methods_startok',
           'amqpprox_methods_tune', 'amqpprox_methods_tuneok',
           'amqpprox_connectorutil', PROBE + '/connector.cpp', PROBE + '/connector_send.cpp', PROBE + '/ident.cpp']

    def contracts(self):
        return cpp.contracts('ident.cpp') + cpp.contracts('connector.cpp', '^c_(startSent|awaitingConnection)$') + cpp.contracts('connector_send.cpp', '^c_sendStartOk$')


PROP = P08()
