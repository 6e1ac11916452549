from props.base import Prop, PROBE, limits_harness
import cpp
import containers  # noqa


class P12(Prop):
    id = 'P12'
    harness = limits_harness(id)
    tus = ['amqpprox_dataratelimit', 'amqpprox_dataratelimitmanager', PROBE + '/limit_rate.cpp', PROBE + '/limit_socket.cpp', 'amqpprox_session', 'amqpprox_sessionstate', PROBE + '/limit_session.cpp']

    def contracts(self):
        return cpp.contracts('limit_rate.cpp') + cpp.contracts('limit_socket.cpp') + cpp.contracts('limit_session.cpp')


PROP = P12()
