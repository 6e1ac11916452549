from props.base import Prop, PROBE, limits_harness
import cpp
import containers  # noqa


class P11(Prop):
    id = 'P11'
    harness = limits_harness(id)
    tus = ['amqpprox_connectionlimitermanager', 'amqpprox_fixedwindowconnectionratelimiter', PROBE + '/limit_manager.cpp']

    def contracts(self):
        return cpp.contracts('limit_manager.cpp')


PROP = P11()
