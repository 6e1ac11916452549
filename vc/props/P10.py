from props.base import Prop, PROBE, limits_harness
import cpp
import containers  # noqa


class P10(Prop):
    id = 'P10'
    harness = limits_harness(id)
    tus = ['amqpprox_fixedwindowconnectionratelimiter', PROBE + '/limit_window.cpp']

    def contracts(self):
        return cpp.contracts('limit_window.cpp')


PROP = P10()
