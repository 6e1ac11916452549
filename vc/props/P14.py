from props.base import Prop, PROBE, parts_harness
import cpp
import containers  # noqa
import streams  # noqa


class P14(Prop):
    id = 'P14'
    harness = parts_harness(id)
    tus = ['amqpprox_affinitypartitionpolicy', 'amqpprox_backendset', 'amqpprox_backend', 'amqpprox_datacenter', PROBE + '/affinity.cpp', 'amqpprox_farm', PROBE + '/farm.cpp', PROBE + '/farm2.cpp']

    def contracts(self):
        return cpp.contracts('affinity.cpp') + cpp.contracts('farm.cpp') + cpp.contracts('farm2.cpp')


PROP = P14()
