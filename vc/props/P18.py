from props.base import Prop, PROBE, parts_harness
import cpp
import containers  # noqa
import streams  # noqa


class P18(Prop):
    id = 'P18'
    harness = parts_harness(id)
    tus = ['amqpprox_statcollector', 'amqpprox_connectionstats', 'amqpprox_statsnapshot', 'amqpprox_sessionstate', PROBE + '/stats.cpp', PROBE + '/cstats.cpp']

    def contracts(self):
        return cpp.contracts('stats.cpp') + cpp.contracts('cstats.cpp')


PROP = P18()
