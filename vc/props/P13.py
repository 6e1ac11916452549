from props.base import Prop, PROBE, parts_harness
import cpp
import containers  # noqa
import streams  # noqa


class P13(Prop):
    id = 'P13'
    harness = parts_harness(id)
    tus = ['amqpprox_robinbackendselector', 'amqpprox_backendset', 'amqpprox_connectionmanager', 'amqpprox_backend', PROBE + '/robin.cpp', PROBE + '/bset.cpp',
           PROBE + '/routes.cpp', 'amqpprox_sessionstate', 'amqpprox_connectionselector', 'amqpprox_resourcemapper', 'amqpprox_farm']

    def contracts(self):
        return cpp.contracts('robin.cpp') + cpp.contracts('bset.cpp') + cpp.contracts('routes.cpp', r'c_(viaSelector|direct)$')


PROP = P13()
