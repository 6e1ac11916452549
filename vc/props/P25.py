from props.base import Prop, PROBE, parts_harness
import cpp
import containers  # noqa
import streams  # noqa


class P25(Prop):
    id = 'P25'
    harness = parts_harness('P25')
    tus = ['amqpprox_mapcontrolcommand', 'amqpprox_backendcontrolcommand', 'amqpprox_listencontrolcommand', 'amqpprox_sessioncontrolcommand', 'amqpprox_datacentercontrolcommand', 'amqpprox_backend', 'amqpprox_constants', 'amqpprox_datacenter',
           'amqpprox_limitcontrolcommand', 'amqpprox_sessionstate', 'amqpprox_authcontrolcommand', 'amqpprox_vhostcontrolcommand', 'amqpprox_tlscontrolcommand', 'amqpprox_farmcontrolcommand', 'amqpprox_authinterceptinterface', PROBE + '/commands.cpp', PROBE + '/control.cpp']

    def contracts(self):
        return cpp.contracts('commands.cpp') + cpp.contracts('control.cpp')


PROP = P25()
