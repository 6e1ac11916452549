from props.base import Prop, PROBE, SESSION_TUS, EST_TUS, session_harness
import cpp
import containers  # noqa
import streams  # noqa


class P15(Prop):
    id = 'P15'
    harness = session_harness(id)
    tus = SESSION_TUS + EST_TUS + ['amqpprox_connectionselector', 'amqpprox_connectionmanager', 'amqpprox_resourcemapper', 'amqpprox_backendstore', 'amqpprox_farmstore', 'amqpprox_farm',
           'amqpprox_backend', 'amqpprox_backendset', 'amqpprox_sessionstate', PROBE + '/routes.cpp', PROBE + '/stores.cpp']

    def contracts(self):
        return cpp.contracts('routes.cpp') + cpp.contracts('stores.cpp') + cpp.contracts('session_est.cpp') + \
            cpp.contracts('session_io.cpp', r'c_(attempt|resolved|connectionError)$')


PROP = P15()
