from props.base import Prop, PROBE, SESSION_TUS, EST_TUS, session_harness
import cpp
import containers  # noqa
import streams  # noqa


class P19(Prop):
    id = 'P19'
    harness = session_harness(id)
    tus = SESSION_TUS + EST_TUS + ['amqpprox_vhoststate', 'amqpprox_vhostcontrolcommand', 'amqpprox_vhostestablishedpauser', 'amqpprox_server', 'amqpprox_eventsource',
                         'amqpprox_eventsourcesignal', PROBE + '/pause.cpp', PROBE + '/vstate.cpp']

    def contracts(self):
        return cpp.contracts('session_io.cpp', r'c_(pause|unpause|readData|attempt)$') + cpp.contracts('pause.cpp') + cpp.contracts('vstate.cpp') + \
            cpp.contracts('session_est.cpp')


PROP = P19()
