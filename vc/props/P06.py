from props.base import Prop, PROBE, SESSION_TUS, session_harness
import c_frame as F  # noqa
import c_proc as C
import libmodels as L
import cpp
import containers  # noqa
import streams  # noqa


class P06(Prop):
    id = 'P06'
    harness = session_harness('P06')
    tus = SESSION_TUS + ['amqpprox_method', PROBE + '/codec.cpp', PROBE + '/proc.cpp']

    def contracts(self):
        return C.proc_contracts() + cpp.contracts('session_io.cpp', r'c_(handleData|readData|handleWrite|synthetic)$')

    def lib(self):
        l = L.base.clone()
        l.auto_candidates = C.proc_candidates
        return l


PROP = P06()
