from props.base import Prop, SESSION_TUS, EST_TUS, session_harness
import cpp
import containers  # noqa
import streams  # noqa


class P09(Prop):
    id = 'P09'
    harness = session_harness(id)
    tus = SESSION_TUS + EST_TUS

    def contracts(self):
        return cpp.contracts('session_est.cpp') + cpp.contracts('session_io.cpp', r'c_unauth$')


PROP = P09()
