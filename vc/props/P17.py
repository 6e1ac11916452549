from props.base import Prop, PROBE, SESSION_TUS, parts_harness
import cpp
import containers  # noqa
import streams  # noqa


class P17(Prop):
    id = 'P17'
    harness = parts_harness(id)
    tus = SESSION_TUS + [PROBE + '/sstate.cpp']

    def contracts(self):
        return cpp.contracts('sstate.cpp') + cpp.contracts('session_io.cpp', r'c_(disconnect|sessionError)$')


PROP = P17()
