import containers  # noqa
import cpp
from props.base import Prop, PROBE, parts_harness


class P24(Prop):
    id = 'P24'
    harness = parts_harness(id)
    tus = ['amqpprox_httpauthintercept', 'amqpprox_authinterceptinterface', PROBE + '/http_auth.cpp']

    def contracts(self):
        return cpp.contracts('http_auth.cpp')


PROP = P24()
