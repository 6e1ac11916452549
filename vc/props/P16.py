from props.base import Prop, PROBE, parts_harness
import cpp
import containers  # noqa
import streams  # noqa


class P16(Prop):
    id = 'P16'
    harness = parts_harness(id)
    tus = ['amqpprox_bufferhandle', 'amqpprox_buffersource', 'amqpprox_bufferpool', PROBE + '/buffers.cpp']

    def contracts(self):
        return cpp.contracts('buffers.cpp')


PROP = P16()
