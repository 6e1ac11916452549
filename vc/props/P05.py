from props.base import Prop, PROBE, COMMON, codec_harness
import c_frame as F


class P05(Prop):
    id = 'P05'
    tus = ['amqpprox_frame', 'amqpprox_method', 'amqpprox_constants', PROBE + '/codec.cpp']
    harness = codec_harness('P05')

    def contracts(self):
        return [F.FrameDecode(), F.FrameEncode(), F.MethodDecode()]


PROP = P05()
