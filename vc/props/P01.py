from props.base import Prop, PROBE, COMMON, codec_harness
import c_codec as C
import c_frame as F


class P01(Prop):
    id = 'P01'
    harness = codec_harness('P01')
    tus = ['amqpprox_types', 'amqpprox_fieldvalue', 'amqpprox_fieldtable', 'amqpprox_frame', 'amqpprox_method', 'amqpprox_methods_start',
           'amqpprox_methods_startok', 'amqpprox_methods_tune', 'amqpprox_methods_tuneok', 'amqpprox_methods_open',
           'amqpprox_methods_openok', 'amqpprox_methods_close', PROBE + '/codec.cpp']

    def contracts(self):
        return C.decoder_contracts() + [F.FrameDecode(), F.MethodDecode()] + [F.MethodArgsDecode(m) for m in F.METHODS]

    def lib(self):
        l = super().lib()
        l.auto_candidates = C.buffer_auto
        return l


PROP = P01()
