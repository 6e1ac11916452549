from props.base import Prop, PROBE, COMMON, codec_harness
import c_enc as E
import c_frame as F
import c_meth as M
import c_wire as W


class P04(Prop):
    id = 'P04'
    tus = ['amqpprox_types', 'amqpprox_fieldvalue', 'amqpprox_fieldtable', 'amqpprox_method'] + \
        ['amqpprox_methods_' + m for m in ('start', 'startok', 'tune', 'tuneok', 'open', 'openok', 'close', 'closeok')] + [PROBE + '/codec.cpp']
    harness = codec_harness('P04')

    def contracts(self):
        # the Types:: contracts are used at calls here and discharged under P03
        return W.wire_decoders() + E.encoders(False) + M.method_contracts() + [F.MethodDecode()]

    def targets(self, cons):
        return [c for c in cons if isinstance(c, (M.MethodArgs, M.MethodEncode, F.MethodDecode))]

    def lib(self):
        l = super().lib()
        l.elem_facts = E.elem_facts
        return l


PROP = P04()
