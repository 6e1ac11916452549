from props.base import Prop, PROBE, COMMON, codec_harness
import c_enc as E


class P02(Prop):
    id = 'P02'
    tus = ['amqpprox_types', 'amqpprox_fieldvalue', 'amqpprox_fieldtable', PROBE + '/codec.cpp']
    harness = codec_harness('P02')

    def contracts(self):
        return E.encoders(True)

    def lib(self):
        l = super().lib()
        l.auto_candidates = E.enc_candidates
        l.elem_facts = E.elem_facts
        return l


PROP = P02()
