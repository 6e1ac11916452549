from props.base import Prop, PROBE, COMMON, codec_harness
import c_enc as E
import c_wire as W


def candidates(ex, st, fr, *a):
    if isinstance(ex.root, E.Enc):
        return E.enc_candidates(ex, st, fr, *a)
    return W.wire_candidates(ex, st, fr, *a)


class P03(Prop):
    id = 'P03'
    tus = ['amqpprox_types', 'amqpprox_fieldvalue', 'amqpprox_fieldtable', PROBE + '/codec.cpp']
    harness = codec_harness('P03')

    def contracts(self):
        return W.wire_decoders() + E.encoders(False)

    def lib(self):
        l = super().lib()
        l.auto_candidates = candidates
        l.elem_facts = E.elem_facts
        return l


PROP = P03()
