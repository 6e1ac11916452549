edits = [('libamqpprox/amqpprox_types.cpp', '''        uint32_t length = buffer.copy<big_uint32_t>();

        if (!decodeByteVector''', '''        int32_t length = buffer.copy<big_int32_t>();
        if (length > static_cast<int64_t>(buffer.available())) {
            length = buffer.available();
        }

        if (!decodeByteVector''')]
demo = r'''
#include <amqpprox_buffer.h>
#include <amqpprox_fieldvalue.h>
#include <amqpprox_types.h>
#include <cstdio>
#include <string>
using namespace Bloomberg::amqpprox;
int main()
{
    for (size_t have = 0; have < 8; ++have) {
        std::string in("x\x00\x00\x00\x05", 5);
        in += std::string(have, 'q');
        Buffer     b(static_cast<const void *>(in.data()), in.size());
        FieldValue v('V', false);
        bool       ok = Types::decodeFieldValue(&v, b);
        if (ok != (have >= 5)) {
            printf("byte array of 5 octets with %zu present: decode returned %d\n", have, ok);
            return 1;
        }
    }
    return 0;
}
'''
meta = {'property': 'P03', 'needs': 'a byte array value cut off before its declared length',
        'what_it_breaks': 'a truncated byte array is accepted as a shorter one instead of being refused'}
