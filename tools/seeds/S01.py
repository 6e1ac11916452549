# decimal values whose last octets are missing, short-int sign
edits = [('libamqpprox/amqpprox_types.cpp', '''    if (string.size() > Constants::shortStringLimit()) {
        return false;
    }

    buffer.writeIn<boost::endian::big_uint8_t>(string.size());''', '''    if (static_cast<uint8_t>(string.size()) >
        Constants::shortStringLimit()) {
        return false;
    }

    buffer.writeIn<boost::endian::big_uint8_t>(string.size());''')]
demo = r'''
#include <amqpprox_buffer.h>
#include <amqpprox_types.h>
#include <cstdio>
#include <string>
using namespace Bloomberg::amqpprox;
int main()
{
    for (size_t n : {0u, 1u, 254u, 255u, 256u, 257u, 300u, 511u, 512u, 600u}) {
        char        mem[1000];
        Buffer      b(static_cast<void *>(mem), sizeof mem);
        std::string s(n, 'x');
        bool        ok = Types::encodeShortString(b, s);
        if (ok != (n <= 255)) {
            printf("short string of %zu octets: encode returned %d\n", n, ok);
            return 1;
        }
        if (ok) {
            Buffer      in(static_cast<const void *>(mem), b.offset());
            std::string out;
            if (!Types::decodeShortString(&out, in) || out != s) {
                printf("short string of %zu octets comes back as %zu\n", n, out.size());
                return 1;
            }
        }
    }
    return 0;
}
'''
meta = {'property': 'P02', 'needs': 'a short string longer than 255 octets (the check sees its size modulo 256)',
        'what_it_breaks': 'names over 255 octets are no longer refused: the length octet wraps and the string octets spill into what follows'}
