edits = [('libamqpprox/amqpprox_frame.cpp', '''        if ((frameOverhead() + frame->length) > getMaxFrameSize()) {''', '''        if ((frameOverhead() + frame->length) >= getMaxFrameSize()) {''')]
demo = r'''
#include <amqpprox_frame.h>
#include <cstdio>
#include <stdexcept>
#include <string>
using namespace Bloomberg::amqpprox;
int main()
{
    // a frame of exactly the maximum size, arriving in two reads
    size_t      L = Frame::getMaxFrameSize() - 8;
    std::string f("\x01\x00\x05", 3);
    f += (char)(L >> 24);
    f += (char)(L >> 16);
    f += (char)(L >> 8);
    f += (char)L;
    f += std::string(L, 'p');
    f += "\xce";
    for (size_t n : {size_t(8), size_t(1000), f.size() - 1, f.size()}) {
        Frame       fr;
        const void *end = nullptr;
        size_t      rem = 0;
        try {
            bool ok = Frame::decode(&fr, &end, &rem, f.data(), n);
            if (ok != (n == f.size())) {
                printf("frame of maximum size, %zu octets: decode returned %d\n", n, ok);
                return 1;
            }
        }
        catch (const std::runtime_error &) {
            printf("frame of maximum size refused with %zu octets received\n", n);
            return 1;
        }
    }
    return 0;
}
'''
meta = {'property': 'P05', 'needs': 'a frame of exactly the maximum size that arrives in more than one read',
        'what_it_breaks': 'a frame within the limit is refused and the session dropped, depending on how the stream was split'}
