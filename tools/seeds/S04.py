edits = [('libamqpprox/amqpprox_methods_close.cpp', '''    if (buffer.available() < 4) {
        return false;
    }

    close->d_classId''', '''    if (buffer.available() < 2) {
        return false;
    }

    close->d_classId''')]
extra = '-fsanitize=address'
demo = r'''
#include <amqpprox_buffer.h>
#include <amqpprox_methods_close.h>
#include <cstdio>
#include <cstring>
#include <memory>
#include <string>
using namespace Bloomberg::amqpprox;
int main()
{
    std::string full("\x01\x40\x02ok\x00\x0a\x00\x28", 9);
    for (size_t n = 0; n <= full.size(); ++n) {
        Buffer         b(static_cast<const void *>(full.data()), n);
        methods::Close c;
        bool           ok = methods::Close::decode(&c, b);
        if (ok != (n == full.size())) {
            printf("close with %zu of %zu octets: decode returned %d\n", n, full.size(), ok);
            return 1;
        }
        if (b.offset() > b.size()) {
            printf("read position behind the data\n");
            return 1;
        }
    }
    return 0;
}
'''
meta = {'property': 'P01', 'needs': 'a close method cut off inside its last argument',
        'what_it_breaks': 'two octets behind the received data are read and the read position leaves the buffer'}
