edits = [('libamqpprox/amqpprox_sessionstate.cpp', '''    d_paused = paused;
''', '''    d_paused = paused;
    if (!paused) {
        d_readyToConnectOnUnpause = false;
    }
''')]
demo = r'''
#include <amqpprox_sessionstate.h>
#include <cstdio>
using namespace Bloomberg::amqpprox;
int main()
{
    SessionState s;
    s.setPaused(true);
    s.setReadyToConnectOnUnpause(true);
    s.setPaused(false);
    if (!s.getReadyToConnectOnUnpause()) {
        printf("one mark changed another one\n");
        return 1;
    }
    return 0;
}
'''
meta = {'property': 'P17', 'needs': 'the pause mark removed while the session is marked as ready to connect', 'what_it_breaks': 'the mark for being ready to connect is lost'}
