INP = (['inputs'], )


def over(kinds, text):
    return {'over': kinds, 'text': text}


def mech(*pairs):
    return [{'name': a, 'where': b} for a, b in pairs]


LIB = 'libamqpprox/'

prop('P01', 'Decoding received bytes never touches memory outside them',
     'Whatever bytes a client or broker sends, decoding frames, methods, field tables and values reads only bytes that were received, '
     'never raises an exception out of argument decoding, and always leaves the read position inside the received data. '
     'Nesting of tables and arrays is limited, so that no input can exhaust the stack.',
     over(['inputs'], 'every byte sequence of every length offered to the frame, method and argument decoders'),
     'Tests decode a handful of captured and truncated messages; an out-of-bounds read needs one specific truncation or length field and does not '
     'fail a test run without sanitizers.',
     [LIB + 'amqpprox_types.cpp', LIB + 'amqpprox_frame.cpp', LIB + 'amqpprox_method.cpp', LIB + 'amqpprox_buffer.h', LIB + 'amqpprox_methods_start.cpp',
      LIB + 'amqpprox_methods_startok.cpp', LIB + 'amqpprox_methods_tune.cpp', LIB + 'amqpprox_methods_close.cpp'],
     mech(('length checks before each read', 'Types::decode*, methods::*::decode'), ('offset/length bookkeeping', 'Buffer')),
     'Proof for all inputs of the decoder functions: every load in bounds of the received data, buffer invariant kept, no exception, nesting depth '
     'bounded. Trusts the library contracts listed in the evidence and the LLVM IR of the unmodified sources.')

prop('P02', 'Encoding never writes outside the buffer it was given',
     'Encoding any string, byte sequence, field value, array or table into a buffer of any size writes only inside the free part of the buffer, '
     'leaves everything before it untouched, and reports success only when the complete representation fitted; '
     'otherwise it reports failure, as it does for names over 255 octets and unknown value types.',
     over(['inputs', 'configurations'], 'every value and every amount of free room'),
     'Tests encode into generously sized buffers; running out of room at every possible point of every value is not enumerable.',
     [LIB + 'amqpprox_types.cpp', LIB + 'amqpprox_buffer.h', LIB + 'amqpprox_fieldvalue.cpp', LIB + 'amqpprox_fieldtable.cpp'],
     mech(('room checks', 'Buffer::writeIn, Buffer::assign'), ('failure propagation', 'Types::encode*')),
     'Proof for all values and all buffer sizes below 4 GiB: every store in bounds, octets outside untouched, success only with everything written.')

prop('P03', 'Field tables and values keep their exact AMQP representation',
     'Decoding a well-formed value, array, table or string yields exactly the type, number, octets, names and order that the bytes represent and consumes exactly '
     'its extent, and malformed ones are refused; encoding a value produces exactly that representation whenever there is room. '
     'A client\'s properties therefore reach the broker unchanged after being decoded and re-encoded.',
     over(['inputs'], 'every value, name and nesting, and every byte sequence'),
     'Tests round-trip a few tables through the same code, so matching errors in both directions, sign and width boundaries and rarely used types go unnoticed.',
     [LIB + 'amqpprox_types.cpp', LIB + 'amqpprox_fieldvalue.cpp', LIB + 'amqpprox_fieldtable.cpp', LIB + 'amqpprox_buffer.h'],
     mech(('type octet dispatch', 'Types::decodeFieldValue, Types::encodeFieldValue'), ('length prefixes', 'Types::*FieldTable, Types::*FieldArray')),
     'Proof of functional contracts of both directions against one axiomatised wire format.')

prop('P04', 'Handshake messages are encoded and decoded exactly as AMQP prescribes',
     'Each connection handshake message (start, start-ok, tune, tune-ok, open, open-ok, close, close-ok) is written with its class and method number followed by its '
     'arguments in the prescribed order and width, and reading one yields exactly the arguments sent; incomplete messages are refused.',
     over(['inputs'], 'every value of every argument, every byte sequence and every amount of room'),
     'Tests use a few fixed messages, mostly round-tripped through the same code.',
     [LIB + 'amqpprox_method.h', LIB + 'amqpprox_method.cpp'] + [LIB + 'amqpprox_methods_%s.cpp' % m for m in
                                                                ('start', 'startok', 'tune', 'tuneok', 'open', 'openok', 'close', 'closeok')],
     mech(('argument layout', 'methods::*::encode, methods::*::decode'), ('class and method prefix', 'Method::encode, Method::decode')),
     'Proof of functional contracts of each message in both directions; the contracts of the string and table coders used at calls are proved under P03.')

prop('P05', 'A byte stream is cut into exactly the frames that were sent',
     'Given any received bytes, framing either delimits the first frame exactly (type, channel, length, payload, end marker, rest), or says that more bytes are needed '
     'without consuming any, or refuses a frame that is larger than the limit or badly terminated; framing a payload writes exactly that frame or fails when it exceeds the limit.',
     over(['inputs', 'histories'], 'every byte sequence, split anywhere, and every configured frame limit'),
     'Tests decode a few frames at a few sizes; splits inside the header and sizes at the limit are not enumerated.',
     [LIB + 'amqpprox_frame.cpp', LIB + 'amqpprox_frame.h', LIB + 'amqpprox_method.cpp'],
     mech(('header and end-marker checks', 'Frame::decode'), ('size limit', 'Frame::getMaxFrameSize'), ('frame layout', 'Frame::encode')),
     'Proof for all byte sequences and frame limits of Frame::decode, Frame::encode and Method::decode.')

prop('P06', 'Traffic of an open connection passes through complete and unchanged',
     'Once a connection is open, the bytes each side sends reach the other side unchanged, in order and exactly once, however reads split them; '
     'only complete frames are forwarded and an incomplete tail is kept for the next read, and frame and byte totals count exactly what is forwarded. '
     'Before that, every complete connection method received is interpreted exactly once, in order, and nothing else is.',
     over(['inputs', 'histories'], 'every byte sequence in either direction, split into reads anywhere'),
     'Tests replay a few captured conversations with fixed splits; a frame lost, duplicated or cut at one particular split is not sampled.',
     [LIB + 'amqpprox_packetprocessor.cpp', LIB + 'amqpprox_session.cpp', LIB + 'amqpprox_frame.cpp', LIB + 'amqpprox_connector.cpp'],
     mech(('frame loop, pass-through and remaining bytes', 'PacketProcessor::process'), ('read, process, write cycle', 'Session::readData, Session::handleData, Session::handleWriteData')),
     'Proof, for all received bytes, directions and connector states, of PacketProcessor::process against the contracts of Frame::decode and Method::decode '
     '(proved under P05), and of the read, process and write steps of Session (readData, handleData, handleWriteData, sendSyntheticData) around the contract of process; '
     'assumed: completion handlers run one at a time, a composed write writes everything or reports an error.')

prop('P07', 'The handshake follows the protocol and carries the client\'s choices',
     'The proxy answers each side of the connection handshake as AMQP 0-9-1 prescribes and in the right state only: header with start, start-ok with tune, open with connecting to a broker exactly once; '
     'the broker then gets the client\'s own start-ok, tune-ok and open unchanged apart from the identification of the proxy, and the client gets open-ok only after the broker sent it. '
     'A message that does not belong in the current state of the handshake is refused without effect, a close by the broker during the handshake is reported with its own code and text, '
     'and once closed the connector ignores everything. Each answer is one complete frame, addressed to the right side, and answers waiting are sent in order.',
     over(['inputs', 'histories'], 'every connection method with any arguments, from either side, in every state of the handshake'),
     'Tests walk the one successful conversation and a few failures; the full product of states, methods and sides with arbitrary arguments is not sampled.',
     [LIB + 'amqpprox_connector.cpp', LIB + 'amqpprox_connector.h', LIB + 'amqpprox_closeerror.cpp'],
     mech(('state machine', 'Connector::receive'), ('replies', 'Connector::sendResponse'), ('closing', 'Connector::synthesizeClose, Connector::synthesizeCustomCloseError')),
     'Proof, as one step from each state with arbitrary kept messages, of Connector::receive and the functions that queue replies; the coders of the messages are used by contract (proved under P04). '
     'The sequence property follows by induction over the steps.')

prop('P08', 'The broker is told who the client is, and nothing else changes',
     'The client properties presented to the broker are exactly the client\'s, followed by entries naming the client\'s and the proxy\'s host and ports and, when authentication gave one, its reason; '
     'mechanism and credentials are the client\'s unless the authentication service supplied others; locale is the client\'s.',
     over(['inputs', 'configurations'], 'every set of client properties, credentials, endpoints and authentication results'),
     'Tests use one set of properties; an entry lost, overwritten or built from the wrong endpoint shows only for particular inputs.',
     [LIB + 'amqpprox_connectorutil.cpp', LIB + 'amqpprox_connector.cpp'],
     mech(('identification', 'ConnectorUtil::injectProxyClientIdent'), ('credentials and reason', 'Connector::setAuthMechanismCredentials, Connector::setAuthReasonAsClientProperties'),
          ('start-ok to the broker', 'Connector::receive')),
     'Proof of the functions that change the kept start-ok, and that Connector::receive presents it once and otherwise unchanged; string streams are an assumed contract.')

prop('P09', 'No broker is contacted for a client that was not allowed',
     'A client reaches a broker only after the authentication service has been asked about exactly its vhost, mechanism, credentials and host and has answered allow; any other answer ends the session without contacting a broker, '
     'marks it as denied, and tells the client the reason with connection.close when the client announced that it understands that. Replacement mechanism and credentials are used exactly when the answer carries them.',
     over(['inputs', 'histories', 'schedules'], 'every answer of the authentication service, at any time, including after the session was paused or ended'),
     'Tests use a few canned answers; an unknown result value, a missing field or an answer arriving late is not sampled.',
     [LIB + 'amqpprox_session.cpp', LIB + 'amqpprox_authinterceptinterface.cpp'],
     mech(('question and answer', 'Session::establishConnection'), ('refusal', 'Session::disconnectUnauthClient')),
     'Proof of Session::establishConnection including the callback that receives the answer, and of disconnectUnauthClient; the HTTP exchange with the authentication service itself is outside.')

prop('P10', 'A connection rate limiter admits exactly its limit in every window',
     'For every sequence of connection attempts at any times, a connection rate limiter admits a connection exactly when fewer than its limit have been admitted in the current '
     'window, counts only admitted ones, and starts a new window only when the configured time has passed since the current one began; limit and window never change by use.',
     over(['histories', 'inputs'], 'every limit, every window and every sequence of attempt times of a clock that runs forward'),
     'Tests try a few attempts at a few times; off-by-one errors at the limit or at the window boundary and lost or doubled counts need particular sequences.',
     [LIB + 'amqpprox_fixedwindowconnectionratelimiter.cpp', LIB + 'amqpprox_fixedwindowconnectionratelimiter.h'],
     mech(('window and count', 'FixedWindowConnectionRateLimiter::allowNewConnection')),
     'Proof of allowNewConnection as one step from every state satisfying the limiter invariant (count within limit), and of the constructors establishing it, '
     'for windows below 2,000,000 s; the sequence property follows by induction over the steps.')

prop('P11', 'Connection rate limits apply per vhost, with the default as fallback',
     'A new connection is refused exactly when the limiter in force for its vhost refuses it: the limiter configured for that vhost, otherwise one of its own with the default limit, otherwise '
     'none. Each connection is counted once, by that vhost only. Setting, replacing or removing a limit or default affects exactly the vhosts it '
     'applies to, and alarm-only limits never refuse a connection.',
     over(['histories', 'configurations', 'inputs'], 'every set of configured limits and alarms, every vhost name and every sequence of configuration changes and connections'),
     'Tests configure one or two vhosts; interactions of default, specific and alarm limits after arbitrary changes are not enumerable.',
     [LIB + 'amqpprox_connectionlimitermanager.cpp', LIB + 'amqpprox_connectionlimitermanager.h'],
     mech(('limiter lookup and fallback', 'ConnectionLimiterManager::allowNewConnectionForVhost'), ('configuration changes', 'ConnectionLimiterManager::add*/set*/remove*')),
     'Proof of every operation of ConnectionLimiterManager from an arbitrary set of limiters, against limiters of which only the interface is known; std::unordered_map is an assumed contract.')

prop('P12', 'Data rate limits bound what is read, and nothing else',
     'Every octet read from a client or broker socket is counted exactly once against the data rate limit and alarm; no read is started while the allowance of a running one second period is used up, '
     'reading resumes when the period ends, each new period restores exactly the configured quota, and without a quota reading is never held back. The quota of a vhost is its own, otherwise the default, '
     'whatever the order of configuration changes, and a session applies the quotas of its vhost to the connection of its client.',
     over(['histories', 'inputs', 'configurations'], 'every quota, every sequence of reads and periods, plain and TLS sockets, every set of configured limits'),
     'Tests cover a few reads on a mock socket; the accounting of every read path and the reset at every state need all histories.',
     [LIB + 'amqpprox_dataratelimit.cpp', LIB + 'amqpprox_dataratelimitmanager.cpp', LIB + 'amqpprox_maybesecuresocketadaptor.h'],
     mech(('allowance', 'DataRateLimit::recordUsage, DataRateLimit::onTimer'), ('gate before reading', 'MaybeSecureSocketAdaptor::async_read_some, read_some, onTimer'),
          ('quota of a vhost', 'DataRateLimitManager'), ('applied to a session', 'Session::updateDataRateLimits')),
     'Proof, step by step from arbitrary states, of DataRateLimit, DataRateLimitManager and of the socket adaptor\'s read functions over a stream and timer of which only the interface is known. '
     'The completion handlers of timer and socket are part of the functions that start them; assumed: each runs at most once, and the stream reports the octets it wrote.')


prop('P13', 'Attempts to connect go through every backend once, in turn',
     'The successive attempts of a connection visit every backend of the farm exactly once: partition by partition in order, within a partition cyclically starting where the marker of the partition stood when the connection began, '
     'and nothing is offered after the last. Each attempt moves the marker of exactly the partition it used by one, so that connections are spread over the backends in turn. '
     'A directly mapped backend is offered for the first attempt only.',
     over(['inputs', 'histories'], 'every number and size of partitions including empty ones, every marker value and every number of attempts'),
     'Tests use a few small partitions; skipped or repeated backends at partition borders, empty partitions and large markers are not enumerable.',
     [LIB + 'amqpprox_robinbackendselector.cpp', LIB + 'amqpprox_backendset.cpp', LIB + 'amqpprox_connectionmanager.cpp'],
     mech(('choice of the n-th attempt', 'RobinBackendSelector::select'), ('markers', 'BackendSet::markPartition, ConnectionManager'), ('one attempt', 'ConnectionManager::getConnection')),
     'Proof of select for any number of partitions of any size, of the marker functions and of ConnectionManager; that the attempts are pairwise different follows from the formula proved for each attempt.')

prop('P14', 'A farm offers each of its members once, this datacenter first',
     'A farm offers exactly the backends of its members, each once. Partitioning by datacenter splits every partition into those of this datacenter followed by all others, keeps the order within both, leaves out empty partitions, and loses or repeats no backend. '
     'Policies apply one after the other in the order added, each on the result of the one before; adding or removing a member or policy changes exactly that and takes effect at once.',
     over(['configurations', 'histories'], 'every number of members, partitions and policies, every assignment of datacenters, every sequence of changes'),
     'Tests partition a handful of backends; losing, repeating or misordering one needs particular mixes over several partitions.',
     [LIB + 'amqpprox_affinitypartitionpolicy.cpp', LIB + 'amqpprox_farm.cpp', LIB + 'amqpprox_farm.h'],
     mech(('split by datacenter', 'AffinityPartitionPolicy::partition'), ('members and policies', 'Farm::doRepartitionWhileLocked, addMember, removeMember, addPartitionPolicy')),
     'Proof of partition for any number of partitions of any size with nested loop invariants, and of the functions of Farm from arbitrary members and policies. '
     'Bounded: the constructor of Farm and Farm::members are exercised by the harness only. Members are assumed to be known to the backend store.')

prop('P15', 'Each vhost goes to the backend or farm it is mapped to, in turn',
     'A connection is routed by its vhost: refused when its limit is reached, to the mapped backend or farm, otherwise to the default farm, otherwise refused; a missing farm or backend refuses it. '
     'Adding, removing or mapping changes exactly the named vhost, backend or default. When connecting fails, every address of a backend is tried once in order, then the next backend, until none is left and the session ends.',
     over(['histories', 'configurations', 'inputs'], 'every set of mappings, farms and backends, every sequence of changes, and every pattern of failing addresses'),
     'Tests configure one or two vhosts; interactions of mapping, default, removal and failure after arbitrary changes are not enumerable.',
     [LIB + 'amqpprox_connectionselector.cpp', LIB + 'amqpprox_connectionmanager.cpp', LIB + 'amqpprox_resourcemapper.cpp', LIB + 'amqpprox_backendstore.cpp', LIB + 'amqpprox_farmstore.cpp', LIB + 'amqpprox_session.cpp'],
     mech(('route of a vhost', 'ConnectionSelector::acquireConnection, ResourceMapper'), ('stores', 'BackendStore, FarmStore'), ('attempts', 'Session::attemptConnection, attemptResolvedConnection, handleConnectionError')),
     'Proof of each operation from arbitrary contents of the maps, and of the attempt functions of Session with their callbacks; std::unordered_map and name resolution are assumed contracts.')

prop('P16', 'Every pooled buffer has one owner and goes back where it came from',
     'A buffer handed out is large enough, of the smallest class that is, and in the hands of one owner only; it goes back exactly once, to the source it was taken from, when its owner is done, also through moves, swaps and reassignment, and a buffer of the heap '
     'is freed exactly once. The counts of buffers in use and of the most ever in use are exact.',
     over(['inputs', 'histories'], 'every size asked for, every set of size classes and every sequence of taking, moving, swapping and giving back'),
     'Tests take and release a few buffers; a double release, a leak or a buffer of the wrong class after a particular sequence of moves is not sampled.',
     [LIB + 'amqpprox_bufferhandle.cpp', LIB + 'amqpprox_buffersource.cpp', LIB + 'amqpprox_bufferpool.cpp'],
     mech(('ownership', 'BufferHandle'), ('counts', 'BufferSource'), ('choice of class', 'BufferPool::acquireBuffer')),
     'Proof of each operation of BufferHandle, of BufferSource and of BufferPool::acquireBuffer for any number of sorted classes. Bounded: the constructor of BufferPool and getPoolStatistics are exercised by the harness only; boost::pool is assumed.')

prop('P17', 'Session totals and marks record exactly what happened',
     'Frame, byte, packet and latency totals of a session grow by exactly what is reported, each direction by itself; marks such as paused, limited, denied, secured and the vhost are kept independently of each other; '
     'a session that ends records which side ended it, once, and both sides are closed.',
     over(['inputs', 'histories'], 'every amount and every order of updates, every kind and order of errors'),
     'Tests update some of the fields once; mixing up two totals or marks shows only when they differ.',
     [LIB + 'amqpprox_sessionstate.cpp', LIB + 'amqpprox_sessionstate.h', LIB + 'amqpprox_session.cpp'],
     mech(('totals and marks', 'SessionState'), ('end of a session', 'Session::handleSessionError, Session::disconnect')),
     'Proof of each update of SessionState and of the functions that end a session; updates from several threads at once are outside.')

prop('P18', 'Statistics add up: totals grow by what each session did since',
     'Collecting a session adds exactly its traffic, and its ending of the right kind, to the overall, vhost, backend and source totals it belongs to, and to no others; figures of sessions that are gone stay in the totals, so that traffic is counted '
     'once whether its session is still there or not; the distribution of sessions and the fields of a statistic are each by themselves.',
     over(['inputs', 'histories'], 'every set of sessions, vhosts, backends and sources, every amount, every kind of ending, every order of sessions ending and collections'),
     'Tests collect a few sessions with small figures; adding to the wrong total shows only for particular combinations.',
     [LIB + 'amqpprox_statcollector.cpp', LIB + 'amqpprox_connectionstats.cpp', LIB + 'amqpprox_statsnapshot.cpp'],
     mech(('adding up', 'StatCollector::collect'), ('sessions that are gone', 'StatCollector::deletedSession'), ('fields', 'ConnectionStats')),
     'Proof of collect for each kind of ending, deletedSession, reset, addDistributionStats and the accessors of ConnectionStats from arbitrary totals, with collection by source enabled throughout and different remote ports of client and broker side. '
     'Bounded: populateStats and populateMap (differences between intervals) are exercised by the harness only.')

prop('P19', 'A paused vhost holds its new connections and lets the others go on',
     'A session that announces a paused vhost does not contact a broker and is neither answered nor disconnected; data it sends meanwhile is kept. Unpausing connects it exactly once and handles the kept data first, in order. '
     'Pausing and unpausing affects exactly the sessions of that vhost and the new sessions of it, and no other vhost.',
     over(['histories', 'schedules', 'inputs'], 'every sequence of pause and unpause, at every point of the connection set-up, for every vhost name'),
     'Tests pause one vhost once; the point at which pause or unpause arrives during resolving, authenticating or reading is not sampled.',
     [LIB + 'amqpprox_session.cpp', LIB + 'amqpprox_vhoststate.cpp', LIB + 'amqpprox_vhostcontrolcommand.cpp', LIB + 'amqpprox_vhostestablishedpauser.cpp', LIB + 'amqpprox_server.cpp'],
     mech(('holding back', 'Session::establishConnection, attemptConnection, readData'), ('resuming', 'Session::unpause'), ('which sessions', 'VhostControlCommand, vhostEstablishedPauser, Server::visitSessions, VhostState')),
     'Proof of each function from arbitrary states; assumed: posted handlers run one at a time, control command words are given in upper case.')

prop('P20', 'A backend that wants it gets the PROXY line first, and only once',
     'A backend configured for the PROXY protocol receives, before anything else and exactly once, the line "PROXY <family> <client address> <backend address> <client port> <backend port>" of PROXY protocol version 1 with the addresses and ports of this client and '
     'this backend; any other backend receives the AMQP protocol header first. TLS to the backend is used exactly when configured.',
     over(['inputs', 'configurations'], 'every client endpoint and every backend configuration'),
     'Tests use one pair of endpoints; swapped ports or addresses and wrong order with TLS show only for particular configurations.',
     [LIB + 'amqpprox_proxyprotocolheaderv1.cpp', LIB + 'amqpprox_session.cpp', LIB + 'amqpprox_connector.cpp'],
     mech(('text', 'operator<<(ProxyProtocolHeaderV1)'), ('contents', 'Session::getProxyProtocolHeader'), ('order', 'Session::attemptEndpointConnection')),
     'Proof of the text, of its contents and of the order of what is written after connecting.')

prop('P24', 'Only a successful answer of the authentication service lets a client in',
     'Each question is put to the configured service, at its host, port and target and with a time limit on each step, and is answered exactly once: with the decision of the service as it was received, or with a denial. '
     'Whatever goes wrong (the service cannot be found, reached or written to, closes early, answers with something that is not understood, or with an HTTP status other than success) never allows.',
     over(['inputs', 'histories'], 'every failure at every step, every status and every body'),
     'Tests use a stand-in for the service that always answers; an empty body is a valid message that says ALLOW, so that errors reported without a body pass for it.',
     [LIB + 'amqpprox_httpauthintercept.cpp', LIB + 'amqpprox_httpauthintercept.h'],
     mech(('steps', 'HttpAuthIntercept::authenticate, onResolve, onConnect, onWrite'), ('decision', 'HttpAuthIntercept::onRead')),
     'Proof of each step for every error code, status and parse result; assumed: Boost.Beast runs each completion handler exactly once, a time limit that expires is reported as an error, protobuf parses and writes messages.')

prop('P25', 'A control command changes exactly what it names',
     'A line given to the control interface runs the command its first word names, in any mix of cases, with the rest of the line as its words. MAP, BACKEND, FARM, DATACENTER, LIMIT, AUTH, VHOST, SESSION, TLS and LISTEN then do what they describe to exactly '
     'the mapping, backend, farm, limit, service, virtual host, session, direction or port that is named, with the names and numbers as given; a line with an unknown word, a missing word or a number that is none or out of range changes nothing. '
     'Ports are 1 to 65535. (The list of ciphers, LIMIT and SESSION with a negative number and DATACENTER SET without a name are left out.)',
     over(['inputs', 'histories'], 'every line, after every sequence of commands'),
     'Tests of the commands give a few well-formed lines to stand-ins; what is wrong in a line, and what it must then leave alone, is hardly tried.',
     [LIB + f for f in ('amqpprox_control.cpp', 'amqpprox_mapcontrolcommand.cpp', 'amqpprox_backendcontrolcommand.cpp', 'amqpprox_farmcontrolcommand.cpp', 'amqpprox_datacentercontrolcommand.cpp', 'amqpprox_limitcontrolcommand.cpp',
                        'amqpprox_authcontrolcommand.cpp', 'amqpprox_vhostcontrolcommand.cpp', 'amqpprox_sessioncontrolcommand.cpp', 'amqpprox_tlscontrolcommand.cpp', 'amqpprox_listencontrolcommand.cpp')],
     mech(('which command', 'ControlSession::processInput'), ('what it changes', 'handleCommand of the ten commands')),
     'Proof of each handleCommand for any words (up to 7; any number for the backends of a farm and the TLS modes), numbers and failures, against observed calls to what it changes; assumed: the stream operators that split a line into words and read numbers, boost::to_upper.')

na('P21', 'Sessions and the control interface never race',
   'Sessions, the control interface and statistics run on their threads without data races or deadlocks, whatever the interleaving.',
   over(['schedules'], 'every interleaving of the threads'),
   'Tests run one interleaving.',
   [LIB + 'amqpprox_server.cpp', LIB + 'amqpprox_sessionstate.h', LIB + 'amqpprox_farm.cpp'],
   mech(('locks', 'd_mutex members'), ('one io_context per server', 'Server')),
   'The contracts are sequential: the verification-condition generator executes one function at a time and has no notion of ownership of locks or of interleaving; a concurrent separation logic for C++ is not available here.')

na('P22', 'Every session ends and frees what it holds',
   'A session whose client or broker is gone eventually ends, and then its sockets, timers and memory are freed.',
   over(['histories', 'schedules'], 'every order of errors and completions'),
   'Tests end a few sessions in the expected order.',
   [LIB + 'amqpprox_session.cpp', LIB + 'amqpprox_server.cpp'],
   mech(('closing', 'Session::disconnect, handleSessionError'), ('removal', 'Server::removeSession')),
   'Termination of a chain of asynchronous completions is a liveness property of the event loop; the contracts express partial correctness of single functions (what ending a session does is P17).')

na('P23', 'TLS traffic is confidential and authenticated as configured',
   'Connections configured for TLS are encrypted and verify the peer as configured.',
   over(['configurations', 'inputs'], 'every TLS configuration and peer'),
   'Tests do not attack TLS.',
   [LIB + 'amqpprox_maybesecuresocketadaptor.h', LIB + 'amqpprox_tlsutil.cpp'],
   mech(('TLS', 'boost::asio::ssl, OpenSSL')),
   'The guarantee is provided by OpenSSL, of which only assumed contracts are possible here; that TLS is used exactly when configured is part of P20.')
