# (property, file, old, new)
S='session'; C='connector'; PP='packetprocessor'
M = [
 # P06
 ('P06', PP, 'd_remainingBuffer = Buffer(nextFrame, remaining);\n}', 'if (remaining >= Frame::frameHeaderSize() || d_connector.state() != Connector::State::OPEN)\n    d_remainingBuffer = Buffer(nextFrame, remaining);\n    else d_remainingBuffer = Buffer(readBuffer.originalPtr(), remaining);\n}'),
 ('P06', PP, 'if (method.classType == 10) {', 'if (method.classType == 10 && frame.channel == 0 && frameCount < 3) {'),
 ('P06', PP, '    Frame frame;\n    int   frameCount = 0;', '    Frame frame;\n    uint8_t   frameCount = 0;'),
 ('P06', S, 'if (0 == watermark) {\n            bufferHandle(direction).release();\n            bufferWriteDataHandle(direction).release();', 'if (0 == watermark || !d_connector.outBuffer().size()) {\n            bufferHandle(direction).release();\n            bufferWriteDataHandle(direction).release();'),
 ('P06', S, 'watermark += readAmount;', 'watermark = std::min(watermark + readAmount, bufh.size());\n                if (watermark == bufh.size()) watermark = readAmount;'),
 ('P06', S, 'available = std::max(available, 1ul);', 'available = std::max(available, 1ul);\n            available = std::min(available, Frame::getMaxFrameSize());\n            if (waterMark(direction) == 7) waterMark(direction) = 8;'),
 ('P06', S, 'else if (egressWrite.size()) {', 'else if (egressWrite.size() > 1) {'),
 # P07
 ('P07', C, 'd_state = State::TUNE_SENT;', 'd_state = d_startOk.locale().empty() ? State::AWAITING_OPEN : State::TUNE_SENT;'),
 ('P07', C, 'if (direction == FlowType::EGRESS) {\n                d_state = State::CLOSED;', 'if (direction == FlowType::EGRESS || isClose) {\n                d_state = State::CLOSED;'),
 ('P07', C, 'sendResponse(d_tuneOk, false);\n        sendResponse(d_open, false);', 'sendResponse(d_open, false);\n        d_buffer = Buffer();\n        sendResponse(d_tuneOk, false);\n        sendResponse(d_open, false);\n        if (d_receivedTune.heartbeatInterval() == 1) d_state = State::OPEN;\n        else'),
 ('P07', C, 'memcpy(expandedBuffer.data(),\n                   d_synthesizedReplyBuffer.data(),\n                   existingResponseData);', 'memcpy(expandedBuffer.data(),\n                   d_synthesizedReplyBuffer.data(),\n                   std::min<std::size_t>(existingResponseData, 255));'),
 ('P07', C, 'method.classType == methods::Close::classType() &&\n            direction == FlowType::EGRESS', 'method.classType == methods::Close::classType()'),
 ('P07', C, 'if (!d_reconnection) {\n                sendResponse(d_openOk, true);\n            }', 'd_reconnection = d_reconnection || d_receivedTune.channelMax() == 0;\n            if (!d_reconnection) {\n                sendResponse(d_openOk, true);\n            }'),
 ('P07', C, '    replyMethod.setReply(code, std::string(text), classId, methodId);', '    if (replyMethod.replyString().empty() || code != Reply::Codes::reply_success)\n    replyMethod.setReply(code, std::string(text), classId, methodId);'),
 # P08
 ('P08', 'connectorutil', 'remoteClient << clientHostname << ":" << clientRemotePort;', 'remoteClient << clientHostname.substr(0, 63) << ":" << clientRemotePort;'),
 ('P08', 'connectorutil', 'if (isIngressSecured) {\n        remoteClient', 'if (isIngressSecured && inboundListenPort != 5672) {\n        remoteClient'),
 ('P08', C, 'd_startOk.setCredentials(credentials);', 'if (!credentials.empty()) d_startOk.setCredentials(credentials);'),
 ('P08', C, 'd_startOk.properties().pushField("amqpprox_auth",', 'FieldValue had(\'S\', std::string());\n    if (!d_startOk.properties().findFieldValue(&had, "amqpprox_auth"))\n    d_startOk.properties().pushField("amqpprox_auth",'),
 ('P08', C, 'auto outboundLocalPort = d_sessionState_p->getEgress().first.port();', 'auto outboundLocalPort = d_sessionState_p->getEgress().second.port();'),
 # P09
 ('P09', S, 'if (authResponseData.result() == authproto::AuthResponse::DENY) {', 'if (authResponseData.result() == authproto::AuthResponse::DENY && !authResponseData.has_authdata()) {'),
 ('P09', S, 'else if (authResponseData.result() == authproto::AuthResponse::ALLOW) {', 'else if (authResponseData.result() != authproto::AuthResponse::DENY) {'),
 ('P09', S, 'fv.type() == \'t\') {\n            bool authenticationFailureClose = fv.value<bool>();', 'fv.type() == \'t\') {\n            bool authenticationFailureClose = fv.value<bool>() && !reason.empty();'),
 ('P09', S, 'authRequestData.set_clienthostname(\n        d_sessionState.hostname(d_sessionState.getIngress().second));', 'authRequestData.set_clienthostname(\n        d_sessionState.hostname(d_sessionState.getIngress().first));'),
 ('P09', S, 'if (authResponseData.has_authdata()) {\n                authproto::SASL sasl = authResponseData.authdata();', 'if (authResponseData.has_authdata() && !authResponseData.authdata().credentials().empty()) {\n                authproto::SASL sasl = authResponseData.authdata();'),
 ('P09', S, '    d_sessionState.setAuthDeniedConnection(true);\n    std::shared_ptr', '    std::shared_ptr'),
 # P10
 ('P10', 'fixedwindowconnectionratelimiter', 'd_lastTime     = currentTime;', 'd_lastTime     += d_timeWindowInMs;'),
 ('P10', 'fixedwindowconnectionratelimiter', 'd_lastTime     = currentTime;\n        d_currentCount = 0;', 'd_lastTime     = currentTime;\n        d_currentCount -= std::min(d_currentCount, d_connectionLimit);'),
 ('P10', 'fixedwindowconnectionratelimiter', 'currentTime - d_lastTime) >= d_timeWindowInMs', 'currentTime - d_lastTime) > d_timeWindowInMs'),
 # P11
 ('P11', 'connectionlimitermanager', 'd_defaultConnectionRateLimit.reset();\n    for', 'd_defaultConnectionRateLimit.reset();\n    if (d_connectionRateLimitersPerVhost.size() > 1)\n    for'),
 ('P11', 'connectionlimitermanager', '    if (d_defaultConnectionRateLimit) {\n        d_connectionRateLimitersPerVhost[vhostName] = {', '    if (d_defaultConnectionRateLimit && d_connectionRateLimitersPerVhost.count(vhostName)) {\n        d_connectionRateLimitersPerVhost[vhostName] = {'),
 ('P11', 'connectionlimitermanager', 'if (!limiter.second.first) {\n            limiter.second.second =\n                std::make_shared<FixedWindowConnectionRateLimiter>(\n                    *d_defaultConnectionRateLimit);', 'if (!limiter.second.first || limiter.second.second->toString().empty() || limiter.first.empty()) {\n            limiter.second.second =\n                std::make_shared<FixedWindowConnectionRateLimiter>(\n                    *d_defaultConnectionRateLimit);'),
 ('P11', 'connectionlimitermanager', '    auto limiter = d_connectionRateLimitersPerVhost.find(vhostName);\n    if (limiter != d_connectionRateLimitersPerVhost.end()) {\n        if (!(', '    auto limiter = d_connectionRateLimitersPerVhost.find(vhostName);\n    if (limiter == d_connectionRateLimitersPerVhost.end()) limiter = d_connectionRateLimitersPerVhost.find("/" + vhostName);\n    if (limiter != d_connectionRateLimitersPerVhost.end()) {\n        if (!('),
 # P12
 ('P12', 'dataratelimit', 'd_remainingQuota -= std::min(d_remainingQuota, bytesRead);', 'd_remainingQuota -= std::min(d_remainingQuota, bytesRead & 0xffff);'),
 ('P12', 'dataratelimit', 'if (d_quota < d_remainingQuota) {', 'if (d_quota != 0 && d_quota < d_remainingQuota) {'),
 ('P12', 'maybesecuresocketadaptor.h', 'd_dataRateTimer->expires_at(d_dataRateTimer->expiry());', 'd_dataRateTimer->expires_after(std::chrono::milliseconds(1000));'),
 ('P12', 'maybesecuresocketadaptor.h', 'self->onTimer(error);\n                        self->async_read_some', 'self->async_read_some'),
 ('P12', S, 'd_serverSocket->setReadRateAlarm(alarm);', 'd_serverSocket->setReadRateAlarm(limit);'),
 ('P12', 'dataratelimitmanager', 'd_vhostDataRateAlarmQuota.erase(vhostName);', 'd_vhostDataRateAlarmQuota.erase(vhostName);\n    if (d_vhostDataRateQuota.count(vhostName) && d_vhostDataRateQuota[vhostName] == d_defaultDataRateAlarmQuota) d_vhostDataRateQuota.erase(vhostName);'),
 # P13
 ('P13', 'robinbackendselector', 'uint64_t point = (marker + retry) % partitionSize;', 'uint64_t point = (backendSet->markers()[i] + retry) % partitionSize;'),
 ('P13', 'connectionmanager', 'if (retryCount > 0) {', 'if (retryCount > 1) {'),
 ('P13', 'robinbackendselector', 'if (retry >= partitionSize) {\n            retry -= partitionSize;', 'if (retry >= partitionSize) {\n            retry -= partitionSize;\n            if (!partitionSize) return nullptr;'),
 # P14
 ('P14', 'affinitypartitionpolicy', 'if (noAffinity.size() > 0) {', 'if (noAffinity.size() > 0 && noAffinity != partition) {'),
 ('P14', 'farm', 'd_backendMembers.erase(backend);\n    doRepartitionWhileLocked(lg);', 'if (d_backendMembers.erase(backend) && !d_backendMembers.empty())\n    doRepartitionWhileLocked(lg);'),
 ('P14', 'farm', 'for (auto policy : d_partitionPolicies) {', 'std::sort(d_partitionPolicies.begin(), d_partitionPolicies.end());\n    for (auto policy : d_partitionPolicies) {'),
 # P15
 ('P15', 'backendstore', 'd_backends.insert(std::make_pair(backend.name(), backend));', 'd_backends.insert(std::make_pair(backend.name().substr(0, 255), backend));'),
 ('P15', 'farmstore', 'if (d_farms.count(farm->name()) > 0) {', 'if (d_farms.count(farm->name()) > 1) {'),
 ('P15', S, 'd_resolvedEndpointsIndex = 0;\n            attemptResolvedConnection(connectionManager);', 'attemptResolvedConnection(connectionManager);'),
 ('P15', S, 'd_egressRetryCounter++;\n            attemptConnection(connectionManager);', 'd_egressRetryCounter++;\n            if (ec) attemptConnection(connectionManager); else disconnect(true);'),
 ('P15', S, 'if (currentBackend && currentBackend->dnsBasedEntry()) {', 'if (currentBackend) {'),
 ('P15', 'connectionselector', 'd_defaultFarmName.empty()', 'd_defaultFarmName.empty() || sessionState.getVirtualHost().empty()'),
 ('P15', 'resourcemapper', 'd_mappings[vhost] = std::make_pair(false, backendName);', 'd_mappings.insert(std::make_pair(vhost, std::make_pair(false, backendName)));'),
 # P16
 ('P16', 'bufferpool', 'handle->assign(source->acquire(), sz, source.get());', 'handle->assign(source->acquire(), source->bufferSize() - sz > 4096 ? source->bufferSize() : sz, source.get());'),
 ('P16', 'bufferpool', 'if (allocCount > deallocCount) {', 'if (allocCount > deallocCount && highwaterMark > 1) {'),
 ('P16', 'bufferpool', 'if (sz <= source->bufferSize()) {', 'if (sz < source->bufferSize() || (sz == source->bufferSize() && &source == &d_bufferSources.back())) {'),
 ('P16', 'bufferhandle', 'std::swap(d_source, rhs.d_source);', 'if (d_source != rhs.d_source && d_data) std::swap(d_source, rhs.d_source);'),
 ('P16', 'buffersource', 'd_highWater.store(std::max(d_highWater.load(std::memory_order_relaxed),\n                               allocCount - deallocCount),', 'd_highWater.store(std::max<uint32_t>(d_highWater.load(std::memory_order_relaxed),\n                               allocCount - deallocCount),'),
 # P17
 ('P17', S, 'else if (d_sessionState.getDisconnectType() ==\n             SessionState::DisconnectType::NOT_DISCONNECTED) {', 'else if (d_sessionState.getDisconnectType() !=\n             SessionState::DisconnectType::DISCONNECTED_PROXY) {'),
 ('P17', S, 'd_clientSocket->close(clientCloseEc);\n        d_serverSocket->close(serverCloseEc);', 'd_clientSocket->close(clientCloseEc);\n        if (!clientCloseEc) d_serverSocket->close(serverCloseEc);'),
 # P18
 ('P18', 'statcollector', 'discoStatus == DiscoType::DISCONNECTED_CLEANLY ||\n                 discoStatus == DiscoType::DISCONNECTED_PROXY', 'discoStatus == DiscoType::DISCONNECTED_CLEANLY'),
 ('P18', 'statcollector', 'map->swap(output);', 'if (!output.empty()) map->swap(output);'),
 ('P18', 'statcollector', 'name, -prevDistribution.first, -prevDistribution.second);\n        }\n    }', 'name, -prevDistribution.first, prevDistribution.second ? -prevDistribution.second : -1);\n        }\n    }'),
 ('P18', 'statcollector', 'd_previous.swap(d_current);\n    StatSnapshot temp;\n    d_current.swap(temp);', 'd_previous.swap(d_current);\n    if (d_current.vhosts().size() > 8) return;\n    StatSnapshot temp;\n    d_current.swap(temp);'),
 # P19
 ('P19', S, 'if (direction == FlowType::EGRESS ||\n                    !d_sessionState.getPaused()) {', 'if (direction == FlowType::EGRESS ||\n                    !d_sessionState.getPaused() || !d_sessionState.getReadyToConnectOnUnpause()) {'),
 ('P19', S, 'establishConnection();\n\n            // Anything', 'd_ioContext.post([this, self = shared_from_this()] { establishConnection(); });\n\n            // Anything'),
 ('P19', S, '            d_sessionState.setReadyToConnectOnUnpause(false);\n', ''),
 ('P19', 'vhostcontrolcommand', 'd_vhostState_p->setPaused(vhost, true);\n        serverHandle->visitSessions(visitor);', 'serverHandle->visitSessions(visitor);\n        if (!vhost.empty() && vhost[0] == \'/\') d_vhostState_p->setPaused(vhost.substr(1), true);\n        d_vhostState_p->setPaused(vhost, true);'),
 ('P19', 'vhoststate', 'return d_vhosts[vhost].isPaused();', 'return d_vhosts[vhost].isPaused() || (d_vhosts.size() > 2 && d_vhosts["/"].isPaused());'),
 # P20
 ('P20', S, 'remoteClient.port(),\n                              currentBackend->port());', 'remoteClient.port(),\n                              d_sessionState.getEgress().second.port());'),
 ('P20', S, 'd_clientSocket->setSecure(currentBackend->tlsEnabled());', 'd_clientSocket->setSecure(currentBackend->tlsEnabled() && !currentBackend->proxyProtocolEnabled());'),
 ('P20', S, 'currentBackend->ip(),\n                              remoteClient.port(),', 'currentBackend->host(),\n                              remoteClient.port(),'),
 # P05
 ('P05', 'frame', 'if ((frame.length + frameOverhead()) > getMaxFrameSize()) {', 'if (frame.length > getMaxFrameSize()) {'),
 ('P05', 'frame', 'if ((frameOverhead() + frame->length) > bufferLen) {\n', 'if ((uint32_t)(frameOverhead() + frame->length) > bufferLen) {\n'),
]

# behaviour-preserving: (properties, file, [(old, new), ...])
R = [
 (['P06','P01','P05'], PP, [('    while (remaining >= Frame::frameOverhead()) {\n        const void *currFrame = nextFrame;', '    for (;;) {\n        if (!(remaining >= Frame::frameOverhead())) {\n            break;\n        }\n        const void *currFrame = nextFrame;')]),
 (['P06'], PP, [('''        if (direction == FlowType::INGRESS) {
            d_egressWriteBuffer  = Buffer(readBuffer.originalPtr(), byteCount);
            d_ingressWriteBuffer = Buffer();
            d_state.incrementIngressTotals(frameCount, byteCount);
        }
        else {
            d_egressWriteBuffer  = Buffer();
            d_ingressWriteBuffer = Buffer(readBuffer.originalPtr(), byteCount);
            d_state.incrementEgressTotals(frameCount, byteCount);
        }''', '''        const Buffer passed(readBuffer.originalPtr(), byteCount);
        if (direction != FlowType::INGRESS) {
            d_state.incrementEgressTotals(frameCount, byteCount);
            d_ingressWriteBuffer = passed;
            d_egressWriteBuffer  = Buffer();
        }
        else {
            d_state.incrementIngressTotals(frameCount, byteCount);
            d_ingressWriteBuffer = Buffer();
            d_egressWriteBuffer  = passed;
        }''')]),
 (['P06','P19'], S, [('watermark += readAmount;\n                if (direction == FlowType::EGRESS ||\n                    !d_sessionState.getPaused()) {\n                    handleData(direction);\n                }\n                else {\n                    d_ingressHeldWhilePaused = true;\n                }', 'watermark = watermark + readAmount;\n                const bool hold = direction == FlowType::INGRESS && d_sessionState.getPaused();\n                if (hold) {\n                    d_ingressHeldWhilePaused = true;\n                }\n                else {\n                    handleData(direction);\n                }')]),
 (['P06','P07','P17'], S, [('        bool isOpen = d_connector.state() == Connector::State::OPEN;\n        if (ingressWrite.size()) {\n            handleWriteData(isOpen ? FlowType::EGRESS : FlowType::INGRESS,\n                            *d_serverSocket,\n                            ingressWrite);\n        }', '        const bool     isOpen = d_connector.state() == Connector::State::OPEN;\n        const FlowType ingressFlow = isOpen ? FlowType::EGRESS : FlowType::INGRESS;\n        if (ingressWrite.size() != 0) {\n            handleWriteData(ingressFlow, *d_serverSocket, ingressWrite);\n        }')]),
 (['P06'], S, [('        uint64_t latency =\n            std::chrono::duration_cast<std::chrono::milliseconds>(\n                TimePoint() - startedAt(direction))\n                .count();\n\n        if (direction == FlowType::INGRESS) {\n            d_sessionState.addIngressLatency(latency);\n        }\n        else {\n            d_sessionState.addEgressLatency(latency);\n        }\n        currentlyReading(direction) = false;', '        const auto elapsed = TimePoint() - startedAt(direction);\n        currentlyReading(direction) = false;\n        uint64_t latency =\n            std::chrono::duration_cast<std::chrono::milliseconds>(elapsed)\n                .count();\n        if (direction == FlowType::EGRESS) {\n            d_sessionState.addEgressLatency(latency);\n        }\n        else {\n            d_sessionState.addIngressLatency(latency);\n        }')]),
 (['P07','P08'], C, [('        sendResponse(d_tuneOk, false);\n        sendResponse(d_open, false);\n        d_state = State::OPEN_SENT;', '        const bool toClient = false;\n        sendResponse(d_tuneOk, toClient);\n        sendResponse(d_open, toClient);\n        d_state = State::OPEN_SENT;')]),
 (['P07'], C, [('    d_state = sendToIngressSide ? State::CLIENT_CLOSE_SENT\n                                : State::SERVER_CLOSE_SENT;', '    if (sendToIngressSide) {\n        d_state = State::CLIENT_CLOSE_SENT;\n    }\n    else {\n        d_state = State::SERVER_CLOSE_SENT;\n    }')]),
 (['P07','P06'], C, [('        std::size_t newLength            = f.length + Frame::frameOverhead();\n', '        const std::size_t newLength            = Frame::frameOverhead() + f.length;\n'), ('d_bufferPool_p->acquireBuffer(&expandedBuffer,\n                                          newLength + existingResponseData);', 'd_bufferPool_p->acquireBuffer(&expandedBuffer,\n                                          existingResponseData + newLength);')]),
 (['P07'], C, [('    if (direction != expectedDirection) {\n        std::ostringstream oss;\n        oss << "Unexpected " << typeid(T).name() << " from " << direction;\n        throw std::runtime_error(oss.str());\n    }\n\n    if (!T::decode', '    if (expectedDirection != direction) {\n        throw std::runtime_error(std::string("Unexpected ") + typeid(T).name());\n    }\n\n    if (!T::decode')]),
 (['P07','P08'], C, [('        auto clientEndpoint    = d_sessionState_p->getIngress().second;\n        auto inboundListenPort = d_sessionState_p->getIngress().first.port();\n        auto outboundLocalPort = d_sessionState_p->getEgress().first.port();', '        const auto ingress           = d_sessionState_p->getIngress();\n        const auto clientEndpoint    = ingress.second;\n        const auto outboundLocalPort = d_sessionState_p->getEgress().first.port();\n        const auto inboundListenPort = ingress.first.port();')]),
 (['P08'], 'connectorutil', [('    std::stringstream remoteClient;\n    remoteClient << clientHostname << ":" << clientRemotePort;\n    if (isIngressSecured) {\n        remoteClient << " TLS";\n    }\n    startOk->properties().pushField("amqpprox_client",\n                                    FieldValue(\'S\', remoteClient.str()));', '    std::string remoteClient = clientHostname + ":" + std::to_string(clientRemotePort);\n    if (isIngressSecured) {\n        remoteClient += " TLS";\n    }\n    startOk->properties().pushField("amqpprox_client",\n                                    FieldValue(\'S\', remoteClient));')]),
 (['P08'], 'connectorutil', [('    startOk->properties().pushField("amqpprox_client",', '    auto &properties = startOk->properties();\n    properties.pushField("amqpprox_client",')]),
 (['P09','P15','P19'], S, [('        if (authResponseData.result() == authproto::AuthResponse::DENY) {\n            LOG_ERROR', '        const auto verdict = authResponseData.result();\n        if (verdict == authproto::AuthResponse::DENY) {\n            LOG_ERROR'), ('        else if (authResponseData.result() == authproto::AuthResponse::ALLOW) {', '        else if (verdict == authproto::AuthResponse::ALLOW) {')]),
 (['P09','P15'], S, [('    const std::pair<const std::string, const std::string> sasl =\n        d_connector.getAuthMechanismCredentials();\n', '    const auto [mechanism, credentials] = d_connector.getAuthMechanismCredentials();\n'), ('saslPtr->set_authmechanism(sasl.first);\n    saslPtr->set_credentials(sasl.second);', 'saslPtr->set_credentials(credentials);\n    saslPtr->set_authmechanism(mechanism);')]),
 (['P09'], S, [('            if (authenticationFailureClose) {\n                d_connector', '            const auto shown = reason.substr(0, sendSize);\n            if (authenticationFailureClose) {\n                d_connector'), ('                    reason.substr(0, sendSize),', '                    shown,')]),
 (['P10','P11'], 'fixedwindowconnectionratelimiter', [('    if (d_currentCount >= d_connectionLimit)\n        return false;\n\n    d_currentCount += 1;\n    return true;', '    const bool allowed = d_currentCount < d_connectionLimit;\n    if (allowed) {\n        ++d_currentCount;\n    }\n    return allowed;')]),
 (['P10'], 'fixedwindowconnectionratelimiter', [('    if (std::chrono::duration_cast<std::chrono::milliseconds>(\n            currentTime - d_lastTime) >= d_timeWindowInMs) {', '    const auto elapsed = std::chrono::duration_cast<std::chrono::milliseconds>(currentTime - d_lastTime);\n    const bool windowOver = !(elapsed < d_timeWindowInMs);\n    if (windowOver) {')]),
 (['P11'], 'connectionlimitermanager', [('    for (auto &limiter : d_connectionRateLimitersPerVhost) {\n        if (!limiter.second.first) {\n            limiter.second.second =', '    for (auto it = d_connectionRateLimitersPerVhost.begin(); it != d_connectionRateLimitersPerVhost.end(); ++it) {\n        auto &limiter = *it;\n        const bool own = limiter.second.first;\n        if (own) {\n            continue;\n        }\n        {\n            limiter.second.second =')]),
 (['P11'], 'connectionlimitermanager', [('    if (limitersPerVhost.find(vhostName) == limitersPerVhost.end()) {\n        if (defaultLimit) {\n            limitersPerVhost[vhostName] = {\n                false,\n                std::make_shared<FixedWindowConnectionRateLimiter>(\n                    *defaultLimit)};\n        }\n    }', '    if (!defaultLimit || limitersPerVhost.count(vhostName) > 0) {\n        return;\n    }\n    limitersPerVhost[vhostName] = {false, std::make_shared<FixedWindowConnectionRateLimiter>(defaultLimit.value())};')]),
 (['P11'], 'connectionlimitermanager', [('        if (!it->second.first) {\n            it = d_connectionRateLimitersPerVhost.erase(it);\n        }\n        else {\n            ++it;\n        }', '        auto current = it++;\n        if (!current->second.first) {\n            d_connectionRateLimitersPerVhost.erase(current);\n        }')]),
 (['P11'], 'connectionlimitermanager', [('    d_connectionRateLimitersPerVhost[vhostName] = {true,\n                                                   connectionRateLimiter};', '    d_connectionRateLimitersPerVhost.insert_or_assign(vhostName, std::make_pair(true, std::shared_ptr<ConnectionLimiterInterface>(connectionRateLimiter)));')]),
 (['P12'], 'dataratelimit', [('    if (d_quota < d_remainingQuota) {\n        // Apply the updated, restricted quota without needing to synchronise\n        // setQuota and recordUsage\n        d_remainingQuota = d_quota;\n    }\n    d_remainingQuota -= std::min(d_remainingQuota, bytesRead);', '    d_remainingQuota = std::min(d_remainingQuota, d_quota.load());\n    if (bytesRead >= d_remainingQuota) {\n        d_remainingQuota = 0;\n    }\n    else {\n        d_remainingQuota -= bytesRead;\n    }')]),
 (['P12'], 'dataratelimitmanager', [('    auto vhostRate = d_vhostDataRateQuota.find(vhostName);\n    if (vhostRate == d_vhostDataRateQuota.end()) {\n        return d_defaultDataRateQuota;\n    }\n\n    return vhostRate->second;', '    const auto vhostRate = d_vhostDataRateQuota.find(vhostName);\n    return vhostRate != d_vhostDataRateQuota.end() ? vhostRate->second : d_defaultDataRateQuota;')]),
 (['P13'], 'robinbackendselector', [('    uint64_t i     = 0;\n    for (const auto &marker : markers) {\n        uint64_t partitionSize = backendSet->partitions()[i].size();', '    const auto &partitions = backendSet->partitions();\n    for (uint64_t i = 0; i < markers.size(); ++i) {\n        const uint64_t marker = markers[i];\n        uint64_t partitionSize = partitions[i].size();'), ('        ++i;\n    }', '    }')]),
 (['P13'], 'robinbackendselector', [('        if (retry >= partitionSize) {\n            retry -= partitionSize;\n        }\n        else {\n            uint64_t point = (marker + retry) % partitionSize;\n            backendSet->markPartition(i);\n            return backendSet->partitions()[i][point];\n        }\n', '        if (retry < partitionSize) {\n            const auto &partition = backendSet->partitions()[i];\n            const Backend *chosen = partition[(marker + retry) % partitionSize];\n            backendSet->markPartition(i);\n            return chosen;\n        }\n        retry -= partitionSize;\n')]),
 (['P13','P15'], 'connectionmanager', [('        if (retryCount > 0) {\n            return nullptr;\n        }', '        if (retryCount != 0) {\n            return nullptr;\n        }'), ('partitions.size() == 0', 'partitions.empty()'), ('backends.size() == 0', 'backends.empty()')]),
 (['P14'], 'affinitypartitionpolicy', [('        BackendSet::Partition withAffinity;\n        BackendSet::Partition noAffinity;\n', '        BackendSet::Partition noAffinity;\n        BackendSet::Partition withAffinity;\n'), ('        if (withAffinity.size() > 0) {', '        if (!withAffinity.empty()) {'), ('        if (noAffinity.size() > 0) {', '        if (!noAffinity.empty()) {')]),
 (['P14'], 'affinitypartitionpolicy', [('        for (const auto &backend : partition) {\n            if (backend->datacenterTag() == d_datacenter_p->get()) {\n                withAffinity.push_back(backend);\n            }\n            else {\n                noAffinity.push_back(backend);\n            }\n        }', '        for (std::size_t i = 0; i < partition.size(); ++i) {\n            const Backend *backend = partition[i];\n            const bool     local   = backend->datacenterTag() == d_datacenter_p->get();\n            (local ? withAffinity : noAffinity).push_back(backend);\n        }')]),
 (['P14'], 'affinitypartitionpolicy', [('    for (const auto &partition : backendSet->partitions()) {\n', '    const std::string here = d_datacenter_p->get();\n    for (const auto &partition : backendSet->partitions()) {\n'), ('backend->datacenterTag() == d_datacenter_p->get()', 'here == backend->datacenterTag()')]),
 (['P14'], 'farm', [('    for (const auto &member : d_backendMembers) {\n        initialPartition.push_back(d_backendStore_p->lookup(member));\n    }', '    initialPartition.reserve(d_backendMembers.size());\n    for (auto it = d_backendMembers.begin(); it != d_backendMembers.end(); ++it) {\n        const Backend *backend = d_backendStore_p->lookup(*it);\n        initialPartition.push_back(backend);\n    }')]),
 (['P14'], 'farm', [('    for (auto policy : d_partitionPolicies) {\n        newSet = policy->partition(newSet);\n    }\n', '    for (std::size_t i = 0; i != d_partitionPolicies.size(); ++i) {\n        auto next = d_partitionPolicies[i]->partition(newSet);\n        newSet = next;\n    }\n'), ('    d_backendSet = newSet;', '    d_backendSet = std::move(newSet);')]),
 (['P15'], 'backendstore', [('    auto namedBackend = lookup(backend.name());\n    if (namedBackend) {\n        return 1;\n    }\n\n    std::lock_guard<std::mutex> lg(d_mutex);\n    d_backends.insert(std::make_pair(backend.name(), backend));\n\n    auto addrKey = std::make_pair(backend.ip(), backend.port());\n    return 0;', '    std::lock_guard<std::mutex> lg(d_mutex);\n    return d_backends.emplace(backend.name(), backend).second ? 0 : 1;')]),
 (['P15'], 'resourcemapper', [('        auto val      = it->second;\n        *isFarm       = val.first;\n        *resourceName = val.second;\n        return true;', '        *resourceName = it->second.second;\n        *isFarm       = it->second.first;\n        return true;')]),
 (['P15'], 'farmstore', [('    if (d_farms.count(farm->name()) > 0) {\n        d_farms[farm->name()] = std::move(farm);\n    }\n    else {\n        d_farms.emplace(std::make_pair(farm->name(), std::move(farm)));\n    }', '    const std::string name = farm->name();\n    d_farms[name] = std::move(farm);')]),
 (['P15','P13'], 'connectionselector', [('            const auto &farm = d_farmStore_p->getFarmByName(resourceName);\n            connectionManager.reset(new ConnectionManager(\n                farm.backendSet(), farm.backendSelector()));', '            const auto &farm = d_farmStore_p->getFarmByName(resourceName);\n            auto backends = farm.backendSet();\n            connectionManager = std::make_shared<ConnectionManager>(backends, farm.backendSelector());')]),
 (['P15','P20','P19'], S, [('        auto index    = d_resolvedEndpointsIndex++;\n        auto endpoint = d_resolvedEndpoints[index];', '        const auto index    = d_resolvedEndpointsIndex;\n        const auto endpoint = d_resolvedEndpoints.at(index);\n        d_resolvedEndpointsIndex += 1;')]),
 (['P15'], S, [('                d_resolvedEndpoints.resize(0);\n                d_resolvedEndpoints.push_back(endpoints[0]);', '                d_resolvedEndpoints.assign(1, endpoints.front());')]),
 (['P16','P06'], 'bufferhandle', [('    if (d_source) {\n        d_source->release(d_data);\n    }\n    else {\n        if (d_data) {\n            delete[] static_cast<char *>(d_data);\n        }\n    }\n', '    if (d_source != nullptr) {\n        d_source->release(d_data);\n    }\n    else {\n        delete[] static_cast<char *>(d_data);\n    }\n')]),
 (['P16'], 'bufferpool', [('    for (auto &source : d_bufferSources) {\n        if (sz <= source->bufferSize()) {\n            handle->assign(source->acquire(), sz, source.get());\n            return;\n        }\n    }', '    for (std::size_t i = 0; i < d_bufferSources.size(); ++i) {\n        BufferSource *source = d_bufferSources[i].get();\n        if (source->bufferSize() < sz) {\n            continue;\n        }\n        void *data = source->acquire();\n        handle->assign(data, sz, source);\n        return;\n    }')]),
 (['P16'], 'bufferpool', [('    for (auto &source : d_bufferSources) {\n        if (sz <= source->bufferSize()) {\n            handle->assign(source->acquire(), sz, source.get());\n            return;\n        }\n    }', '    auto found = std::find_if(d_bufferSources.begin(), d_bufferSources.end(), [sz](const auto &s) { return sz <= s->bufferSize(); });\n    if (found != d_bufferSources.end()) {\n        handle->assign((*found)->acquire(), sz, found->get());\n        return;\n    }')]),
 (['P16'], 'bufferhandle', [('    std::swap(d_data, rhs.d_data);\n    std::swap(d_size, rhs.d_size);\n    std::swap(d_source, rhs.d_source);', '    BufferSource *source = d_source;\n    d_source = rhs.d_source;\n    rhs.d_source = source;\n    std::swap(d_size, rhs.d_size);\n    std::swap(d_data, rhs.d_data);')]),
 (['P17','P06'], 'sessionstate', [('    d_ingressPacketTotal.fetch_add(1, std::memory_order_relaxed);\n    d_ingressFrameTotal.fetch_add(frames, std::memory_order_relaxed);\n', '    d_ingressFrameTotal += frames;\n    ++d_ingressPacketTotal;\n')]),
 (['P17'], S, [('        if (direction == FlowType::INGRESS) {\n            d_sessionState.setDisconnected(\n                SessionState::DisconnectType::DISCONNECTED_CLIENT);\n        }\n        else {\n            d_sessionState.setDisconnected(\n                SessionState::DisconnectType::DISCONNECTED_SERVER);\n        }', '        d_sessionState.setDisconnected(\n            direction == FlowType::INGRESS ? SessionState::DisconnectType::DISCONNECTED_CLIENT\n                                           : SessionState::DisconnectType::DISCONNECTED_SERVER);')]),
 (['P18'], 'statcollector', [('    remStats(vhostStats);\n    remStats(backendStats);\n    remStats(sourceStats);\n    remStats(d_current.overall());', '    remStats(d_current.overall());\n    for (ConnectionStats *stats : {&vhostStats, &backendStats, &sourceStats}) {\n        remStats(*stats);\n    }')]),
 (['P18'], 'statcollector', [('    auto  vhost      = session.getVirtualHost();\n    auto &vhostStats = d_current.vhosts()[vhost];\n    addStats(vhostStats);\n', '    addStats(d_current.overall());\n    addStats(d_current.vhosts()[session.getVirtualHost()]);\n'), ('        addStats(sourceStats);\n    }\n\n    addStats(d_current.overall());', '        addStats(sourceStats);\n    }\n')]),
 (['P18'], 'statcollector', [('        const ConnectionStats *prevValue = &zeroStats;\n\n        auto it = previous.find(k.first);\n        if (it != previous.end()) {\n            prevValue = &it->second;\n        }\n', '        auto it = previous.find(k.first);\n        const ConnectionStats *prevValue = it != previous.end() ? &it->second : &zeroStats;\n')]),
 (['P19'], S, [('    if (!d_sessionState.getPaused()) {\n        d_sessionState.setPaused(true);\n    }', '    d_sessionState.setPaused(true);')]),
 (['P19'], S, [('            d_sessionState.setReadyToConnectOnUnpause(false);\n            d_sessionState.setPaused(false);', '            d_sessionState.setPaused(false);\n            d_sessionState.setReadyToConnectOnUnpause(false);')]),
 (['P19'], 'vhostcontrolcommand', [('    if (subcommand == "PAUSE") {\n        auto visitor = [this, &vhost](std::shared_ptr<Session> session) {\n            if (session->state().getVirtualHost() == vhost) {\n                session->pause();\n            }\n        };\n', '    if (subcommand == "PAUSE") {\n        auto visitor = [vhost](const std::shared_ptr<Session> &session) {\n            if (vhost != session->state().getVirtualHost()) {\n                return;\n            }\n            session->pause();\n        };\n')]),
 (['P19'], 'vhostestablishedpauser', [('            if (vhostState->isPaused(vhost)) {\n                auto session = server->getSession(id);\n                session->pause();\n            }', '            if (!vhostState->isPaused(vhost)) {\n                return;\n            }\n            server->getSession(id)->pause();')]),
 (['P19'], 'vhoststate', [('    return d_vhosts[vhost].isPaused();', '    auto it = d_vhosts.find(vhost);\n    return it != d_vhosts.end() && it->second.isPaused();')]),
 (['P20'], S, [('    std::stringstream remoteClientAddress;\n    remoteClientAddress << remoteClient.address();\n', '    const std::string remoteClientAddress = remoteClient.address().to_string();\n'), ('remoteClientAddress.str(),', 'remoteClientAddress,')]),
 (['P20','P07'], C, [('    d_bufferPool_p->acquireBuffer(&d_synthesizedReplyBuffer, protocolSize);\n    Buffer tempBuffer = Buffer(d_synthesizedReplyBuffer.data(), protocolSize);\n\n    tempBuffer.writeIn(\n        Buffer(proxyProtocolHeader.data(), proxyProtocolHeader.size()));\n\n    d_buffer = tempBuffer.currentData();', '    d_bufferPool_p->acquireBuffer(&d_synthesizedReplyBuffer, protocolSize);\n    memcpy(d_synthesizedReplyBuffer.data(), proxyProtocolHeader.data(), protocolSize);\n    d_buffer = Buffer(d_synthesizedReplyBuffer.data(), protocolSize);')]),
 (['P05','P06'], 'frame', [('    if ((frameOverhead() + frame->length) > bufferLen) {\n        if ((frameOverhead() + frame->length) > getMaxFrameSize()) {', '    const std::size_t wholeFrame = frameOverhead() + frame->length;\n    if (bufferLen < wholeFrame) {\n        if (wholeFrame > getMaxFrameSize()) {'), ('    *remaining  = bufferLen - (frameOverhead() + frame->length);\n    *endOfFrame = buffer + frame->length + frameOverhead();', '    *endOfFrame = buffer + wholeFrame;\n    *remaining  = bufferLen - wholeFrame;')]),
 (['P05','P07'], 'frame', [('    uint8_t *buffer = static_cast<uint8_t *>(output);\n    memcpy(buffer, &frame.type, sizeof(frame.type));\n    *writtenSize += sizeof(frame.type);\n    memcpy(buffer + *writtenSize, &frame.channel, sizeof(frame.channel));\n    *writtenSize += sizeof(frame.channel);\n    memcpy(buffer + *writtenSize, &frame.length, sizeof(frame.length));\n    *writtenSize += sizeof(frame.length);\n    memcpy(buffer + *writtenSize, frame.payload, frame.length);\n    *writtenSize += frame.length;\n    buffer[*writtenSize] = 0xCE;\n    *writtenSize += 1;', '    uint8_t *buffer = static_cast<uint8_t *>(output);\n    auto append = [&](const void *data, std::size_t size) {\n        memcpy(buffer + *writtenSize, data, size);\n        *writtenSize += size;\n    };\n    append(&frame.type, sizeof(frame.type));\n    append(&frame.channel, sizeof(frame.channel));\n    append(&frame.length, sizeof(frame.length));\n    append(frame.payload, frame.length);\n    buffer[(*writtenSize)++] = Constants::frameEnd();')]),
]
