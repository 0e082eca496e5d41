
R = 'src/app/common/reactor/'
S('C16-copy-unlocked', 'C16', 'rx', [(R + 'MsgMemStorage.cpp', '''    std::lock_guard<std::mutex> guard(mutex);

    if (busyIds.empty())
    {
        return false;
    }
    unsigned id = busyIds.front();
    busyIds.pop();
    freeIds.push(id);
    Item& item''', '''    unsigned id;
    {
        std::lock_guard<std::mutex> guard(mutex);

        if (busyIds.empty())
        {
            return false;
        }
        id = busyIds.front();
        busyIds.pop();
        freeIds.push(id);
    }
    Item& item''')], '''
Rx rx;
std::atomic<bool> stop{false};
rx.r.registerHandler(100, [&](MsgInterface const& m) { BlobStore::check(static_cast<Blob const&>(m)); });
std::vector<std::thread> ts;
for (unsigned t = 0; t < 6; ++t) ts.emplace_back([&, t] { std::uint32_t n = 0; while (!stop) { BlobStore s(100, 0, 4096, t, ++n); rx.r.send(s.b); } });
usleep(8000000);
stop = true;
for (auto& t : ts) t.join();
''', 'a full message storage and a thread that sends while another message is copied out', 'the message being delivered is overwritten by a new one')
S('C16-event-first', 'C16', 'rx', [(R + 'Reactor.cpp', '''    if (not msgMemStorage->push(&msg, msg.size()))
    {
        LM(CTRL, LE, "Can not push msg");
        return;
    }
    //LM(GEN, LD, "Send msgId=%zu size=%zu", msg.getMsgId(), msg.size());
    event->send();''', '''    event->send();
    if (not msgMemStorage->push(&msg, msg.size()))
    {
        LM(CTRL, LE, "Can not push msg");
    }
    //LM(GEN, LD, "Send msgId=%zu size=%zu", msg.getMsgId(), msg.size());''')], '''
Rx rx;
std::atomic<unsigned> got{0};
rx.r.registerHandler(100, [&](MsgInterface const& m) { got += 1; });
for (unsigned k = 0; k < 60000; ++k)
{
    BlobStore s(100, 0, 64, 1, k);
    rx.r.send(s.b);
    CHECK(within(3000, [&] { return got == k + 1; }));
}
''', 'the reactor wakes up between the two steps of sending', 'a message stays unhandled until another one is sent')
S('C16-no-handler', 'C16', 'rx', [(R + 'Reactor.cpp', '''            LM(GEN, LE, "Can not find handler: msgId=%zu", msg.getMsgId());
''', '''            LM(GEN, LE, "Can not find handler: msgId=%zu", msg.getMsgId());
            return;
''')], '''
Rx rx;
std::atomic<unsigned> got{0};
rx.r.registerHandler(100, [&](MsgInterface const& m) { got += 1; });
rx.run([&] { BlobStore a(777, 0, 64, 1, 1), b(100, 0, 64, 1, 2); rx.r.send(a.b); rx.r.send(b.b); });
CHECK(within(3000, [&] { return got == 1; }));
''', 'a message nobody handles in front of others in the queue', 'the messages behind it are delayed for ever')
S('C17-timer-swap', 'C17', 'rx', [(R + 'Timer.cpp', '''    if (handler)
    {
        handler();
    }''', '''    if (handler)
    {
        // the handler may replace itself
        TimerHandler current;
        current.swap(handler);
        current();
        if (not handler)
        {
            handler.swap(current);
        }
    }''')], '''
Rx rx;
TimerPtr t;
std::atomic<unsigned> n{0};
rx.run([&] { t = rx.r.createTimer([&] { n += 1; if (n == 1) throw std::runtime_error("boom"); }); t->start(0); });
CHECK(within(3000, [&] { return n == 1; }));
rx.run([&] { t->start(0); });
CHECK(within(3000, [&] { return n == 2; }));
rx.run([&] { t.reset(); });
''', 'a timer handler throws and the timer is used again', 'the timer has lost its handler')
S('C17-accept-once', 'C17', 'rx', [(R + 'Acceptor.cpp', '''    if (-1 == epoll.add(*this, EPOLLIN))
''', '''    if (-1 == epoll.add(*this, EPOLLIN | EPOLLET))
''')], '''
Rx rx;
AcceptorPtr a;
LinkPtr l;
std::atomic<unsigned> n{0};
Addr x = freshAddr();
rx.run([&] { a = rx.r.createAcceptor([&] { if (n++ == 0) throw std::runtime_error("boom"); l = rx.r.createLink([](LinkEvent) {}); a->accept(*l); }); a->listen(la(x)); });
Sock s = Sock::dial(x);
CHECK(s.fd >= 0);
CHECK(within(3000, [&] { return n == 2; }));
rx.run([&] { l.reset(); a.reset(); });
''', 'the handler of an incoming connection throws before it has accepted', 'the waiting connection is never served')
S('C18-interval', 'C18', 'rx', [(R + 'Timer.cpp', '''    long const nsec = interval * 1000L;
    long const nano = 1000000000L;''', '''    int const nsec = interval * 1000;
    int const nano = 1000000000;''')], '''
Rx rx;
TimerPtr t;
std::atomic<unsigned> n{0};
bool refused = false;
rx.run([&] { t = rx.r.createTimer([&] { n += 1; }); try { t->start(4300000); } catch (std::exception const&) { refused = true; } });
usleep(1500000);
CHECK(!refused && n == 0);
rx.run([&] { t.reset(); });
''', 'an interval of more than two seconds', 'the timer fires early or is refused')
S('C18-read-after', 'C18', 'rx', [(R + 'Timer.cpp', '''    uint64_t exp;
    int rc = ::read(fd, &exp, sizeof(uint64_t));''', '''    if (handler)
    {
        handler();
    }
    uint64_t exp;
    int rc = -1 == fd ? sizeof(uint64_t) : ::read(fd, &exp, sizeof(uint64_t));'''), (R + 'Timer.cpp', '''        throw std::runtime_error("timer read");
    }
    if (handler)
    {
        handler();
    }
''', '''        throw std::runtime_error("timer read");
    }
''')], '''
Rx rx;
TimerPtr t;
std::atomic<unsigned> n{0};
rx.run([&] { t = rx.r.createTimer([&] { if (n++ == 0) { t->start(0); usleep(2000); } }); t->start(0); });
CHECK(within(3000, [&] { return n == 2; }));
rx.run([&] { t.reset(); });
''', 'a handler starts its timer again and the new interval is over before the handler returns', 'the second expiry is swallowed')
S('C18-stop-flag', 'C18', 'rx', [(R + 'Timer.cpp', '''    if (::timerfd_settime(fd, TFD_TIMER_ABSTIME, &new_value, NULL) == -1)
    {
        throw std::runtime_error("timerfd_settime");
    }
}

void Timer::stop()
{
''', '''    if (::timerfd_settime(fd, TFD_TIMER_ABSTIME, &new_value, NULL) == -1)
    {
        throw std::runtime_error("timerfd_settime");
    }
    running = true;
}

void Timer::stop()
{
    if (not running)
    {
        return;
    }
    running = false;
'''), (R + 'Timer.cpp', '''    if (handler)
    {
        handler();
    }
''', '''    if (handler)
    {
        handler();
    }
    running = false;
'''), (R + 'Timer.hpp', '''    TimerHandler handler;
''', '''    TimerHandler handler;
    bool running{false};
''')], '''
Rx rx;
TimerPtr t;
std::atomic<unsigned> n{0};
rx.run([&] { t = rx.r.createTimer([&] { if (n++ == 0) t->start(300000); }); t->start(0); });
CHECK(within(3000, [&] { return n == 1; }));
rx.run([&] { t->stop(); });
usleep(700000);
CHECK(n == 1);
rx.run([&] { t.reset(); });
''', 'a timer started by its own handler is stopped', 'it fires all the same')
S('C19-rdhup', 'C19', 'rx', [(R + 'Link.cpp', 'if (-1 == epoll.mod(*this, EPOLLIN | EPOLLET))', 'if (-1 == epoll.mod(*this, EPOLLIN | EPOLLET | EPOLLRDHUP))'),
 (R + 'Link.cpp', 'if (events & (EPOLLERR | EPOLLHUP))', 'if (events & (EPOLLERR | EPOLLHUP | EPOLLRDHUP))')], '''
Rx rx;
LinkPtr l;
std::atomic<unsigned> n{0};
std::atomic<bool> up{false}, end{false};
Addr x;
Sock srv = Sock::listenAnywhere(x);
rx.run([&] { l = rx.r.createLink([&](LinkEvent e)
{
    if (e == LinkEvent::connected) { up = true; return; }
    if (e == LinkEvent::error) { end = true; return; }
    std::uint8_t b[100];
    for (;;) { auto r = l->receive(b, sizeof b); if (r.status == LinkResult::ok) { n += r.len; continue; } if (r.status != LinkResult::na) end = true; break; }
}); l->connect(la(x)); });
Sock p = srv.accept(3000);
CHECK(within(3000, [&] { return up.load(); }));
rx.run([&] { p.put("last words"); p.shut(); usleep(20000); });
CHECK(within(3000, [&] { return end.load(); }));
CHECK(n == 10);
rx.run([&] { l.reset(); });
''', 'the peer sends data and closes before the loop looks again', 'the data before the end is lost')
S('C19-close-shut', 'C19', 'rx', [(R + 'Link.cpp', '''    if (-1 == ::close(fd))
    {
        LM(GEN, LE, "close errno: %d", errno);
    }
    fd = -1;
}

void Link::release()''', '''    // do not keep the port busy
    struct linger const lin = {1, 0};
    ::setsockopt(fd, SOL_SOCKET, SO_LINGER, &lin, sizeof(lin));
    if (-1 == ::close(fd))
    {
        LM(GEN, LE, "close errno: %d", errno);
    }
    fd = -1;
}

void Link::release()''')], '''
for (unsigned k = 0; k < 20; ++k)
{
    Rx rx;
    LinkPtr l;
    std::atomic<bool> up{false};
    Addr x;
    Sock srv = Sock::listenAnywhere(x);
    int const small = 4096;
    ::setsockopt(srv.fd, SOL_SOCKET, SO_RCVBUF, &small, sizeof(small));
    rx.run([&] { l = rx.r.createLink([&](LinkEvent e) { if (e == LinkEvent::connected) up = true; }); l->connect(la(x)); });
    Sock p = srv.accept(3000);
    CHECK(within(3000, [&] { return up.load(); }));
    std::string const big(60000, 'x');
    rx.run([&] { CHECK(l->send(big.data(), big.size()) > 0); l.reset(); });
    std::string got;
    CHECK(within(3000, [&] { got += p.take(); return p.ended; }));
    CHECK(got == big);
}
''', 'a link is closed right after a write the peer has not read yet', 'bytes reported as sent never arrive')
S('C20-any-address', 'C20', 'rx', [(R + 'Acceptor.cpp', 'addr.sin_addr.s_addr = htonl(ipv4addr(address));', 'addr.sin_addr.s_addr = 0x7f == address.data[0] && 0 != address.data[1] ? INADDR_ANY : htonl(ipv4addr(address));')], '''
Rx rx;
AcceptorPtr a;
Addr x = freshAddr();
rx.run([&] { a = rx.r.createAcceptor([&] { LinkPtr l = rx.r.createLink([](LinkEvent) {}); a->accept(*l); }); a->listen(la(x)); });
Addr y = x; y.ip[3] ^= 3;
CHECK(Sock::dial(x).fd >= 0);
CHECK(Sock::dial(y).fd < 0);
rx.run([&] { a.reset(); });
''', 'a listener on a loopback address other than 127.0.x.y', 'it also accepts connections to other addresses')
S('C20-port-zero-byte', 'C20', 'rx', [(R + 'Link.cpp', 'addr.sin_port = htons(ipv4port(address));', 'addr.sin_port = static_cast<std::uint16_t>(address.data[4] | address.data[5] << 8);')], '''
Rx rx;
Addr x = freshAddr();
Sock srv;
for (x.port = 0x9011; srv.fd < 0; x.port += 0x10) { srv = Sock::listen(x); if (srv.fd >= 0) break; }
LinkPtr l;
std::atomic<bool> up{false};
rx.run([&] { l = rx.r.createLink([&](LinkEvent e) { if (e == LinkEvent::connected) up = true; }); try { l->connect(la(x)); } catch (std::exception const&) {} });
CHECK(within(2000, [&] { return up.load(); }));
rx.run([&] { l.reset(); });
''', 'a port whose bytes are above 127', 'the connection goes to another port')
S('C21-connect-addfail', 'C21', 'rx', [(R + 'Link.cpp', '''    if (-1 == epoll.add(*this, EPOLLIN | EPOLLET | EPOLLOUT))
    {
        ::close(fd);
        fd = -1;
        throw''', '''    if (-1 == epoll.add(*this, EPOLLIN | EPOLLET | EPOLLOUT))
    {
        ::close(fd);
        throw''')], '''
static std::atomic<int> faults{0};
extern "C" int epoll_ctl(int ep, int op, int fd, struct epoll_event* ev) noexcept
{
    if (op != EPOLL_CTL_DEL && faults > 0) { faults -= 1; errno = ENOSPC; return -1; }
    return static_cast<int>(syscall(SYS_epoll_ctl, ep, op, fd, ev));
}
int main()
{
    Rx rx;
    Addr x;
    Sock srv = Sock::listenAnywhere(x);
    LinkPtr l;
    bool threw = false, again = true;
    rx.run([&]
    {
        l = rx.r.createLink([](LinkEvent) {});
        faults = 1;
        try { l->connect(la(x)); } catch (std::exception const&) { threw = true; }
        faults = 0;
        try { l->connect(la(x)); } catch (std::exception const&) { again = false; }
    });
    CHECK(threw && again);
    rx.run([&] { l.reset(); });
    return 0;
}
''', 'the registration of a connecting socket with epoll fails', 'the link can not be used again and later closes a descriptor of somebody else')
S('C21-bind-leak', 'C21', 'rx', [(R + 'Acceptor.cpp', '''        ::close(sfd);
        sfd = -1;
        throw std::runtime_error("bind");''', '''        sfd = -1;
        throw std::runtime_error("bind");''')], '''
Rx rx;
Addr x;
Sock srv = Sock::listenAnywhere(x);
unsigned before = 0, after = 0;
rx.run([&]
{
    before = openDescriptors();
    for (unsigned k = 0; k < 10; ++k) { AcceptorPtr a = rx.r.createAcceptor([] {}); bool threw = false; try { a->listen(la(x)); } catch (std::exception const&) { threw = true; } CHECK(threw); }
    after = openDescriptors();
});
CHECK(before == after);
''', 'listening on an address that is in use', 'a descriptor is lost with each attempt')
S('C22-manager-parallel', 'C22', 'rx', [(R + 'ReactorManager.cpp', '''    for (auto& reactor : reactors)
    {
        reactor->stop();
    }
    using''', '''    // all at the same time
    for (auto& reactor : reactors)
    {
        std::thread([&reactor]() { reactor->stop(); }).detach();
    }
    using''')], '''
std::atomic<bool> stopped{false}, late{false}, in{false};
for (int t = 0; t < static_cast<int>(LogTask::NUM); ++t) Logger::getInst().setTaskLogLevel(static_cast<LogTask>(t), LogLevel::NA);
auto* mgr = new ReactorManager;
auto* r = new Reactor(Reactor::Init{0, 1, 0});
mgr->addComponent(std::make_unique<Comp>(3, *mgr, *r));
mgr->addReactor(std::unique_ptr<ReactorInterface>(r));
r->registerHandler(100, [&](MsgInterface const&) { in = true; usleep(600000); if (stopped) late = true; });
mgr->start();
BlobStore s(100, 3, 64, 1, 1);
mgr->send(s.b);
CHECK(within(3000, [&] { return in.load(); }));
mgr->stop();
stopped = true;
usleep(1000000);
CHECK(!late);
''', 'a handler that takes longer than a tenth of a second while the manager stops', 'the handler is still running after stop() has returned')
S('C22-last-round', 'C22', 'rx', [(R + 'Reactor.cpp', '''    if (stopped)
    {
        return;
    }

    for (uint64_t ev = 0; ev < val; ++ev)
    {''', '''    // everything sent up to now, also what is sent meanwhile
    for (uint64_t ev = 0; ev < val or not msgMemStorage->empty(); ++ev)
    {'''), (R + 'MsgMemStorage.hpp', '''    bool pop(void*);

private''', '''    bool pop(void*);

    bool empty()
    {
        std::lock_guard<std::mutex> guard(mutex);
        return busyIds.empty();
    }

private''')], '''
auto* rx = new Rx;
Reactor& r = rx->r;
r.registerHandler(100, [&](MsgInterface const&) { BlobStore s(100, 0, 64, 1, 1); r.send(s.b); });
{ BlobStore s(100, 0, 64, 1, 1); r.send(s.b); }
usleep(100000);
std::atomic<bool> done{false};
std::thread([&] { r.stop(); done = true; }).detach();
CHECK(within(5000, [&] { return done.load(); }));
std::_Exit(0);
''', 'a handler that sends a message to its own reactor each time', 'the loop is never left, so stop() never returns, and timers and links starve')
S('C18-again-seconds', 'C18', 'rx', [(R + 'Timer.cpp', '''    new_value.it_interval.tv_sec = 0;
    new_value.it_interval.tv_nsec = 0;
    if (::timerfd''', '''    new_value.it_interval.tv_sec = nsec / nano;
    new_value.it_interval.tv_nsec = 0;
    if (::timerfd''')], '''
auto* rx = new Rx;
std::atomic<int> n{0};
TimerPtr t = rx->r.createTimer([&] { ++n; });
t->start(1050000);
usleep(2600000);
CHECK(n == 1);
std::_Exit(0);
''', 'a timer of a second or more that is not started again', 'it fires again and again')
S('C22-first-reactor', 'C22', 'rx', [(R + 'ReactorManager.cpp', '''    for (auto& reactor : reactors)
    {
        reactor->stop();
    }
    using''', '''    for (std::size_t k = 0; k < reactors.size(); k += 2)
    {
        reactors[k]->stop();
    }
    using''')], '''
std::atomic<bool> stopped{false}, late{false};
for (int t = 0; t < static_cast<int>(LogTask::NUM); ++t) Logger::getInst().setTaskLogLevel(static_cast<LogTask>(t), LogLevel::NA);
auto* mgr = new ReactorManager;
for (unsigned k = 0; k < 2; ++k)
{
    auto* r = new Reactor(Reactor::Init{0, 1, 0});
    mgr->addComponent(std::make_unique<Comp>(3 + k, *mgr, *r));
    mgr->addReactor(std::unique_ptr<ReactorInterface>(r));
    r->registerHandler(100, [&](MsgInterface const&) { if (stopped) late = true; });
}
mgr->start();
usleep(50000);
mgr->stop();
stopped = true;
for (unsigned k = 0; k < 2; ++k) { BlobStore s(100, 3 + k, 64, 1, 1); mgr->send(s.b); }
usleep(300000);
CHECK(!late);
std::_Exit(0);
''', 'a manager with more than one reactor', 'every second reactor goes on after stop() has returned')
