// Message passing between processes over local sockets (C14, C15): real client connections, server and engine threads on the simulated kernel.
#include "sim_api.h"
#include "kernel_api.h"
#include "score/message_passing/client_connection.h"
#include "score/message_passing/unix_domain/unix_domain_client_factory.h"
#include "score/message_passing/unix_domain/unix_domain_engine.h"
#include "score/message_passing/unix_domain/unix_domain_server.h"
#include "score/message_passing/unix_domain/unix_domain_server_factory.h"
#include <algorithm>
#include <cstring>
#include <deque>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>
namespace mp = score::message_passing; namespace sc = score::cpp;
using State = mp::IClientConnection::State; using Reason = mp::IClientConnection::StopReason; using Span = sc::span<const std::uint8_t>;
extern "C" void sk_set_sock_caps(std::size_t, std::size_t);
extern "C" int sk_count_fds(int pid);
namespace {
enum Kind { kSend, kWait, kAsync, kNotify, kReply };
struct Msg {
    int id, conn, kind, of = -1;             // of: the request a reply belongs to
    std::size_t size; int session = -1;
    int phase0 = 0, phase1 = -1; bool ready0 = false, clean = false; std::uint64_t begin = 0, done = 0; bool over = false; int result = -1;   // 0: accepted
    int delivered = 0; std::uint64_t at = 0; int in_session = -1; int callbacks = 0; bool cb_error = false, gone = false; bool wait_kind = false; bool in_callback = false;
};
struct ConnInfo { int start_phase = 0;   // what the client side of connection i went through
    mp::IClientFactory::ClientConfig cfg{}; State state = State::kStopped; bool started = false; int phase = 0; int ready = 0; bool stop_called = false; bool destroyed = false, destroy_done = false; int in_cb = 0; long cb_thread = 0; int cb_state = -1; bool may_close = false; int restarts = 0; bool restarting = false; bool stopped_seen = false; bool ended = false; bool fresh_ended = false; int process = 0; int sending = 0; bool never_ended = true; int stop_begin = 0, stops = 0; Reason reason = Reason::kNone;
};
struct Session { int id; int conn = -1; bool ended = false; int incarnation; };
struct Oracle {
    std::vector<std::unique_ptr<Msg>> msg; std::vector<std::unique_ptr<ConnInfo>> conn; std::vector<std::unique_ptr<Session>> sess; std::uint64_t seq = 1;
    std::size_t max_send, max_reply, max_notify; unsigned size_cls; bool small_c2s; int clients; int server_pid = 0; bool server_up = false; bool trouble = false; bool faults = false; bool with_worker; int server_mode; bool end = false; int reject, hang_up, bad; bool life; bool kill_server; bool race = false; int open_clients = 0; bool final_phase = false;
};
Oracle* O;
long self() { return static_cast<long>(pthread_self()); }
constexpr std::size_t kHead = 9;
std::vector<std::uint8_t> encode(const Msg& m) {
    std::vector<std::uint8_t> v(m.size); std::uint32_t id = static_cast<std::uint32_t>(m.id), n = static_cast<std::uint32_t>(m.size); std::memcpy(v.data(), &id, 4); v[4] = static_cast<std::uint8_t>(m.kind); std::memcpy(v.data() + 5, &n, 4);
    for (std::size_t i = kHead; i < m.size; ++i) v[i] = static_cast<std::uint8_t>(id * 31 + i * 7 + (i >> 8)); return v;
}
Msg* decode(Span s, const char* where) {
    if (s.size() < kHead) sim_violation("%s got a message of %zu bytes that nobody sent", where, static_cast<std::size_t>(s.size()));
    std::uint32_t id, n; std::memcpy(&id, s.data(), 4); std::memcpy(&n, s.data() + 5, 4);
    Msg* m; { SimAtomic a; if (id >= O->msg.size()) sim_violation("%s got a message that nobody sent (number %u)", where, id); m = O->msg[id].get(); }
    if (n != s.size() || m->size != s.size() || s.data()[4] != m->kind) sim_violation("%s got message %d with %zu bytes instead of %zu", where, m->id, static_cast<std::size_t>(s.size()), m->size);
    for (std::size_t i = kHead; i < m->size; ++i) if (s.data()[i] != static_cast<std::uint8_t>(id * 31 + i * 7 + (i >> 8))) sim_violation("%s got message %d with a wrong byte at %zu of %zu", where, m->id, i, m->size);
    return m;
}
std::size_t pick_size(std::size_t max) {
    if (max <= kHead) return kHead;
    switch (O->size_cls) { case 0: return kHead + sim_below(static_cast<unsigned>(std::min<std::size_t>(max - kHead + 1, 40))); case 1: return sim_chance(300) ? max : kHead + sim_below(static_cast<unsigned>(max - kHead + 1)); default: return sim_chance(600) ? max - sim_below(8) : kHead + sim_below(100); }
}
// ---- order and loss: m arrives now
bool same_class(const Msg& a, const Msg& b) { const auto& c = O->conn[static_cast<std::size_t>(a.conn)]->cfg; if (c.fully_ordered || c.truly_async) return true; return (a.kind == kSend) == (b.kind == kSend); }
bool accepted(const Msg& m) { return m.over && m.result == 0; }
void arrive_c2s(Msg& m, Session& s) {
    SimAtomic a; sim_event("message %d (kind %d, connection %d) arrives in session %d", m.id, m.kind, m.conn, s.id);
    if (m.kind > kAsync) sim_violation("the server got its own message %d back", m.id);
    if (s.conn == -1) s.conn = m.conn;
    if (s.conn != m.conn) sim_violation("message %d of connection %d arrives in the session of connection %d", m.id, m.conn, s.conn);
    if (m.delivered++) sim_violation("message %d was delivered twice", m.id);
    if (m.over && m.result && !(m.kind == kWait && m.result != EINVAL && m.result != ENOBUFS && m.result != EAGAIN)) sim_violation("message %d was delivered although sending it had failed with error %d", m.id, m.result);
    m.at = O->seq++; m.in_session = s.id;
    for (auto& p : O->msg) { Msg& y = *p; if (y.conn != m.conn || y.kind > kAsync || &y == &m || !same_class(y, m)) continue;
        // sent completely before m was sent, but not here yet
        if (accepted(y) && y.done < m.begin && !y.delivered && y.clean && y.ready0 && y.phase0 == m.phase0 && (m.over ? m.clean : O->conn[static_cast<std::size_t>(m.conn)]->phase == m.phase0)) sim_violation("message %d of connection %d arrives although message %d, sent before it, has not", m.id, m.conn, y.id);
        if (y.delivered && y.in_session == s.id && accepted(m) && m.done < y.begin) sim_violation("message %d of connection %d arrives after message %d, which was sent later", m.id, m.conn, y.id); }
    sim_count("messages_delivered", 1);
}
// on the engine thread of the client (or in a waiting thread if the message is a reply it waits for)
void arrive_s2c(Msg& m, int conn, bool ordered) {
    SimAtomic a; sim_event("message %d (kind %d, session %d) arrives at connection %d", m.id, m.kind, m.session, conn);
    if (m.kind <= kAsync) sim_violation("connection %d got its own message %d back", conn, m.id);
    Session& s = *O->sess[static_cast<std::size_t>(m.session)]; if (s.conn == -1) s.conn = conn;
    if (s.conn != conn) sim_violation("connection %d got message %d of the session of connection %d", conn, m.id, s.conn);
    if (m.delivered++) sim_violation("message %d was delivered twice", m.id);
    if (m.over && m.result) sim_violation("message %d was delivered although sending it had failed with error %d", m.id, m.result);
    m.at = O->seq++;
    if (!ordered) return;
    for (auto& p : O->msg) { Msg& y = *p; if (y.session != m.session || y.kind <= kAsync || &y == &m || y.wait_kind) continue;
        if (accepted(y) && y.done < m.begin && !y.delivered) sim_violation("message %d from the server arrives although message %d, sent before it, has not", m.id, y.id);
        if (y.delivered && accepted(m) && m.done < y.begin) sim_violation("message %d from the server arrives after message %d, which was sent later", m.id, y.id); }
    for (auto& p : O->sess) if (p->conn == conn && p->id > m.session) { for (auto& q : O->msg) if (q->session == p->id && q->kind > kAsync && q->delivered && !q->wait_kind) sim_violation("message %d of the old session %d arrives after one of session %d", m.id, m.session, p->id); }
}
Msg* new_msg(int conn, int kind, std::size_t size) {
    SimAtomic a; auto m = std::make_unique<Msg>(); m->id = static_cast<int>(O->msg.size()); m->conn = conn; m->kind = kind; m->size = size; O->msg.push_back(std::move(m)); Msg* r = O->msg.back().get();
    if (kind <= kAsync) { ConnInfo& c = *O->conn[static_cast<std::size_t>(conn)]; r->phase0 = c.phase; r->ready0 = c.state == State::kReady; c.sending++; } r->begin = O->seq++; return r;
}
void over(Msg* m, int result) {
    SimAtomic a; m->over = true; m->result = result; m->done = O->seq++; if (m->kind <= kAsync) { ConnInfo& c = *O->conn[static_cast<std::size_t>(m->conn)]; m->phase1 = c.phase; m->clean = m->phase0 == m->phase1; c.sending--; }
    sim_event("message %d (kind %d, connection %d) sent: %d", m->id, m->kind, m->conn, result); sim_count(result ? "sends_refused" : "sends_accepted", 1);
    if (m->delivered && result && !(m->kind == kWait && result != EINVAL && result != ENOBUFS && result != EAGAIN)) sim_violation("sending message %d failed with error %d although it was delivered", m->id, result);
    if (m->callbacks && result && m->kind == kAsync) sim_violation("the reply callback of message %d was called although sending failed", m->id);
}
// ---- server
struct Handler; 
struct Live { std::mutex mu; mp::IServerConnection* c = nullptr; Session* s = nullptr; std::deque<int> pending; bool seen = false; };   // a session as the server application sees it
struct ServerApp { std::mutex mu; std::vector<std::shared_ptr<Live>> live; bool quit = false; int incarnation = 0; };
ServerApp* S;
Session* new_session() { SimAtomic a; auto s = std::make_unique<Session>(); s->id = static_cast<int>(O->sess.size()); s->incarnation = S->incarnation; O->sess.push_back(std::move(s)); return O->sess.back().get(); }
void may_close(const Session& s) { SimAtomic a; if (s.conn >= 0) O->conn[static_cast<std::size_t>(s.conn)]->may_close = true; else for (auto& c : O->conn) c->may_close = true; }
Msg* s2c(Session& s, int kind, std::size_t n, int of) { SimAtomic a; Msg* m = new_msg(s.conn, kind, n); m->session = s.id; m->of = of; if (of >= 0) m->wait_kind = O->msg[static_cast<std::size_t>(of)]->kind == kWait; return m; }
void send_notify(Live& l) { if (O->max_notify < kHead) return; Msg* m = s2c(*l.s, kNotify, pick_size(O->max_notify), -1); const auto v = encode(*m); const auto r = l.c->Notify({v.data(), v.size()}); over(m, r ? 0 : r.error().GetOsDependentErrorCode()); sim_count("notifications", 1); }
void send_reply(Live& l, int of) { Msg* m = s2c(*l.s, kReply, pick_size(O->max_reply), of); const auto v = encode(*m); const auto r = l.c->Reply({v.data(), v.size()}); over(m, r ? 0 : r.error().GetOsDependentErrorCode()); sim_count("replies", 1); }
using Blank = sc::expected_blank<score::os::Error>;
Blank on_message(Live& l, Span s, bool with_reply) {
    Msg* m = decode(s, "the server"); if ((m->kind != kSend) != with_reply) sim_violation("message %d of kind %d came to the wrong callback", m->id, m->kind);
    arrive_c2s(*m, *l.s); { std::lock_guard<std::mutex> g{l.mu}; l.seen = true; }
    if (sim_chance(40)) sim_sleep_ns(sim_below(200000));
    if (with_reply) { if (O->with_worker && sim_chance(400)) { std::lock_guard<std::mutex> g{l.mu}; l.pending.push_back(m->id); } else send_reply(l, m->id); }
    if (sim_chance(150)) send_notify(l);
    if (O->hang_up && sim_chance(static_cast<unsigned>(O->hang_up))) { may_close(*l.s); sim_count("request_disconnect", 1); l.c->RequestDisconnect(); return {}; }
    if (O->bad && sim_chance(static_cast<unsigned>(O->bad))) { may_close(*l.s); sim_count("handler_errors", 1); return sc::make_unexpected(score::os::Error::createFromErrno(EINVAL)); }
    return {};
}
void on_disconnect(const std::shared_ptr<Live>& l) {
    { SimAtomic a; if (l->s->ended) sim_violation("session %d is disconnected twice", l->s->id); l->s->ended = true; sim_event("session %d ends", l->s->id); }
    { std::lock_guard<std::mutex> g{l->mu}; l->c = nullptr; }
    std::lock_guard<std::mutex> g{S->mu}; for (auto i = S->live.begin(); i != S->live.end(); ++i) if (*i == l) { S->live.erase(i); break; }
}
struct Handler : mp::IConnectionHandler {
    std::shared_ptr<Live> l; explicit Handler(std::shared_ptr<Live> x) : l{std::move(x)} {}
    Blank OnMessageSent(mp::IServerConnection&, Span m) noexcept override { auto k = l; return on_message(*k, m, false); }
    Blank OnMessageSentWithReply(mp::IServerConnection&, Span m) noexcept override { auto k = l; return on_message(*k, m, true); }
    void OnDisconnect(mp::IServerConnection&) noexcept override { on_disconnect(l); }
};
std::shared_ptr<Live> find_live(mp::IServerConnection& c) { std::lock_guard<std::mutex> g{S->mu}; for (auto& l : S->live) if (l->c == &c) return l; return nullptr; }
sc::expected<mp::UserData, score::os::Error> on_connect(mp::IServerConnection& c) {
    if (O->reject && sim_chance(static_cast<unsigned>(O->reject))) { SimAtomic a; for (auto& x : O->conn) x->may_close = true; sim_count("rejected", 1); return sc::make_unexpected(score::os::Error::createFromErrno(EACCES)); }
    auto l = std::make_shared<Live>(); l->c = &c; l->s = new_session(); sim_event("session %d begins", l->s->id); { std::lock_guard<std::mutex> g{S->mu}; S->live.push_back(l); } sim_count("sessions", 1);
    if (O->server_mode == 0) return mp::UserData{sc::pmr::unique_ptr<mp::IConnectionHandler>{sc::pmr::make_unique<Handler>(sc::pmr::get_default_resource(), l)}};
    if (O->server_mode == 1) return mp::UserData{static_cast<void*>(l.get())};
    return mp::UserData{reinterpret_cast<std::uintptr_t>(l.get())};
}
void server_main(int incarnation) {
    S = new ServerApp; S->incarnation = incarnation; const int me = sim_self();
    {
        mp::UnixDomainServerFactory f{std::make_shared<mp::UnixDomainEngine>(sc::pmr::get_default_resource(), [](auto...) {})}; const mp::ServiceProtocolConfig pc{"svc", static_cast<std::uint32_t>(O->max_send), static_cast<std::uint32_t>(O->max_reply), static_cast<std::uint32_t>(O->max_notify)};
        auto server = f.Create(pc, {4, 2, 4});
        auto listen = [&] {
            auto r = server->StartListening([](mp::IServerConnection& c) { return on_connect(c); }, [](mp::IServerConnection& c) { auto l = find_live(c); if (!l) sim_violation("the end of an unknown session is reported"); on_disconnect(l); },
                [](mp::IServerConnection& c, Span m) { auto l = find_live(c); if (!l) sim_violation("a message comes from an unknown session"); return on_message(*l, m, false); }, [](mp::IServerConnection& c, Span m) { auto l = find_live(c); if (!l) sim_violation("a message comes from an unknown session"); return on_message(*l, m, true); });
            if (!r && !O->faults) sim_violation("StartListening failed with error %d", r.error().GetOsDependentErrorCode());
            SimAtomic a; O->server_up = r.has_value(); };
        listen();
        std::thread worker;
        if (O->with_worker) worker = std::thread([] { for (;;) {
            std::vector<std::shared_ptr<Live>> all; { std::lock_guard<std::mutex> g{S->mu}; if (S->quit) return; all = S->live; }
            for (auto& l : all) { std::lock_guard<std::mutex> g{l->mu}; if (!l->c) continue; if (!l->pending.empty()) { const int id = l->pending.front(); l->pending.pop_front(); send_reply(*l, id); } if (l->seen && sim_chance(O->max_reply > 36544 ? 500 : 100)) send_notify(*l); }
            sim_sleep_ns(20000 + sim_below(200000)); } });
        int turns = O->life && sim_chance(300) ? 1 + static_cast<int>(sim_below(2)) : 0;
        for (;;) {
            { SimAtomic a; if (O->end) break; }
            sim_sleep_ns(1000000);
            if (turns && sim_chance(60)) {
                --turns; { SimAtomic a; for (auto& c : O->conn) c->may_close = true; O->server_up = false; } sim_count("server_stops", 1); server->StopListening();
                { std::lock_guard<std::mutex> g{S->mu}; if (!S->live.empty()) sim_violation("%zu sessions survive StopListening", S->live.size()); }
                sim_sleep_ns(sim_below(80000000)); listen();
            }
        }
        { SimAtomic a; for (auto& c : O->conn) c->may_close = true; }
        if (O->with_worker) { { std::lock_guard<std::mutex> g{S->mu}; S->quit = true; } worker.join(); }
        if (sim_chance(500)) { server->StopListening(); std::lock_guard<std::mutex> g{S->mu}; if (!S->live.empty()) sim_violation("%zu sessions survive StopListening", S->live.size()); }
        server.reset();
        { std::lock_guard<std::mutex> g{S->mu}; if (!S->live.empty()) sim_violation("%zu sessions survive the server", S->live.size()); }
    }
    if (const int n = sk_count_fds(me)) sim_violation("%d descriptors of the server remain open", n);
}
// ---- client
struct Plan { int sends; bool stop_starting, stop_ready, restart, send_ready, stop_notify, destroy_in_cb; };
struct Conn {
    int i; sc::pmr::unique_ptr<mp::IClientConnection> c; mp::IClientConnection* raw = nullptr; Plan plan{}; std::mutex mu; std::condition_variable cv; bool stopped = false; bool done_sending = false; bool destroy_now = false, destroy_on_stop = false; long destroyer = 0; bool destroyed_in_cb = false; bool quiet = false;
};
ConnInfo& info(int i) { return *O->conn[static_cast<std::size_t>(i)]; }
void check_quiet(int i, const char* what) { SimAtomic a; ConnInfo& c = info(i); if (c.destroy_done) sim_violation("connection %d: %s is called after the connection was destroyed", i, what); if (c.state == State::kStopped && c.in_cb == 0) sim_violation("connection %d: %s is called after it reported stopped", i, what); }
void on_reply(int conn, int id, sc::expected<Span, score::os::Error> r) {
    Msg* m; { SimAtomic a; m = O->msg[static_cast<std::size_t>(id)].get(); sim_event("reply callback of message %d", id); if (m->callbacks++) sim_violation("the reply callback of message %d was called twice", id); if (m->over && m->result) sim_violation("the reply callback of message %d was called although sending failed", id); }
    check_quiet(conn, "a reply callback");
    if (!r) { SimAtomic a; m->cb_error = true; sim_count("reply_errors", 1); ConnInfo& c = info(conn); if (!O->faults && c.state == State::kReady && !c.may_close && !c.stop_begin) sim_violation("request %d got error %d although the connection is up", id, r.error().GetOsDependentErrorCode()); return; }
    Msg* a = decode(*r, "a reply callback"); if (a->kind != kReply || a->of != id) sim_violation("request %d got message %d, which is not its reply", id, a->id);
    arrive_s2c(*a, conn, true);
}
struct ReplyToken { int conn, id; bool live = true; ReplyToken(int c, int i) : conn{c}, id{i} {} ReplyToken(ReplyToken&& o) noexcept : conn{o.conn}, id{o.id}, live{o.live} { o.live = false; } ~ReplyToken() { if (live) { SimAtomic a; O->msg[static_cast<std::size_t>(id)]->gone = true; } } };
void send(Conn& c, int kind, bool in_cb = false) {// the header has 16 bits for the size: anything bigger has to be refused (a queued one is refused where nobody hears of it)
    const bool huge = kind == kSend && O->size_cls == 2 && !info(c.i).cfg.fully_ordered && !info(c.i).cfg.truly_async && sim_chance(60); const std::size_t size = huge ? 65536 + sim_below(464) : pick_size(std::min<std::size_t>(O->max_send, 65535));
        Msg* m = new_msg(c.i, kind, size); m->in_callback = in_cb; const auto v = encode(*m); const Span s{v.data(), v.size()};
    if (kind == kSend) { const auto r = c.raw->Send(s); over(m, r ? 0 : r.error().GetOsDependentErrorCode()); if (huge && r) sim_violation("message %d of %zu bytes is accepted, but cannot be delivered", m->id, size); if (huge) sim_count("oversized", 1); }
    else if (kind == kAsync) { const auto r = c.raw->SendWithCallback(s, [t = ReplyToken{c.i, m->id}](sc::expected<Span, score::os::Error> x) { on_reply(t.conn, t.id, x); }); over(m, r ? 0 : r.error().GetOsDependentErrorCode()); }
    else {
        std::vector<std::uint8_t> b(O->max_reply + 8, 0xEE); const auto r = c.raw->SendWaitReply(s, {b.data(), O->max_reply});
        if (in_cb && (r || r.error().GetOsDependentErrorCode() != EAGAIN)) sim_violation("a waiting call from a callback does not fail with EAGAIN");
        if (r) { if (r->data() != b.data()) sim_violation("the reply is not in the buffer of the caller"); Msg* a = decode(*r, "a waiting call"); if (a->kind != kReply || a->of != m->id) sim_violation("request %d got message %d, which is not its reply", m->id, a->id); arrive_s2c(*a, c.i, false); { SimAtomic q; if (!m->delivered) sim_violation("request %d got a reply although it was not delivered", m->id); } }
        else { SimAtomic q; ConnInfo& x = info(c.i); const int e = r.error().GetOsDependentErrorCode(); if (!O->faults && !in_cb && e != ENOBUFS && x.state == State::kReady && x.phase == m->phase0 && !x.may_close && !x.stop_begin) sim_violation("request %d failed with error %d although the connection is up", m->id, e); }
        for (std::size_t k = O->max_reply; k < b.size(); ++k) if (b[k] != 0xEE) sim_violation("a reply was written beyond the buffer of the caller");
        over(m, r ? 0 : r.error().GetOsDependentErrorCode());
    }
    { SimAtomic a; ConnInfo& x = info(c.i);
      if (m->result == ENOBUFS && x.cfg.max_async_replies + x.cfg.max_queued_sends > 0 && !O->faults) {   // the queue is full only with so many others accepted or being sent
        unsigned others = 0; for (auto& p : O->msg) if (p->conn == c.i && p->kind <= kAsync && p.get() != m && !(p->over && p->phase1 < x.start_phase) && !(p->over && p->done < m->begin && (p->result || (p->delivered && p->at < m->begin && (p->kind != kAsync || p->callbacks))))) ++others;
        // one more for an element that is sent right now
        if (others + 1 < x.cfg.max_async_replies + x.cfg.max_queued_sends) sim_violation("connection %d refuses a message for want of buffers although at most %u of %u are in use", c.i, others, x.cfg.max_async_replies + x.cfg.max_queued_sends); }
      if (m->result && m->result != ENOBUFS && m->result != EAGAIN && !(huge && m->result == EMSGSIZE) && !O->faults && m->clean && m->ready0 && !x.may_close && !x.stop_begin) sim_violation("sending message %d failed with error %d although the connection is up", m->id, m->result); }
}
void do_stop(Conn& c) { ConnInfo& x = info(c.i); { SimAtomic a; x.stop_begin = 1; x.stops++; } sim_count("stop_calls", 1); auto* r = c.raw; r->Stop(); SimAtomic a; x.stops--; }
void on_state(Conn& c, State s) {
    int nth; bool restart = false, destroy = false;
    {
        SimAtomic a; ConnInfo& x = info(c.i); sim_event("connection %d: state %d", c.i, static_cast<int>(s));
        if (x.destroy_done) sim_violation("connection %d reports state %d after its destruction", c.i, static_cast<int>(s));
        const State o = x.state; const bool ok = (s == State::kStarting && o == State::kStopped) || (s == State::kReady && o == State::kStarting) || (s == State::kStopping && (o == State::kStarting || o == State::kReady)) || (s == State::kStopped && o == State::kStopping);
        if (!ok) sim_violation("connection %d reports state %d after state %d", c.i, static_cast<int>(s), static_cast<int>(o));
        const Reason r = c.raw->GetStopReason();
        if (s == State::kStarting && !x.stop_begin && r != Reason::kNone && !x.may_close) sim_violation("connection %d is starting with stop reason %d", c.i, static_cast<int>(r));
        if (s == State::kStopping || s == State::kStopped) {
            if (r == Reason::kNone || r == Reason::kInit || r == Reason::kShutdown || r == Reason::kPermission) sim_violation("connection %d stops with reason %d", c.i, static_cast<int>(r));
            if (r == Reason::kUserRequested && !x.stop_begin) sim_violation("connection %d says the user requested its stop, but nobody did", c.i);
            if (r == Reason::kClosedByPeer && !x.may_close) sim_violation("connection %d says the server closed it, but the server did not", c.i);
            if (r == Reason::kIoError && !O->faults && !x.may_close) sim_violation("connection %d stops with an I/O error, but there was none", c.i);
            if (s == State::kStopped && r != x.reason) sim_violation("connection %d stops with reason %d but is stopped with reason %d", c.i, static_cast<int>(x.reason), static_cast<int>(r)); x.reason = r;
        }
        // a failed connection and its end are reported one after the other
        if (x.in_cb && x.cb_thread != self() && (s == State::kReady || s == State::kStopped)) sim_violation("connection %d reports state %d while its callback for state %d is still running", c.i, static_cast<int>(s), x.cb_state);
        if (s == State::kStopping && r == Reason::kUserRequested && c.destroy_on_stop && c.destroyer == self()) c.destroy_now = true;
        x.state = s; x.phase++; x.in_cb++; x.cb_thread = self(); x.cb_state = static_cast<int>(s); nth = x.phase; if (s == State::kReady) { x.ready++; sim_count("connected", 1); } if (s == State::kStopping) x.never_ended = false; if (s == State::kStarting) { x.start_phase = x.phase; x.stop_begin = x.stops > 0; x.may_close = !O->server_up; }
        if (s == State::kStarting || s == State::kReady) sim_cover(static_cast<std::uint64_t>(x.phase % 64) * 64 + static_cast<std::uint64_t>(x.cfg.fully_ordered) * 8 + x.cfg.truly_async * 4 + static_cast<std::uint64_t>(s));
        if (s == State::kStopped) { sim_count("stopped", 1);
            // whatever was accepted and could not be answered has got its error by now
            for (auto& p : O->msg) if (p->conn == c.i && p->kind == kAsync && accepted(*p) && p->clean && p->phase1 < x.phase - 1 && !p->callbacks) sim_violation("request %d was accepted but neither answered nor given an error when connection %d stopped", p->id, c.i); }
        if (s == State::kStopped && c.plan.restart && x.restarts > 0 && !c.destroy_now) { x.restarts--; restart = true; x.restarting = true; }
        if (s == State::kStopped && c.destroy_now) { destroy = true; }
    }
    if (sim_chance(100)) sim_sleep_ns(sim_below(300000));
    auto stop = [&] { do_stop(c); };
    if (s == State::kStarting && c.plan.stop_starting && sim_chance(300)) stop();
    if (s == State::kReady && c.plan.send_ready) { const bool sync = info(c.i).cfg.sync_first_connect; send(c, sim_chance(500) ? kSend : !sync && sim_chance(200) ? kWait : kAsync, !sync); }
    if (s == State::kReady && c.plan.stop_ready && sim_chance(300)) stop();
    { SimAtomic a; info(c.i).in_cb--; info(c.i).cb_thread = self(); }
    if (restart) { sim_count("restarts", 1); c.raw->Restart(); SimAtomic a; info(c.i).restarting = false; return; }
    if (destroy) { c.c.reset(); SimAtomic a; info(c.i).destroy_done = true; sim_count("destroyed_in_callback", 1); c.destroyed_in_cb = true; return; }
    (void)nth;
}
void on_notify(Conn& c, Span s) {
    check_quiet(c.i, "the notification callback");
    Msg* m = decode(s, "the notification callback"); if (m->kind != kNotify) sim_violation("message %d came as a notification", m->id); arrive_s2c(*m, c.i, true); sim_count("notifications_received", 1);
    if (c.plan.stop_notify && sim_chance(200)) do_stop(c);
}
bool wait_for(Conn& c, State s, std::uint64_t ns) { const std::uint64_t end = sim_now_ns() + ns; for (;;) { if (c.raw->GetState() == s) return true; if (sim_now_ns() > end) return false; sim_sleep_ns(200000); } (void)c; }
void client_main(int role) {
    const int me = sim_self();
    {
        auto f = std::make_unique<mp::UnixDomainClientFactory>(std::make_shared<mp::UnixDomainEngine>(sc::pmr::get_default_resource(), [](auto...) {})); const mp::ServiceProtocolConfig pc{"svc", static_cast<std::uint32_t>(O->max_send), static_cast<std::uint32_t>(O->max_reply), static_cast<std::uint32_t>(O->max_notify)};
        std::vector<std::unique_ptr<Conn>> conns; const int n = 1 + static_cast<int>(sim_below(2));
        for (int k = 0; k < n; ++k) {
            auto c = std::make_unique<Conn>(); { SimAtomic a; c->i = static_cast<int>(O->conn.size()); O->conn.push_back(std::make_unique<ConnInfo>()); ConnInfo& x = *O->conn.back(); x.process = role; x.cfg = {sim_below(4), sim_below(5), sim_chance(400) != 0, sim_chance(400) != 0, sim_chance(300) != 0}; x.restarts = 2; if (x.cfg.truly_async && x.cfg.max_async_replies + x.cfg.max_queued_sends == 0) x.cfg.max_queued_sends = 2; }
            Plan& p = c->plan; if (O->life) { p.stop_starting = sim_chance(150); p.stop_ready = sim_chance(150); p.restart = sim_chance(600); p.stop_notify = sim_chance(150); p.destroy_in_cb = sim_chance(250); } p.send_ready = sim_chance(200);
            c->c = f->Create(pc, info(c->i).cfg); c->raw = c->c.get(); conns.push_back(std::move(c));
        }
        std::vector<std::thread> t;
        for (auto& cp : conns) {
            Conn& c = *cp; info(c.i).started = true;
            c.raw->Start([&c](State s) { on_state(c, s); }, [&c](Span m) { on_notify(c, m); });
            const int senders = 1 + static_cast<int>(sim_below(2));
            for (int k = 0; k < senders; ++k) t.emplace_back([&c] {
                const int ops = 1 + static_cast<int>(sim_below(O->size_cls == 2 ? 4 : 10)); if (sim_chance(700)) wait_for(c, State::kReady, 30000000);
                const unsigned w = sim_below(3);
                for (int i = 0; i < ops; ++i) { { SimAtomic a; if (O->final_phase) break; } const unsigned x = sim_below(10); send(c, w == 0 ? kSend : x < 4 ? kSend : x < 7 ? kAsync : kWait); if (sim_chance(250)) sim_sleep_ns(sim_below(400000)); }
            });
            if (O->life && sim_chance(500)) t.emplace_back([&c] {
                const int turns = 1 + static_cast<int>(sim_below(3));
                for (int i = 0; i < turns; ++i) { sim_sleep_ns(sim_below(3000000)); do_stop(c); if (!wait_for(c, State::kStopped, 20000000)) continue; if (sim_chance(700)) c.raw->Restart(); }
            });
        }
        for (auto& x : t) x.join();
        { SimAtomic a; O->final_phase = true; }
        sim_event("senders done"); for (auto& cp : conns) { for (;;) { { SimAtomic a; info(cp->i).restarts = 0; if (!info(cp->i).restarting) break; } sim_sleep_ns(100000); } }
        // what is on its way arrives while the connection stays up
        for (auto& cp : conns) {
            Conn& c = *cp; const std::uint64_t end = sim_now_ns() + 3000000000ULL;
            for (;;) {
                bool open = false; { SimAtomic a; ConnInfo& x = info(c.i); if (x.state == State::kReady) for (auto& p : O->msg) if (p->conn == c.i && p->kind <= kAsync && accepted(*p) && p->clean && p->ready0 && p->phase1 == x.phase && (!p->delivered || (p->kind == kAsync && !p->callbacks))) { open = true; if (sim_now_ns() > end) sim_violation("connection %d is up but message %d, accepted %llu ns ago, was %s", c.i, p->id, static_cast<unsigned long long>(3000000000ULL), p->delivered ? "never answered" : "never delivered"); } }
                if (!open) break; sim_sleep_ns(1000000);
            }
        }
        for (auto& cp : conns) {
            Conn& c = *cp; const unsigned how = sim_below(4); c.destroy_now = false;
            auto stop = [&] { do_stop(c); };
            auto gone = [&] { { SimAtomic a; info(c.i).stop_begin = 1; info(c.i).stops++; } c.c.reset(); SimAtomic a; info(c.i).destroy_done = true; };
            if (how == 0 || c.raw->GetState() == State::kStopped) gone();
            else if (how == 1) { stop(); if (!wait_for(c, State::kStopped, 5000000000ULL)) sim_violation("connection %d does not stop (state %d)", c.i, static_cast<int>(c.raw->GetState())); sim_sleep_ns(2000000); gone(); }
            else if (how == 2) { stop(); if (!wait_for(c, State::kStopped, 5000000000ULL)) sim_violation("connection %d does not stop (state %d)", c.i, static_cast<int>(c.raw->GetState())); gone(); }
            else {
                // the Stopped callback destroys it, unless the connection broke before Stop() got a hold of it
                { SimAtomic a; c.destroy_on_stop = true; c.destroyer = self(); }
                stop(); const std::uint64_t end = sim_now_ns() + 5000000000ULL; bool alone = false;
                for (;;) { { SimAtomic a; if (c.destroyed_in_cb) break; if (!c.destroy_now && info(c.i).state == State::kStopped) { alone = true; break; } if (sim_now_ns() > end) sim_violation("connection %d does not stop", c.i); } sim_sleep_ns(500000); }
                if (alone) gone();
            }
            SimAtomic a; sim_event("connection %d destroyed", c.i); if (info(c.i).in_cb) sim_violation("connection %d was destroyed while its state callback was running", c.i);
            for (auto& p : O->msg) if (p->conn == c.i && p->kind == kAsync && accepted(*p) && !p->callbacks) sim_violation("request %d was accepted but neither answered nor given an error when its connection was destroyed", p->id);
        }
        f.reset();
    }
    if (const int n = sk_count_fds(me)) sim_violation("%d descriptors of client %d remain open", n, role);
}
}  // namespace
extern "C" void sim_process_main(int role, int incarnation, void*) { if (role == 0) server_main(incarnation); else client_main(role); }
extern "C" void sim_control() {
    O = new Oracle; O->conn.reserve(16); sim_max_steps(400000); sim_budget_ok(0);
    O->size_cls = sim_below(10) < 6 ? 0 : sim_below(10) < 8 ? 1 : 2; const std::size_t top = O->size_cls == 0 ? 64 : O->size_cls == 1 ? 1500 : 65535;
    O->max_send = top; if (O->size_cls == 2) O->max_send = 66000; O->max_reply = O->size_cls == 2 && sim_chance(600) ? 500 : top; O->max_notify = O->max_reply;
    // never both directions full: two engines that wait for each other's reading are out of scope
    static const std::size_t small[] = {300, 2048, 8192}; O->small_c2s = true; sk_set_sock_caps(sim_chance(500) ? 212992 : small[sim_below(3)], 16u << 20);
    O->clients = 1 + static_cast<int>(sim_below(2)); O->with_worker = O->max_reply > 36544 || sim_chance(500); O->server_mode = static_cast<int>(sim_below(3)); O->life = sim_chance(std::string{sim_param("p")} == "C15" ? 850 : 500);
    O->reject = O->life && sim_chance(200) ? 200 : 0; O->hang_up = O->life && sim_chance(250) ? 60 : 0; O->bad = O->life && sim_chance(150) ? 60 : 0; O->kill_server = O->life && sim_chance(250);
    sim_allow_fault(SF_STALL, 6); sim_allow_fault(SF_DELAY, 100); if (sim_chance(250)) { O->faults = true; sim_allow_fault(SF_EINTR, 100); sim_allow_fault(SF_ECONN, 100); if (sim_chance(300)) sim_allow_fault(SF_EMFILE, 60); }
    sim_race_check(1, 1);
    int server, clients[2]; int incarnation = 0;
    auto start_server = [&] { SimAtomic a; server = sim_spawn("server", 0, incarnation++, 1000, 0, nullptr); };
    const bool late = sim_chance(200); if (!late) start_server();
    for (int i = 0; i < O->clients; ++i) { SimAtomic a; clients[i] = sim_spawn(("client" + std::to_string(i + 1)).c_str(), i + 1, 0, 1000, 0, nullptr); }
    if (late) { sim_sleep_ns(sim_below(120000000)); start_server(); }
    const std::uint64_t limit = sim_now_ns() + 60000000000ULL; int kills = O->kill_server ? 1 + static_cast<int>(sim_below(2)) : 0;
    for (;;) {
        bool any = false; for (int i = 0; i < O->clients; ++i) if (sim_alive(clients[i])) any = true;
        if (!any) break;
        if (sim_now_ns() > limit) sim_violation("a client does not finish");
        if (kills && sim_chance(200)) { --kills; { SimAtomic a; for (auto& c : O->conn) c->may_close = true; sim_kill(server); O->server_up = false; for (auto& s : O->sess) s->ended = true; sim_count("server_killed", 1); } sim_sleep_ns(sim_below(80000000)); start_server(); }
        sim_sleep_ns(500000 + sim_below(1000000)); { SimAtomic a; if (O->final_phase) sim_calm(); }
    }
    { SimAtomic a; O->end = true; }
    if (!sim_wait_exit(server, 60000000000ULL)) sim_violation("the server does not finish");
}
