// The link between two gateways (C22): real bidirectional transports over simulated network connections, and a transport whose other side is a peer that sends
// whatever it likes.
#include "sim_api.h"
#include "kernel_api.h"
#include "score/mw/com/gateway/transport_layer/sample/bidirectional_transport.h"
#include "score/mw/com/gateway/transport_layer/sample/message_framer.h"
#include "score/mw/com/gateway/transport_layer/transport_error.h"
#include <netinet/in.h>
#include <array>
#include <atomic>
#include <condition_variable>
#include <cstring>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>
namespace gw = score::mw::com::gateway; namespace mc = score::mw::com;
using Type = gw::MessageType; using Err = gw::TransportErrorc;
extern "C" void sk_set_sock_caps(std::size_t, std::size_t);
extern "C" int sk_count_fds(int pid);
extern "C" int sk_cut_links(int pid);
extern "C" unsigned long sk_net_changes();
extern "C" int sk_net_full(int);
namespace {
constexpr std::uint64_t kMs = 1000000ULL; constexpr int kAttempts = 5; constexpr std::size_t kMax = 1024;
const Type kTypes[] = {Type::kProvideServiceRequest, Type::kOfferServiceRequest, Type::kStopOfferServiceRequest, Type::kRegisterNotificationRequest, Type::kUnregisterNotificationRequest, Type::kUpdateNotification};
struct El { std::string name; std::size_t size, align; };
struct Msg {
    int id, node, inc, peer_inc, epoch; Type type; std::string spec, name; unsigned etype = 0; std::vector<El> el; std::uint32_t ctl = 0, dat = 0; bool too_big = false;
    std::uint64_t begin = 0, end = 0, t0 = 0, t1 = 0; bool over = false; int result = -1; int delivered = 0; bool in_handler = false;
    // for messages to or from the raw peer
    bool raw = false, complete = false, bad = false; int conn = -1; std::uint32_t seq = 0; unsigned long changes = 0; int acks = 0; bool ack_sent = false; std::uint64_t ack_at = 0; bool clean_end = false;
};
struct Node { int inc = -1; int pid = 0; bool up = false, shut = false, release = false, in_setup = false, busy = false; std::uint64_t setup_since = 0, full_at = 0; };
struct Oracle {
    std::vector<std::unique_ptr<Msg>> msg; std::uint64_t seq = 1; int epoch = 0; Node node[2]; unsigned timeout_ms; bool slow, eintr; bool handler[2]; bool raw; bool end = false; int senders; bool cuts, crashes, early; int max_ops; bool busy_handler; bool final_phase = false; unsigned size_cls; int conn = 0; bool only_one_cut = false;
};
Oracle* O;
bool request(Type t) { return gw::IsRequest(t); }
std::string word(std::size_t n) { std::string s; for (std::size_t i = 0; i < n; ++i) s += static_cast<char>('a' + sim_below(26)); return s; }
std::size_t pad(std::size_t max) { switch (O->size_cls) { case 0: return sim_below(12); case 1: return sim_below(static_cast<unsigned>(max)); default: return sim_chance(500) ? max - sim_below(6) : sim_below(12); } }
Msg* new_msg(int node, bool may_be_big) {
    SimAtomic a; auto p = std::make_unique<Msg>(); Msg& m = *p; m.id = static_cast<int>(O->msg.size()); m.node = node; m.inc = O->node[node].inc; m.peer_inc = O->node[1 - node].inc; m.type = kTypes[sim_chance(450) ? 5 : sim_below(5)];
    m.spec = "gw/m" + std::to_string(m.id) + "_"; const bool big = may_be_big && sim_chance(30);
    if (m.type == Type::kOfferServiceRequest || m.type == Type::kStopOfferServiceRequest) m.spec += word(big ? kMax : pad(kMax - 1 - m.spec.size()));
    else if (m.type == Type::kProvideServiceRequest) {
        if (sim_chance(200)) m.spec += word(big ? kMax : pad(300)); const std::size_t n = sim_below(5); for (std::size_t i = 0; i < n; ++i) m.el.push_back({"e" + std::to_string(i) + "_" + word(sim_below(40)), static_cast<std::size_t>(8) << sim_below(12), static_cast<std::size_t>(1) << sim_below(5)});
        m.ctl = static_cast<std::uint32_t>(sim_rand64()); m.dat = static_cast<std::uint32_t>(sim_rand64());
    } else { m.spec += word(sim_below(30)); m.etype = 1 + sim_below(3); m.name = "n_" + word(big ? kMax : pad(kMax - m.spec.size() - 5)); }
    m.epoch = O->epoch; m.changes = sk_net_changes(); m.t0 = sim_now_ns(); m.begin = O->seq++; m.too_big = big && (m.spec.size() > kMax - 1 || m.name.size() > kMax - 4); O->msg.push_back(std::move(p)); return &m;
}
// what names of elements point to, while the message is being sent
struct Names { std::vector<std::string> s; ~Names() { for (auto& x : s) for (auto& c : x) c = '#'; } };
std::unique_ptr<gw::TransportMessage> make(const Msg& m, Names& n) {
    auto spec = mc::InstanceSpecifier::Create(std::string{m.spec}).value(); const auto et = static_cast<mc::impl::ServiceElementType>(m.etype);
    switch (m.type) {
        case Type::kProvideServiceRequest: { n.s.reserve(m.el.size()); std::vector<mc::EventInfo> v; for (auto& e : m.el) { n.s.emplace_back(e.name.data(), e.name.size()); v.push_back({std::string_view{n.s.back()}, {e.size, e.align}}); } return std::make_unique<gw::ProvideServiceRequest>(spec, v, m.ctl, m.dat); }
        case Type::kOfferServiceRequest: return std::make_unique<gw::OfferServiceRequest>(spec);
        case Type::kStopOfferServiceRequest: return std::make_unique<gw::StopOfferServiceRequest>(spec);
        case Type::kRegisterNotificationRequest: return std::make_unique<gw::RegisterNotificationRequest>(spec, et, std::string{m.name});
        case Type::kUnregisterNotificationRequest: return std::make_unique<gw::UnregisterNotificationRequest>(spec, et, std::string{m.name});
        default: return std::make_unique<gw::UpdateNotification>(spec, et, std::string{m.name});
    }
}
const std::string* spec_of(const gw::TransportMessage& t) {
    switch (t.GetType()) {
        case Type::kProvideServiceRequest: return &static_cast<const gw::ProvideServiceRequest&>(t).GetInstanceSpecifier();
        case Type::kOfferServiceRequest: return &static_cast<const gw::OfferServiceRequest&>(t).GetInstanceSpecifier();
        case Type::kStopOfferServiceRequest: return &static_cast<const gw::StopOfferServiceRequest&>(t).GetInstanceSpecifier();
        case Type::kRegisterNotificationRequest: case Type::kUnregisterNotificationRequest: case Type::kUpdateNotification: return &static_cast<const gw::ServiceElementMessage&>(t).GetInstanceSpecifier();
        default: return nullptr;
    }
}
// the message of the oracle that t is, after comparing all of it
Msg* identify(const gw::TransportMessage& t, int from, const char* where) {
    const std::string* s = spec_of(t); if (!s) sim_violation("%s gets a message of type %d", where, static_cast<int>(t.GetType()));
    const auto at = s->find("gw/m"); if (at != 0) sim_violation("%s gets a message that nobody sent (type %d, %zu bytes of name)", where, static_cast<int>(t.GetType()), s->size());
    const unsigned long id = std::strtoul(s->c_str() + 4, nullptr, 10); Msg* m; { SimAtomic a; if (id >= O->msg.size()) sim_violation("%s gets a message that nobody sent (%lu)", where, id); m = O->msg[id].get(); }
    bool same = m->node == from && m->type == t.GetType() && m->spec == *s;
    if (same && t.GetType() == Type::kProvideServiceRequest) {
        auto& p = static_cast<const gw::ProvideServiceRequest&>(t); same = p.GetShmControlSize() == m->ctl && p.GetShmDataSize() == m->dat && p.GetServiceElements().size() == m->el.size();
        for (std::size_t i = 0; same && i < m->el.size(); ++i) { auto& e = p.GetServiceElements()[i]; same = e.data_type_meta_info.size == m->el[i].size && e.data_type_meta_info.alignment == m->el[i].align && e.name == m->el[i].name; }
    } else if (same && m->etype) { auto& p = static_cast<const gw::ServiceElementMessage&>(t); same = static_cast<unsigned>(p.GetElementType()) == m->etype && p.GetElementName() == m->name; }
    if (!same) sim_violation("%s gets message %d (type %d) and it is not what was sent", where, m->id, static_cast<int>(m->type));
    return m;
}
int working() { int w = 0; for (auto& n : O->node) if (n.busy && sim_alive(n.pid)) ++w; return w; }
bool clean(const Msg& m) { return m.epoch == O->epoch && m.changes == sk_net_changes(); }
void arrive(Msg& m, int node) {
    SimAtomic a; sim_event("message %d (type %d) arrives at node %d", m.id, static_cast<int>(m.type), node); ++m.delivered; sim_count("messages_delivered", 1);
    if (m.bad) sim_violation("message %d was damaged on the way and is delivered", m.id);
    if (m.too_big) sim_violation("message %d is larger than allowed and is delivered", m.id);
    if (m.raw && !m.complete) sim_violation("message %d was not sent completely and is delivered", m.id);
    if (m.delivered > 1) {
        if (!request(m.type) || m.raw) sim_violation("message %d (type %d) is delivered twice", m.id, static_cast<int>(m.type));
        if (m.delivered > kAttempts) sim_violation("request %d is delivered %d times", m.id, m.delivered);
        if (clean(m) && sim_now_ns() < m.t0 + static_cast<std::uint64_t>(m.delivered - 1) * O->timeout_ms * kMs) sim_violation("request %d is delivered again before its time limit", m.id);
        sim_count("requests_repeated", 1);
    }
    const int n = static_cast<int>(O->msg.size());
    for (int i = 0; i < n; ++i) { Msg& y = *O->msg[static_cast<std::size_t>(i)]; if (&y == &m || y.node != m.node || y.inc != m.inc) continue;
        if (m.delivered == 1 && y.over && !y.result && y.end < m.begin && !y.delivered && !y.bad && (m.raw ? y.conn == m.conn && (!request(y.type) || y.acks) : clean(y))) sim_violation("message %d arrives although message %d, sent before it, has not", m.id, y.id);
        if (y.delivered && m.over && m.end < y.begin) sim_violation("message %d arrives after message %d, which was sent later", m.id, y.id); }
}
void over(Msg& m, int result) {
    SimAtomic a; m.over = true; m.result = result; m.end = O->seq++; m.t1 = sim_now_ns(); m.clean_end = clean(m); sim_event("message %d (type %d) of node %d sent: %d after %llu us", m.id, static_cast<int>(m.type), m.node, result, static_cast<unsigned long long>((m.t1 - m.t0) / 1000)); sim_count(result ? "sends_failed" : "sends_succeeded", 1);
    if (m.too_big) { if (!result) sim_violation("message %d is too large for the link and sending it succeeded", m.id); return; }
    const std::uint64_t limit = O->timeout_ms * kMs;
    if (result == static_cast<int>(Err::kTimeout)) { sim_count("requests_timed_out", 1); if (m.t1 - m.t0 < limit) sim_violation("request %d timed out after %llu us", m.id, static_cast<unsigned long long>((m.t1 - m.t0) / 1000)); }
    if (m.t1 - m.t0 > kAttempts * limit + 4000 * kMs && O->node[m.node].full_at >= m.t0) sim_violation("[send-without-time-limit] sending message %d took %llu ms because the other side did not read", m.id, static_cast<unsigned long long>((m.t1 - m.t0) / kMs));
    if (m.t1 - m.t0 > kAttempts * limit + 4000 * kMs) sim_violation("sending message %d took %llu ms", m.id, static_cast<unsigned long long>((m.t1 - m.t0) / kMs));
    if (!O->raw) {
        if (!result && request(m.type) && !O->handler[1 - m.node]) sim_violation("request %d succeeded although nobody answers", m.id);
        if (result && clean(m) && !O->epoch && !O->slow && !O->eintr && O->timeout_ms >= 1000 && (O->handler[1 - m.node] || !request(m.type))) sim_violation("sending message %d failed with error %d on an undisturbed link", m.id, result);
    } else if (request(m.type)) {
        if (!result && !m.ack_sent) sim_violation("request %d succeeded although the other side never confirmed it", m.id);
        if (result && m.ack_sent && !O->slow && !O->eintr && clean(m) && m.ack_at < m.t0 + limit / 2) sim_violation("request %d failed with error %d although it was confirmed in time", m.id, result);
    }
}
int code(const score::Result<void>& r) { return r.has_value() ? 0 : static_cast<int>(*r.error()); }
void send_one(gw::BidirectionalTransport& t, int node, bool in_handler) {
    Msg* m = new_msg(node, true); m->in_handler = in_handler; Names names; auto w = make(*m, names);
    over(*m, code(request(m->type) ? t.SendRequest(*w) : t.SendNotification(*w)));
}
gw::HyperVisorSocketConfiguration config(int node) { gw::HyperVisorSocketConfiguration c; c.remote_ip_ = score::os::Ipv4Address{"127.0.0.1"}; c.local_port_ = static_cast<std::uint16_t>(9000 + node); c.remote_port_ = static_cast<std::uint16_t>(9001 - node); c.request_timeout_ms_ = O->timeout_ms; return c; }
void node_main(int node, int inc) {
    { SimAtomic a; O->node[node].inc = inc; O->node[node].up = O->node[node].shut = O->node[node].in_setup = false; }
    const int me = sim_self();
    {
        std::mutex kick_mu; std::condition_variable kick_cv; int kick = -1;   // the arrival of a message makes another thread shut the link down
        auto t = std::make_unique<gw::BidirectionalTransport>(config(node)); gw::BidirectionalTransport* link = t.get();
        if (O->handler[node]) t->SetMessageHandler([node, link, &kick_mu, &kick_cv, &kick](std::unique_ptr<gw::TransportMessage> m) {
            if (m && m->GetType() == Type::kProvideServiceRequest) sim_sleep_ns(sim_below(300000));   // the sender may have forgotten it by now
            if (!m) sim_violation("node %d gets no message", node);
            arrive(*identify(*m, 1 - node, node ? "node 1" : "node 0"), node); if (sim_chance(30)) sim_sleep_ns(sim_below(3000000));
            { std::lock_guard<std::mutex> g{kick_mu}; if (kick > 0 && --kick == 0) kick_cv.notify_all(); }
            if (O->busy_handler && sim_chance(100)) { bool go; { SimAtomic a; go = !O->end && !O->final_phase; } if (go) send_one(*link, node, true); } });
        std::thread killer; bool early; { SimAtomic a; early = O->early; O->node[node].release = false; } early = early && sim_chance(400); std::atomic<bool> ready{false};
        const std::uint64_t die = early ? sim_now_ns() + (sim_below(3) ? sim_below(400000000) : sim_below(5000000)) : ~0ULL;
        if (early && sim_chance(500)) { kick = 1 + static_cast<int>(sim_below(10)); }
        // shuts the link down early, or because the other side will not set it up any more (it does not know yet that its own connection is dead)
        killer = std::thread([node, link, die, &ready, &kick_mu, &kick_cv, &kick] { for (;;) { { std::unique_lock<std::mutex> g{kick_mu}; if (kick > 0 && ready) kick_cv.wait_for(g, std::chrono::milliseconds(20)); if (!kick) break; } if (die == ~0ULL && ready) return; const std::uint64_t now = sim_now_ns(); if (now >= die) break; { SimAtomic a; if (O->node[node].release) break; if (O->end) return; } sim_sleep_ns(std::min<std::uint64_t>(die - now, 20 * kMs)); } { SimAtomic a; O->epoch++; O->only_one_cut = false; O->node[node].shut = true; sim_count("shutdowns_early", 1); sim_event("node %d is shut down", node); } link->Shutdown(); });
        { SimAtomic a; O->node[node].in_setup = true; O->node[node].setup_since = sim_now_ns(); } const auto r = t->Setup(); { SimAtomic a; O->node[node].in_setup = false; } sim_event("node %d: setup %d", node, code(r));
        ready = true; bool released; { SimAtomic a; released = O->node[node].release || O->epoch; }   // the link may be lost again while Setup() looks at it if (!r.has_value() && !early && !released) sim_violation("setting up node %d failed with error %d", node, code(r));
        if (!r.has_value()) { SimAtomic a; O->node[node].shut = true; }
        if (r.has_value()) {
            { SimAtomic a; O->node[node].up = true; }
            std::vector<std::thread> v; const int n = O->senders;
            for (int i = 0; i < n; ++i) v.emplace_back([node, link, early] { const int ops = 1 + static_cast<int>(sim_below(static_cast<unsigned>(O->max_ops))); for (int j = 0; j < ops; ++j) { bool stop; { SimAtomic a; stop = O->final_phase || O->node[node].shut; } if (stop) break; if (early && sim_chance(100)) { { SimAtomic a; O->epoch++; O->only_one_cut = false; O->node[node].shut = true; sim_count("shutdowns_early", 1); sim_event("node %d is shut down while it sends", node); } link->Shutdown(); break; } send_one(*link, node, false); if (sim_chance(300)) sim_sleep_ns(sim_below(sim_chance(100) ? 200000000 : 1000000)); } });
            for (auto& x : v) x.join();
        }
        { SimAtomic a; O->node[node].busy = false; sim_event("node %d is done with sending", node); }
        // once the faults have stopped, a link that both sides still use works
        for (;;) { bool fin, both; { SimAtomic a; fin = O->final_phase; both = O->node[0].up && O->node[1].up && !O->node[0].shut && !O->node[1].shut && !O->raw && O->handler[1 - node]; if (O->node[node].shut) break; } if (!fin) { sim_sleep_ns(5000000); continue; }
            if (!both) break;
            const std::uint64_t by = sim_now_ns() + 15000 * kMs + 2ULL * kAttempts * O->timeout_ms * kMs;
            for (;;) { Msg* m = new_msg(node, false); Names names; auto w = make(*m, names); const int c = code(request(m->type) ? t->SendRequest(*w) : t->SendNotification(*w)); over(*m, c); if (!c && request(m->type)) break;
                bool go; { SimAtomic a; go = O->node[0].up && O->node[1].up && !O->node[0].shut && !O->node[1].shut; } if (!go) break;
                bool ho; { SimAtomic a; ho = !O->only_one_cut; } if (sim_now_ns() > by && ho) sim_violation("[half-open-link] the link of node %d does not come back because one side still holds a dead connection", node);
                if (sim_now_ns() > by) sim_violation("the link of node %d does not come back: sending fails with error %d", node, c); if (c) sim_sleep_ns(100 * kMs); }
            break; }
        killer.join();
        { SimAtomic a; sim_event("node %d waits for the end", node); O->node[node].up = false; }
        for (;;) { bool e; { SimAtomic a; e = O->end || O->node[node].shut; } if (e) break; sim_sleep_ns(5000000); }
        { SimAtomic a; O->node[node].shut = true; O->epoch++; sim_event("node %d ends its link", node); }
        if (sim_chance(500)) t->Shutdown(); t.reset(); sim_event("node %d has ended its link", node);
    }
    if (const int n = sk_count_fds(me)) sim_violation("%d descriptors of node %d remain open", n, node);
}
// ---- the peer that sends whatever it likes
bool put_all(int fd, const std::uint8_t* p, std::size_t n) { while (n) { iovec io{const_cast<std::uint8_t*>(p), n}; msghdr h{}; h.msg_iov = &io; h.msg_iovlen = 1; const std::size_t some = sim_chance(200) ? 1 + sim_below(static_cast<unsigned>(n)) : n; io.iov_len = some; const long r = sk_sendmsg(fd, &h, MSG_NOSIGNAL); if (r == -EINTR) continue; if (r < 0) return false; p += r; n -= static_cast<std::size_t>(r); if (n && sim_chance(300)) sim_sleep_ns(sim_below(2000000)); } return true; }
bool get_all(int fd, std::uint8_t* p, std::size_t n) { while (n) { iovec io{p, n}; msghdr h{}; h.msg_iov = &io; h.msg_iovlen = 1; const long r = sk_recvmsg(fd, &h, 0); if (r == -EINTR) continue; if (r <= 0) return false; p += r; n -= static_cast<std::size_t>(r); } return true; }
struct Raw { std::mutex mu; int out = -1, in = -1; int conn; bool broken = false; bool lost = false; bool over = false; std::atomic<bool> quit{false}, accepted{false}; std::vector<std::thread> acks; };
std::vector<std::uint8_t> frame(const gw::TransportMessage& t, std::uint32_t seq) { std::array<std::uint8_t, kMax> b; const auto n = t.Serialize(b); gw::MessageHeader h = t.GetHeader(); h.sequence = seq; h.payload_size = static_cast<std::uint32_t>(n); std::vector<std::uint8_t> v(gw::MessageHeader::kWireSize + n); h.SerializeToBuffer(v.data()); std::memcpy(v.data() + gw::MessageHeader::kWireSize, b.data(), n); return v; }
bool raw_send(Raw& r, const std::vector<std::uint8_t>& f, bool breaks = false) { std::lock_guard<std::mutex> g{r.mu}; if (r.broken || r.lost) return false; r.broken = breaks; if (!put_all(r.out, f.data(), f.size())) { r.lost = true; return false; } return true; }
// the peer does not wait for its own sending before it reads on
void ack_now(Raw& r, std::uint32_t seq);
void ack(Raw& r, std::uint32_t seq, std::uint64_t delay = 0) { r.acks.emplace_back([&r, seq, delay] { if (delay) sim_sleep_ns(delay); ack_now(r, seq); }); }
void ack_now(Raw& r, std::uint32_t seq) {
    { SimAtomic a; for (auto& m : O->msg) if (!m->raw && m->seq == seq && m->node == 0) { if (!m->ack_sent) { m->ack_sent = true; m->ack_at = ~0ULL; } } }
    gw::AckResponse k{seq}; const bool ok = raw_send(r, frame(k, 0));
    if (ok) { SimAtomic a; sim_count("confirmations", 1); for (auto& m : O->msg) if (!m->raw && m->seq == seq && m->node == 0 && m->ack_at == ~0ULL) m->ack_at = sim_now_ns(); }
}
void raw_read(Raw& r) {
    for (;;) {
        std::uint8_t hb[gw::MessageHeader::kWireSize]; if (!get_all(r.in, hb, sizeof hb)) return; gw::MessageHeader h; h.DeserializeFromBuffer(hb);
        auto t = gw::MessageFramer::CreateMessageForType(h.type); if (!t || h.payload_size > kMax) sim_violation("the transport sends a frame of type %d and %u bytes", static_cast<int>(h.type), h.payload_size);
        std::vector<std::uint8_t> b(h.payload_size); if (!get_all(r.in, b.data(), b.size())) return;
        if (!t->Deserialize({b.data(), b.size()})) sim_violation("the transport sends a frame of type %d that cannot be read", static_cast<int>(h.type));
        if (h.type == Type::kAckResponse) {
            const std::uint32_t s = static_cast<gw::AckResponse&>(*t).GetAckedSequence(); SimAtomic a; Msg* f = nullptr; for (auto& m : O->msg) if (m->raw && m->seq == s) f = m.get();
            sim_event("the transport confirms %u", s); if (!f || !f->complete || f->bad || f->conn != r.conn || !request(f->type)) sim_violation("the transport confirms request %u, which it did not get", s);
            if (++f->acks > 1) sim_violation("the transport confirms request %u twice", s); continue; }
        Msg* m = identify(*t, 0, "the peer"); bool is_request = request(m->type);
        { SimAtomic a; sim_event("message %d arrives at the peer", m->id); m->delivered++; if (m->too_big) sim_violation("message %d is larger than allowed and is sent", m->id); if (is_request) { if (m->seq && m->seq != h.sequence) sim_violation("request %d is repeated under another number", m->id); for (auto& y : O->msg) if (!y->raw && y->seq == h.sequence && y.get() != m && request(y->type)) sim_violation("requests %d and %d have the same number", y->id, m->id); m->seq = h.sequence; } }
        if (is_request) switch (sim_below(10)) { case 0: break; case 1: ack(r, h.sequence + 1000 + sim_below(10)); break; case 2: { std::uint32_t other = 0; { SimAtomic a; for (auto& y : O->msg) if (!y->raw && y->seq && !y->over && y.get() != m) other = y->seq; } if (other) ack(r, other); break; } case 3: ack(r, h.sequence); ack(r, h.sequence); break; case 4: { const std::uint32_t s = h.sequence; ack(r, s, 1 + (sim_below(3) ? sim_below(5000000) : O->timeout_ms * kMs / 2 + sim_below(static_cast<unsigned>(O->timeout_ms)) * kMs)); break; } default: ack(r, h.sequence); }
    }
}
void raw_main() {
    { SimAtomic a; O->node[1].inc = 0; O->node[1].up = true; }
    auto address = [](int port) { sockaddr_in s{}; s.sin_family = AF_INET; s.sin_port = htons(static_cast<std::uint16_t>(port)); return s; };
    const std::uint64_t begin = sim_now_ns(); const int rounds = 1 + static_cast<int>(sim_below(3)); std::uint32_t seq = 5000000;
    for (int round = 0;; ++round) {
        bool needed; { SimAtomic a; needed = working() > 1; } const bool polite = round >= rounds; if (polite && !needed) break;
        Raw r; { SimAtomic a; r.conn = ++O->conn; }
        const int ls = sk_socket(AF_INET, SOCK_STREAM, 0); auto mine = address(9001), its = address(9000); if (sk_bind(ls, &mine, sizeof mine) < 0 || sk_listen(ls, 1) < 0) sim_give_up("peer cannot listen");
        std::thread acc([&] { for (;;) { const int f = sk_accept(ls); if (f >= 0) { r.in = f; r.accepted = true; return; } if (r.quit) return; } });
        bool given_up = false; for (;;) { r.out = sk_socket(AF_INET, SOCK_STREAM, 0); if (sk_connect(r.out, &its, sizeof its) >= 0) break; sk_close(r.out); { SimAtomic a; given_up = working() < 2; } if (given_up) break; sim_sleep_ns(20 * kMs); }
        if (given_up) { r.quit = true; int f = sk_socket(AF_INET, SOCK_STREAM, 0); while (!r.accepted && sk_connect(f, &mine, sizeof mine) < 0) { sk_close(f); f = sk_socket(AF_INET, SOCK_STREAM, 0); sim_sleep_ns(kMs); } acc.join(); if (r.in >= 0) sk_close(r.in); sk_close(f); sk_close(ls); break; }
        bool lost = false; for (const std::uint64_t until = sim_now_ns() + 10000 * kMs;;) { if (r.accepted) break; if (sim_now_ns() > until) { lost = true; break; } sim_sleep_ns(5 * kMs); }
        if (lost) { r.quit = true; int f = sk_socket(AF_INET, SOCK_STREAM, 0); while (!r.accepted && sk_connect(f, &mine, sizeof mine) < 0) { sk_close(f); f = sk_socket(AF_INET, SOCK_STREAM, 0); sim_sleep_ns(kMs); } acc.join(); sk_close(f); sk_close(ls); { SimAtomic a; O->epoch++; sim_count("half_open_links", 1); } sk_close(r.out); if (r.in >= 0) sk_close(r.in); --round; if (sim_now_ns() > begin + 300000 * kMs) round = rounds; continue; }
        acc.join(); sk_close(ls);
        std::thread reader([&] { raw_read(r); SimAtomic a; r.over = true; });
        const int ops = polite ? 0 : static_cast<int>(sim_below(static_cast<unsigned>(O->max_ops * 2))); bool all = true;
        for (int i = 0; i < ops && all; ++i) {
            Msg* m = new_msg(1, false); Names names; auto t = make(*m, names); { SimAtomic a; m->raw = true; m->conn = r.conn; m->seq = request(m->type) ? ++seq : 0; }
            auto f = frame(*t, m->seq); const std::size_t head = gw::MessageHeader::kWireSize; const unsigned what = sim_chance(80) ? 1 + sim_below(5) : 0;
            if (what) {   // damaged, or cut off
                { SimAtomic a; m->bad = true; sim_count("damaged_frames", 1); } gw::MessageHeader h; h.DeserializeFromBuffer(f.data());
                if (what == 1) h.type = static_cast<Type>(0x20 + sim_below(0x20));
                else if (what == 2) { h.payload_size = kMax + 1 + (sim_below(2) ? sim_below(3000) : static_cast<std::uint32_t>(sim_rand64() >> 33)); f.resize(head + std::min<std::size_t>(h.payload_size, 5000), 'z'); }
                else if (what == 3) { const std::uint32_t cut = m->type == Type::kProvideServiceRequest ? 1 + sim_below(8) : 1; h.payload_size -= cut; f.resize(f.size() - cut); }
                else if (what == 4) { f.resize(sim_below(static_cast<unsigned>(f.size()))); }
                else { h.payload_size = static_cast<std::uint32_t>(f.size() - head); for (std::size_t k = head; k < f.size(); ++k) if (!f[k]) f[k] = 'q'; if (m->type == Type::kProvideServiceRequest) h.type = static_cast<Type>(0x21); }   // no string ends
                if (f.size() >= head) h.SerializeToBuffer(f.data());
                sim_event("damaged frame %d of kind %u, %zu bytes", m->id, what, f.size()); raw_send(r, f, true); over(*m, 1); break; }
            { SimAtomic a; m->complete = true; } all = raw_send(r, f); { SimAtomic a; m->over = true; m->result = all ? 0 : 1; m->end = O->seq++; }
            if (sim_chance(300)) sim_sleep_ns(sim_below(1000000));
        }
        if (polite) for (const std::uint64_t until = sim_now_ns() + 40000 * kMs; sim_now_ns() < until;) { bool w; { SimAtomic a; w = working() > 1 && !r.over; } if (!w) break; sim_sleep_ns(5 * kMs); }
        else sim_sleep_ns(sim_below(3) ? sim_below(300000000) : O->timeout_ms * 3 * kMs);
        if (!O->slow && !O->eintr && all) { sim_sleep_ns(500 * kMs); SimAtomic a; if (!O->epoch && !O->node[0].shut && !r.lost && O->node[0].up) for (auto& m : O->msg) if (m->raw && m->conn == r.conn && m->complete && !m->result && !m->bad && O->handler[0]) { if (request(m->type) && !m->acks) sim_violation("request %d of the peer is not confirmed", m->id); } }
        { SimAtomic a; O->epoch++; sim_count("peer_disconnects", 1); }
        sk_shutdown(r.out, SHUT_RDWR); sk_shutdown(r.in, SHUT_RDWR); reader.join(); for (auto& x : r.acks) x.join(); sk_close(r.out); sk_close(r.in);
        sim_sleep_ns(sim_below(2) ? 0 : sim_below(1500000000));
    }
    { SimAtomic a; O->node[1].up = false; O->node[1].shut = true; O->node[1].busy = false; }
}
}  // namespace
extern "C" void sim_process_main(int role, int incarnation, void*) { if (role == 1 && O->raw) raw_main(); else node_main(role, incarnation); }
extern "C" void sim_control() {
    O = new Oracle; O->msg.reserve(4096); sim_max_steps(1000000); sim_budget_ok(0);
    O->raw = sim_chance(350); static const unsigned limits[] = {20, 100, 1000, 1000, 5000}; O->timeout_ms = limits[sim_below(5)]; O->slow = sim_chance(500); O->eintr = sim_chance(250); O->handler[0] = O->handler[1] = true; if (sim_chance(100)) O->handler[sim_below(2)] = false;
    O->senders = 1 + static_cast<int>(sim_below(3)); O->max_ops = 1 + static_cast<int>(sim_below(12)); O->cuts = sim_chance(400); O->crashes = !O->raw && sim_chance(300); O->early = sim_chance(300); O->busy_handler = sim_chance(400); O->size_cls = sim_below(3);
    static const std::size_t caps[] = {2048, 8192, 65536, 212992}; const std::size_t cap = O->eintr && sim_chance(600) ? 2048 : caps[sim_below(4)]; if (sim_chance(150)) { O->max_ops = 40; O->size_cls = 2; } sk_set_sock_caps(cap, cap);
    if (O->slow) { sim_allow_fault(SF_STALL, 6); sim_allow_fault(SF_DELAY, 100); } sim_allow_fault(SF_SHORT_READ, 500); if (O->eintr) sim_allow_fault(SF_EINTR, sim_chance(500) ? 400 : 100); if (sim_chance(300)) sim_allow_fault(SF_ECONN, 300);
    sim_race_check(1, 1); int inc[2] = {0, 0};
    auto start = [&](int n) { SimAtomic a; O->node[n].inc = inc[n]; O->node[n].up = O->node[n].shut = O->node[n].in_setup = false; O->node[n].busy = true; O->node[n].pid = sim_spawn(n && O->raw ? "peer" : n ? "node1" : "node0", n, inc[n]++, 1000, 0, nullptr); };
    start(0); if (sim_chance(200)) sim_sleep_ns(sim_below(200000000)); start(1);
    int cuts = O->cuts ? 1 + static_cast<int>(sim_below(3)) : 0, crashes = O->crashes ? 1 + static_cast<int>(sim_below(2)) : 0; const std::uint64_t limit = sim_now_ns() + 400000 * kMs;
    for (;;) {
        bool busy; { SimAtomic a; busy = working() > 0; }
        if (!busy && !(crashes && sim_chance(300))) break;
        if (sim_now_ns() > limit) { SimAtomic a; if (!O->raw && sk_net_full(O->node[0].pid) && sk_net_full(O->node[1].pid)) sim_violation("[send-without-time-limit] both nodes wait for room on the link and neither reads"); }
        if (sim_now_ns() > limit) sim_violation("a node does not finish sending");
        { SimAtomic a; for (auto& n : O->node) if (sim_alive(n.pid) && sk_net_full(n.pid)) n.full_at = sim_now_ns(); }
        if (sim_now_ns() > limit - 200000 * kMs) { SimAtomic a; O->final_phase = true; }
        if (!O->raw) { SimAtomic a; Node &x = O->node[0], &y = O->node[1]; const std::uint64_t now = sim_now_ns(); const bool bx = x.in_setup && sim_alive(x.pid), by = y.in_setup && sim_alive(y.pid);
          if (bx && by && !O->epoch && now > std::max(x.setup_since, y.setup_since) + 20000 * kMs) sim_violation("two nodes that both set up the link do not find each other");
          for (auto& n : O->node) if (n.in_setup && !n.release && sim_alive(n.pid) && now > n.setup_since + (bx && by ? 60000 : 10000) * kMs) { n.release = true; sim_count("half_open_links", 1); sim_event("a half-open link is given up"); } }
        if (cuts && sim_chance(100)) { --cuts; SimAtomic a; O->epoch++; O->only_one_cut = O->epoch == 1; if (sk_cut_links(O->node[0].pid)) sim_count("links_cut", 1); sim_event("the links are cut"); }
        if (crashes && sim_chance(60)) { --crashes; const int n = static_cast<int>(sim_below(2)); bool did = false; { SimAtomic a; if (sim_alive(O->node[n].pid)) { did = true; O->epoch++; O->only_one_cut = false; sim_kill(O->node[n].pid); sim_count("nodes_killed", 1); if (O->node[n].up || !O->node[n].shut) {} } }
            if (did) { sim_sleep_ns(sim_below(3) ? sim_below(50000000) : sim_below(2000000000)); start(n); } }
        bool one_left; { SimAtomic a; one_left = (O->node[0].shut && !sim_alive(O->node[0].pid)) || (O->node[1].shut && !sim_alive(O->node[1].pid)); }
        if (one_left && !O->raw) { for (int n = 0; n < 2; ++n) { bool again; { SimAtomic a; again = O->node[n].shut && !sim_alive(O->node[n].pid) && working() > 0; } if (again) { if (sim_chance(500)) sim_sleep_ns(sim_below(100000000)); { SimAtomic a; O->early = false; } start(n); } } }
        sim_sleep_ns(500000 + sim_below(3000000));
    }
    { SimAtomic a; sim_calm(); O->final_phase = true; }
    for (int n = 0; n < 2; ++n) for (;;) { bool w; { SimAtomic a; w = sim_alive(O->node[n].pid) && O->node[n].up && !O->node[n].shut; } if (!w) break; if (sim_now_ns() > limit + 200000 * kMs) sim_violation("node %d does not finish", n); sim_sleep_ns(5 * kMs); }
    for (const std::uint64_t until = sim_now_ns() + 300000 * kMs; sim_now_ns() < until;) { bool w = false; { SimAtomic a; for (auto& m : O->msg) if (m->in_handler && !m->over && sim_alive(O->node[m->node].pid) && O->node[m->node].inc == m->inc) w = true; } if (!w) break; sim_sleep_ns(20 * kMs); }   // a message waits while the handler sends
    sim_sleep_ns(500 * kMs);
    { SimAtomic a; for (auto& p : O->msg) { Msg& m = *p; Node& to = O->node[1 - m.node]; if (m.raw || O->raw || !m.over || m.result || m.delivered || to.shut || !sim_alive(to.pid) || to.inc != m.peer_inc || !O->handler[1 - m.node]) continue;
          if (request(m.type)) sim_violation("request %d succeeded and never arrived", m.id); else if (clean(m)) sim_violation("message %d was sent over an undisturbed link and never arrived", m.id); }
      O->end = true; }
    for (int n = 0; n < 2; ++n) if (!(n && O->raw) && !sim_wait_exit(O->node[n].pid, 60000 * kMs)) sim_violation("node %d does not finish", n);
}
