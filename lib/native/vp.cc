// The explorer's side of the native library: outcomes of random draws, order and failure of
// message deliveries come from a script; every choice taken is recorded.
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <thread>
#include <unistd.h>

#include "glog/logging.h"
#include "vp_grpc.h"

#define VP_API extern "C" __attribute__((visibility("default")))

namespace
{
enum Kind
{
    RANDOM = 1,
    ORDER = 2,
    FAULT = 4,
    LAZY = 8
};
struct Rec
{
    int32_t kind, n, choice, pad;
    double prob;
};
struct Oracle
{
    std::mutex m;
    int flags = 0;
    std::vector<int32_t> script;
    std::vector<Rec> trace;
    size_t limit = 0;
    bool cut = false, bad = false;
    int grid = 4;
    std::vector<int32_t> grids;
    size_t reals = 0;
    int faults = 0;
    int fault_code = 14;
} O;

uint64_t choose(int kind, uint64_t n, const double *probs = nullptr)
{
    std::lock_guard lock(O.m);
    if (!(O.flags & kind) || n <= 1)
        return 0;
    if (n > 1000000) // a seed: every draw made with it is controlled
        return 0;
    if (O.trace.size() >= O.limit)
    {
        O.cut = true;
        return 0;
    }
    size_t pos = O.trace.size();
    uint64_t c = 0;
    if (pos < O.script.size())
    {
        c = O.script[pos];
        if (c >= n)
        {
            O.bad = true;
            c = 0;
        }
    }
    else if (probs)
    {
        while (c + 1 < n && probs[c] == 0)
            ++c;
    }
    O.trace.push_back({kind, int32_t(n), int32_t(c), 0, probs ? probs[c] : 1.0 / double(n)});
    return c;
}

std::mutex log_m;
std::string last_error;
std::atomic<int> log_count{0};
bool verbose = getenv("VP_LOG") != nullptr;
} // namespace

namespace vp
{
bool random_on()
{
    return O.flags & RANDOM;
}
double pick_real()
{
    size_t k = O.reals++;
    int grid = k < O.grids.size() ? O.grids[k] : O.grid;
    return (double(choose(RANDOM, grid)) + 0.5) / grid;
}
uint64_t pick_int(uint64_t n)
{
    return choose(RANDOM, n);
}
uint64_t pick_binomial(uint64_t n, double p)
{
    if (!(p > 0))
        return 0;
    if (p >= 1)
        return n;
    std::vector<double> pr(n + 1);
    for (uint64_t k = 0; k <= n; ++k)
        pr[k] = std::exp(std::lgamma(n + 1.0) - std::lgamma(k + 1.0) - std::lgamma(n - k + 1.0) + k * std::log(p) +
                         (n - k) * std::log1p(-p));
    return choose(RANDOM, n + 1, pr.data());
}
uint64_t pick_geometric(double p)
{
    std::vector<double> pr;
    double left = 1;
    for (int k = 0; k < 4; ++k)
    {
        pr.push_back(left * p);
        left *= 1 - p;
    }
    pr.push_back(left);
    return choose(RANDOM, pr.size(), pr.data());
}
} // namespace vp

void vp_log(int level, const char *format, ...)
{
    char buf[1024];
    va_list a;
    va_start(a, format);
    vsnprintf(buf, sizeof(buf), format, a);
    va_end(a);
    if (level >= 2)
    {
        std::lock_guard lock(log_m);
        last_error = buf;
        ++log_count;
    }
    if (verbose || level >= 3)
        fprintf(stderr, "native: %s\n", buf);
    if (level >= 3)
        abort();
}

namespace grpc
{
static const Status ok_status;
static const Status cancelled_status(StatusCode::CANCELLED, "");
const Status &Status::OK = ok_status;
const Status &Status::CANCELLED = cancelled_status;

struct CompletionQueue::State
{
    std::mutex m;
    std::condition_variable cv;
    std::deque<std::shared_ptr<VpItem>> items;
    bool down = false;

    std::shared_ptr<VpItem> push(void *tag, bool ok)
    {
        auto i = std::make_shared<VpItem>();
        i->tag = tag;
        i->ok = ok;
        std::lock_guard lock(m);
        items.push_back(i);
        cv.notify_all();
        return i;
    }
};

struct VpCall
{
    std::string address, method, request, reply;
    std::shared_ptr<CompletionQueue::State> cq;
    google::protobuf::MessageLite *reply_to = nullptr;
    Status *status_to = nullptr;
    void *tag = nullptr;
    std::shared_ptr<CompletionQueue::State> server_cq;
    std::mutex m;
    std::condition_variable cv;
    bool answered = false;
    Status status;
    std::chrono::steady_clock::time_point sent;
    long sender = 0;
};

struct VpServer
{
    std::string address;
    std::vector<std::shared_ptr<Service::State>> services;
    bool down = false;
};

namespace
{
std::mutex net_m; // servers, pending
std::map<std::string, std::shared_ptr<VpServer>> servers;
std::list<std::shared_ptr<VpCall>> pending;
std::atomic<uint64_t> delivered{0};
std::atomic<int> pumping{0};
int next_id = 0;
const auto patience = std::chrono::seconds(60);

void stuck(const char *what)
{
    fprintf(stderr, "native: no progress: %s\n", what);
    abort();
}

// Deliver one of the pending requests (of one queue, or of any) and its reply.
bool pump(CompletionQueue::State *only, bool wait_done)
{
    struct Busy
    {
        Busy() { ++pumping; }
        ~Busy() { --pumping; }
    } busy;
    std::shared_ptr<VpCall> call;
    bool fail = false;
    {
        std::lock_guard lock(net_m);
        std::vector<std::list<std::shared_ptr<VpCall>>::iterator> can;
        for (auto i = pending.begin(); i != pending.end(); ++i)
            if (!only || (*i)->cq.get() == only)
                can.push_back(i);
        if (can.empty())
            return false;
        size_t k = choose(ORDER, can.size());
        if (O.faults > 0 && choose(FAULT, 2))
        {
            fail = true;
            --O.faults;
        }
        call = *can[k];
        pending.erase(can[k]);
    }
    if (fail)
    {
        call->status = Status(static_cast<StatusCode>(O.fault_code), "injected failure");
    }
    else
    {
        std::shared_ptr<VpServer> s;
        {
            std::lock_guard lock(net_m);
            auto f = servers.find(call->address);
            if (f != servers.end() && !f->second->down)
                s = f->second;
        }
        bool sent = false, known = false;
        if (s)
        {
            for (auto &svc : s->services)
            {
                std::lock_guard lock(svc->m);
                auto f = svc->waiting.find(call->method);
                if (f == svc->waiting.end())
                    continue;
                known = true;
                if (f->second.empty())
                    continue;
                VpWaiting w = f->second.front();
                f->second.pop_front();
                if (!w.request->ParseFromString(call->request))
                    stuck("request does not parse");
                w.take(call);
                call->server_cq = w.cq;
                w.cq->push(w.tag, true);
                sent = true;
                break;
            }
        }
        if (sent)
        {
            std::unique_lock lock(call->m);
            if (!call->cv.wait_for(lock, patience, [&] { return call->answered; }))
                stuck("server does not answer");
        }
        else
        {
            call->status = s && !known ? Status(StatusCode::UNIMPLEMENTED, call->method)
                                       : Status(StatusCode::UNAVAILABLE, s ? "no handler" : "no server at " + call->address);
        }
    }
    *call->status_to = call->status;
    if (call->status.ok() && !call->reply_to->ParseFromString(call->reply))
        stuck("reply does not parse");
    ++delivered;
    auto item = call->cq->push(call->tag, true);
    if (wait_done)
    {
        std::unique_lock lock(call->cq->m);
        if (!call->cq->cv.wait_for(lock, patience, [&] { return item->done; }))
            stuck("client does not take the reply");
    }
    return true;
}
bool waits_for(CompletionQueue::State *cq)
{
    std::lock_guard lock(net_m);
    for (auto &c : pending)
        if (c->cq.get() == cq)
            return true;
    return false;
}

// The thread that sent the oldest request of the queue has slept since the last look at it.
bool sender_sleeps(CompletionQueue::State *cq, std::pair<long, long> &last)
{
    long sender = 0;
    std::chrono::steady_clock::duration age{};
    {
        std::lock_guard lock(net_m);
        for (auto &c : pending)
            if (c->cq.get() == cq)
            {
                age = std::chrono::steady_clock::now() - c->sent;
                sender = c->sender;
                break;
            }
    }
    if (age < std::chrono::milliseconds(50) || pumping)
    {
        sender = 0;
        age = {};
    }
    if (age > std::chrono::seconds(10))
        return true;
    std::pair<long, long> now{sender, -1};
    if (sender)
    {
        char line[256], state = 0;
        snprintf(line, sizeof(line), "/proc/self/task/%ld/status", sender);
        if (FILE *f = fopen(line, "r"))
        {
            while (fgets(line, sizeof(line), f))
            {
                sscanf(line, "State: %c", &state);
                sscanf(line, "voluntary_ctxt_switches: %ld", &now.second);
            }
            fclose(f);
        }
        if (state != 'S')
            now.second = -1;
    }
    bool same = now == last && now.second >= 0;
    last = now;
    return same;
}
} // namespace

CompletionQueue::CompletionQueue() : vp(std::make_shared<State>())
{
}
CompletionQueue::~CompletionQueue() = default;

thread_local std::shared_ptr<VpItem> in_hand;

bool CompletionQueue::Next(void **tag, bool *ok)
{
    auto s = vp;
    if (in_hand)
    {
        std::lock_guard lock(s->m);
        in_hand->done = true;
        in_hand.reset();
        s->cv.notify_all();
    }
    std::pair<long, long> last{0, -1};
    while (true)
    {
        {
            std::unique_lock lock(s->m);
            s->cv.wait_for(lock, std::chrono::milliseconds(100), [&] { return !s->items.empty() || s->down; });
            if (!s->items.empty())
            {
                in_hand = s->items.front();
                s->items.pop_front();
                *tag = in_hand->tag;
                *ok = in_hand->ok;
                return true;
            }
        }
        // A caller that waits in a way unknown to us, or a queue that shuts down with calls outstanding.
        if (s->down ? waits_for(s.get()) : sender_sleeps(s.get(), last))
        {
            pump(s.get(), false);
            continue;
        }
        std::unique_lock lock(s->m);
        if (s->down && s->items.empty())
            return false;
    }
}

void CompletionQueue::Shutdown()
{
    std::lock_guard lock(vp->m);
    vp->down = true;
    vp->cv.notify_all();
}

std::shared_ptr<VpCall> vp_prepare(const std::string &address, const char *method,
                                   const google::protobuf::MessageLite &request, CompletionQueue *cq)
{
    auto c = std::make_shared<VpCall>();
    c->address = address;
    c->method = method;
    request.SerializeToString(&c->request);
    c->cq = cq->vp;
    return c;
}

void vp_send(const std::shared_ptr<VpCall> &call, google::protobuf::MessageLite *reply, Status *status, void *tag)
{
    call->reply_to = reply;
    call->status_to = status;
    call->tag = tag;
    call->sent = std::chrono::steady_clock::now();
    call->sender = gettid();
    std::lock_guard lock(net_m);
    pending.push_back(call);
}

void vp_answer(const std::shared_ptr<VpCall> &call, const google::protobuf::MessageLite &reply, const Status &status,
               void *tag)
{
    auto cq = call->server_cq;
    {
        std::lock_guard lock(call->m);
        reply.SerializeToString(&call->reply);
        call->status = status;
        call->answered = true;
        call->cv.notify_all();
    }
    cq->push(tag, true);
}

void Service::vp_wait(const char *method, VpWaiting w)
{
    {
        std::lock_guard lock(vp->m);
        if (!vp->down)
        {
            vp->waiting[method].push_back(std::move(w));
            return;
        }
    }
    w.cq->push(w.tag, false);
}

std::unique_ptr<Server> ServerBuilder::BuildAndStart()
{
    auto s = std::make_shared<VpServer>();
    std::lock_guard lock(net_m);
    s->address = m_address.empty() ? "inproc" + std::to_string(next_id++) : m_address;
    for (auto *x : m_services)
        s->services.push_back(x->vp);
    servers[s->address] = s;
    return std::make_unique<Server>(s);
}

Server::~Server()
{
    Shutdown();
}

void Server::Shutdown()
{
    {
        std::lock_guard lock(net_m);
        if (vp->down)
            return;
        vp->down = true;
        auto f = servers.find(vp->address);
        if (f != servers.end() && f->second == vp)
            servers.erase(f);
    }
    for (auto &svc : vp->services)
    {
        std::map<std::string, std::list<VpWaiting>> w;
        {
            std::lock_guard lock(svc->m);
            svc->down = true;
            w.swap(svc->waiting);
        }
        for (auto &m : w)
            for (auto &x : m.second)
                x.cq->push(x.tag, false);
    }
}

std::shared_ptr<Channel> Server::InProcessChannel(const ChannelArguments &)
{
    return std::make_shared<Channel>(vp->address);
}
} // namespace grpc

// -- interface to the checks --------------------------------------------------------------------
// Status of failed replies from now on.
VP_API void vp_fault_code(int code)
{
    O.fault_code = code;
}

VP_API void vp_begin(const int32_t *script, int n, int flags, int grid, int faults, int limit)
{
    std::lock_guard lock(O.m);
    O.script.assign(script, script + n);
    O.trace.clear();
    O.flags = flags;
    O.grid = grid;
    O.grids.clear();
    O.reals = 0;
    O.faults = faults;
    O.limit = limit;
    O.cut = O.bad = false;
}

// The cells of the first draws from a continuous range.
VP_API void vp_grids(const int32_t *grids, int n)
{
    std::lock_guard lock(O.m);
    O.grids.assign(grids, grids + n);
}

// Returns the number of choices taken; bit 30: limit reached, bit 29: script does not fit.
VP_API int vp_end(Rec *out, int n)
{
    std::lock_guard lock(O.m);
    O.flags = 0;
    O.faults = 0;
    for (int i = 0; i < n && i < int(O.trace.size()); ++i)
        out[i] = O.trace[i];
    return int(O.trace.size()) | (O.cut ? 1 << 30 : 0) | (O.bad ? 1 << 29 : 0);
}

VP_API int vp_flush()
{
    int n = 0;
    while (grpc::pump(nullptr, true))
        ++n;
    return n;
}

VP_API int vp_outstanding()
{
    std::lock_guard lock(grpc::net_m);
    return int(grpc::pending.size());
}

VP_API uint64_t vp_delivered()
{
    return grpc::delivered;
}

VP_API int vp_last_error(char *out, int n)
{
    std::lock_guard lock(log_m);
    snprintf(out, n, "%s", last_error.c_str());
    return log_count;
}

static int vp_threads_n = 2;
VP_API void vp_threads(int n)
{
    vp_threads_n = n;
}

// -- places where the program waits -----------------------------------------------------------------
#define FUTEX(name) _ZNSt28__atomic_futex_unsigned_base##name##EPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE
#define PASTE_(a, b) a##b
#define PASTE(a, b) PASTE_(a, b)
#define WAIT(name)                                                                                                     \
    extern "C" bool PASTE(__real_, FUTEX(name))(void *, unsigned *, unsigned, bool, long, long);                       \
    extern "C" bool PASTE(__wrap_, FUTEX(name))(void *self, unsigned *a, unsigned v, bool has, long s, long ns)        \
    {                                                                                                                  \
        bool any = grpc::pump(nullptr, true);                                                                          \
        if (any)                                                                                                       \
            while ((O.flags & LAZY) && grpc::pump(nullptr, true))                                                      \
                ;                                                                                                      \
        return any || PASTE(__real_, FUTEX(name))(self, a, v, has, s, ns);                                             \
    }
WAIT(19_M_futex_wait_until)
WAIT(26_M_futex_wait_until_steady)

extern "C" unsigned __wrap__ZNSt6thread20hardware_concurrencyEv()
{
    return vp_threads_n;
}
