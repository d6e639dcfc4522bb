#include <arpa/inet.h>
#include <fstream>
#include <gloo/standin.h>
#include <netdb.h>
#include <netinet/in.h>
#include <sstream>
#include <thread>
#include <unistd.h>

namespace gloo {
namespace {
[[noreturn]] void fail(const std::string &s) { throw std::runtime_error("[stand-in] " + s); }

void all(int fd, bool out, void *p, size_t n) {
    for (char *c = (char *)p; n;) {
        ssize_t k = out ? ::send(fd, c, n, MSG_NOSIGNAL) : ::recv(fd, c, n, 0);
        if (k < 0 && errno == EINTR)
            continue;
        if (k <= 0)
            fail("connection lost");
        c += k, n -= k;
    }
}
void putBlob(int fd, const std::string &s) {
    uint64_t n = s.size();
    all(fd, true, &n, sizeof n);
    all(fd, true, (void *)s.data(), n);
}
std::string takeBlob(int fd) {
    uint64_t n;
    all(fd, false, &n, sizeof n);
    std::string s(n, 0);
    all(fd, false, s.data(), n);
    return s;
}
}  // namespace

Context::Context(int rank, int size, int base) : rank(rank), size(size), base(base) {
    if (rank < 0 || rank >= size)
        fail("a rank not of its context");
}
Context::~Context() { closeConnections(); }
void Context::closeConnections() {
    for (int fd : fds_)
        if (fd >= 0)
            ::close(fd);
    fds_.clear();
}
void Context::log(const std::string &line) {
    if (const char *d = getenv("VF_GLOO_LOG")) {
        std::ofstream f(std::string(d) + "/" + std::to_string(getpid()), std::ios::app);
        f << name << " " << rank << " " << size << " " << line << "\n";
    }
}

void rendezvous::Context::connectFullMesh(Store &store, std::shared_ptr<transport::Device> &dev) {
    if (!dev)
        fail("no device");
    device_ = dev;
    if (auto p = dynamic_cast<PrefixStore *>(&store))
        name = p->prefix_;
    fds_.assign(size, -1);
    int l = ::socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET;
    if (inet_pton(AF_INET, dev->host.c_str(), &a.sin_addr) != 1)
        fail("not an address: " + dev->host);
    socklen_t n = sizeof a;
    if (::bind(l, (sockaddr *)&a, n) || ::listen(l, size) || ::getsockname(l, (sockaddr *)&a, &n))
        fail("cannot listen on " + dev->host);
    std::string mine((char *)&a, n);
    store.set("rank " + std::to_string(rank), std::vector<char>(mine.begin(), mine.end()));
    for (int i = 0; i < rank; i++) {
        auto v = store.get("rank " + std::to_string(i));
        sockaddr_in b{};
        memcpy(&b, v.data(), std::min(v.size(), sizeof b));
        int fd = ::socket(AF_INET, SOCK_STREAM, 0);
        if (::connect(fd, (sockaddr *)&b, sizeof b))
            fail("cannot connect");
        all(fd, true, (void *)&rank, sizeof rank);
        fds_[i] = fd;
    }
    timeval tv{30, 0};
    ::setsockopt(l, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
    for (int i = rank + 1; i < size; i++) {
        int fd = ::accept(l, nullptr, nullptr), r = -1;
        if (fd < 0)
            fail("not everybody came");
        all(fd, false, &r, sizeof r);
        if (r <= rank || r >= size || fds_[r] >= 0)
            fail("rank " + std::to_string(r) + " came twice or is not of the context");
        fds_[r] = fd;
    }
    for (int i = 0; i < size; i++)
        if (i != rank)
            ::setsockopt(fds_[i], SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
    ::close(l);
    log("connect " + dev->host);
}

std::vector<std::string> Context::exchange(const std::string &head, const std::vector<std::pair<void *, size_t>> &mine) {
    if ((int)fds_.size() != size)
        fail("not connected");
    std::string data;
    for (auto &[p, n] : mine)
        data.append((char *)p, n);
    std::vector<std::string> got(size);
    std::string bad;
    std::exception_ptr err;
    std::thread out([&] {
        try {
            for (int i = 0; i < size; i++)
                if (i != rank)
                    putBlob(fds_[i], head), putBlob(fds_[i], data);
        } catch (...) {
            err = std::current_exception();
        }
    });
    try {
        for (int i = 0; i < size; i++)
            if (i == rank) {
                got[i] = data;
            } else {
                auto h = takeBlob(fds_[i]);
                got[i] = takeBlob(fds_[i]);
                if (h != head)
                    bad += "; rank " + std::to_string(i) + " does " + h + ", not " + head;
            }
    } catch (...) {
        out.join();
        throw;
    }
    out.join();
    if (err)
        std::rethrow_exception(err);
    if (!bad.empty())
        fail("ranks disagree" + bad);
    return got;
}

namespace {
struct Op {
    Options &o;
    Context &c;
    std::vector<std::string> got;
    Op(const char *name, Options &o) : o(o), c(*o.context) {
        if (o.root >= c.size)
            fail("a root not of the context");
        std::ostringstream s;
        s << name << " " << o.elems << " " << o.esize << " " << o.root << " " << o.tag << " " << o.algo;
        c.log(s.str());
        got = c.exchange(s.str(), o.in);
    }
    void write(size_t at, const std::string &s) {
        auto &[p, n] = o.out.at(0);
        if (at + s.size() > n)
            fail("output too small");
        memcpy((char *)p + at, s.data(), s.size());
    }
    std::string reduced() {
        std::string r = got[0];
        for (int i = 1; i < c.size; i++) {
            if (got[i].size() != r.size())
                fail("inputs of different sizes");
            o.fn(r.data(), r.data(), got[i].data(), r.size() / o.esize);
        }
        return r;
    }
};
}  // namespace

void allreduce(AllreduceOptions &o) {
    Op op("allreduce", o);
    op.write(0, op.reduced());
}
void reduce(ReduceOptions &o) {
    Op op("reduce", o);
    // (gloo uses the output of every rank)
    op.write(0, op.reduced());
}
void allgather(AllgatherOptions &o) {
    o.elems = o.in.at(0).second / o.esize;
    Op op("allgather", o);
    if (o.out.at(0).second != o.in.at(0).second * op.c.size)
        fail("output of another size than all inputs");
    for (int i = 0; i < op.c.size; i++)
        op.write(o.in[0].second * i, op.got[i]);
}
void gather(GatherOptions &o) {
    Op op("gather", o);
    if (op.c.rank == o.root)
        for (int i = 0; i < op.c.size; i++)
            op.write(o.in.at(0).second * i, op.got[i]);
}
void scatter(ScatterOptions &o) {
    size_t n = o.out.at(0).second;
    o.elems = n / o.esize;
    bool root = o.context->rank == o.root;
    if (root && (int)o.in.size() != o.context->size)
        fail("inputs as many as ranks are needed");
    if (root)
        for (auto &i : o.in)
            if (i.second != n)
                fail("inputs and output differ in size");
    if (!root)
        o.in.clear();
    Op op("scatter", o);
    op.write(0, op.got.at(o.root).substr(n * op.c.rank, n));
}
void broadcast(BroadcastOptions &o) {
    if (o.context->rank == o.root && o.in.empty())
        fail("the root has no input");
    o.elems = o.out.at(0).second / o.esize;
    Op op("broadcast", o);
    op.write(0, op.got.at(o.root));
}
void alltoall(AlltoallOptions &o) {
    Op op("alltoall", o);
    size_t n = o.in.at(0).second / op.c.size;
    if (n * op.c.size != o.in[0].second || o.out.at(0).second != o.in[0].second)
        fail("sizes are not equal or not a multiple of the number of ranks");
    for (int i = 0; i < op.c.size; i++)
        op.write(n * i, op.got[i].substr(n * op.c.rank, n));
}
void barrier(BarrierOptions &o) { Op op("barrier", o); }

void reduce_scatter(const std::shared_ptr<Context> &c, void *p, size_t count, size_t esize, const std::vector<int> &recv, const ReduceFn &fn) {
    if ((int)recv.size() != c->size)
        fail("sizes as many as ranks are needed");
    size_t at = 0, total = 0;
    for (int i = 0; i < c->size; i++) {
        if (i < c->rank)
            at += recv[i];
        total += recv[i];
    }
    if (total != count)
        fail("sizes do not add up");
    std::ostringstream s;
    s << "reduce_scatter " << count << " " << esize << " -1 0 -1";
    c->log(s.str());
    auto got = c->exchange(s.str(), {{p, count * esize}});
    std::string r = got[0];
    for (int i = 1; i < c->size; i++)
        fn(r.data(), r.data(), got[i].data(), count);
    memcpy(p, r.data() + at * esize, recv[c->rank] * esize);
}

void Context::put(int peer, uint64_t slot, const void *p, size_t n) {
    putBlob(fds_.at(peer), std::to_string(slot));
    putBlob(fds_.at(peer), std::string((const char *)p, n));
}
void Context::take(int peer, uint64_t slot, void *p, size_t n) {
    auto s = takeBlob(fds_.at(peer));
    auto b = takeBlob(fds_.at(peer));
    if (s != std::to_string(slot) || b.size() != n)
        fail("another message than expected");
    memcpy(p, b.data(), n);
}
namespace {
class Unbound : public transport::UnboundBuffer {
public:
    Unbound(Context &c, void *p, size_t n) : UnboundBuffer(p, n), c(c) {}
    void send(int rank, uint64_t slot, size_t, size_t) override { c.put(rank, slot, ptr, size); }
    void recv(int rank, uint64_t slot, size_t, size_t) override { peer = rank, s = slot; }
    bool waitRecv(std::chrono::milliseconds) override {
        c.take(peer, s, ptr, size);
        return true;
    }
    Context &c;
    int peer = -1;
    uint64_t s = 0;
};
}  // namespace
std::unique_ptr<transport::UnboundBuffer> Context::createUnboundBuffer(void *p, size_t n) { return std::make_unique<Unbound>(*this, p, n); }
}  // namespace gloo
