// A stand-in for gloo (which is not there): the interface xoscar's bindings use, and collectives by plain exchange
// of every rank's input over loopback sockets. Reads and writes exactly the memory gloo would.
#pragma once
#include <algorithm>
#include <chrono>
#include <cstdint>
#include <cstring>
#include <functional>
#include <gloo/rendezvous/store.h>
#include <map>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <string>
#include <sys/socket.h>
#include <unordered_map>
#include <vector>

#define GLOO_HAVE_TRANSPORT_TCP 1
#define GLOO_HAVE_TRANSPORT_UV 0

namespace gloo {
using float16 = _Float16;

struct Slot {
    uint64_t v;
    static Slot build(uint8_t prefix, uint32_t tag) { return Slot{(uint64_t(prefix) << 56) | (uint64_t(tag) << 24)}; }
    operator uint64_t() const { return v; }
};

namespace transport {
class UnboundBuffer {
public:
    UnboundBuffer(void *p, size_t n) : ptr(p), size(n) {}
    virtual ~UnboundBuffer() = default;
    virtual void send(int rank, uint64_t slot, size_t offset = 0, size_t nbytes = size_t(-1)) = 0;
    virtual void recv(int rank, uint64_t slot, size_t offset = 0, size_t nbytes = size_t(-1)) = 0;
    virtual bool waitSend(std::chrono::milliseconds) { return true; }
    virtual bool waitRecv(std::chrono::milliseconds) { return true; }
    void *ptr;
    size_t size;
};
class Pair {};
class Context {
public:
    Context(int rank, int size) : rank(rank), size(size) {}
    virtual ~Context() = default;
    virtual std::unique_ptr<UnboundBuffer> createUnboundBuffer(void *, size_t) { throw std::runtime_error("stand-in"); }
    int rank, size;
};
class Device {
public:
    virtual ~Device() = default;
    virtual std::string str() const = 0;
    virtual const std::string &getPCIBusID() const = 0;
    virtual int getInterfaceSpeed() const { return 0; }
    virtual bool hasGPUDirect() const { return false; }
    virtual std::shared_ptr<Context> createContext(int rank, int size) = 0;
    std::string host;
};
namespace tcp {
struct attr {
    attr() {}
    attr(const char *h) : hostname(h) {}
    std::string hostname, iface;
    int ai_family = 0, ai_socktype = 0, ai_protocol = 0;
    struct sockaddr_storage ai_addr {};
    int ai_addrlen = 0;
};
class Device : public transport::Device {
public:
    Device(const struct attr &a) {
        host = a.hostname;
        if (host.empty())
            throw std::runtime_error("stand-in: a device needs an address");
    }
    std::string str() const override { return "tcp, " + host; }
    const std::string &getPCIBusID() const override { return bus; }
    std::shared_ptr<transport::Context> createContext(int rank, int size) override {
        return std::make_shared<transport::Context>(rank, size);
    }
    std::string bus;
};
class Context : public transport::Context {
public:
    Context(std::shared_ptr<Device>, int rank, int size) : transport::Context(rank, size) {}
};
inline std::shared_ptr<transport::Device> CreateDevice(const struct attr &a) { return std::make_shared<Device>(a); }
}  // namespace tcp
}  // namespace transport

class Context {
public:
    Context(int rank, int size, int base = 2);
    virtual ~Context();
    const int rank, size;
    int base;
    std::shared_ptr<transport::Device> &getDevice() { return device_; }
    std::unique_ptr<transport::UnboundBuffer> createUnboundBuffer(void *p, size_t n);
    int nextSlot(int n = 1) { return slot_ += n; }
    void closeConnections();
    void setTimeout(std::chrono::milliseconds t) { timeout_ = t; }
    std::chrono::milliseconds getTimeout() const { return timeout_; }

    // of the stand-in
    std::vector<std::string> exchange(const std::string &head, const std::vector<std::pair<void *, size_t>> &mine);
    void put(int peer, uint64_t slot, const void *p, size_t n);
    void take(int peer, uint64_t slot, void *p, size_t n);
    void log(const std::string &line);
    std::string name = "?";

protected:
    std::shared_ptr<transport::Device> device_;
    std::chrono::milliseconds timeout_ = std::chrono::seconds(30);
    std::vector<int> fds_;
    int slot_ = 0;
};

namespace rendezvous {
class PrefixStore : public Store {
public:
    PrefixStore(const std::string &prefix, Store &store) : prefix_(prefix), store_(store) {}
    void set(const std::string &k, const std::vector<char> &d) override { store_.set(join(k), d); }
    std::vector<char> get(const std::string &k) override { return store_.get(join(k)); }
    void wait(const std::vector<std::string> &ks) override { wait(ks, kDefaultTimeout); }
    void wait(const std::vector<std::string> &ks, const std::chrono::milliseconds &t) override {
        std::vector<std::string> js;
        for (auto &k : ks)
            js.push_back(join(k));
        store_.wait(js, t);
    }
    std::string join(const std::string &k) { return prefix_ + "/" + k; }
    std::string prefix_;
    Store &store_;
};
class HashStore : public Store {
public:
    void set(const std::string &k, const std::vector<char> &d) override { m_[k] = d; }
    std::vector<char> get(const std::string &k) override { return m_.at(k); }
    void wait(const std::vector<std::string> &) override {}
    void wait(const std::vector<std::string> &, const std::chrono::milliseconds &) override {}
    std::unordered_map<std::string, std::vector<char>> m_;
};
class FileStore : public HashStore {
public:
    FileStore(const std::string &) {}
};
class Context : public gloo::Context {
public:
    using gloo::Context::Context;
    void connectFullMesh(Store &store, std::shared_ptr<transport::Device> &dev);
};
}  // namespace rendezvous

namespace detail {
struct AllreduceOptionsImpl {
    enum Algorithm { UNSPECIFIED = 0, RING = 1, BCUBE = 2 };
};
}  // namespace detail

using ReduceFn = std::function<void(void *, const void *, const void *, size_t)>;

struct Options {
    Options(const std::shared_ptr<Context> &c) : context(c) {}
    std::shared_ptr<Context> context;
    std::vector<std::pair<void *, size_t>> in, out;  // (bytes)
    size_t elems = 0, esize = 0;
    int root = -1;
    uint32_t tag = 0;
    int algo = -1;
    ReduceFn fn;
    template <typename T> void setInput(T *p, size_t n) { in = {{p, n * sizeof(T)}}, elems = n, esize = sizeof(T); }
    template <typename T> void setOutput(T *p, size_t n) { out = {{p, n * sizeof(T)}}; if (!elems) elems = n; esize = sizeof(T); }
    template <typename T> void setInputs(std::vector<T *> &ps, size_t n) {
        in.clear();
        for (auto p : ps)
            in.push_back({p, n * sizeof(T)});
        elems = n, esize = sizeof(T);
    }
    template <typename T> void setOutputs(std::vector<T *> &ps, size_t n) {
        out.clear();
        for (auto p : ps)
            out.push_back({p, n * sizeof(T)});
    }
    void setTag(uint32_t t) { tag = t; }
    void setRoot(int r) { root = r; }
    void setReduceFunction(ReduceFn f) { fn = f; }
};
struct AllreduceOptions : Options {
    using Options::Options;
    using Algorithm = detail::AllreduceOptionsImpl::Algorithm;
    using Func = ReduceFn;
    void setAlgorithm(Algorithm a) { algo = a; }
};
struct ReduceOptions : Options {
    using Options::Options;
    using Func = ReduceFn;
};
struct AllgatherOptions : Options { using Options::Options; };
struct GatherOptions : Options { using Options::Options; };
struct ScatterOptions : Options { using Options::Options; };
struct BroadcastOptions : Options { using Options::Options; };
struct AlltoallOptions : Options { using Options::Options; };
struct BarrierOptions : Options { using Options::Options; };
void allreduce(AllreduceOptions &);
void reduce(ReduceOptions &);
void allgather(AllgatherOptions &);
void gather(GatherOptions &);
void scatter(ScatterOptions &);
void broadcast(BroadcastOptions &);
void alltoall(AlltoallOptions &);
void barrier(BarrierOptions &);

template <typename T> void sum(void *c, const void *a, const void *b, size_t n) {
    for (size_t i = 0; i < n; i++)
        ((T *)c)[i] = ((const T *)a)[i] + ((const T *)b)[i];
}
template <typename T> void product(void *c, const void *a, const void *b, size_t n) {
    for (size_t i = 0; i < n; i++)
        ((T *)c)[i] = ((const T *)a)[i] * ((const T *)b)[i];
}
template <typename T> void min(void *c, const void *a, const void *b, size_t n) {
    for (size_t i = 0; i < n; i++)
        ((T *)c)[i] = std::min(((const T *)a)[i], ((const T *)b)[i]);
}
template <typename T> void max(void *c, const void *a, const void *b, size_t n) {
    for (size_t i = 0; i < n; i++)
        ((T *)c)[i] = std::max(((const T *)a)[i], ((const T *)b)[i]);
}
template <typename T> struct ReductionFunction {
    ReduceFn fn;
    static const ReductionFunction *sum, *product, *min, *max;
};
template <typename T> const ReductionFunction<T> *ReductionFunction<T>::sum = new ReductionFunction<T>{gloo::sum<T>};
template <typename T> const ReductionFunction<T> *ReductionFunction<T>::product = new ReductionFunction<T>{gloo::product<T>};
template <typename T> const ReductionFunction<T> *ReductionFunction<T>::min = new ReductionFunction<T>{gloo::min<T>};
template <typename T> const ReductionFunction<T> *ReductionFunction<T>::max = new ReductionFunction<T>{gloo::max<T>};

void reduce_scatter(const std::shared_ptr<Context> &, void *p, size_t count, size_t esize, const std::vector<int> &, const ReduceFn &);
template <typename T> class ReduceScatterHalvingDoubling {
public:
    ReduceScatterHalvingDoubling(const std::shared_ptr<Context> &c, const std::vector<T *> ptrs, int count, const std::vector<int> recv, const ReductionFunction<T> *fn)
        : c(c), p(ptrs.at(0)), count(count), recv(recv), fn(fn) {}
    void run() { reduce_scatter(c, p, count, sizeof(T), recv, fn->fn); }
    std::shared_ptr<Context> c;
    T *p;
    int count;
    std::vector<int> recv;
    const ReductionFunction<T> *fn;
};
}  // namespace gloo
