// The interface of gloo::rendezvous::Store which TCPStore implements (gloo itself is not there).
#pragma once
#include <chrono>
#include <stdexcept>
#include <string>
#include <vector>
namespace gloo { namespace rendezvous {
class Store {
public:
    static constexpr std::chrono::milliseconds kDefaultTimeout = std::chrono::seconds(30);
    virtual ~Store() = default;
    virtual void set(const std::string &key, const std::vector<char> &data) = 0;
    virtual std::vector<char> get(const std::string &key) = 0;
    virtual void wait(const std::vector<std::string> &keys) = 0;
    virtual void wait(const std::vector<std::string> &keys, const std::chrono::milliseconds &timeout) = 0;
    virtual int64_t add(const std::string &, int64_t) { throw std::runtime_error("not a counter"); }
};
}}
