// Runs operations of xoscar::TCPStore in threads, as told line by line on stdin, and says on stdout
// what each of them gave and when.  See vf/checks/c23.py.
#include "tcp_store.hpp"

#include <condition_variable>
#include <cstdio>
#include <cstring>
#include <deque>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <thread>
#include <time.h>
#include <unistd.h>

using namespace xoscar;

static long long now() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec * 1000000000LL + t.tv_nsec;
}

static std::string hex(const std::string &s) {
    static const char *d = "0123456789abcdef";
    std::string r = "x";
    for (unsigned char c : s) {
        r += d[c >> 4];
        r += d[c & 15];
    }
    return r;
}

static std::string unhex(const std::string &s) {
    std::string r;
    for (size_t i = 1; i + 1 < s.size(); i += 2)
        r += (char) std::stoi(s.substr(i, 2), nullptr, 16);
    return r;
}

static std::vector<uint8_t> bytes(const std::string &h) {
    std::string s = unhex(h);
    return std::vector<uint8_t>(s.begin(), s.end());
}

static std::string str(const std::vector<uint8_t> &v) { return std::string(v.begin(), v.end()); }

static std::mutex out_mutex;
static void say(const std::string &s) {
    std::lock_guard<std::mutex> g(out_mutex);
    std::cout << s << "\n" << std::flush;
}

static std::mutex stores_mutex;
static std::map<std::string, std::shared_ptr<TCPStore>> stores;

static std::shared_ptr<TCPStore> store(const std::string &sid) {
    std::lock_guard<std::mutex> g(stores_mutex);
    auto it = stores.find(sid);
    if (it == stores.end())
        throw std::logic_error("no store " + sid);
    return it->second;
}

static std::string run(const std::vector<std::string> &w) {
    const std::string &op = w[0];
    if (op == "sleep") {
        usleep(std::stoi(w[1]));
        return "";
    }
    const std::string &sid = w[1];
    if (op == "open") {
        // open sid server|client host port timeout_ms workers(-1: none) wait multi
        TCPStoreOptions o;
        o.isServer = w[2] == "server";
        o.port = (uint16_t) std::stoi(w[4]);
        o.timeout = std::chrono::milliseconds(std::stoll(w[5]));
        if (std::stoi(w[6]) >= 0)
            o.numWorkers = (std::size_t) std::stoi(w[6]);
        o.waitWorkers = w[7] == "1";
        o.multiTenant = w[8] == "1";
        auto s = std::make_shared<TCPStore>(w[3], o);
        std::lock_guard<std::mutex> g(stores_mutex);
        stores[sid] = s;
        return std::to_string(s->getPort());
    }
    if (op == "close") {
        std::shared_ptr<TCPStore> s;
        {
            std::lock_guard<std::mutex> g(stores_mutex);
            s = stores.at(sid);
            stores.erase(sid);
        }
        s.reset();
        return "";
    }
    auto s = store(sid);
    if (op == "set") {
        s->setTCP(w[2], bytes(w[3]));
        return "";
    }
    if (op == "gset") {
        std::string v = unhex(w[3]);
        s->set(w[2], std::vector<char>(v.begin(), v.end()));
        return "";
    }
    if (op == "get")
        return hex(str(s->getTCP(w[2])));
    if (op == "gget") {
        auto v = s->get(w[2]);
        return hex(std::string(v.begin(), v.end()));
    }
    if (op == "add")
        return std::to_string(s->add(w[2], std::stoll(w[3])));
    if (op == "cas")
        return hex(str(s->compareSet(w[2], bytes(w[3]), bytes(w[4]))));
    if (op == "del")
        return s->deleteKey(w[2]) ? "1" : "0";
    if (op == "append") {
        s->append(w[2], bytes(w[3]));
        return "";
    }
    if (op == "check")
        return s->check(std::vector<std::string>(w.begin() + 2, w.end())) ? "1" : "0";
    if (op == "num")
        return std::to_string(s->getNumKeys());
    if (op == "wait") {
        // wait sid timeout_ms(-1: the store's own) keys...
        std::vector<std::string> keys(w.begin() + 3, w.end());
        if (w[2] == "-1")
            s->wait(keys);
        else
            s->wait(keys, std::chrono::milliseconds(std::stoll(w[2])));
        return "";
    }
    if (op == "mget") {
        auto r = s->multiGet(std::vector<std::string>(w.begin() + 2, w.end()));
        std::string t;
        for (auto &v : r)
            t += (t.empty() ? "" : " ") + hex(str(v));
        return t;
    }
    if (op == "mset") {
        std::vector<std::string> ks;
        std::vector<std::vector<uint8_t>> vs;
        for (size_t i = 2; i + 1 < w.size(); i += 2) {
            ks.push_back(w[i]);
            vs.push_back(bytes(w[i + 1]));
        }
        s->multiSet(ks, vs);
        return "";
    }
    if (op == "watch" || op == "watchset") {
        // watch sid key tag; watchset sid key tag other value: and at once the other store sets it
        std::string key = w[2], tag = w[3];
        s->watchKey(key, [key, tag](std::optional<std::string> a, std::optional<std::string> b) {
            say("w " + tag + " " + key + " " + std::to_string(now()) + " " + (a ? hex(*a) : "-") + " "
                + (b ? hex(*b) : "-"));
        });
        if (op == "watchset")
            store(w[4])->setTCP(key, bytes(w[5]));
        return "";
    }
    throw std::logic_error("unknown operation " + op);
}

struct Worker {
    std::string name;
    std::mutex m;
    std::condition_variable cv;
    std::deque<std::vector<std::string>> q;
    bool ended = false;
    std::thread th;

    void loop() {
        while (true) {
            std::vector<std::string> w;
            {
                std::unique_lock<std::mutex> l(m);
                cv.wait(l, [&] { return ended || !q.empty(); });
                if (q.empty())
                    return;
                w = q.front();
                q.pop_front();
            }
            std::string id = w[0];
            w.erase(w.begin());
            say("b " + id + " " + std::to_string(now()));
            std::string res, status = "ok";
            long long t0 = now();
            try {
                res = run(w);
            } catch (const std::logic_error &e) {
                status = "harness";
                res = hex(e.what());
            } catch (const std::exception &e) {
                status = "error";
                res = hex(e.what());
            }
            long long t1 = now();
            say("r " + id + " " + std::to_string(t0) + " " + std::to_string(t1) + " " + status + " " + res);
        }
    }
};

static int racing;
static int *leaked;

int main(int argc, char **argv) {
    if (argc > 1 && !strcmp(argv[1], "race")) {
        std::thread a([] { for (int i = 0; i < 1000; i++) racing++; });
        std::thread b([] { for (int i = 0; i < 1000; i++) racing++; });
        a.join();
        b.join();
        return 0;
    }
    if (argc > 1 && !strcmp(argv[1], "leak")) {
        leaked = new int[100];
        leaked[argc - 2] = 1;
        leaked = nullptr;
        return 0;
    }
    if (argc > 1 && !strcmp(argv[1], "overflow")) {
        int *p = new int[2];
        int r = p[argc];
        delete[] p;
        return r == 77 ? 3 : 0;
    }
    std::map<std::string, std::unique_ptr<Worker>> workers;
    bool held = false;
    std::vector<std::pair<Worker *, std::vector<std::string>>> later;
    std::string line;
    auto give = [](Worker *k, std::vector<std::string> w) {
        std::lock_guard<std::mutex> g(k->m);
        k->q.push_back(std::move(w));
        k->cv.notify_one();
    };
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        std::vector<std::string> w;
        std::string x;
        while (in >> x)
            w.push_back(x);
        if (w.empty())
            continue;
        if (w[0] == "hold") {
            held = true;
        } else if (w[0] == "go") {
            held = false;
            for (auto &p : later)
                give(p.first, p.second);
            later.clear();
        } else if (w[0] == "t") {
            // t thread id op args...
            auto &k = workers[w[1]];
            if (!k) {
                k = std::make_unique<Worker>();
                k->name = w[1];
                Worker *p = k.get();
                k->th = std::thread([p] { p->loop(); });
            }
            std::vector<std::string> rest(w.begin() + 2, w.end());
            if (held)
                later.emplace_back(k.get(), rest);
            else
                give(k.get(), rest);
        }
    }
    for (auto &p : workers) {
        {
            std::lock_guard<std::mutex> g(p.second->m);
            p.second->ended = true;
            p.second->cv.notify_one();
        }
        p.second->th.join();
    }
    stores.clear();
    say("end");
    return 0;
}
