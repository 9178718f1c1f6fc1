#include "h.h"
#include <algorithm>
#include <atomic>
#include <map>
#include <memory>
#include <mutex>
#include <thread>
#include "ElementsKernel/Exception.h"
#include "FilePool/FileHandler.h"
#include "FilePool/FileManager.h"
#include "FilePool/LRUFileManager.h"
using namespace Euclid::FilePool;
typedef Elements::Exception Ex;
// descriptors that only record what is done with them
struct Rec { std::string path; bool write; int open = 1; int held = 0; char type; };
static std::mutex regm;
static std::vector<std::unique_ptr<Rec>> reg;   // by descriptor number
static long opens = 0, closes = 0; static bool failOpen = false;
template <char T> struct Fd { int n = -1; Fd() = default; explicit Fd(int k) : n(k) {} Fd(const Fd&) = delete; Fd(Fd&& o) : n(o.n) { o.n = -1; } Fd& operator=(Fd&& o) { n = o.n; o.n = -1; return *this; } };
using A = Fd<'a'>; using B = Fd<'b'>;
namespace Euclid { namespace FilePool {
template <char T> struct OpenCloseTrait<Fd<T>> {
  static Fd<T> open(const boost::filesystem::path& p, bool w) { std::lock_guard<std::mutex> g(regm); if (failOpen) throw Elements::Exception() << "cannot open"; ++opens; reg.emplace_back(new Rec); reg.back()->path = p.string(); reg.back()->write = w; reg.back()->type = T; return Fd<T>((int)reg.size() - 1); }
  static void close(Fd<T>& f) { std::lock_guard<std::mutex> g(regm); ++closes; H::check(f.n >= 0 && f.n < (int)reg.size(), "a moved-from descriptor is closed"); H::check(reg[f.n]->open == 1, "descriptor closed twice"); H::check(reg[f.n]->held == 0, "descriptor closed while an accessor holds it"); reg[f.n]->open = 0; f.n = -1; }
};
}}
static long openNow() { long n = 0; for (auto& r : reg) n += r->open; return n; }
static void reset() { reg.clear(); opens = closes = 0; failOpen = false; }

// ---- the manager alone: sequences of open, use, close
static void manager() {
  for (long r = 0; r < H::scale(1500, 30000); ++r) {
    reset(); unsigned limit = 1 + H::below(5); auto pl = H::pool(1, 9); if (!pl.empty() && H::below(4) == 0) limit = pl[H::below(pl.size())];
    struct File { FileManager::FileId id; A fd; bool busy; };
    std::vector<std::unique_ptr<File>> fs;   // least recently used first
    std::vector<FileManager::FileId> asked, closed; std::string log = "limit " + std::to_string(limit) + ":";
    std::unique_ptr<std::vector<int>> idle(new std::vector<int>);
    {
      auto m = std::make_shared<LRUFileManager>(limit); auto& fm = static_cast<FileManager&>(*m);
      std::function<bool(FileManager::FileId)> ask = [&](FileManager::FileId id) -> bool {
        asked.push_back(id);
        for (auto i = fs.begin(); i != fs.end(); ++i) if ((*i)->id == id) { if ((*i)->busy) return false; std::unique_ptr<File> f = std::move(*i); fs.erase(i); fm.close(id, f->fd); closed.push_back(id); return true; }
        H::fail("asked to close a file that is not open"); };
      auto pask = &ask; auto cb = [pask](FileManager::FileId id) -> bool { return (*pask)(id); };   // destroyed with the file while it runs
      H::eq(m->getLimit(), limit, "getLimit");
      size_t steps = 3 + H::below(18);
      for (size_t k = 0; k < steps; ++k) {
        asked.clear(); closed.clear(); int op = H::below(10);
        if (op < 5 || fs.empty()) {
          bool fails = H::below(8) == 0; log += fails ? " open!" : " open"; H::input(log, true);
          std::vector<FileManager::FileId> order; std::vector<bool> busy; for (auto& f : fs) { order.push_back(f->id); busy.push_back(f->busy); }
          size_t before = fs.size(), want = 0; bool room = before < limit; std::vector<FileManager::FileId> expAsk;
          if (!room) for (size_t i = 0; i < order.size(); ++i) { expAsk.push_back(order[i]); if (!busy[i]) { room = true; want = i + 1; break; } }
          failOpen = fails; long o0 = opens; bool threw = false; std::unique_ptr<File> nf(new File);
          try { auto p = fm.open<A>("/scratch/f" + std::to_string(k), H::below(2), cb); nf->id = p.first; nf->fd = std::move(p.second); nf->busy = H::below(3) == 0; } catch (const Ex&) { threw = true; }
          failOpen = false;
          H::eq(threw, fails || !room, "open threw"); H::check(asked == expAsk, "files asked to close: " + std::to_string(asked.size()) + ", expected the oldest " + std::to_string(expAsk.size()));
          if (want) H::check(closed.size() == 1 && closed[0] == order[want - 1], "the oldest file not in use is closed"); else H::check(closed.empty(), "nothing closed");
          H::eq(opens - o0, threw ? 0 : 1, "descriptors opened");
          if (!threw) { for (auto& f : fs) H::check(f->id != nf->id, "new id"); fs.push_back(std::move(nf)); }
        } else if (op < 8) { size_t i = H::below(fs.size()); log += " use" + std::to_string(i); H::input(log, true); fm.notifyUsed(fs[i]->id); auto f = std::move(fs[i]); fs.erase(fs.begin() + i); fs.push_back(std::move(f)); }
        else if (op == 8) { size_t i = H::below(fs.size()); log += " close" + std::to_string(i); H::input(log, true); fm.close(fs[i]->id, fs[i]->fd); fs.erase(fs.begin() + i); }
        else { size_t i = H::below(fs.size()); fs[i]->busy = !fs[i]->busy; log += " busy" + std::to_string(i); H::input(log, true); }
        H::check(op < 5 || asked.empty(), "asked to close although no room was needed");
        H::eq(openNow(), (long)fs.size(), "files open"); H::eq(m->getUsed(), (unsigned)fs.size(), "getUsed"); H::check(fs.size() <= limit, "more files open than the limit"); H::eq(m->getAvailable(), limit - (unsigned)fs.size(), "getAvailable");
      }
      asked.clear(); log += " destroy"; H::input(log, true); std::vector<FileManager::FileId> all; size_t nb = 0; for (auto& f : fs) { all.push_back(f->id); nb += f->busy; }
      m.reset(); std::sort(all.begin(), all.end()); std::sort(asked.begin(), asked.end()); H::check(asked == all, "every file is asked to close at the end"); H::eq(fs.size(), nb, "files closed at the end");
    }
  }
  H::input("default limit"); { auto m = std::make_shared<LRUFileManager>(); H::eq(m->getLimit(), 500u, "default limit"); auto z = std::make_shared<LRUFileManager>(0); H::check(z->getLimit() > 3, "limit taken from the system"); H::check(FileManager::getDefault() == FileManager::getDefault() && FileManager::getDefault(), "default manager"); }
}

// ---- handlers: accessors of several files, modes and types, one thread
struct Held { virtual ~Held() {} int fd; int file; bool write; char type; };
template <char T> struct HeldT : Held { std::unique_ptr<FileAccessor<Fd<T>>> a; };
struct Idle { int fd; bool write; char type; };
static void handlers() {
  for (long r = 0; r < H::scale(2500, 40000); ++r) {
    reset(); unsigned limit = H::below(3) ? 1 + H::below(5) : 100; const int NF = 3; auto m = std::make_shared<LRUFileManager>(limit);
    std::vector<std::shared_ptr<FileHandler>> h(NF); std::vector<std::unique_ptr<Held>> held; std::vector<std::vector<Idle>> idle(NF); std::vector<bool> ro(NF, true);
    std::vector<int> lru; // descriptor numbers, oldest first
    std::string log = "limit " + std::to_string(limit) + ":";
    auto drop = [&](int fd) { lru.erase(std::remove(lru.begin(), lru.end(), fd), lru.end()); };
    auto path = [](int f) { return "/nonexistent-scratch/f" + std::to_string(f); };
    // one file named in several ways, whichever comes first
    auto spell = [](int f) { static const char* d[] = {"/nonexistent-scratch/", "/nonexistent-scratch/./", "/nonexistent-scratch/x/../", "//nonexistent-scratch//", "/nonexistent-scratch/./x/../", "/./nonexistent-scratch/"}; size_t i = H::below(6); return std::string(i == 3 ? "/nonexistent-scratch//" : d[i]) + "f" + std::to_string(f); };
    for (int f = 0; f < NF; ++f) {
      auto s0 = spell(f), s1 = spell(f), s2 = spell(f); H::input("handlers " + s0 + " " + s1 + " " + s2, true); alarm(20);
      H::check(!m->hasHandler(s1), "hasHandler before the file is asked for"); h[f] = m->getFileHandler(s0);
      H::check(m->hasHandler(s1), "hasHandler"); H::check(m->getFileHandler(s2) == h[f], "the same handler for the same file"); H::check(m->hasHandler(path(f)), "hasHandler"); H::check(m->getFileHandler(s0) == h[f], "the same handler for the same file asked again");
      h[f].reset(); H::check(!m->hasHandler(s2) && !m->hasHandler(s0), "handler forgotten"); h[f] = m->getFileHandler(s1); H::check(m->getFileHandler(s0) == h[f] && m->getFileHandler(path(f)) == h[f], "the same handler for the same file after a drop"); alarm(0);
    }
    H::check(!m->hasHandler("/nonexistent-scratch/other"), "hasHandler of another file");
    size_t steps = 4 + H::below(20);
    for (size_t k = 0; k < steps; ++k) {
      bool get = held.empty() || H::below(5) < 3;
      if (get) {
        int f = H::below(NF); bool w = H::below(2); bool typeA = H::below(2); char ty = typeA ? 'a' : 'b';
        int readers = 0, writers = 0; for (auto& x : held) if (x->file == f) (x->write ? writers : readers)++;
        bool conflict = writers || (w && readers); bool tr = conflict || H::below(2);
        log += std::string(" ") + (tr ? "try-" : "") + (w ? "write" : "read") + std::to_string(f) + ty; H::input(log, true);
        FileHandler::Mode mode = FileHandler::Mode((w ? 1 : 0) | (tr ? 2 : 0));
        // model
        long expOpen = 0, expClose = 0; bool expThrow = false; int reuse = -1;
        if (!conflict) {
          if (ro[f] == w) { for (auto& i : idle[f]) { drop(i.fd); ++expClose; } idle[f].clear(); ro[f] = !w; }
          if (w && !idle[f].empty() && idle[f][0].type != ty) { drop(idle[f][0].fd); ++expClose; idle[f].clear(); }
          std::vector<int> cand; for (auto& i : idle[f]) if (i.type == ty) cand.push_back(i.fd);
          if (!cand.empty()) reuse = 0; else {
            if (lru.size() >= limit) { bool found = false; for (int fd : lru) { for (auto& li : idle) for (size_t j = 0; j < li.size(); ++j) if (!found && li[j].fd == fd) { li.erase(li.begin() + j); found = true; } if (found) { drop(fd); ++expClose; break; } } expThrow = !found; }
            expOpen = expThrow ? 0 : 1;
          }
        }
        long o0 = opens, c0 = closes; bool threw = false; std::unique_ptr<Held> res; int fd = -1;
        alarm(20);
        auto go = [&](auto tag, char) { using T = decltype(tag); (void)sizeof(T); };
        (void)go;
        try {
          if (typeA) { auto a = h[f]->getAccessor<A>(mode); if (a) { auto p = new HeldT<'a'>; fd = a->m_fd.n; H::eq(a->isReadOnly(), !w, "isReadOnly"); p->a = std::move(a); res.reset(p); } }
          else { auto a = h[f]->getAccessor<B>(mode); if (a) { auto p = new HeldT<'b'>; fd = a->m_fd.n; H::eq(a->isReadOnly(), !w, "isReadOnly"); p->a = std::move(a); res.reset(p); } }
        } catch (const Ex&) { threw = true; }
        alarm(0);
        H::eq(threw, expThrow, "threw because nothing could be closed");
        H::check((bool)res == (!conflict && !expThrow), conflict ? "a conflicting accessor was given" : "no accessor although there is no conflict");
        H::eq(opens - o0, expOpen, "descriptors opened"); H::eq(closes - c0, expClose, "descriptors closed");
        if (res) {
          H::check(fd >= 0 && reg[fd]->open == 1, "the accessor holds an open descriptor"); H::eq(reg[fd]->path, path(f), "file of the descriptor"); H::eq(reg[fd]->write, w, "mode of the descriptor"); H::eq(reg[fd]->type, ty, "type of the descriptor"); H::eq(reg[fd]->held, 0, "descriptor held by another accessor");
          H::eq(h[f]->isReadOnly(), !w, "mode of the handler");
          reg[fd]->held = 1; res->fd = fd; res->file = f; res->write = w; res->type = ty;
          if (reuse >= 0) { bool was = false; for (size_t j = 0; j < idle[f].size(); ++j) if (idle[f][j].fd == fd) { was = true; idle[f].erase(idle[f].begin() + j); break; } H::check(was, "an idle descriptor is reused"); }
          drop(fd); lru.push_back(fd); held.push_back(std::move(res));
        }
      } else {
        size_t i = H::below(held.size()); log += " release" + std::to_string(held[i]->file) + (held[i]->write ? "w" : "r"); H::input(log, true);
        auto x = std::move(held[i]); held.erase(held.begin() + i); reg[x->fd]->held = 0; idle[x->file].push_back({x->fd, x->write, x->type}); long c0 = closes; alarm(20); x.reset(); alarm(0); H::eq(closes, c0, "released descriptor stays open");
      }
      H::eq(openNow(), (long)lru.size(), "descriptors open"); H::eq(m->getUsed(), (unsigned)lru.size(), "getUsed"); H::check(lru.size() <= limit, "more descriptors open than the limit");
    }
    for (auto& x : held) reg[x->fd]->held = 0;
    held.clear(); int f = H::below(NF); log += " drop" + std::to_string(f); H::input(log, true); alarm(20); h[f].reset(); H::check(!m->hasHandler(path(f)), "handler forgotten"); for (auto& x : reg) if (x->path == path(f)) H::eq(x->open, 0, "descriptors of a dropped handler are closed");
    if (H::below(2)) { m.reset(); } else { h.clear(); } alarm(0); H::eq(openNow(), 0L, "descriptors left open at the end");
  }
}
// ---- threads: readers and writers of the same files
static void threads() {
  for (long r = 0; r < H::scale(6, 60); ++r) {
    reset(); auto m = std::make_shared<LRUFileManager>(1000); const int NF = 2; std::vector<std::shared_ptr<FileHandler>> h; for (int f = 0; f < NF; ++f) h.push_back(m->getFileHandler("/nonexistent-scratch/t" + std::to_string(f)));
    std::atomic<int> readers[NF], writers[NF]; for (int f = 0; f < NF; ++f) readers[f] = writers[f] = 0; std::atomic<long> bad{0}; std::atomic<long> got{0};
    H::input("threads " + std::to_string(r), true); alarm(120);
    std::vector<std::thread> ts;
    for (int t = 0; t < 6; ++t) ts.emplace_back([&, t] {
      uint64_t x = 88172645463325252ull + r * 7919 + t * 104729; auto nx = [&] { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x >> 11; };
      for (int k = 0; k < 300; ++k) {
        int f = nx() % NF; bool w = nx() % 4 == 0; bool tr = nx() % 2; auto a = h[f]->getAccessor<A>(FileHandler::Mode((w ? 1 : 0) | (tr ? 2 : 0))); if (!a) { if (!tr) bad |= 1; continue; } ++got;
        { std::lock_guard<std::mutex> g(regm); auto& q = *reg[a->m_fd.n]; if (!q.open) bad |= 2; if (q.write != w) bad |= 4; if (q.held++) bad |= 8; }
        if (w) { if (writers[f]++ || readers[f]) bad |= 16; } else { readers[f]++; if (writers[f]) bad |= 32; }
        if (nx() % 4 == 0) std::this_thread::yield();
        if (w) writers[f]--; else readers[f]--;
        { std::lock_guard<std::mutex> g(regm); --reg[a->m_fd.n]->held; }
      }
    });
    for (auto& t : ts) t.join(); alarm(0);
    H::check(bad == 0, "violation bits " + std::to_string(bad) + " (2 closed descriptor, 4 wrong mode, 8 shared descriptor, 16/32 writer not alone)");
    h.clear(); H::eq(openNow(), 0L, "descriptors left open");
  }
}
// ---- threads: handlers of one file asked for and dropped at the same time
static void comings() {
  for (long r = 0; r < H::scale(4, 40); ++r) {
    reset(); auto m = std::make_shared<LRUFileManager>(1000); std::atomic<int> writers{0}; std::atomic<long> bad{0}; std::mutex km; std::vector<std::weak_ptr<FileHandler>> known;
    H::input("handlers asked for and dropped by 6 threads, round " + std::to_string(r), true); alarm(120);
    std::vector<std::thread> ts;
    for (int t = 0; t < 6; ++t) ts.emplace_back([&, t] {
      uint64_t x = 88172645463325252ull + r * 7919 + t * 104729; auto nx = [&] { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x >> 11; };
      for (int k = 0; k < 1500; ++k) {
        auto h = m->getFileHandler("/nonexistent-scratch/c");
        if (!m->hasHandler("/nonexistent-scratch/c")) bad |= 1;
        auto g = m->getFileHandler("/nonexistent-scratch/c"); if (g != h) bad |= 2;
        { auto a = h->getAccessor<A>(FileHandler::kTryWrite); if (a) { if (writers++) bad |= 4; if (nx() % 4 == 0) std::this_thread::yield(); writers--; } }
      }
    });
    for (auto& t : ts) t.join(); alarm(0);
    H::check(bad == 0, "violation bits " + std::to_string(bad) + " (1 the handler of a held file is unknown, 2 another handler for a held file, 4 two writers of one file)");
    H::check(!m->hasHandler("/nonexistent-scratch/c"), "handler forgotten"); H::eq(openNow(), 0L, "descriptors left open");
  }
}
int main(int argc, char** argv) { return H::run(argc, argv, [](const std::string& p) { if (p == "C08") { manager(); } else { handlers(); threads(); comings(); } }); }
