// C09: what AsyncDiskFile stores, and what is read in between, against a flat byte array model: the engines as they
// are, aio_write replaced by threads that finish in any order after random delays, and I/O requests that fail.
// WITH: vrsgen vio
#include "flat.h"
#include "vio.h"

#include <cerrno>

using namespace vrs;
using namespace std;
using namespace vg;
using namespace flat;
using vh::Case;
using vh::Rng;

namespace {

struct Setup {
  FileSpec::Extras extras;
  string engine; // "" is aio
  size_t bufferSize{};
  bool valid{true};
  bool direct{true};
  string str() const {
    string s;
    for (auto& e : extras) {
      s += e.first + "=" + e.second + " ";
    }
    return s;
  }
};

Setup randomSetup(Rng& r, bool allowBad) {
  Setup s;
  if (r.chance(0.85)) {
    s.engine = r.pick({"aio", "aio", "aio", "psync", "sync"});
    s.extras["ioengine"] = s.engine;
  }
  if (s.engine.empty()) {
    s.engine = "aio";
  }
  if (r.chance(0.7)) {
    s.direct = r.chance(0.5);
    s.extras[r.chance(0.5) ? "direct" : "directio"] = s.direct ? r.pick({"true", "1", "on"}) : r.pick({"false", "0", "off"});
  }
  // direct I/O needs what the storage needs; anything goes otherwise
  size_t align = 4096, mem = 4096;
  if (r.chance(0.4)) {
    align = s.direct ? r.pick<size_t>({4096, 8192, 16384}) : r.pick<size_t>({1, 16, 512, 1000, 4096, 8192});
    s.extras["offset_align"] = to_string(align);
  }
  if (r.chance(0.4)) {
    mem = s.direct ? r.pick<size_t>({4096, 8192, 16384}) : r.pick<size_t>({16, 512, 1024, 4096, 8192});
    s.extras["mem_align"] = to_string(mem);
  }
  size_t unit = align;
  while (unit % mem != 0) {
    unit += align;
  }
  while (unit < 512) {
    unit *= 2;
  }
  s.bufferSize = unit * r.pick<size_t>({1, 1, 1, 2, 3, 8});
  s.extras["buffer_size"] = r.chance(0.2) && s.bufferSize % 1024 == 0 ? to_string(s.bufferSize / 1024) + "KB" : to_string(s.bufferSize);
  if (r.chance(0.8)) {
    s.extras["buffer_count"] = to_string(1 + r.below(6));
  }
  if (r.chance(0.6)) {
    s.extras["iodepth"] = to_string(1 + r.below(8));
  }
  if (allowBad && r.chance(0.06)) {
    s.valid = false;
    if (r.chance(0.5)) {
      s.extras["buffer_size"] = to_string(s.bufferSize + 1);
    } else {
      s.extras["mem_align"] = r.pick({"3", "1", "100", "0", "3000"});
    }
  }
  return s;
}

struct Fault {
  int kind{-1}; // vio kind, 100 submit, 101 complete, 102 short
  int64_t nth{};
  bool sticky{}, cut{};
  int err{};
  string str() const {
    const char* k = kind < 0 ? "none" : kind < 100 ? vio::kindName(kind) : kind == 100 ? "aio-submit" : kind == 101 ? "aio-complete" : "aio-short";
    return vh::sf("%s #%lld%s%s", k, static_cast<long long>(nth), sticky ? " sticky" : "", cut ? " short" : "");
  }
};

// one file created, written, closed. What was handed over is in the model.
struct Session {
  Case& c;
  AsyncDiskFile& f;
  Setup setup;
  Fault fault;
  string path;
  Flat m{};
  bool reported{false};
  string firstError{};
  string trail{};

  bool ok(int status, const string& op) {
    if (trail.size() < 1500) {
      trail += op + vh::sf("@%lld ", static_cast<long long>(m.pos));
    }
    if (status != 0) {
      if (fault.kind < 0) {
        c.failNow("operation-failed", "%s failed without reason: %d %s, with %s; after %s", op.c_str(), status, errorCodeToMessage(status).c_str(), setup.str().c_str(), trail.c_str());
      }
      if (!reported) {
        firstError = op;
      }
      reported = true;
      return false;
    }
    return !reported;
  }

  void writeSome() {
    Rng& r = c.rng;
    size_t b = setup.bufferSize;
    size_t len;
    switch (r.below(6)) {
      case 0:
        len = r.below(64);
        break;
      case 1: // up to, or around, a limit between buffers
        len = b - static_cast<size_t>(m.pos) % b + r.pick<size_t>({0, 0, 1, 7});
        break;
      case 2:
        len = b * (1 + r.below(4)) + r.below(3);
        break;
      case 3:
        len = max<size_t>(1, b - r.below(3));
        break;
      default:
        len = r.skewed(4 * b);
    }
    Bytes data = randomBytes(r, len);
    Bytes copy = data;
    int st = r.chance(0.6) ? f.write(copy.data(), len) : f.overwrite(copy.data(), len);
    fill(copy.begin(), copy.end(), 0xEE); // the caller's buffer is free again
    if (ok(st, vh::sf("write(%zu)", len))) {
      c.check(f.getLastRWSize() == len, "write-count", "getLastRWSize() %zu after writing %zu", f.getLastRWSize(), len);
      m.overwrite(data);
    }
    c.count("writes");
  }

  void checkPos(const char* op) {
    if (!reported) {
      c.check(f.getPos() == m.pos, "position", "after %s: getPos() %lld, expected %lld; %s with %s", op, static_cast<long long>(f.getPos()), static_cast<long long>(m.pos), trail.c_str(), setup.str().c_str());
    }
  }

  void run() {
    Rng& r = c.rng;
    int st = f.create(path, setup.extras);
    if (!setup.valid) {
      if (st != 0) { // refused, or else it works
        c.check(!f.isOpened() || f.close() == 0, "close-after-failed-create", "close");
        c.count("bad_setups");
        return;
      }
    }
    m.chunks.emplace_back();
    m.paths.push_back(path);
    if (!ok(st, "create")) {
      f.close();
      return;
    }
    size_t ops = 1 + r.below(25);
    for (size_t k = 0; k < ops && c.failures == 0; k++) {
      int what = static_cast<int>(r.below(20));
      if (what < 11) {
        writeSome();
        checkPos("write");
      } else if (what < 14) {
        int64_t size = static_cast<int64_t>(m.chunks.back().size());
        int64_t at = r.chance(0.3) ? size : r.chance(0.2) ? size + static_cast<int64_t>(r.below(setup.bufferSize)) : r.range(0, size);
        if (r.chance(0.3)) {
          at -= at % static_cast<int64_t>(setup.bufferSize);
        }
        at += m.lastOffset();
        if (ok(f.setPos(at), "setPos")) {
          m.pos = at;
        }
        checkPos("setPos");
        c.count("seeks");
      } else if (what < 17) { // read back, in the current chunk
        int64_t from = r.chance(0.3) ? max(m.pos, m.lastOffset()) : m.lastOffset() + static_cast<int64_t>(r.below(m.chunks.back().size() + 1));
        if (from > m.total()) {
          continue;
        }
        if (from != m.pos && !ok(f.setPos(from), "setPos")) {
          continue;
        }
        m.pos = from;
        size_t left = static_cast<size_t>(m.total() - from);
        size_t len = r.chance(0.1) ? left + 1 + r.below(5000) : r.below(left + 1);
        Bytes buf(len + 1);
        st = f.read(buf.data(), len);
        if (len <= left ? ok(st, vh::sf("read(%zu)", len)) : (reported ? false : (trail += "read-beyond ", true))) {
          size_t n = min(len, left);
          Bytes all = m.all();
          c.check(len <= left || st != 0, "read-beyond", "read of %zu bytes with %zu left succeeds", len, left);
          if (len <= left || fault.kind < 0) {
            c.check(f.getLastRWSize() == n && (n == 0 || memcmp(buf.data(), all.data() + from, n) == 0), "read-content", "read of %zu bytes at %lld: %zu read, or other bytes; %s with %s", len, static_cast<long long>(from), f.getLastRWSize(), trail.c_str(), setup.str().c_str());
            m.pos += static_cast<int64_t>(n);
          } else {
            reported = reported || st != DISKFILE_NOT_ENOUGH_DATA; // could be the injected error
            m.pos += static_cast<int64_t>(f.getLastRWSize());
          }
          c.count("reads");
        }
        checkPos("read");
      } else if (what < 18) {
        if (m.pos <= m.total()) {
          if (ok(f.truncate(), "truncate")) {
            m.chunks.back().resize(static_cast<size_t>(m.pos - m.lastOffset()));
          }
          checkPos("truncate");
          c.count("truncates");
        }
      } else if (what < 19) {
        if (m.pos != m.total()) {
          if (!ok(f.setPos(m.total()), "setPos")) {
            continue;
          }
          m.pos = m.total();
        }
        if (ok(f.addChunk(), "addChunk")) {
          m.chunks.emplace_back();
          m.paths.push_back(path + "_" + to_string(m.paths.size()));
          c.count("chunks_added");
        }
        checkPos("addChunk");
      } else if (!reported && m.pos <= m.total()) { // where are we?
        int64_t offset{}, size{};
        if (f.getChunkRange(offset, size) == 0) {
          c.check(offset == m.lastOffset(), "chunk-offset", "chunk offset %lld, expected %lld", static_cast<long long>(offset), static_cast<long long>(m.lastOffset()));
        }
      }
    }
    st = f.close();
    if (st != 0) {
      ok(st, "close");
    }
    c.check(!f.isOpened(), "still-open", "open after close()");
  }
};

void runCase(Case& c) {
  Rng& r = c.rng;
  size_t fds = openFds();
  bool fake = c.mode == "tsan" || r.chance(0.6);
  if (c.mode != "tsan" && r.chance(0.25)) { // the same operations as for DiskFile, updates and several chunks
    vio::setAio({fake, static_cast<uint32_t>(r.pick({0, 50, 400}))}, c.seed * 77 + c.number);
    if (fake) {
      vio::begin(c.tmp, false);
    }
    Setup s = randomSetup(r, false);
    int what = static_cast<int>(r.below(3));
    if (what == 0) {
      flat::readOnly<AsyncDiskFile>(c, s.extras);
    } else if (what == 1) {
      flat::update<AsyncDiskFile>(c, s.extras);
    } else {
      flat::create<AsyncDiskFile>(c, s.extras);
    }
    if (fake) {
      vio::aioDrain();
      vio::end();
    }
    c.count(what == 0 ? "chunked_reads" : what == 1 ? "chunked_updates" : "chunked_creations");
    return;
  }
  AsyncDiskFile f;
  size_t rounds = 1 + r.below(2);
  string sig;
  for (size_t round = 0; round < rounds && c.failures == 0; round++) {
    vh::wipeDir(c.tmp);
    Session s{c, f, randomSetup(r, true), {}, c.file("async")};
    vio::Fault vf;
    vio::AioMode am{fake, static_cast<uint32_t>(r.pick({0, 50, 400, 2000}))};
    if (s.setup.valid && r.chance(0.35)) {
      auto& x = s.fault;
      x.kind = s.setup.engine == "aio" && fake ? r.pick({100, 101, 101, 102, static_cast<int>(vio::kWrite), static_cast<int>(vio::kClose), static_cast<int>(vio::kOpen), static_cast<int>(vio::kTrunc)})
                                               : static_cast<int>(r.pick({vio::kWrite, vio::kWrite, vio::kClose, vio::kOpen, vio::kTrunc}));
      x.nth = static_cast<int64_t>(r.skewed(12));
      x.sticky = r.chance(0.3);
      x.cut = x.kind == vio::kWrite && r.chance(0.3);
      x.err = r.pick({ENOSPC, EIO, EDQUOT, EBADF});
      if (x.kind < 100) {
        vf.kind = x.kind;
        vf.nth = x.nth;
        vf.sticky = x.sticky;
        vf.shortWrite = x.cut;
        vf.err = x.err;
      } else {
        am.err = x.err;
        (x.kind == 100 ? am.failSubmitNth : x.kind == 101 ? am.failCompleteNth : am.shortNth) = x.nth;
      }
    }
    vio::setAio(am, c.seed * 1000 + c.number);
    vio::begin(c.tmp, false, vf);
    s.run();
    vio::aioDrain();
    int64_t hits = vio::faultHits();
    vio::end();
    if (c.failures) {
      break;
    }
    c.maxi("max_in_flight", vio::aioMaxInFlight());
    c.count("overtakings", vio::aioReordered());
    c.count("engine:" + s.setup.engine + (s.setup.direct ? ":direct" : ""));
    if (s.fault.kind >= 0 && hits > 0) {
      c.count(string("faults:") + (s.fault.kind < 100 ? vio::kindName(s.fault.kind) : s.fault.kind == 100 ? "submit" : s.fault.kind == 101 ? "complete" : "short"));
      c.count(s.reported ? "faults_reported" : "faults_harmless");
      if (s.reported) {
        c.count("reported_by:" + s.firstError.substr(0, s.firstError.find('(')));
      }
    } else if (s.reported) {
      c.failNow("operation-failed", "%s failed although nothing went wrong, with %s", s.firstError.c_str(), s.setup.str().c_str());
    }
    if (!s.reported && !s.m.chunks.empty()) { // then every byte is there, whatever went wrong
      for (size_t i = 0; i < s.m.chunks.size(); i++) {
        auto got = vh::slurp(s.m.paths[i]);
        auto& want = s.m.chunks[i];
        if (got != want) {
          size_t d = 0;
          while (d < got.size() && d < want.size() && got[d] == want[d]) {
            d++;
          }
          c.failNow(hits > 0 ? "error-lost" : "stored-content", "chunk %zu of %zu has %zu bytes, expected %zu, first difference at %zu; fault %s (%lld), %s with %s", i, s.m.chunks.size(), got.size(), want.size(), d, s.fault.str().c_str(), static_cast<long long>(hits), s.trail.c_str(), s.setup.str().c_str());
        }
        c.count("files_compared");
      }
    }
    c.check(openFds() == fds, "descriptor-leak", "%zu more open descriptors after close; fault %s, %s", openFds() - fds, s.fault.str().c_str(), s.setup.str().c_str());
    sig += vh::sf("%s|%s|%zu|%d ", s.setup.str().c_str(), s.fault.str().c_str(), s.m.chunks.size(), s.reported);
  }
  c.signature(sig + to_string(vio::aioReordered()));
}
} // namespace

VH_MAIN()
