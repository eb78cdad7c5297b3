// A file made of chunks as a flat byte array: model, and random operation sequences compared with DiskFileT<>.
#pragma once
#include "vrsgen.h"

#include <filesystem>

namespace flat {
using namespace vrs;
using namespace std;
using namespace vg;
using vh::Case;
using vh::Rng;

inline size_t openFds() {
  size_t n = 0;
  for (auto& e : filesystem::directory_iterator("/proc/self/fd")) {
    (void)e;
    n++;
  }
  return n;
}

inline Bytes randomBytes(Rng& r, size_t n) {
  Bytes b(n);
  for (auto& x : b) {
    x = static_cast<uint8_t>(r.next());
  }
  return b;
}

// offsets that matter: chunk limits, just around them, ends, anywhere
inline int64_t interesting(Rng& r, const vector<Bytes>& chunks, int64_t beyond) {
  int64_t total = 0;
  vector<int64_t> limits{0};
  for (auto& k : chunks) {
    total += static_cast<int64_t>(k.size());
    limits.push_back(total);
  }
  int64_t v;
  if (r.chance(0.6)) {
    v = r.pick(limits) + r.range(-2, 2);
  } else {
    v = r.range(0, total);
  }
  return max<int64_t>(0, min<int64_t>(v, total + beyond));
}

struct Flat {
  vector<Bytes> chunks;
  vector<string> paths;
  int64_t pos{};
  Bytes all() const {
    Bytes b;
    for (auto& k : chunks) {
      b.insert(b.end(), k.begin(), k.end());
    }
    return b;
  }
  int64_t total() const {
    int64_t n = 0;
    for (auto& k : chunks) {
      n += static_cast<int64_t>(k.size());
    }
    return n;
  }
  int64_t lastOffset() const {
    return total() - static_cast<int64_t>(chunks.back().size());
  }
  // chunk holding the byte at offset (the last one at or past the end)
  size_t chunkAt(int64_t offset, int64_t& inChunk) const {
    int64_t o = 0;
    for (size_t i = 0; i < chunks.size(); i++) {
      int64_t n = static_cast<int64_t>(chunks[i].size());
      if (offset < o + n || i + 1 == chunks.size()) {
        inChunk = offset - o;
        return i;
      }
      o += n;
    }
    return 0;
  }
  // only the last chunk is ever extended
  void overwrite(const Bytes& data) {
    size_t done = 0;
    while (done < data.size()) {
      int64_t at{};
      size_t k = chunkAt(pos, at);
      auto& chunk = chunks[k];
      size_t n = data.size() - done;
      if (k + 1 < chunks.size()) {
        n = min(n, chunk.size() - static_cast<size_t>(at));
      } else if (chunk.size() < static_cast<size_t>(at) + n) {
        chunk.resize(static_cast<size_t>(at) + n);
      }
      memcpy(chunk.data() + at, data.data() + done, n);
      done += n;
      pos += static_cast<int64_t>(n);
    }
  }
};

inline string where(const Flat& m) {
  string s = vh::sf("pos %lld of", static_cast<long long>(m.pos));
  for (auto& k : m.chunks) {
    s += vh::sf(" %zu", k.size());
  }
  return s;
}

inline void compareFiles(Case& c, const Flat& m, const char* when) {
  for (size_t i = 0; i < m.chunks.size(); i++) {
    auto got = vh::slurp(m.paths[i]);
    if (got != m.chunks[i]) {
      size_t d = 0;
      while (d < got.size() && d < m.chunks[i].size() && got[d] == m.chunks[i][d]) {
        d++;
      }
      c.failNow("chunk-content", "%s: chunk %zu of %zu has %zu bytes, expected %zu, first difference at %zu", when, i, m.chunks.size(), got.size(), m.chunks[i].size(), d);
    }
    c.count("chunk_files_compared");
  }
}

// position, sizes and ranges as the model has them
template <class F>
void compareState(Case& c, F& f, const Flat& m, bool extended, const string& op) {
  c.check(f.getPos() == m.pos, "position", "after %s: getPos() %lld, %s", op.c_str(), static_cast<long long>(f.getPos()), where(m).c_str());
  if (!extended && m.pos <= m.total()) {
    c.check(f.getTotalSize() == m.total(), "total-size", "after %s: getTotalSize() %lld, expected %lld", op.c_str(), static_cast<long long>(f.getTotalSize()), static_cast<long long>(m.total()));
    auto list = f.getFileChunks();
    bool ok = list.size() == m.chunks.size();
    for (size_t i = 0; ok && i < list.size(); i++) {
      ok = list[i].first == m.paths[i] && list[i].second == static_cast<int64_t>(m.chunks[i].size());
    }
    c.check(ok, "chunk-list", "after %s: getFileChunks() differs", op.c_str());
    int64_t off = -1, size = -1;
    int st = f.getChunkRange(off, size);
    c.check(st == 0, "chunk-range-status", "after %s: getChunkRange failed: %d", op.c_str(), st);
    bool known = false;
    int64_t o = 0;
    bool empties = false;
    for (auto& k : m.chunks) {
      known = known || (o == off && size == static_cast<int64_t>(k.size()));
      empties = empties || k.empty();
      o += static_cast<int64_t>(k.size());
    }
    c.check(known && off <= m.pos && (m.pos <= off + size), "chunk-range", "after %s: range %lld+%lld is not that of the current chunk, %s", op.c_str(), static_cast<long long>(off), static_cast<long long>(size), where(m).c_str());
    if (!empties && m.pos < m.total()) {
      c.check(m.pos < off + size, "chunk-range-edge", "after %s: range %lld+%lld does not include the next byte, %s", op.c_str(), static_cast<long long>(off), static_cast<long long>(size), where(m).c_str());
    }
    // chunk position + offset of the open chunk = position
    string path;
    size_t index = 99999;
    if (c.check(f.getCurrentChunk(path, index) && index < m.chunks.size() && path == m.paths[index], "current-chunk", "after %s: getCurrentChunk says %zu '%s'", op.c_str(), index, path.c_str())) {
      o = 0;
      for (size_t i = 0; i < index; i++) {
        o += static_cast<int64_t>(m.chunks[i].size());
      }
      c.check(o + f.getChunkPos() == m.pos, "chunk-position", "after %s: chunk %zu, getChunkPos() %lld, %s", op.c_str(), index, static_cast<long long>(f.getChunkPos()), where(m).c_str());
    }
  }
  c.count("states_compared");
}

inline Flat makeChunks(Case& c, bool manyChunks) {
  Rng& r = c.rng;
  Flat m;
  size_t n = manyChunks ? 4 + r.below(30) : 1 + r.below(5);
  size_t maxSize = r.pick({3, 20, 300, 5000, 9000});
  for (size_t i = 0; i < n; i++) {
    size_t size = r.chance(0.12) ? 0 : (r.chance(0.2) ? 1 : r.below(maxSize + 1));
    m.chunks.push_back(randomBytes(r, size));
    m.paths.push_back(c.file(vh::sf("chunk%zu", i)));
    vh::spew(m.paths.back(), m.chunks.back().data(), size);
  }
  return m;
}

template <class F>
FileSpec specOf(const Flat& m, bool named, const FileSpec::Extras& extras) {
  FileSpec spec;
  spec.extras = extras;
  spec.chunks = m.paths;
  if (named) {
    spec.fileHandlerName = F::staticName();
  }
  return spec;
}

// one random read operation, compared
template <class F>
bool readSome(Case& c, F& f, Flat& m, const Bytes& flat) {
  Rng& r = c.rng;
  int64_t total = static_cast<int64_t>(flat.size());
  size_t len;
  if (r.chance(0.5)) {
    int64_t target = interesting(r, m.chunks, 0);
    len = static_cast<size_t>(max<int64_t>(0, target - m.pos));
  } else {
    len = r.skewed(static_cast<uint64_t>(total - m.pos) + 3);
  }
  if (r.chance(0.06)) {
    len = static_cast<size_t>(total - m.pos) + 1 + r.below(50);
  }
  Bytes buf(len + 8, 0xA7);
  int st = f.read(buf.data(), len);
  size_t avail = min<size_t>(len, static_cast<size_t>(max<int64_t>(total - m.pos, 0)));
  string op = vh::sf("read of %zu bytes at %lld", len, static_cast<long long>(m.pos));
  c.check((st == 0) == (avail == len), "read-status", "%s: status %d, %zu bytes left, %s", op.c_str(), st, avail, where(m).c_str());
  c.check(f.getLastRWSize() == avail, "read-count", "%s: getLastRWSize() %zu, expected %zu, %s", op.c_str(), f.getLastRWSize(), avail, where(m).c_str());
  c.check(avail == 0 || memcmp(buf.data(), flat.data() + m.pos, avail) == 0, "read-bytes", "%s: wrong bytes, %s", op.c_str(), where(m).c_str());
  bool spill = false;
  for (size_t i = len; i < buf.size(); i++) {
    spill = spill || buf[i] != 0xA7;
  }
  c.check(!spill, "read-overrun", "%s wrote past the buffer", op.c_str());
  c.check(f.getLastError() == st, "last-error", "%s: status %d, getLastError() %d", op.c_str(), st, f.getLastError());
  if (st != 0) {
    c.check(f.isEof(), "eof-missed", "%s: short read but isEof() says no, %s", op.c_str(), where(m).c_str());
    c.count("short_reads");
  } else if (avail > 0 && m.pos + static_cast<int64_t>(len) < total) {
    c.check(!f.isEof(), "eof-early", "%s: isEof() before the end, %s", op.c_str(), where(m).c_str());
  }
  int64_t at{}, at2{};
  if (avail > 0 && m.chunkAt(m.pos, at) != m.chunkAt(m.pos + static_cast<int64_t>(avail) - 1, at2)) {
    c.count("reads_across_chunks");
  }
  m.pos += static_cast<int64_t>(avail);
  compareState(c, f, m, false, op);
  return c.failures == 0;
}

template <class F>
void readOnly(Case& c, const vrs::FileSpec::Extras& extras) {
  Rng& r = c.rng;
  size_t fds = openFds();
  F f;
  int rounds = r.chance(0.3) ? 2 : 1;
  for (int round = 0; round < rounds; round++) {
    vh::wipeDir(c.tmp);
    Flat m = makeChunks(c, r.chance(0.3));
    Bytes flat = m.all();
    if (r.chance(0.05)) { // one chunk is missing
      FileSpec spec = specOf<F>(m, true, extras);
      spec.chunks.insert(spec.chunks.begin() + static_cast<long>(r.below(m.paths.size() + 1)), c.file("missing"));
      int st = f.openSpec(spec);
      c.check(st != 0 && !f.isOpened() && f.getTotalSize() == 0, "missing-chunk", "opening with a missing chunk: status %d, opened %d", st, f.isOpened());
      c.count("missing_chunks");
    }
    if (r.chance(0.03)) {
      FileSpec none;
      int st = f.openSpec(none);
      c.check(st != 0 && !f.isOpened(), "no-chunk", "opening a spec without a file: status %d, opened %d", st, f.isOpened());
      none.chunks = m.paths;
      none.fileHandlerName = "something-else";
      st = f.openSpec(none);
      c.check(st != 0 && !f.isOpened(), "other-handler", "opening a spec for another file handler: status %d, opened %d", st, f.isOpened());
    }
    int st = m.paths.size() == 1 && r.chance(0.5) ? f.open(m.paths[0]) : f.openSpec(specOf<F>(m, r.chance(0.5), extras));
    if (st != 0) {
      c.failNow("open", "can't open %zu chunks: %d", m.paths.size(), st);
    }
    c.check(f.isOpened() && f.isReadOnly(), "open-state", "open: isOpened %d, isReadOnly %d", f.isOpened(), f.isReadOnly());
    c.maxi("max_chunks", static_cast<int64_t>(m.chunks.size()));
    size_t maxFds = 0;
    compareState(c, f, m, false, "open");
    size_t ops = 5 + r.below(40);
    for (size_t k = 0; k < ops && c.failures == 0; k++) {
      switch (r.below(6)) {
        case 0:
        case 1:
        case 2:
          readSome(c, f, m, flat);
          break;
        case 3: {
          int64_t p = interesting(r, m.chunks, 0);
          string op = vh::sf("setPos(%lld)", static_cast<long long>(p));
          st = f.setPos(p);
          if (!c.check(st == 0, "seek-status", "%s failed: %d, %s", op.c_str(), st, where(m).c_str())) {
            break;
          }
          m.pos = p;
          compareState(c, f, m, false, op);
          c.check(!f.isEof() || p == m.total(), "eof-after-seek", "after %s isEof() is set, %s", op.c_str(), where(m).c_str());
          c.count("seeks");
          break;
        }
        case 4: {
          int64_t p = interesting(r, m.chunks, 0);
          int64_t skip = p >= m.pos ? p - m.pos : static_cast<int64_t>(r.below(static_cast<uint64_t>(m.total() - m.pos) + 1));
          string op = vh::sf("skipForward(%lld) at %lld", static_cast<long long>(skip), static_cast<long long>(m.pos));
          st = f.skipForward(skip);
          if (!c.check(st == 0, "skip-status", "%s failed: %d, %s", op.c_str(), st, where(m).c_str())) {
            break;
          }
          m.pos += skip;
          compareState(c, f, m, false, op);
          c.count("skips");
          break;
        }
        default: {
          if (r.chance(0.6)) {
            break;
          }
          // out of the file: refused, and the file still works
          int64_t over = 1 + static_cast<int64_t>(r.skewed(1000));
          bool skip = r.chance(0.5);
          st = skip ? f.skipForward(m.total() - m.pos + over) : f.setPos(r.chance(0.3) ? -over : m.total() + over);
          c.check(st != 0, "seek-beyond", "going %lld bytes out of the file is accepted, %s", static_cast<long long>(over), where(m).c_str());
          uint8_t b{};
          if (f.write(&b, 1) == 0 || f.overwrite(&b, 1) == 0 || f.truncate() == 0) {
            c.fail("read-only", "a read-only file can be written to");
          }
          m.pos = interesting(r, m.chunks, 0);
          st = f.setPos(m.pos);
          c.check(st == 0, "seek-after-error", "setPos(%lld) after a refused one: %d", static_cast<long long>(m.pos), st);
          compareState(c, f, m, false, "a refused seek");
          c.count("refused_seeks");
        }
      }
      maxFds = max(maxFds, openFds());
    }
    // everything in one go
    if (c.failures == 0) {
      Bytes whole(flat.size());
      st = f.setPos(0);
      st = st == 0 ? f.read(whole.data(), whole.size()) : st;
      c.check(st == 0 && whole == flat, "read-whole", "reading everything at once differs (status %d), %s", st, where(m).c_str());
      m.pos = m.total();
    }
    if (r.chance(0.3) && c.failures == 0) { // forget the chunks past some size, none before the current one
      m.pos = interesting(r, m.chunks, 0);
      f.setPos(m.pos);
      string path;
      size_t index{};
      f.getCurrentChunk(path, index);
      int64_t limit = interesting(r, m.chunks, 10);
      f.forgetFurtherChunks(limit);
      while (m.chunks.size() > index + 1 && m.lastOffset() >= limit) {
        m.chunks.pop_back();
        m.paths.pop_back();
      }
      flat = m.all();
      compareState(c, f, m, false, vh::sf("forgetFurtherChunks(%lld)", static_cast<long long>(limit)));
      for (int k = 0; k < 6 && c.failures == 0; k++) {
        readSome(c, f, m, flat);
        m.pos = interesting(r, m.chunks, 0);
        st = f.setPos(m.pos);
        c.check(st == 0, "seek-status", "setPos after forgetting chunks: %d", st);
      }
      c.count("chunks_forgotten");
    }
    if (r.chance(0.8)) {
      st = f.close();
      c.check(st == 0 && !f.isOpened() && f.getTotalSize() == 0, "close", "close: %d, opened %d", st, f.isOpened());
      c.check(openFds() == fds, "descriptor-leak", "%zu more open descriptors after close", openFds() - fds);
    }
    compareFiles(c, m, "after reading");
  }
  f.close();
  c.signature(vh::sf("read %llu", static_cast<unsigned long long>(c.rng.next())));
}

template <class F>
void update(Case& c, const vrs::FileSpec::Extras& extras) {
  Rng& r = c.rng;
  size_t fds = openFds();
  Flat m = makeChunks(c, r.chance(0.3));
  {
    F f;
    int st = f.openSpec(specOf<F>(m, true, extras));
    st = st == 0 ? f.setPos(m.pos = interesting(r, m.chunks, 0)) : st;
    if (st != 0) {
      c.failNow("open", "can't open %zu chunks: %d", m.paths.size(), st);
    }
    if (r.chance(0.5)) {
      readSome(c, f, m, m.all());
    }
    c.check(f.reopenForUpdatesSupported() && f.reopenForUpdates() == 0 && !f.isReadOnly(), "reopen", "reopenForUpdates fails");
    bool extended = false;
    size_t ops = 3 + r.below(25);
    for (size_t k = 0; k < ops && c.failures == 0; k++) {
      int64_t p = interesting(r, m.chunks, r.chance(0.2) ? 30 : 0);
      string op = vh::sf("setPos(%lld)", static_cast<long long>(p));
      st = f.setPos(p);
      if (!c.check(st == 0, "update-seek", "%s while updating failed: %d, %s", op.c_str(), st, where(m).c_str())) {
        break;
      }
      m.pos = p;
      if (m.pos <= m.total()) {
        compareState(c, f, m, extended, op);
      }
      int what = static_cast<int>(r.below(10));
      if (what < 5) {
        size_t parts = 1 + r.below(3); // consecutive writes, no seek in between
        for (size_t w = 0; w < parts; w++) {
          int64_t target = interesting(r, m.chunks, 20);
          size_t len = r.chance(0.5) && target > m.pos ? static_cast<size_t>(target - m.pos) : r.below(200);
          Bytes data = randomBytes(r, len);
          int64_t from = m.pos, total = m.total();
          st = f.overwrite(data.data(), data.size());
          op = vh::sf("overwrite of %zu bytes at %lld", len, static_cast<long long>(from));
          c.check(st == 0 && f.getLastRWSize() == len, "overwrite-status", "%s: status %d, %zu written, %s", op.c_str(), st, f.getLastRWSize(), where(m).c_str());
          m.overwrite(data);
          extended = extended || m.total() != total;
          c.count(m.total() != total ? "overwrites_extending" : "overwrites");
          compareState(c, f, m, extended, op);
        }
      } else if (what < 7) {
        Bytes flat = m.all();
        if (m.pos <= m.total()) {
          size_t len = r.below(static_cast<uint64_t>(m.total() - m.pos) + 1);
          Bytes buf(len);
          st = f.read(buf.data(), len);
          c.check(st == 0 && (len == 0 || memcmp(buf.data(), flat.data() + m.pos, len) == 0), "read-while-updating", "reading %zu bytes at %lld while updating: status %d, or other bytes, %s", len, static_cast<long long>(m.pos), st, where(m).c_str());
          m.pos += static_cast<int64_t>(len);
          compareState(c, f, m, extended, "read while updating");
          c.count("reads_while_updating");
        }
      } else if (what < 9) { // write(): the current chunk only
        int64_t at{};
        size_t k2 = m.chunkAt(m.pos, at);
        if (k2 + 1 == m.chunks.size() || r.chance(0.5)) {
          size_t len = k2 + 1 == m.chunks.size() ? r.below(300) : r.below(m.chunks[k2].size() - static_cast<size_t>(at) + 1);
          Bytes data = randomBytes(r, len);
          int64_t total = m.total();
          st = f.write(data.data(), len);
          c.check(st == 0 && f.getLastRWSize() == len, "write-status", "write of %zu bytes: status %d", len, st);
          m.overwrite(data);
          extended = extended || m.total() != total;
          compareState(c, f, m, extended, "write");
          c.count("writes");
        }
      } else if (m.pos <= m.total()) {
        int64_t at{};
        size_t k2 = m.chunkAt(m.pos, at);
        if (r.chance(0.3)) { // unflushed data in front of the cut
          int64_t total = m.total();
          Bytes data = randomBytes(r, k2 + 1 == m.chunks.size() ? 10 : min<size_t>(10, m.chunks[k2].size() - static_cast<size_t>(at)));
          f.overwrite(data.data(), data.size());
          m.overwrite(data);
          extended = extended || m.total() != total;
          at += static_cast<int64_t>(data.size());
        }
        st = f.truncate();
        c.check(st == 0, "truncate-status", "truncate at %lld: %d, %s", static_cast<long long>(m.pos), st, where(m).c_str());
        m.chunks[k2].resize(static_cast<size_t>(at));
        extended = extended && k2 + 1 != m.chunks.size();
        compareState(c, f, m, extended, "truncate");
        c.count("truncates");
      }
    }
    st = f.close();
    c.check(st == 0, "close", "close after updates: %d", st);
  }
  c.check(openFds() == fds, "descriptor-leak", "%zu more open descriptors after close", openFds() - fds);
  compareFiles(c, m, "after updates");
  c.signature(vh::sf("update %llu", static_cast<unsigned long long>(c.rng.next())));
}

template <class F>
void create(Case& c, const vrs::FileSpec::Extras& extras) {
  Rng& r = c.rng;
  size_t fds = openFds();
  string base = c.file(r.pick({"new", "new_1", "new.vrs", "x_0", "_1"}));
  Flat m;
  {
    F f;
    if (r.chance(0.2)) {
      vh::spew(base, "old content of a file", 21); // replaced
    }
    int st = f.create(base, extras);
    if (st != 0) {
      c.failNow("create", "can't create '%s': %d", base.c_str(), st);
    }
    m.chunks.emplace_back();
    m.paths.push_back(base);
    size_t ops = 1 + r.below(30);
    size_t maxLen = r.pick({10, 500, 20000});
    for (size_t k = 0; k < ops && c.failures == 0; k++) {
      int what = static_cast<int>(r.below(10));
      if (what < 5) {
        Bytes data = randomBytes(r, r.below(maxLen));
        st = r.chance(0.5) ? f.write(data.data(), data.size()) : f.overwrite(data.data(), data.size());
        c.check(st == 0 && f.getLastRWSize() == data.size(), "write-status", "write of %zu bytes in a new file: status %d", data.size(), st);
        m.overwrite(data);
        compareState(c, f, m, true, "write");
        c.count("writes");
      } else if (what < 7) { // goes on at the end of what was written, so that the new chunk starts there
        if (m.pos != m.total()) {
          f.setPos(m.pos = m.total());
        }
        st = f.addChunk();
        c.check(st == 0, "add-chunk-status", "addChunk: %d", st);
        string path = m.paths[0];
        if (path.size() >= 2 && path.compare(path.size() - 2, 2, "_1") == 0) {
          path.pop_back();
          path += to_string(m.chunks.size() + 1);
        } else {
          path += "_" + to_string(m.chunks.size());
        }
        m.chunks.emplace_back();
        m.paths.push_back(path);
        compareState(c, f, m, false, "addChunk");
        c.count("chunks_added");
      } else if (what < 9) {
        m.pos = m.lastOffset() + static_cast<int64_t>(r.below(m.chunks.back().size() + 1));
        st = f.setPos(m.pos);
        c.check(st == 0, "seek-status", "setPos(%lld) in a new file: %d, %s", static_cast<long long>(m.pos), st, where(m).c_str());
        compareState(c, f, m, true, "setPos");
      } else {
        st = f.truncate();
        c.check(st == 0, "truncate-status", "truncate: %d", st);
        m.chunks.back().resize(static_cast<size_t>(m.pos - m.lastOffset()));
        compareState(c, f, m, false, "truncate");
        c.count("truncates");
      }
    }
    if (r.chance(0.8)) {
      st = f.close();
      c.check(st == 0 && !f.isOpened(), "close", "close of a new file: %d", st);
    }
  }
  c.check(openFds() == fds, "descriptor-leak", "%zu more open descriptors after close", openFds() - fds);
  compareFiles(c, m, "after creating");
  c.check(vh::listDir(c.tmp).size() == m.paths.size(), "extra-files", "%zu files for %zu chunks", vh::listDir(c.tmp).size(), m.paths.size());
  c.signature(vh::sf("create %llu", static_cast<unsigned long long>(c.rng.next())));
}

} // namespace flat
