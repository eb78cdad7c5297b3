// Crash states of a logged recording.
#pragma once
#include "plan.h"
#include "vio.h"

namespace vg {
using namespace std;


// content of every file when each file got its operations up to cut[file] (and part bytes of the next one)
struct State {
  map<string, Bytes> files;
  string str;
};

inline State stateAt(const vio::Log& log, size_t n, size_t part, vh::Rng& r, bool dropBuffers) {
  // per file, operations since the last flush or close may still be in the process' memory
  vector<size_t> cut(log.files.size(), n), partOf(log.files.size(), 0);
  if (dropBuffers) {
    for (size_t f = 0; f < log.files.size(); f++) {
      vector<size_t> pending;
      for (size_t i = 0; i < n; i++) {
        auto& op = log.ops[i];
        if (op.file == static_cast<int>(f)) {
          if (op.kind == vio::kWrite) {
            pending.push_back(i);
          } else {
            pending.clear();
          }
        }
      }
      if (!pending.empty() && r.chance(0.6)) {
        size_t k = r.below(min<size_t>(pending.size(), 12));
        size_t i = pending[pending.size() - 1 - k];
        cut[f] = i;
        if (log.ops[i].data.size() > 1 && r.chance(0.5) && log.ops[i].pos >= 1024) {
          partOf[f] = 1 + r.below(log.ops[i].data.size() - 1);
        }
      }
    }
  }
  vio::Log l;
  l.files = log.files;
  for (size_t i = 0; i < n + (part ? 1 : 0) && i < log.ops.size(); i++) {
    auto op = log.ops[i];
    size_t f = static_cast<size_t>(op.file);
    if (i < cut[f] || (i == n && cut[f] == n)) {
      if (i == n) {
        op.data.resize(min(part, op.data.size()));
      }
      l.ops.push_back(std::move(op));
    } else if (i == cut[f] && partOf[f] > 0) {
      op.data.resize(partOf[f]);
      l.ops.push_back(std::move(op));
    }
  }
  State s;
  s.files = vio::snapshot(l, l.ops.size(), 0);
  s.str = vh::sf("after %zu of %zu operations%s", n, log.ops.size(), part ? vh::sf(" and %zu bytes of the next write", part).c_str() : "");
  for (auto& f : s.files) {
    s.str += vh::sf(", %zu bytes in %s", f.second.size(), f.first.substr(f.first.find_last_of('/') + 1).c_str());
  }
  return s;
}

} // namespace vg
