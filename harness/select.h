// What a record selection (streams, record types, time range, decimation) must yield, worked out by brute force from
// the documentation of the options, with the text of the options to give to the tool.
#pragma once
#include "vrsgen.h"

#include <cfloat>
#include <cmath>

#include <vrs/utils/FilteredFileReader.h>
#include <vrs/utils/cli/CliParsing.h>
#include <vrs/utils/cli/DefaultDecimator.h>

namespace vg {

struct StreamChoice {
  bool add{};
  std::string text;
  std::set<vrs::StreamId> ids; // what it names
};
struct TypeChoice {
  bool add{};
  std::string text;
  vrs::Record::Type type{};
};

struct Selection {
  std::vector<StreamChoice> streams;
  std::vector<TypeChoice> types;
  enum TimeKind { kAbsolute, kFromFirst, kFromLast };
  bool hasMin{}, hasMax{}, around{};
  double min{}, max{}; // as positive offsets when relative
  TimeKind minKind{kAbsolute}, maxKind{kAbsolute};
  bool first{};
  std::vector<std::pair<StreamChoice, double>> intervals;
  double bucket{}, delta{};

  bool plain() const {
    return streams.empty() && types.empty() && !hasMin && !hasMax && !first && intervals.empty() && bucket == 0;
  }
  bool relative() const {
    return (hasMin && minKind != kAbsolute) || (hasMax && maxKind != kAbsolute && !around);
  }
  std::string str() const {
    std::string s;
    for (auto& a : args()) {
      s += a + " ";
    }
    return s;
  }
  static std::string number(double v, TimeKind k) {
    std::string s = vh::sf("%.17g", v);
    return k == kAbsolute ? s : k == kFromFirst ? "+" + s : "-" + s;
  }
  // options as given to the vrs tool. Absolute negative times cannot be told that way.
  bool canBeArgs() const {
    for (double v : {min, max}) {
      if (v != 0 && std::fabs(v) < DBL_MIN) {
        return false; // the text form of denormals is refused
      }
    }
    return !(hasMin && minKind == kAbsolute && std::signbit(min)) && !(hasMax && !around && maxKind == kAbsolute && std::signbit(max));
  }
  std::vector<std::string> timeArgs(bool range = false) const {
    std::vector<std::string> a;
    if (around) {
      a = {"--around", number(min, minKind), vh::sf("%.17g", max)};
    } else if (range && hasMin && hasMax) {
      a = {"--range", number(min, minKind), number(max, maxKind)};
    } else {
      if (hasMin) {
        a.insert(a.end(), {"--after", number(min, minKind)});
      }
      if (hasMax) {
        a.insert(a.end(), {"--before", number(max, maxKind)});
      }
    }
    return a;
  }
  std::vector<std::string> args(vh::Rng* r = nullptr) const {
    std::vector<std::vector<std::string>> parts;
    parts.push_back(timeArgs(r && r->chance(0.5)));
    if (first) {
      parts.push_back({r && r->chance(0.5) ? "-1" : "--first-records"});
    }
    for (auto& i : intervals) {
      parts.push_back({"--decimate", i.first.text, vh::sf("%.17g", i.second)});
    }
    if (bucket > 0) {
      parts.push_back({"--bucket-interval", vh::sf("%.17g", bucket)});
      parts.push_back({"--bucket-max-delta", vh::sf("%.17g", delta)});
    }
    std::vector<std::vector<std::string>> s, t;
    for (auto& c : streams) {
      s.push_back({c.add ? "+" : "-", c.text});
    }
    for (auto& c : types) {
      t.push_back({c.add ? "+" : "-", c.text});
    }
    // the order among stream choices matters, and among type choices, but not otherwise
    if (r) {
      r->shuffle(parts);
      size_t n = 0; // (the last interval given to a stream counts)
      for (auto& p : parts) {
        if (!p.empty() && p[0] == "--decimate") {
          p[1] = intervals[n].first.text;
          p[2] = vh::sf("%.17g", intervals[n++].second);
        }
      }
    }
    std::vector<std::string> out;
    size_t i = 0, j = 0, k = 0;
    while (i < s.size() || j < t.size() || k < parts.size()) {
      size_t w = r ? r->below(3) : (i < s.size() ? 0 : j < t.size() ? 1 : 2);
      auto* v = w == 0 ? (i < s.size() ? &s[i++] : nullptr) : w == 1 ? (j < t.size() ? &t[j++] : nullptr) : (k < parts.size() ? &parts[k++] : nullptr);
      if (v) {
        out.insert(out.end(), v->begin(), v->end());
      }
    }
    return out;
  }
};

using Infos = std::vector<vrs::IndexRecord::RecordInfo>;

inline Infos infosOf(const vrs::RecordFileReader& reader) {
  auto& ix = reader.getIndex();
  return Infos(ix.begin(), ix.end());
}

struct Selected {
  bool judged{true}; // false: the documentation doesn't tell
  std::set<vrs::StreamId> streams;
  std::set<vrs::Record::Type> types;
  double min{-INFINITY}, max{INFINITY}; // absolute
  bool validRange{true};
  std::vector<size_t> preroll; // in the order they must be delivered
  bool prerollOptional{};
  std::vector<size_t> main;
  // bucket decimation: one of each group
  std::vector<std::vector<size_t>> oneOf;
};

// the streams selected
inline std::set<vrs::StreamId> selectStreams(const std::vector<StreamChoice>& choices, const std::set<vrs::StreamId>& all) {
  if (choices.empty()) {
    return all;
  }
  std::set<vrs::StreamId> out;
  if (!choices.front().add) {
    out = all;
  }
  for (auto& c : choices) {
    for (auto& id : c.ids) {
      if (c.add) {
        out.insert(id);
      } else {
        out.erase(id);
      }
    }
  }
  return out;
}

inline std::set<vrs::Record::Type> selectTypes(const std::vector<TypeChoice>& choices) {
  std::set<vrs::Record::Type> all{vrs::Record::Type::CONFIGURATION, vrs::Record::Type::STATE, vrs::Record::Type::DATA}, out;
  if (choices.empty() || !choices.front().add) {
    out = all;
  }
  for (auto& c : choices) {
    if (c.add) {
      out.insert(c.type);
    } else {
      out.erase(c.type);
    }
  }
  return out;
}

// widens [first, last] with the data records of the selected streams
inline void dataRange(const Infos& infos, const std::set<vrs::StreamId>& streams, bool& any, double& first, double& last) {
  for (auto& r : infos) {
    if (r.recordType == vrs::Record::Type::DATA && streams.count(r.streamId)) {
      first = any ? std::min(first, r.timestamp) : r.timestamp;
      last = any ? std::max(last, r.timestamp) : r.timestamp;
      any = true;
    }
  }
}

// rangeKnown/first/last: of all the files considered together
inline Selected select(const Infos& infos, const std::set<vrs::StreamId>& all, const Selection& s, bool any, double first, double last) {
  using vrs::Record;
  Selected out;
  out.streams = selectStreams(s.streams, all);
  out.types = selectTypes(s.types);
  if (s.relative() && !any) {
    out.judged = false;
  }
  auto at = [&](double v, Selection::TimeKind k) {
    return k == Selection::kAbsolute ? v : k == Selection::kFromFirst ? v + first : -v + last;
  };
  if (s.hasMin) {
    out.min = at(s.min, s.minKind);
  }
  if (s.around) {
    double half = std::fabs(s.max) / 2;
    out.max = out.min + half;
    out.min = out.min - half;
  } else if (s.hasMax) {
    out.max = at(s.max, s.maxKind);
  }
  if (s.hasMin && out.min <= -DBL_MAX) {
    out.judged = false; // the same as no limit
  }
  out.validRange = out.min <= out.max;
  if (!out.validRange) {
    return out;
  }
  // (min, max]
  std::set<std::pair<vrs::StreamId, Record::Type>> seen;
  bool anyAfter = false;
  for (size_t i = 0; i < infos.size(); i++) {
    auto& r = infos[i];
    if (s.hasMin && !(r.timestamp > out.min)) {
      continue;
    }
    anyAfter = true;
    if (r.timestamp > out.max || !out.streams.count(r.streamId) || !out.types.count(r.recordType)) {
      continue;
    }
    if (s.first && !seen.insert({r.streamId, r.recordType}).second) {
      continue;
    }
    out.main.push_back(i);
  }
  if (s.hasMin) {
    std::set<std::pair<vrs::StreamId, Record::Type>> got;
    for (size_t i = infos.size(); i-- > 0;) {
      auto& r = infos[i];
      if (r.timestamp <= out.min && r.recordType != Record::Type::DATA && out.streams.count(r.streamId) && out.types.count(r.recordType) && got.insert({r.streamId, r.recordType}).second) {
        out.preroll.insert(out.preroll.begin(), i);
      }
    }
    out.prerollOptional = !anyAfter; // nothing to play
  }
  if (!s.intervals.empty()) {
    std::map<vrs::StreamId, double> interval, last_;
    for (auto& i : s.intervals) {
      for (auto& id : i.first.ids) {
        interval[id] = i.second;
      }
    }
    std::vector<size_t> kept;
    for (size_t i : out.main) {
      auto& r = infos[i];
      auto it = interval.find(r.streamId);
      if (r.recordType == Record::Type::DATA && it != interval.end()) {
        auto l = last_.find(r.streamId);
        if (l != last_.end() && r.timestamp < l->second + it->second) {
          continue;
        }
        last_[r.streamId] = r.timestamp;
      }
      kept.push_back(i);
    }
    out.main = kept;
  } else if (s.bucket > 0) {
    std::vector<size_t> kept;
    std::map<std::pair<vrs::StreamId, int64_t>, std::vector<size_t>> groups;
    double t0 = NAN;
    for (size_t i : out.main) {
      auto& r = infos[i];
      if (r.recordType != Record::Type::DATA) {
        kept.push_back(i);
        continue;
      }
      if (std::isnan(t0)) {
        t0 = r.timestamp;
      }
      int64_t b = static_cast<int64_t>(std::floor((r.timestamp - t0) / s.bucket + 0.5));
      // delta is less than half the interval: at most one bucket is close enough
      double d = std::fabs(r.timestamp - (t0 + static_cast<double>(b) * s.bucket));
      if (d > s.delta) {
        continue;
      }
      auto& g = groups[{r.streamId, b}];
      if (!g.empty()) {
        double e = std::fabs(infos[g.front()].timestamp - (t0 + static_cast<double>(b) * s.bucket));
        if (d > e) {
          continue;
        }
        if (d < e) {
          g.clear();
        }
      }
      g.push_back(i);
    }
    for (auto& g : groups) {
      out.oneOf.push_back(g.second);
    }
    out.main = kept;
  }
  return out;
}

inline StreamChoice randomStreamChoice(vh::Rng& r, const vrs::RecordFileReader& reader) {
  using namespace vrs;
  StreamChoice c;
  c.add = r.chance(0.6);
  auto& all = reader.getStreams();
  if (all.empty()) {
    c.text = "1201-1";
    return c;
  }
  auto it = all.begin();
  std::advance(it, r.below(all.size()));
  StreamId id = *it;
  unsigned type = static_cast<unsigned>(id.getTypeId());
  std::vector<StreamId> same;
  for (auto& i : all) {
    if (i.getTypeId() == id.getTypeId()) {
      same.push_back(i);
    }
  }
  switch (r.below(6)) {
    case 0:
    case 1:
      c.text = vh::sf("%u-%u", type, id.getInstanceId());
      c.ids = {id};
      break;
    case 2: {
      size_t n = r.below(same.size());
      c.text = vh::sf("%u+%zu", type, n + 1);
      c.ids = {same[n]};
      break;
    }
    case 3:
      c.text = vh::sf(r.chance(0.5) ? "%u" : "%u-", type);
      c.ids.insert(same.begin(), same.end());
      break;
    case 4: {
      std::string f = reader.getFlavor(id);
      if (!f.empty() && f.find_first_of(std::string(" \t\n\r\v\f,\0", 8)) == std::string::npos && !isdigit(static_cast<unsigned char>(f[0]))) {
        c.text = vh::sf("%u-", type) + f;
        for (auto& i : same) {
          if (reader.getFlavor(i) == f) {
            c.ids.insert(i);
          }
        }
        break;
      }
      [[fallthrough]];
    }
    default: // a stream the file doesn't have
      c.text = r.chance(0.5) ? vh::sf("%u-%u", type, 900u + static_cast<unsigned>(r.below(100))) : vh::sf("%u", 4000u + static_cast<unsigned>(r.below(100)));
      if (r.chance(0.7)) { // but mostly not
        c.text = vh::sf("%u-%u", type, id.getInstanceId());
        c.ids = {id};
      }
  }
  return c;
}

struct SelectionOptions {
  bool decimation{true};
  bool first{true};
  bool grid{}; // timestamps are multiples of 1/16
};

inline Selection randomSelection(vh::Rng& r, const vrs::RecordFileReader& reader, const SelectionOptions& o) {
  using vrs::Record;
  Selection s;
  Infos infos = infosOf(reader);
  if (r.chance(0.5)) {
    for (size_t n = 1 + r.below(4); n > 0; n--) {
      s.streams.push_back(randomStreamChoice(r, reader));
    }
  }
  if (r.chance(0.35)) {
    for (size_t n = 1 + r.below(3); n > 0; n--) {
      TypeChoice t;
      t.add = r.chance(0.6);
      t.type = r.pick({Record::Type::CONFIGURATION, Record::Type::STATE, Record::Type::DATA});
      std::string name = t.type == Record::Type::CONFIGURATION ? "configuration" : t.type == Record::Type::STATE ? "state" : "data";
      t.text = r.chance(0.5) ? name : name.substr(0, 1 + r.below(name.size()));
      s.types.push_back(t);
    }
  }
  // a time worth testing: of a record, next to it, or in between
  auto time = [&]() -> double {
    if (infos.empty()) {
      return r.unit() * 4 - 1;
    }
    double t = infos[r.below(infos.size())].timestamp;
    switch (r.below(6)) {
      case 0:
        return std::nextafter(t, -INFINITY);
      case 1:
        return std::nextafter(t, INFINITY);
      case 2:
        return t + (r.unit() - 0.5);
      default:
        return t;
    }
  };
  bool any = false;
  double first = 0, last = 0;
  dataRange(infos, selectStreams(s.streams, reader.getStreams()), any, first, last);
  auto limit = [&](bool& has, double& v, Selection::TimeKind& k) {
    has = true;
    k = static_cast<Selection::TimeKind>(r.below(3));
    v = time();
    if (std::fabs(v) > 1e100) {
      v = 0.5;
    }
    if (k != Selection::kAbsolute) {
      v = k == Selection::kFromFirst ? v - first : last - v;
      if (!(v >= 0) || v > 1e100) {
        v = r.chance(0.3) ? 0 : r.unit();
      }
      if (v == 0) {
        v = 0; // no negative zero
      }
    }
  };
  if (r.chance(0.55)) {
    limit(s.hasMin, s.min, s.minKind);
  }
  if (r.chance(0.5)) {
    limit(s.hasMax, s.max, s.maxKind);
  }
  if (r.chance(0.12)) {
    limit(s.hasMin, s.min, s.minKind);
    s.around = true;
    s.hasMax = true;
    s.maxKind = Selection::kAbsolute;
    s.max = r.chance(0.5) ? r.unit() * 4 : static_cast<double>(r.below(20)) / 8;
  }
  double what = r.unit();
  if (o.first && what < 0.1) {
    s.first = true;
  } else if (o.decimation && what < 0.3) {
    for (size_t n = 1 + r.below(3); n > 0; n--) {
      auto c = randomStreamChoice(r, reader);
      s.intervals.push_back({c, r.chance(0.5) ? static_cast<double>(1 + r.below(30)) / 16 : r.unit() * 3});
    }
  } else if (o.decimation && o.grid && what < 0.45) {
    s.bucket = static_cast<double>(1 + r.below(24)) / 8;
    s.delta = s.bucket * r.pick({0.125, 0.25, 0.375, 0.0, 0.4375});
  }
  return s;
}

// "" or what is wrong with the records that were delivered (positions in the index)
inline std::string checkSelected(const Selected& want, const std::vector<size_t>& got, size_t gotPreroll, bool ordered) {
  std::vector<size_t> pre(got.begin(), got.begin() + gotPreroll), rest(got.begin() + gotPreroll, got.end());
  if (!(want.prerollOptional && pre.empty())) {
    auto w = want.preroll;
    if (!ordered) {
      std::sort(pre.begin(), pre.end());
      std::sort(w.begin(), w.end());
    }
    if (pre != w) {
      return vh::sf("%zu configuration and state records from before the start, %zu expected, or other ones", pre.size(), want.preroll.size());
    }
  }
  std::set<size_t> once(got.begin(), got.end());
  if (once.size() != got.size()) {
    return "a record is delivered twice";
  }
  if (want.oneOf.empty()) {
    auto w = want.main;
    if (!ordered) {
      std::sort(rest.begin(), rest.end());
      std::sort(w.begin(), w.end());
    }
    if (rest != w) {
      size_t i = 0;
      while (i < rest.size() && i < w.size() && rest[i] == w[i]) {
        i++;
      }
      return vh::sf("%zu records instead of %zu, first difference at #%zu: index record %zd instead of %zd", rest.size(), w.size(), i, i < rest.size() ? static_cast<ssize_t>(rest[i]) : -1, i < w.size() ? static_cast<ssize_t>(w[i]) : -1);
    }
    return {};
  }
  std::set<size_t> left(rest.begin(), rest.end());
  for (size_t i : want.main) {
    if (!left.erase(i)) {
      return vh::sf("record %zu, which isn't a data record, is missing", i);
    }
  }
  for (auto& g : want.oneOf) {
    size_t n = 0;
    for (size_t i : g) {
      n += left.erase(i);
    }
    if (n != 1) {
      return vh::sf("%zu of the records closest to a bucket (like record %zu), instead of one", n, g.front());
    }
  }
  if (!left.empty()) {
    return vh::sf("record %zu is delivered, and isn't the closest to its bucket", *left.begin());
  }
  return {};
}

} // namespace vg
