// C19: file specifications and their textual forms: generated specifications written as JSON, paths and URIs and
// parsed back, arbitrary texts parsed from exactly sized buffers and compared with an independent parser, real files
// with unusual names, and stream identifiers.
// WITH: vrsgen plan
#include "plan.h"

#include <vrs/DiskFile.h>
#include <vrs/ErrorCode.h>
#include <vrs/FileHandlerFactory.h>
#include <vrs/FileSpec.h>
#include <vrs/RecordFileWriter.h>
#include <vrs/StreamId.h>
#include <vrs/helpers/Strings.h>
#include <vrs/os/Utils.h>

#include <sys/stat.h>
#include <limits>

using namespace vrs;
using namespace std;
using vh::Case;
using vh::Rng;

namespace {

string text(Rng& r, size_t maxLen, bool noNul = false) {
  static const vector<string> bits{"%", "%2", "%20", "%00", "%C3%A9", "%zz", "?", "&", ";", "=", ":", "/", "//", "\\", "\"", "'", " ", "#", "+", "{", "}", "[", "]", ",", "\n", "\t", "\x01", "\x7f", "é", "日本", "\xff", "\xc3", "..", ".", "_0", "_1", "a", "b1", "Z", "key", "file.vrs", "storage", "chunks", "\\u0041", "\\", "0", "-1", "~", "*", "$", "`", "|", "<", ">"};
  string s;
  size_t n = r.below(maxLen + 1);
  while (s.size() < n) {
    switch (r.below(noNul ? 5 : 6)) {
      case 0:
      case 1:
        s += r.pick(bits);
        break;
      case 5:
        s += static_cast<char>(r.below(256));
        break;
      default:
        s += static_cast<char>(r.range(0x20, 0x7e));
    }
  }
  return s;
}

string word(Rng& r) {
  string s(1, static_cast<char>('a' + r.below(26)));
  size_t n = r.below(10);
  while (s.size() < n + 1) {
    s += r.pick({'a', 'Z', '0', '9', '.', '-', '+', '_', 'q'});
  }
  return s;
}

string show(const FileSpec& s) {
  string t = "handler '" + vh::printable(s.fileHandlerName) + "' name '" + vh::printable(s.fileName) + "' uri '" + vh::printable(s.uri) + "' chunks";
  for (auto& c : s.chunks) {
    t += " '" + vh::printable(c) + "'";
  }
  for (auto c : s.chunkSizes) {
    t += vh::sf(" %lld", (long long)c);
  }
  for (auto& e : s.extras) {
    t += " [" + vh::printable(e.first) + "]='" + vh::printable(e.second) + "'";
  }
  return t;
}

bool same(const FileSpec& a, const FileSpec& b) {
  return a.fileHandlerName == b.fileHandlerName && a.fileName == b.fileName && a.uri == b.uri && a.chunks == b.chunks && a.chunkSizes == b.chunkSizes && a.extras == b.extras;
}

bool reserved(const string& key) {
  return key == "storage" || key == "chunks" || key == "chunk_sizes" || key == "filename" || key == "source_uri";
}

// a text in a buffer of exactly its size
struct Exact {
  char* p;
  size_t n;
  explicit Exact(const string& s) : p{static_cast<char*>(malloc(s.size()))}, n{s.size()} {
    if (n) {
      memcpy(p, s.data(), n);
    }
  }
  Exact(const Exact&) = delete;
  ~Exact() {
    free(p);
  }
  string_view view() const {
    return {p, n};
  }
};

const string kOwn = "ownstorage";

class Own : public DiskFile {
 public:
  unique_ptr<FileHandler> makeNew() const override {
    return make_unique<Own>();
  }
  const string& getFileHandlerName() const override {
    return kOwn;
  }
};

// ---- independent parser ---------------------------------------------------------------------------------------

int hexDigit(char c) {
  if (c >= '0' && c <= '9') {
    return c - '0';
  }
  if (c >= 'a' && c <= 'f') {
    return c - 'a' + 10;
  }
  return c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
}

bool decode(const string& s, string& out) {
  out.clear();
  for (size_t i = 0; i < s.size(); i++) {
    unsigned char c = static_cast<unsigned char>(s[i]);
    if (c == '%' && i + 2 < s.size() && hexDigit(s[i + 1]) >= 0 && hexDigit(s[i + 2]) >= 0) {
      c = static_cast<unsigned char>(hexDigit(s[i + 1]) * 16 + hexDigit(s[i + 2]));
      i += 2;
    }
    if (c < 0x20) {
      return false;
    }
    out += static_cast<char>(c);
  }
  return true;
}

string encode(Rng& r, const string& s, bool all = false) {
  string out;
  for (char ch : s) {
    unsigned char c = static_cast<unsigned char>(ch);
    bool must = c == '%' || c == '?' || c == '&' || c == ';' || c == '=' || c == ':' || c == '#' || c < 0x21;
    if (must || all || r.chance(0.2)) {
      out += vh::sf(r.chance(0.5) ? "%%%02x" : "%%%02X", c);
    } else {
      out += ch;
    }
  }
  return out;
}

bool isAlpha(char c) {
  return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z');
}
bool isScheme(const string& s) {
  if (s.empty() || !isAlpha(s[0])) {
    return false;
  }
  for (char c : s) {
    if (!isAlpha(c) && !(c >= '0' && c <= '9') && c != '.' && c != '-' && c != '+' && c != '_') {
      return false;
    }
  }
  return true;
}

// path?query, without the scheme
bool splitQuery(const string& s, string& path, map<string, string>& params) {
  size_t q = s.find('?');
  params.clear();
  if (!decode(s.substr(0, q), path) || q == 0 || s.empty()) {
    return false;
  }
  if (q == string::npos) {
    return true;
  }
  string rest = s.substr(q + 1);
  size_t start = 0;
  while (start <= rest.size()) {
    size_t end = rest.find_first_of("&;", start);
    string pair = rest.substr(start, end == string::npos ? end : end - start);
    size_t eq = pair.find('=');
    string k, v;
    if (eq != string::npos && eq > 0 && eq + 1 < pair.size() && pair.find('=', eq + 1) == string::npos && decode(pair.substr(0, eq), k) && decode(pair.substr(eq + 1), v)) {
      params[k] = v;
    }
    if (end == string::npos) {
      break;
    }
    start = end + 1;
  }
  return true;
}

enum Outcome { kRefused, kParsed, kJson, kAny };

Outcome model(const string& s, const string& defaultHandler, FileSpec& out) {
  out.clear();
  if (s.empty()) {
    return kRefused;
  }
  if (s[0] == '{') {
    return kJson;
  }
  size_t colon = s.find(':');
  map<string, string> params;
  string path;
  if (colon != string::npos && colon > 1 && isScheme(s.substr(0, colon))) {
    if (!splitQuery(s.substr(colon + 1), path, params)) {
      return kRefused;
    }
    out.uri = s;
    out.fileHandlerName = s.substr(0, colon);
    out.chunks = {path};
    out.extras.insert(params.begin(), params.end());
    return kParsed;
  }
  out.fileHandlerName = defaultHandler.empty() ? "diskfile" : defaultHandler;
  size_t q = s.find('?');
  bool hasParams = q != string::npos && q > 1 && q + 1 < s.size() && isAlpha(s[q + 1]) && s.find('=', q + 2) != string::npos;
  if (hasParams && colon == 1 && isAlpha(s[0]) && !defaultHandler.empty() && defaultHandler != "diskfile" && defaultHandler != "asyncdiskfile") {
    return kAny; // a drive letter, or the scheme of a storage with a single letter name
  }
  if (hasParams && colon == string::npos && splitQuery(s, path, params)) {
    out.uri = s;
    out.chunks = {path};
    out.extras.insert(params.begin(), params.end());
  } else {
    out.chunks = {s};
  }
  return kParsed;
}

// the JSON text of a specification, written by hand
string jsonString(Rng& r, const string& s) {
  string o = "\"";
  for (char ch : s) {
    unsigned char c = static_cast<unsigned char>(ch);
    if (c == '"' || c == '\\') {
      o += '\\';
      o += ch;
    } else if (c < 0x20 || (c < 0x7f && r.chance(0.1))) {
      o += vh::sf("\\u%04x", c);
    } else if (c == '/' && r.chance(0.3)) {
      o += "\\/";
    } else {
      o += ch;
    }
  }
  return o + "\"";
}

string jsonText(Rng& r, const FileSpec& s) {
  vector<string> members;
  auto ws = [&] { return string(r.chance(0.8) ? "" : r.pick({" ", "\n", "\t "})); };
  if (!s.fileHandlerName.empty() || r.chance(0.1)) {
    members.push_back("\"storage\"" + ws() + ":" + jsonString(r, s.fileHandlerName));
  }
  if (!s.fileName.empty()) {
    members.push_back("\"filename\":" + ws() + jsonString(r, s.fileName));
  }
  if (!s.uri.empty()) {
    members.push_back("\"source_uri\":" + jsonString(r, s.uri));
  }
  if (!s.chunks.empty()) {
    string a = "\"chunks\":[";
    for (size_t i = 0; i < s.chunks.size(); i++) {
      a += (i ? "," : "") + ws() + jsonString(r, s.chunks[i]);
    }
    members.push_back(a + "]");
  }
  if (!s.chunkSizes.empty()) {
    string a = "\"chunk_sizes\":[";
    for (size_t i = 0; i < s.chunkSizes.size(); i++) {
      a += (i ? "," : "") + vh::sf("%lld", (long long)s.chunkSizes[i]);
    }
    members.push_back(a + "]");
  }
  for (auto& e : s.extras) {
    members.push_back(jsonString(r, e.first) + ":" + jsonString(r, e.second));
  }
  if (r.chance(0.2)) { // members of no interest
    members.push_back("\"number\":12.5");
    members.push_back("\"object\":{\"chunks\":[\"no\"],\"deep\":[[[]]]}");
    members.push_back("\"nothing\":null");
  }
  r.shuffle(members);
  string o = "{" + ws();
  for (size_t i = 0; i < members.size(); i++) {
    o += (i ? "," : "") + ws() + members[i];
  }
  return o + ws() + "}" + ws();
}

FileSpec randomSpec(Rng& r) {
  FileSpec s;
  s.fileHandlerName = r.chance(0.3) ? "" : r.chance(0.3) ? r.pick({"diskfile", "asyncdiskfile"}) : r.chance(0.7) ? word(r) : text(r, 12);
  if (r.chance(0.3)) {
    s.fileName = text(r, 30);
  }
  if (r.chance(0.3)) {
    s.uri = r.chance(0.5) ? word(r) + ":" + text(r, 40) : text(r, 30);
  }
  size_t n = r.chance(0.2) ? 0 : r.chance(0.4) ? 1 : r.below(6);
  for (size_t i = 0; i < n; i++) {
    s.chunks.push_back(text(r, r.chance(0.05) ? 2000 : 40));
  }
  if (r.chance(0.4)) {
    size_t m = r.chance(0.7) ? n : r.below(5);
    for (size_t i = 0; i < m; i++) {
      s.chunkSizes.push_back(r.chance(0.2) ? r.pick({numeric_limits<int64_t>::max(), numeric_limits<int64_t>::min(), int64_t{-1}, int64_t{0}, int64_t{1} << 53, (int64_t{1} << 53) + 1, int64_t{1} << 31, int64_t{1} << 32}) : static_cast<int64_t>(r.next() >> r.below(64)));
    }
  }
  n = r.chance(0.5) ? 0 : r.below(6);
  for (size_t i = 0; i < n; i++) {
    string k = r.chance(0.6) ? word(r) : text(r, 12);
    if (!reserved(k)) {
      s.extras[k] = text(r, r.chance(0.05) ? 3000 : 20);
    }
  }
  return s;
}

// calls with no expectation other than being safe and always giving the same answer
string probe(const FileSpec& s) {
  string t = s.toJson() + s.toPathJsonUri() + s.getEasyPath() + s.getFileName() + s.getSourceLocation() + s.getXXHash();
  t += vh::sf("%d%d%d", s.empty(), s.isDiskFile(), s.hasChunkSizes());
  if (s.hasChunkSizes() || !s.isDiskFile()) { // or else, looks for the files
    t += vh::sf(" %lld", (long long)s.getFileSize());
  }
  return t;
}

// what was parsed stays the same through its own texts
void stable(Case& c, const FileSpec& s, const char* key, const string& from, bool parsed, const string& def = "") {
  for (auto& [k, v] : s.extras) {
    if (reserved(k)) {
      return;
    }
  }
  FileSpec j;
  bool ok = j.fromJson(s.toJson());
  c.check(ok && same(s, j), vh::sf("%s-json-roundtrip", key).c_str(), "%s: %s written as %s and parsed back (%d): %s", from.c_str(), show(s).c_str(), vh::printable(s.toJson()).c_str(), ok, show(j).c_str());
  c.check(!ok || (s == j && j.getXXHash() == s.getXXHash()), vh::sf("%s-json-equal", key).c_str(), "%s: %s != %s", from.c_str(), show(s).c_str(), show(j).c_str());
  if (s.empty() || (!parsed && !s.uri.empty())) {
    return; // the uri field is only a trace
  }
  string t = s.toPathJsonUri();
  FileSpec p;
  Exact x(t);
  int e = p.fromPathJsonUri(x.view(), s.uri.empty() ? "" : def);
  // one local file may be told by its mere path, whatever the name of the disk file handler
  bool bare = s.isDiskFile() && s.chunks.size() == 1 && s.extras.empty();
  bool isSame = bare ? p.isDiskFile() && p.chunks == s.chunks && p.extras.empty() : same(s, p);
  c.check(e == 0 && isSame, vh::sf("%s-path-roundtrip", key).c_str(), "%s: %s written as '%s' and parsed back -> %d: %s", from.c_str(), show(s).c_str(), vh::printable(t).c_str(), e, show(p).c_str());
  c.count("path_roundtrips");
}

void specs(Case& c) {
  auto& r = c.rng;
  FileSpec s = randomSpec(r);
  string a = probe(s);
  c.check(a == probe(s), "unsteady", "%s", show(s).c_str());
  stable(c, s, "spec", "generated", false);
  c.count("specs");
  // sizes
  if (s.hasChunkSizes()) {
    __int128 total = 0;
    bool negative = false;
    for (auto n : s.chunkSizes) {
      total += n;
      negative |= n < 0;
    }
    if (!negative) {
      int64_t want = total > numeric_limits<int64_t>::max() ? -1 : static_cast<int64_t>(total);
      c.check(s.getFileSize() == want, "file-size", "%s: %lld, expected %lld", show(s).c_str(), (long long)s.getFileSize(), (long long)want);
    }
  }
  // other writers' JSON; numbers and strings follow JSON, invalid UTF-8 excepted
  string js = jsonText(r, s);
  Exact x(js);
  FileSpec p;
  int e = p.fromPathJsonUri(x.view());
  c.check(e == 0 && same(s, p), "json-parse", "%s -> %d: %s, expected %s", vh::printable(js).c_str(), e, show(p).c_str(), show(s).c_str());
  c.check(p.toJson() == s.toJson(), "json-write-differs", "%s != %s", p.toJson().c_str(), s.toJson().c_str());
  // changed in any way, it is another object
  FileSpec d = s;
  switch (r.below(6)) {
    case 0:
      d.fileHandlerName += "x";
      break;
    case 1:
      d.fileName += "x";
      break;
    case 2:
      d.chunks.push_back("");
      break;
    case 3:
      d.chunkSizes.push_back(0);
      break;
    case 4:
      d.extras["new key"] = "";
      break;
    default:
      d.uri += " ";
  }
  FileSpec dj;
  dj.fromJson(d.toJson());
  c.check(!(d == s) && !same(dj, s) && d.toJson() != s.toJson(), "different-specs-equal", "%s and %s", show(s).c_str(), show(d).c_str());
  // typed parameters
  int64_t i64 = static_cast<int64_t>(r.next() >> r.below(64)) * (r.chance(0.3) ? -1 : 1);
  uint64_t u64 = r.next() >> r.below(64);
  int i = static_cast<int>(r.next());
  bool b = r.chance(0.5);
  double f = static_cast<double>(static_cast<int64_t>(r.below(2000000)) - 1000000) / 64;
  FileSpec n = s;
  n.setExtra("i64", i64);
  n.setExtra("u64", u64);
  n.setExtra("int", i);
  n.setExtra("bool", b);
  n.setExtra("dbl", f);
  n.setExtra("str", string("a\"b"));
  FileSpec m;
  m.fromJson(n.toJson());
  c.check(m.getExtraAsInt64("i64") == i64 && m.getExtraAsUInt64("u64") == u64 && m.getExtraAsInt("int") == i && m.getExtraAsBool("bool", !b) == b && m.getExtraAsDouble("dbl") == f && m.getExtra("str") == "a\"b" && m.hasExtra("int") && m.getExtraAsInt("none", 7) == 7, "typed-extras", "%s", show(m).c_str());
  // junk as numbers
  for (int k = 0; k < 3; k++) {
    string v = r.chance(0.5) ? text(r, 8) : r.pick({"1e400", "-1e-400", "99999999999999999999", "0x10", " 12", "12 ", "+5", "-0", "nan", "1e5", "2147483648", "-2147483649", "18446744073709551616", ""});
    n.setExtra("junk", v);
    string first = vh::sf("%d %lld %llu %g %d", n.getExtraAsInt("junk", 5), (long long)n.getExtraAsInt64("junk", 6), (unsigned long long)n.getExtraAsUInt64("junk", 7), n.getExtraAsDouble("junk", 8), n.getExtraAsBool("junk", true));
    string again = vh::sf("%d %lld %llu %g %d", n.getExtraAsInt("junk", 5), (long long)n.getExtraAsInt64("junk", 6), (unsigned long long)n.getExtraAsUInt64("junk", 7), n.getExtraAsDouble("junk", 8), n.getExtraAsBool("junk", true));
    c.check(first == again, "unsteady", "%s", v.c_str());
    bool digits = !v.empty() && v.size() < 19 && v.find_first_not_of("0123456789") == string::npos;
    if (digits) {
      c.check(n.getExtraAsInt64("junk", -1) == strtoll(v.c_str(), nullptr, 10), "number", "%s", v.c_str());
    }
    if (!v.empty() && v.find_first_not_of("0123456789-") != string::npos) {
      c.check(n.getExtraAsInt("junk", 5) == 5 && n.getExtraAsInt64("junk", 6) == 6 && n.getExtraAsUInt64("junk", 7) == 7, "junk-number", "'%s': %s", vh::printable(v).c_str(), first.c_str());
    }
  }
  c.signature(show(s));
}

string randomTextForm(Rng& r, bool& isUri) {
  isUri = false;
  switch (r.below(10)) {
    case 0: // JSON, whole or damaged
    case 1: {
      FileSpec s = randomSpec(r);
      string t = r.chance(0.5) ? jsonText(r, s) : s.toJson();
      int n = static_cast<int>(r.below(4));
      for (int k = 0; k < n && !t.empty(); k++) {
        size_t at = r.below(t.size());
        switch (r.below(4)) {
          case 0:
            t[at] = static_cast<char>(r.next());
            break;
          case 1:
            t.erase(at, 1 + r.below(5));
            break;
          case 2:
            t.insert(at, text(r, 6));
            break;
          default:
            t.resize(at);
        }
      }
      return t;
    }
    case 2: { // JSON nested deep
      size_t n = r.pick({10, 100, 3000, 200000});
      string t = "{\"a\":";
      for (size_t k = 0; k < n; k++) {
        t += r.chance(0.5) ? "[" : "{\"b\":";
      }
      return t + (r.chance(0.3) ? string(n, ']') + "}" : "");
    }
    case 3:
    case 4:
    case 5: // URI
      isUri = true;
      return word(r) + (r.chance(0.2) ? "" : ":") + text(r, 40) + (r.chance(0.5) ? "?" + text(r, 30) : "") + (r.chance(0.2) ? "?" : "");
    case 6: { // path with parameters
      string t = "/" + text(r, 20) + "?" + word(r) + "=" + text(r, 10);
      return r.chance(0.3) ? t + "&" + word(r) + "=" + text(r, 5) : t;
    }
    case 7: { // short
      return text(r, 4);
    }
    default:
      return text(r, 60);
  }
}

void texts(Case& c) {
  auto& r = c.rng;
  for (int k = 0; k < 12; k++) {
    bool isUri = false;
    string t = randomTextForm(r, isUri);
    string def = r.chance(0.7) ? "" : r.pick({"asyncdiskfile", "ownstorage", "unknownstorage", "diskfile"});
    Exact x(t);
    FileSpec a = randomSpec(r), b = randomSpec(r); // whatever they were before
    int e = a.fromPathJsonUri(x.view(), def);
    int e2 = b.fromPathJsonUri(x.view(), def);
    string what = "'" + vh::printable(t.substr(0, 300)) + "' (" + def + ")";
    c.check(e == e2 && (e != 0 || same(a, b)), "parse-unsteady", "%s: %d %s, then %d %s", what.c_str(), e, show(a).c_str(), e2, show(b).c_str());
    FileSpec want;
    Outcome o = model(t, def, want);
    if (o == kRefused) {
      c.check(e != 0, "not-refused", "%s parsed as %s", what.c_str(), show(a).c_str());
      c.count("refused");
    } else if (o == kParsed) {
      c.check(e == 0 && same(a, want), "parsed-differently", "%s -> %d %s, expected %s", what.c_str(), e, show(a).c_str(), show(want).c_str());
      c.count(want.uri.empty() ? "paths" : isUri ? "uris" : "paths_with_parameters");
    } else {
      c.count(o == kAny ? "ambiguous" : e == 0 ? "json_parsed" : "json_refused");
    }
    if (e == 0) {
      string p = probe(a);
      c.check(p == probe(b), "unsteady", "%s", what.c_str());
      stable(c, a, "text", what, t.empty() || t[0] != '{', def);
    }
    // the parts
    string path, path2, scheme, scheme2;
    FileSpec::Extras q, q2;
    int s1 = FileSpec::parseUri(x.view(), scheme, path, q);
    int s2 = FileSpec::parseUri(x.view(), scheme2, path2, q2);
    c.check(s1 == s2 && scheme == scheme2 && path == path2 && q == q2, "uri-unsteady", "%s", what.c_str());
    string d1, d2;
    bool ok = decode(t, d2);
    s1 = FileSpec::urldecode(x.view(), d1);
    c.check((s1 == 0) == ok && (!ok || d1 == d2), "decode", "%s -> %d '%s', expected %d '%s'", what.c_str(), s1, vh::printable(d1).c_str(), ok, vh::printable(d2).c_str());
    FileSpec::decodeQuery(x.view(), path, scheme);
    // stream ids
    StreamId id = StreamId::fromNumericName(x.view());
    c.check(!id.isValid() || id == StreamId::fromNumericName(t), "stream-id", "%s", what.c_str());
  }
  // URI from parts
  {
    string scheme = "s" + word(r), path = text(r, 30, true), k1 = word(r) + text(r, 5, true), v1 = text(r, 10, true) + "x", k2 = "k", v2 = text(r, 300, true) + "y";
    auto clean = [](string& s) {
      for (auto& ch : s) {
        if (static_cast<unsigned char>(ch) < 0x20) {
          ch = '_';
        }
      }
    };
    clean(path), clean(k1), clean(v1), clean(v2);
    path += "p";
    string uri = scheme + ":" + encode(r, path) + "?" + encode(r, k1) + "=" + encode(r, v1) + r.pick({"&", ";"}) + k2 + "=" + encode(r, v2, true);
    Exact x(uri);
    FileSpec s;
    int e = s.fromPathJsonUri(x.view());
    FileSpec::Extras want;
    want[k1] = v1;
    want[k2] = v2;
    c.check(e == 0 && s.fileHandlerName == scheme && s.chunks == vector<string>{path} && s.extras == want && s.uri == uri, "uri-from-parts", "%s -> %d %s; path '%s'", vh::printable(uri).c_str(), e, show(s).c_str(), vh::printable(path).c_str());
    stable(c, s, "uri", uri, true);
    c.count("uris_from_parts");
    FileSpec bare;
    bare.uri = uri.substr(0, r.below(uri.size() + 1));
    bare.fileHandlerName = scheme;
    string loc = bare.getSourceLocation();
    c.check(bare.uri.empty() || bare.uri.compare(0, loc.size(), loc) == 0, "source-location", "'%s' -> '%s'", bare.uri.c_str(), loc.c_str());
  }
  // stream ids
  for (int k = 0; k < 4; k++) {
    uint32_t type = static_cast<uint32_t>(r.chance(0.3) ? r.pick({0u, 65535u, 65536u, 99999u, 1u}) : r.below(70000));
    uint64_t inst = r.chance(0.3) ? r.pick<uint64_t>({0, 65535, 65536, 4294967297ull, 18446744073709551615ull}) : r.below(70000);
    string t = vh::sf("%s%u-%s%llu%s", r.chance(0.1) ? "0" : "", type, r.chance(0.1) ? "00" : "", (unsigned long long)inst, r.chance(0.1) ? r.pick({" ", "-", "x", "-1"}) : "");
    bool plain = t.find_first_not_of("0123456789-") == string::npos && count(t.begin(), t.end(), '-') == 1;
    Exact x(t);
    StreamId id = StreamId::fromNumericName(x.view());
    StreamId want = plain && type < 65536 && inst < 65536 ? StreamId(static_cast<RecordableTypeId>(type), static_cast<uint16_t>(inst)) : StreamId();
    c.check(id == want, "stream-id", "'%s' -> %s, expected %s", t.c_str(), id.getNumericName().c_str(), want.getNumericName().c_str());
    if (plain && id.isValid()) {
      c.check(StreamId::fromNumericName(id.getNumericName()) == id, "stream-id-roundtrip", "%s", t.c_str());
      string plus = t;
      plus[plus.find('-')] = '+';
      c.check(StreamId::fromNumericNamePlus(plus) == id && !StreamId::fromNumericName(plus).isValid(), "stream-id-plus", "%s", plus.c_str());
    }
    c.count("stream_ids");
  }
  helpers::humanReadableFileSize(static_cast<int64_t>(r.chance(0.1) ? 0x8000000000000000ull : r.next()));
  c.signature(vh::sf("%llu", (unsigned long long)r.next()));
}

// files with unusual names
void files(Case& c) {
  auto& r = c.rng;
  string dir = c.file("dir");
  mkdir(dir.c_str(), 0777);
  vg::PlanOptions po;
  po.maxRecords = 6;
  po.maxSize = 60;
  po.how = vg::kSync;
  po.engines = false;
  vg::Plan p = vg::randomPlan(r, po);
  string name;
  do {
    name = text(r, r.chance(0.1) ? 120 : 24, true);
    for (auto& ch : name) {
      ch = ch == '/' || ch == 0 ? '_' : ch;
    }
    // path?name=value is a path with parameters
  } while (name.empty() || name.size() > 200 || name[0] == '.' || name.back() == '?' || (name.find('?') != string::npos && name.find('=') != string::npos));
  name += r.chance(0.6) ? ".vrs" : "";
  if (name.size() > 2 && name.substr(name.size() - 2) == "_0") {
    name += "x";
  }
  string path = dir + "/" + name;
  string shown = "'" + vh::printable(name) + "'";
  vg::Recording rec = vg::execute(p, path);
  if (!c.check(rec.status == 0, "create-failed", "%s: %s %d", shown.c_str(), rec.failedAt.c_str(), rec.status)) {
    return;
  }
  auto found = vh::listDir(dir);
  c.check(found == vector<string>{name}, "created-elsewhere", "%s: %zu files, first '%s'", shown.c_str(), found.size(), found.empty() ? "" : vh::printable(found[0]).c_str());
  auto check = [&](const char* how, const string& t) {
    vg::FileContent f = vg::readFile(t);
    string d = f.status ? vh::sf("open -> %d", f.status) : vg::diffMultiset(rec.expected, f.recs);
    c.check(d.empty(), vh::sf("open-by-%s", how).c_str(), "%s: '%s': %s", shown.c_str(), vh::printable(t).c_str(), d.c_str());
    c.count("files_opened");
  };
  check("path", path);
  FileSpec s;
  s.chunks = {path};
  check("json", s.toJson());
  FileSpec h("diskfile", vector<string>{path});
  check("json", h.toJson());
  check("text", h.toPathJsonUri());
  bool control = false;
  for (char ch : path) {
    control |= static_cast<unsigned char>(ch) < 0x20;
  }
  if (!control) {
    check("uri", "diskfile:" + encode(r, path));
    check("uri", "diskfile:" + encode(r, path) + "?" + word(r) + "=1");
  }
  FileSpec u;
  c.check(u.fromPathJsonUri(path) == 0 && u.chunks == vector<string>{path} && (name.back() == '\\' || u.getFileName() == name), "path-touched", "%s: %s", shown.c_str(), show(u).c_str());
  c.signature(name);
}

void runCase(Case& c) {
  static bool registered = [] {
    FileHandlerFactory::getInstance().registerFileHandler(make_unique<Own>());
    return true;
  }();
  (void)registered;
  if (c.mode == "text") {
    texts(c);
  } else if (c.mode == "files") {
    files(c);
  } else {
    specs(c);
  }
}
} // namespace

VH_MAIN()
