#include "vh.h"

#include <dirent.h>
#include <signal.h>

namespace vh {

static FILE* gOut = nullptr;
static Case* gCase = nullptr;
static std::mutex gMutex;
static std::map<std::string, int64_t> gCounters;
static std::map<std::string, int64_t> gMax;
static std::string gSig;
static int gSamples = 0;
static int gMaxSamples = 3;

Case* current() {
  return gCase;
}

static std::string oneLine(const std::string& s) {
  std::string o;
  for (char c : s) {
    if (c == '\n') {
      o += "\\n";
    } else if (c == '\t') {
      o += ' ';
    } else if (static_cast<unsigned char>(c) < 32 || static_cast<unsigned char>(c) > 126) {
      char b[8];
      snprintf(b, sizeof(b), "\\x%02x", static_cast<unsigned char>(c));
      o += b;
    } else {
      o += c;
    }
  }
  return o;
}

std::string fmtv(const char* f, va_list ap) {
  va_list ap2;
  va_copy(ap2, ap);
  int n = vsnprintf(nullptr, 0, f, ap2);
  va_end(ap2);
  std::string s(static_cast<size_t>(n), 0);
  vsnprintf(&s[0], static_cast<size_t>(n) + 1, f, ap);
  return s;
}

std::string sf(const char* f, ...) {
  va_list ap;
  va_start(ap, f);
  std::string s = fmtv(f, ap);
  va_end(ap);
  return s;
}

static void report(Case& c, const std::string& key, const std::string& detail) {
  std::lock_guard<std::mutex> lock(gMutex);
  c.failures++;
  fprintf(gOut, "F\t%llu\t%s\t%s\n", (unsigned long long)c.number, oneLine(key).c_str(), oneLine(detail.substr(0, 2000)).c_str());
  fflush(gOut);
}

void Case::fail(const std::string& key, const char* f, ...) {
  va_list ap;
  va_start(ap, f);
  std::string d = fmtv(f, ap);
  va_end(ap);
  report(*this, key, d);
}

void Case::failNow(const std::string& key, const char* f, ...) {
  va_list ap;
  va_start(ap, f);
  std::string d = fmtv(f, ap);
  va_end(ap);
  report(*this, key, d);
  throw Abandon();
}

bool Case::check(bool ok, const std::string& key, const char* f, ...) {
  if (!ok) {
    va_list ap;
    va_start(ap, f);
    std::string d = fmtv(f, ap);
    va_end(ap);
    report(*this, key, d);
  }
  return ok;
}

void Case::signature(const std::string& sig) {
  gSig = sig;
}

void Case::count(const std::string& counter, int64_t n) {
  std::lock_guard<std::mutex> lock(gMutex);
  gCounters[counter] += n;
}

void Case::maxi(const std::string& counter, int64_t n) {
  std::lock_guard<std::mutex> lock(gMutex);
  auto it = gMax.find(counter);
  if (it == gMax.end() || it->second < n) {
    gMax[counter] = n;
  }
}

void Case::sample(const std::string& text) {
  std::lock_guard<std::mutex> lock(gMutex);
  if (gSamples < gMaxSamples) {
    gSamples++;
    fprintf(gOut, "X\t%llu\t%s\n", (unsigned long long)number, oneLine(text.substr(0, 700)).c_str());
  }
}

std::vector<uint8_t> slurp(const std::string& path) {
  std::vector<uint8_t> v;
  FILE* f = fopen(path.c_str(), "rb");
  if (f) {
    struct stat st;
    if (fstat(fileno(f), &st) == 0) {
      v.resize(static_cast<size_t>(st.st_size));
      size_t n = v.empty() ? 0 : fread(v.data(), 1, v.size(), f);
      v.resize(n);
    }
    fclose(f);
  }
  return v;
}

void spew(const std::string& path, const void* data, size_t n) {
  FILE* f = fopen(path.c_str(), "wb");
  if (!f) {
    fprintf(gOut ? gOut : stdout, "E\tcannot create %s\n", path.c_str());
    fflush(gOut ? gOut : stdout);
    _exit(9);
  }
  if (n) {
    fwrite(data, 1, n, f);
  }
  fclose(f);
}

std::vector<std::string> listDir(const std::string& dir) {
  std::vector<std::string> v;
  if (DIR* d = opendir(dir.c_str())) {
    while (dirent* e = readdir(d)) {
      std::string n = e->d_name;
      if (n != "." && n != "..") {
        v.push_back(n);
      }
    }
    closedir(d);
  }
  std::sort(v.begin(), v.end());
  return v;
}

void wipeDir(const std::string& dir) {
  for (auto& n : listDir(dir)) {
    std::string p = dir + "/" + n;
    struct stat st;
    if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) {
      wipeDir(p);
      rmdir(p.c_str());
    } else {
      unlink(p.c_str());
    }
  }
}

std::string hex(const void* p, size_t n, size_t max) {
  std::string s;
  auto* b = static_cast<const uint8_t*>(p);
  for (size_t i = 0; i < n && i < max; i++) {
    char t[4];
    snprintf(t, sizeof(t), "%02x", b[i]);
    s += t;
  }
  if (n > max) {
    s += "...";
  }
  return s;
}

std::string printable(const std::string& s, size_t max) {
  return oneLine(s.substr(0, max)) + (s.size() > max ? "..." : "");
}

int mainImpl(int argc, char** argv, void (*run)(Case&)) {
  uint64_t seed = 1, from = 0, to = 1, stride = 1;
  std::string tmp = "/tmp", out, mode;
  bool thorough = false, verbose = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--seed") {
      seed = strtoull(val().c_str(), nullptr, 10);
    } else if (a == "--from") {
      from = strtoull(val().c_str(), nullptr, 10);
    } else if (a == "--to") {
      to = strtoull(val().c_str(), nullptr, 10);
    } else if (a == "--stride") {
      stride = strtoull(val().c_str(), nullptr, 10);
    } else if (a == "--tmp") {
      tmp = val();
    } else if (a == "--out") {
      out = val();
    } else if (a == "--mode") {
      mode = val();
    } else if (a == "--tier") {
      thorough = val() == "thorough";
    } else if (a == "--verbose") {
      verbose = true;
    }
  }
  gOut = out.empty() ? stdout : fopen(out.c_str(), "a");
  if (!gOut) {
    return 9;
  }
  if (!verbose) { // the library logs every error it meets on stderr
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 2);
    if (!out.empty()) {
      dup2(nul, 1);
    }
    close(nul);
  }
  signal(SIGPIPE, SIG_IGN);
  // never work (and wipe) in a folder that is not our own
  tmp += "/vhcase.XXXXXX";
  if (mkdtemp(&tmp[0]) == nullptr) {
    return 9;
  }
  for (uint64_t n = from; n < to; n += stride) {
    fprintf(gOut, "C\t%llu\n", (unsigned long long)n);
    fflush(gOut);
    Case c;
    c.seed = seed;
    c.number = n;
    c.thorough = thorough;
    c.mode = mode;
    c.tmp = tmp;
    c.rng = Rng(seed * 0x9e3779b97f4a7c15ULL + n * 0xda942042e4dd58b5ULL + fnvs(mode));
    gCase = &c;
    gSig.clear();
    try {
      run(c);
    } catch (const Abandon&) {
    } catch (const std::exception& e) {
      report(c, std::string("exception:") + typeid(e).name(), e.what());
    }
    gCase = nullptr;
    wipeDir(tmp);
    fprintf(gOut, "D\t%llu\t%016llx\t%d\n", (unsigned long long)n, (unsigned long long)(gSig.empty() ? 0 : fnvs(gSig)), gSig.empty() ? 0 : 1);
    if (!gCounters.empty() || !gMax.empty()) {
      for (auto& k : gCounters) {
        fprintf(gOut, "K\t%s\t%lld\n", k.first.c_str(), (long long)k.second);
      }
      for (auto& k : gMax) {
        fprintf(gOut, "M\t%s\t%lld\n", k.first.c_str(), (long long)k.second);
      }
      gCounters.clear();
      gMax.clear();
    }
    fflush(gOut);
  }
  rmdir(tmp.c_str());
  fprintf(gOut, "Z\n");
  fflush(gOut);
  return 0;
}

} // namespace vh
