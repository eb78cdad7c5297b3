// C11: values of structured metadata survive storage, description changes, and the text form of the definition.
// WITH: vrsgen
#include "vrsgen.h"

#include <cmath>
#include <sstream>

#include <vrs/DataLayout.h>
#include <vrs/DataPieces.h>
#include <vrs/RecordFormat.h>
#include <vrs/RecordFormatStreamPlayer.h>

using namespace vrs;
using namespace std;
using namespace vg;
using vh::Case;
using vh::Rng;

namespace {
// ---- elements of any supported type ----
template <class T>
struct Elem {
  static T rnd(Rng& r, bool) {
    T v;
    if (r.chance(0.4)) {
      v = static_cast<T>(r.below(200));
    } else {
      uint64_t bits = r.next();
      memcpy(&v, &bits, sizeof(v));
    }
    return v;
  }
  static bool close(const T& a, const T& b) {
    return a == b;
  }
};
template <class F>
struct FloatElem {
  // text: no signaling NaN, no precision beyond what a text form keeps
  static F rnd(Rng& r, bool text) {
    switch (r.below(text ? 9 : 7)) {
      case 0:
        return 0;
      case 1:
        return static_cast<F>(static_cast<int64_t>(r.below(2000)) - 1000);
      case 2:
        return static_cast<F>(r.unit() * 1000 - 500);
      case 3:
        return static_cast<F>(exp((r.unit() - 0.5) * (sizeof(F) == 8 ? 1300 : 160)));
      case 4:
        return text ? static_cast<F>(1.0 / 3) : numeric_limits<F>::infinity();
      case 5:
        return r.pick({numeric_limits<F>::max(), numeric_limits<F>::lowest(), numeric_limits<F>::min()});
      case 7:
        return r.pick({numeric_limits<F>::infinity(), -numeric_limits<F>::infinity()});
      case 8:
        return numeric_limits<F>::quiet_NaN();
      default: {
        if (text) {
          return static_cast<F>(r.unit());
        }
        F v;
        uint64_t bits = r.next();
        memcpy(&v, &bits, sizeof(v));
        return v;
      }
    }
  }
  static bool close(F a, F b) {
    return a == b || (std::isnan(a) && std::isnan(b)) || fabs(static_cast<double>(a) - static_cast<double>(b)) <= 1e-6 * max(fabs(static_cast<double>(a)), fabs(static_cast<double>(b)));
  }
};
template <>
struct Elem<float> : FloatElem<float> {};
template <>
struct Elem<double> : FloatElem<double> {};
template <>
struct Elem<Bool> {
  static Bool rnd(Rng& r, bool) {
    return Bool(r.chance(0.5));
  }
  static bool close(Bool a, Bool b) {
    return bool(a) == bool(b);
  }
};
template <>
struct Elem<string> {
  static string rnd(Rng& r, bool text) {
    string s = randomText(r, 40, text);
    if (!text && r.chance(0.1)) {
      s.insert(r.below(s.size() + 1), 1, '\0');
    }
    if (text && r.chance(0.1)) {
      s.insert(r.below(s.size() + 1), r.pick<string>({"\"", "\\", "\n", "\xC3\xA9", "/", "\x01"}));
    }
    if (text && r.chance(0.03)) {
      s.insert(r.below(s.size() + 1), 1, '\0');
    }
    return s;
  }
  static bool close(const string& a, const string& b) {
    return a == b;
  }
};
template <class T, size_t N>
struct Elem<PointND<T, N>> {
  static PointND<T, N> rnd(Rng& r, bool text) {
    PointND<T, N> p;
    for (auto& v : p.dim) {
      v = Elem<T>::rnd(r, text);
    }
    return p;
  }
  static bool close(const PointND<T, N>& a, const PointND<T, N>& b) {
    for (size_t i = 0; i < N; i++) {
      T x = a.dim[i], y = b.dim[i];
      if (!Elem<T>::close(x, y)) {
        return false;
      }
    }
    return true;
  }
};
template <class T, size_t N>
struct Elem<MatrixND<T, N>> {
  static MatrixND<T, N> rnd(Rng& r, bool text) {
    MatrixND<T, N> m;
    for (auto& p : m.points) {
      p = Elem<PointND<T, N>>::rnd(r, text);
    }
    return m;
  }
  static bool close(const MatrixND<T, N>& a, const MatrixND<T, N>& b) {
    for (size_t i = 0; i < N; i++) {
      if (!Elem<PointND<T, N>>::close(a.points[i], b.points[i])) {
        return false;
      }
    }
    return true;
  }
};
template <class T>
bool exact(const T& a, const T& b) {
  if constexpr (is_same<T, string>::value) {
    return a == b;
  } else if constexpr (is_same<T, Bool>::value) {
    return bool(a) == bool(b);
  } else {
    return memcmp(reinterpret_cast<const char*>(&a), reinterpret_cast<const char*>(&b), sizeof(T)) == 0;
  }
}
template <class C, class F>
bool allOf(const C& a, const C& b, F f) {
  if (a.size() != b.size()) {
    return false;
  }
  auto x = a.begin();
  for (auto y = b.begin(); y != b.end(); ++x, ++y) {
    if (!f(*x, *y)) {
      return false;
    }
  }
  return true;
}
template <class T>
bool exactV(const vector<T>& a, const vector<T>& b) {
  return allOf(a, b, [](const T& x, const T& y) { return exact<T>(x, y); });
}
template <class T>
bool closeV(const vector<T>& a, const vector<T>& b) {
  return allOf(a, b, [](const T& x, const T& y) { return Elem<T>::close(x, y); });
}
template <class T>
using Map = map<string, T>;
template <class T>
bool exactM(const Map<T>& a, const Map<T>& b) {
  return allOf(a, b, [](const auto& x, const auto& y) { return x.first == y.first && exact<T>(x.second, y.second); });
}
template <class T>
bool closeM(const Map<T>& a, const Map<T>& b) {
  return allOf(a, b, [](const auto& x, const auto& y) { return x.first == y.first && Elem<T>::close(x.second, y.second); });
}

// ---- fields ----
struct Field {
  DataPieceType kind{};
  string label;
  size_t count{}; // arrays
  bool required{};
  map<string, string> tags;
  bool isSet{};
  virtual ~Field() = default;
  virtual unique_ptr<DataPiece> make() const = 0; // within the construction of a layout
  virtual unique_ptr<Field> copy() const = 0;
  virtual void newDefault(Rng& r) = 0;
  virtual void newValue(Rng& r) = 0;
  virtual void put(Rng& r, DataPiece* p) const = 0; // the value
  virtual void initDefault() = 0; // the value becomes the default
  // what a piece tells, "" if it tells the value (or the default, when missing)
  virtual string checkValue(const DataPiece* p, const Field& stored) const = 0;
  virtual string checkDefault(const DataPiece* p) const = 0; // reading it gives the default, and says so
  virtual string checkDefinition(const DataPiece* p, bool text) const = 0;
  virtual string checkStaged(const DataPiece* p) const = 0;
  virtual string element() const = 0;
  virtual const DataPiece* find(const DataLayout& l) const = 0;
  virtual bool patch(Rng& r, const DataPiece* p) const = 0; // with the value
  virtual bool takeValue(const Field& f) = 0; // same value as f (same type of field)
  virtual size_t storedSize() const = 0;
  virtual void readAnything(const DataPiece* p) const = 0;
  bool fixed() const {
    return kind == DataPieceType::Value || kind == DataPieceType::Array;
  }
  string key() const {
    return label + "|" + to_string(static_cast<int>(kind)) + "|" + element() + "|" + to_string(count);
  }
  string str() const {
    static const char* kinds[] = {"?", "value", "array", "vector", "string", "map"};
    return vh::sf("%s<%s>%s '%s'", kinds[static_cast<int>(kind)], element().c_str(), kind == DataPieceType::Array ? vh::sf("[%zu]", count).c_str() : "", label.c_str());
  }
  void dress(DataPiece* p) const {
    p->setRequired(required);
    for (auto& t : tags) {
      if (t.first == "unit") {
        p->setUnit(t.second);
      } else if (t.first == "description") {
        p->setDescription(t.second);
      } else {
        p->setTag(t.first, t.second);
      }
    }
  }
  string checkDress(const DataPiece* p) const {
    if (p->getLabel() != label || p->getPieceType() != kind || p->getElementTypeName() != element()) {
      return "is a " + p->getTypeName() + " '" + p->getLabel() + "'";
    }
    if (p->isRequired() != required) {
      return "required flag lost";
    }
    for (auto& t : tags) {
      string v;
      if (!p->getTag(t.first, v) || v != t.second) {
        return "tag '" + t.first + "' is '" + vh::printable(v) + "' instead of '" + vh::printable(t.second) + "'";
      }
    }
    string v;
    if (!tags.count("unit") && p->getUnit(v)) {
      return "invented unit";
    }
    return {};
  }
};

template <class T>
struct PodTraits {
  static constexpr bool pod = true;
};
template <>
struct PodTraits<string> {
  static constexpr bool pod = false;
};

size_t lengthOf(Rng& r) {
  return r.chance(0.2) ? 0 : r.chance(0.03) ? 500 + r.below(2000) : 1 + r.skewed(12);
}

template <class T>
struct ValueField : Field {
  T value{}, def{};
  bool hasDef{};
  map<string, T> props;
  unique_ptr<Field> copy() const override {
    return make_unique<ValueField<T>>(*this);
  }
  unique_ptr<DataPiece> make() const override {
    auto p = hasDef && label.size() % 2 ? make_unique<DataPieceValue<T>>(label, def) : make_unique<DataPieceValue<T>>(label);
    if (hasDef) {
      p->setDefault(def);
    }
    for (auto& x : props) {
      x.first == "min" ? p->setMin(x.second) : x.first == "max" ? p->setMax(x.second) : x.first == "min_increment" ? p->setMinIncrement(x.second) : x.first == "max_increment" ? p->setMaxIncrement(x.second) : p->setProperty(x.first, x.second);
    }
    dress(p.get());
    return p;
  }
  void newDefault(Rng& r) override {
    hasDef = r.chance(0.7);
    def = hasDef ? Elem<T>::rnd(r, true) : T{};
    props.clear();
    for (const char* n : {"min", "max", "min_increment", "max_increment", "other"}) {
      if (r.chance(0.15)) {
        props[n] = Elem<T>::rnd(r, true);
      }
    }
  }
  void newValue(Rng& r) override {
    value = Elem<T>::rnd(r, false);
    isSet = true;
  }
  void initDefault() override {
    value = def;
    isSet = true;
  }
  void put(Rng&, DataPiece* p) const override {
    static_cast<DataPieceValue<T>*>(p)->set(value);
  }
  string checkValue(const DataPiece* p, const Field& stored) const override {
    auto* v = static_cast<const DataPieceValue<T>*>(p);
    auto& s = static_cast<const ValueField<T>&>(stored);
    T got{};
    if (!v->get(got)) {
      return "get says the value is missing";
    }
    T other = v->get();
    if (!exact<T>(got, s.value) || !exact<T>(other, s.value)) {
      return "other value: " + vh::hex(reinterpret_cast<const char*>(&got), sizeof(T)) + " instead of " + vh::hex(reinterpret_cast<const char*>(&s.value), sizeof(T));
    }
    return {};
  }
  string checkDefault(const DataPiece* p) const override {
    auto* v = static_cast<const DataPieceValue<T>*>(p);
    T got{};
    if (v->get(got)) {
      return "get says the value is there";
    }
    if (!exact<T>(got, def) || !exact<T>(v->get(), def)) {
      return "not the default";
    }
    return {};
  }
  string checkDefinition(const DataPiece* p, bool text) const override {
    string d = checkDress(p);
    if (!d.empty()) {
      return d;
    }
    auto* v = static_cast<const DataPieceValue<T>*>(p);
    if (!(text ? Elem<T>::close(v->getDefault(), def) : exact<T>(v->getDefault(), def))) {
      return "other default";
    }
    auto one = [&](const char* n, bool found, const T& x) -> bool {
      auto i = props.find(n);
      return (i != props.end()) == found && (!found || (text ? Elem<T>::close(x, i->second) : exact<T>(x, i->second)));
    };
    T x{};
    bool found = v->getMin(x);
    if (!one("min", found, x)) {
      return "other minimum";
    }
    found = v->getMax(x);
    if (!one("max", found, x)) {
      return "other maximum";
    }
    found = v->getMinIncrement(x);
    if (!one("min_increment", found, x)) {
      return "other minimum increment";
    }
    found = v->getMaxIncrement(x);
    if (!one("max_increment", found, x)) {
      return "other maximum increment";
    }
    found = v->getProperty("other", x);
    if (!one("other", found, x)) {
      return "other property";
    }
    return {};
  }
  string checkStaged(const DataPiece* p) const override {
    return checkValue(p, *this);
  }
  string element() const override {
    return vrs::getTypeName<T>();
  }
  const DataPiece* find(const DataLayout& l) const override {
    return l.findDataPieceValue<T>(label);
  }
  bool patch(Rng&, const DataPiece* p) const override {
    return static_cast<const DataPieceValue<T>*>(p)->patchValue(value);
  }
  bool takeValue(const Field& f) override {
    value = static_cast<const ValueField<T>&>(f).value;
    isSet = f.isSet;
    return true;
  }
  size_t storedSize() const override {
    return sizeof(T);
  }
  void readAnything(const DataPiece* p) const override {
    T v{};
    static_cast<const DataPieceValue<T>*>(p)->get(v);
  }
};

template <class T>
struct ArrayField : Field {
  vector<T> value, def;
  bool hasDef{};
  map<string, T> props;
  unique_ptr<Field> copy() const override {
    return make_unique<ArrayField<T>>(*this);
  }
  unique_ptr<DataPiece> make() const override {
    auto p = make_unique<DataPieceArray<T>>(label, count);
    if (hasDef) {
      if (def.size() % 2) {
        p->setDefault(def);
      } else {
        p->setDefault(def.data(), def.size());
      }
    }
    for (auto& x : props) {
      x.first == "min" ? p->setMin(x.second) : x.first == "max" ? p->setMax(x.second) : p->setProperty(x.first, x.second);
    }
    dress(p.get());
    return p;
  }
  vector<T> padded(const vector<T>& v) const {
    auto x = v;
    x.resize(count);
    return x;
  }
  vector<T> defaults() const { // what getDefault must tell
    return hasDef ? padded(def) : vector<T>();
  }
  void newDefault(Rng& r) override {
    hasDef = r.chance(0.5);
    def.clear();
    if (hasDef) {
      for (size_t n = r.chance(0.6) ? count : r.below(count + 3); n > 0; n--) {
        def.push_back(Elem<T>::rnd(r, true));
      }
    }
    props.clear();
    for (const char* n : {"min", "max", "other"}) {
      if (r.chance(0.15)) {
        props[n] = Elem<T>::rnd(r, true);
      }
    }
  }
  void newValue(Rng& r) override {
    value.clear();
    for (size_t n = 0; n < count; n++) {
      value.push_back(Elem<T>::rnd(r, false));
    }
    isSet = true;
  }
  void initDefault() override {
    value = padded(def);
    isSet = true;
  }
  void put(Rng& r, DataPiece* p) const override {
    auto* a = static_cast<DataPieceArray<T>*>(p);
    auto v = padded(value);
    switch (r.below(4)) {
      case 0:
        a->set(v);
        break;
      case 1: { // trailing zeros may be left out, extra values are ignored
        size_t n = v.size();
        static const T zero{};
        while (n > 0 && exact<T>(v[n - 1], zero)) {
          n--;
        }
        v.resize(n);
        v.resize(n, T{});
        a->set(v.data(), n);
        break;
      }
      case 2:
        v.push_back(Elem<T>::rnd(r, false));
        a->set(v.data(), v.size());
        break;
      default:
        for (size_t i = 0; i < v.size(); i++) {
          a->set(v[i], i);
        }
        a->set(T{}, v.size()); // out of range: refused
    }
  }
  string checkValue(const DataPiece* p, const Field& stored) const override {
    auto* a = static_cast<const DataPieceArray<T>*>(p);
    auto want = padded(static_cast<const ArrayField<T>&>(stored).value);
    vector<T> got;
    if (a->getArraySize() != count) {
      return "other array size";
    }
    if (!a->get(got)) {
      return "get says the values are missing";
    }
    if (!exactV(got, want)) {
      return "other values";
    }
    size_t n = 1 + want.size() / 2;
    vector<T> part(n);
    if (!a->get(part.data(), n) || !exactV(part, vector<T>(want.begin(), want.begin() + static_cast<ptrdiff_t>(n)))) {
      return "other values in a partial read";
    }
    for (size_t i = 0; i < want.size(); i++) {
      T x{};
      if (!a->get(x, i) || !exact<T>(x, want[i])) {
        return "other element by index";
      }
    }
    T x{};
    if (a->get(x, count)) {
      return "reads past the array";
    }
    return {};
  }
  string checkDefault(const DataPiece* p) const override {
    auto* a = static_cast<const DataPieceArray<T>*>(p);
    vector<T> got;
    if (a->get(got)) {
      return "get says the values are there";
    }
    if (!exactV(got, defaults())) {
      return "not the defaults";
    }
    vector<T> part(count + 2);
    auto want = padded(def);
    want.resize(count + 2);
    if (a->get(part.data(), part.size()) || !exactV(part, want)) {
      return "not the defaults in a read of all values";
    }
    T x{};
    if (a->get(x, count - 1) || !exact<T>(x, want[count - 1])) {
      return "not the default by index";
    }
    return {};
  }
  string checkDefinition(const DataPiece* p, bool text) const override {
    string d = checkDress(p);
    if (!d.empty()) {
      return d;
    }
    auto* a = static_cast<const DataPieceArray<T>*>(p);
    if (a->getArraySize() != count || a->getFixedSize() != count * sizeof(T)) {
      return "other size";
    }
    if (!(text ? closeV(a->getDefault(), defaults()) : exactV(a->getDefault(), defaults()))) {
      return "other default";
    }
    auto one = [&](const char* n, bool found, const T& x) -> bool {
      auto i = props.find(n);
      return (i != props.end()) == found && (!found || (text ? Elem<T>::close(x, i->second) : exact<T>(x, i->second)));
    };
    T x{};
    bool found = a->getMin(x);
    if (!one("min", found, x)) {
      return "other minimum";
    }
    found = a->getMax(x);
    if (!one("max", found, x)) {
      return "other maximum";
    }
    found = a->getProperty("other", x);
    if (!one("other", found, x)) {
      return "other property";
    }
    return {};
  }
  string checkStaged(const DataPiece* p) const override {
    return checkValue(p, *this);
  }
  string element() const override {
    return vrs::getTypeName<T>();
  }
  const DataPiece* find(const DataLayout& l) const override {
    return l.findDataPieceArray<T>(label, count);
  }
  bool patch(Rng&, const DataPiece* p) const override {
    auto v = padded(value);
    return static_cast<const DataPieceArray<T>*>(p)->patchValue(v.data(), v.size());
  }
  bool takeValue(const Field& f) override {
    value = static_cast<const ArrayField<T>&>(f).value;
    isSet = f.isSet;
    return true;
  }
  size_t storedSize() const override {
    return sizeof(T) * count;
  }
  void readAnything(const DataPiece* p) const override {
    vector<T> v;
    static_cast<const DataPieceArray<T>*>(p)->get(v);
  }
};

template <class T>
struct VectorField : Field {
  vector<T> value, def;
  unique_ptr<Field> copy() const override {
    return make_unique<VectorField<T>>(*this);
  }
  unique_ptr<DataPiece> make() const override {
    auto p = make_unique<DataPieceVector<T>>(label);
    p->setDefault(def);
    dress(p.get());
    return p;
  }
  void newDefault(Rng& r) override {
    def.clear();
    if (r.chance(0.5)) {
      for (size_t n = lengthOf(r); n > 0; n--) {
        def.push_back(Elem<T>::rnd(r, true));
      }
    }
  }
  void newValue(Rng& r) override {
    value.clear();
    for (size_t n = lengthOf(r); n > 0; n--) {
      value.push_back(Elem<T>::rnd(r, false));
    }
    isSet = true;
  }
  void initDefault() override {
    value = def;
    isSet = true;
  }
  void put(Rng& r, DataPiece* p) const override {
    auto* v = static_cast<DataPieceVector<T>*>(p);
    switch (r.below(4)) {
      case 0:
        v->stage(value);
        break;
      case 1: {
        auto x = value;
        v->stage(std::move(x));
        break;
      }
      case 2:
        v->stage(value.data(), value.size());
        break;
      default:
        v->stagedValues() = value;
    }
  }
  string checkValue(const DataPiece* p, const Field& stored) const override {
    vector<T> got(3);
    if (!static_cast<const DataPieceVector<T>*>(p)->get(got)) {
      return "get says the values are missing";
    }
    return exactV(got, static_cast<const VectorField<T>&>(stored).value) ? "" : vh::sf("other values (%zu instead of %zu)", got.size(), static_cast<const VectorField<T>&>(stored).value.size());
  }
  string checkDefault(const DataPiece* p) const override {
    vector<T> got(3);
    if (static_cast<const DataPieceVector<T>*>(p)->get(got)) {
      return "get says the values are there";
    }
    return exactV(got, def) ? "" : "not the defaults";
  }
  string checkDefinition(const DataPiece* p, bool text) const override {
    string d = checkDress(p);
    if (!d.empty()) {
      return d;
    }
    auto& x = static_cast<const DataPieceVector<T>*>(p)->getDefault();
    return (text ? closeV(x, def) : exactV(x, def)) ? "" : "other default";
  }
  string checkStaged(const DataPiece* p) const override {
    return exactV(static_cast<const DataPieceVector<T>*>(p)->stagedValues(), value) ? "" : "other staged values";
  }
  string element() const override {
    return vrs::getTypeName<T>();
  }
  const DataPiece* find(const DataLayout& l) const override {
    return l.findDataPieceVector<T>(label);
  }
  bool patch(Rng&, const DataPiece* p) const override {
    return static_cast<const DataPieceVector<T>*>(p)->patchValue(value);
  }
  bool takeValue(const Field& f) override {
    value = static_cast<const VectorField<T>&>(f).value;
    isSet = f.isSet;
    return true;
  }
  size_t storedSize() const override {
    if constexpr (is_same<T, string>::value) {
      size_t n = 4;
      for (auto& s : value) {
        n += 4 + s.size();
      }
      return n;
    } else {
      return value.size() * sizeof(T);
    }
  }
  void readAnything(const DataPiece* p) const override {
    if constexpr (!is_same<T, Bool>::value) {
      vector<T> v;
      static_cast<const DataPieceVector<T>*>(p)->get(v);
    }
  }
};

template <class T>
struct MapField : Field {
  Map<T> value, def;
  unique_ptr<Field> copy() const override {
    return make_unique<MapField<T>>(*this);
  }
  unique_ptr<DataPiece> make() const override {
    auto p = make_unique<DataPieceStringMap<T>>(label);
    p->setDefault(def);
    dress(p.get());
    return p;
  }
  void newDefault(Rng& r) override {
    def.clear();
    if (r.chance(0.5)) {
      for (size_t n = r.skewed(6); n > 0; n--) {
        def[Elem<string>::rnd(r, true)] = Elem<T>::rnd(r, true);
      }
    }
  }
  void newValue(Rng& r) override {
    value.clear();
    for (size_t n = lengthOf(r); n > 0; n--) {
      value[Elem<string>::rnd(r, false)] = Elem<T>::rnd(r, false);
    }
    isSet = true;
  }
  void initDefault() override {
    value = def;
    isSet = true;
  }
  void put(Rng& r, DataPiece* p) const override {
    auto* m = static_cast<DataPieceStringMap<T>*>(p);
    if (r.chance(0.5)) {
      m->stage(value);
    } else {
      m->stagedValues() = value;
    }
  }
  string checkValue(const DataPiece* p, const Field& stored) const override {
    Map<T> got;
    if (!static_cast<const DataPieceStringMap<T>*>(p)->get(got)) {
      return "get says the values are missing";
    }
    return exactM<T>(got, static_cast<const MapField<T>&>(stored).value) ? "" : "other values";
  }
  string checkDefault(const DataPiece* p) const override {
    Map<T> got;
    if (static_cast<const DataPieceStringMap<T>*>(p)->get(got)) {
      return "get says the values are there";
    }
    return exactM<T>(got, def) ? "" : "not the defaults";
  }
  string checkDefinition(const DataPiece* p, bool text) const override {
    string d = checkDress(p);
    if (!d.empty()) {
      return d;
    }
    auto& x = static_cast<const DataPieceStringMap<T>*>(p)->getDefault();
    return (text ? closeM<T>(x, def) : exactM<T>(x, def)) ? "" : "other default";
  }
  string checkStaged(const DataPiece* p) const override {
    return exactM<T>(static_cast<const DataPieceStringMap<T>*>(p)->stagedValues(), value) ? "" : "other staged values";
  }
  string element() const override {
    return vrs::getTypeName<T>();
  }
  const DataPiece* find(const DataLayout& l) const override {
    return l.findDataPieceStringMap<T>(label);
  }
  bool patch(Rng&, const DataPiece* p) const override {
    return static_cast<const DataPieceStringMap<T>*>(p)->patchValue(value);
  }
  bool takeValue(const Field& f) override {
    value = static_cast<const MapField<T>&>(f).value;
    isSet = f.isSet;
    return true;
  }
  size_t storedSize() const override {
    size_t n = 0;
    for (auto& x : value) {
      n += 4 + x.first.size();
      if constexpr (is_same<T, string>::value) {
        n += 4 + x.second.size();
      } else {
        n += sizeof(T);
      }
    }
    return n;
  }
  void readAnything(const DataPiece* p) const override {
    if constexpr (!is_same<T, Bool>::value) {
      Map<T> v;
      static_cast<const DataPieceStringMap<T>*>(p)->get(v);
    }
  }
};

struct StringField : Field {
  string value, def;
  unique_ptr<Field> copy() const override {
    return make_unique<StringField>(*this);
  }
  unique_ptr<DataPiece> make() const override {
    auto p = make_unique<DataPieceString>(label);
    p->setDefault(def);
    dress(p.get());
    return p;
  }
  void newDefault(Rng& r) override {
    def = r.chance(0.5) ? string() : Elem<string>::rnd(r, true);
  }
  void newValue(Rng& r) override {
    value = r.chance(0.2) ? string() : Elem<string>::rnd(r, false);
    isSet = true;
  }
  void initDefault() override {
    value = def;
    isSet = true;
  }
  void put(Rng&, DataPiece* p) const override {
    static_cast<DataPieceString*>(p)->stage(value);
  }
  string checkValue(const DataPiece* p, const Field& stored) const override {
    auto* s = static_cast<const DataPieceString*>(p);
    auto& want = static_cast<const StringField&>(stored).value;
    string got = "x";
    if (!s->get(got)) {
      return "get says the value is missing";
    }
    if (got != want) {
      return "'" + vh::printable(got) + "' instead of '" + vh::printable(want) + "'";
    }
    if (s->get() != want) {
      return "get() tells '" + vh::printable(s->get()) + "' instead of '" + vh::printable(want) + "'";
    }
    return {};
  }
  string checkDefault(const DataPiece* p) const override {
    auto* s = static_cast<const DataPieceString*>(p);
    string got = "x";
    if (s->get(got)) {
      return "get says the value is there";
    }
    return got == def && s->get() == def ? "" : "not the default";
  }
  string checkDefinition(const DataPiece* p, bool) const override {
    string d = checkDress(p);
    if (!d.empty()) {
      return d;
    }
    return static_cast<const DataPieceString*>(p)->getDefault() == def ? "" : "other default";
  }
  string checkStaged(const DataPiece* p) const override {
    return static_cast<const DataPieceString*>(p)->stagedValue() == value ? "" : "other staged value";
  }
  string element() const override {
    return "string";
  }
  const DataPiece* find(const DataLayout& l) const override {
    return l.findDataPieceString(label);
  }
  bool patch(Rng&, const DataPiece* p) const override {
    return static_cast<const DataPieceString*>(p)->patchValue(value);
  }
  bool takeValue(const Field& f) override {
    value = static_cast<const StringField&>(f).value;
    isSet = f.isSet;
    return true;
  }
  size_t storedSize() const override {
    return value.size();
  }
  void readAnything(const DataPiece* p) const override {
    static_cast<const DataPieceString*>(p)->get();
  }
};

template <class T>
unique_ptr<Field> makeField(int kind) {
  unique_ptr<Field> f;
  if constexpr (PodTraits<T>::pod) {
    if (kind == 0) {
      f = make_unique<ValueField<T>>();
      f->kind = DataPieceType::Value;
      return f;
    }
    if (kind == 1) {
      f = make_unique<ArrayField<T>>();
      f->kind = DataPieceType::Array;
      return f;
    }
  }
  if (kind == 2) {
    f = make_unique<VectorField<T>>();
    f->kind = DataPieceType::Vector;
  } else if (kind == 3) {
    f = make_unique<MapField<T>>();
    f->kind = DataPieceType::StringMap;
  } else {
    f = make_unique<StringField>();
    f->kind = DataPieceType::String;
  }
  return f;
}
using Maker = unique_ptr<Field> (*)(int);
const vector<Maker>& makers() {
  static const vector<Maker> m = {
#define POD_MACRO(x) makeField<x>,
#include <vrs/helpers/PODMacro.inc>
      makeField<string>};
  return m;
}

using Schema = vector<unique_ptr<Field>>;

unique_ptr<Field> randomField(Case& c) {
  auto& r = c.rng;
  auto& all = makers();
  // common types more often
  size_t type = r.chance(0.5) ? r.below(12) : r.below(all.size());
  int kind = static_cast<int>(r.below(5));
  auto f = all[type](kind);
  f->label = r.chance(0.1) ? Elem<string>::rnd(r, true) : vh::sf("f%zu", static_cast<size_t>(r.below(24)));
  if (f->label.find('\0') != string::npos) {
    f->label = "nul";
  }
  if (f->kind == DataPieceType::Array) {
    f->count = 1 + r.skewed(9);
  }
  f->required = r.chance(0.2);
  for (const char* t : {"unit", "description", "my tag"}) {
    if (r.chance(0.1)) {
      f->tags[t] = Elem<string>::rnd(r, true);
    }
  }
  f->newDefault(r);
  static const char* kinds[] = {"?", "value", "array", "vector", "string", "map"};
  c.count(string("kind:") + kinds[static_cast<int>(f->kind)]);
  return f;
}

void addField(Schema& s, unique_ptr<Field> f, Rng& r) {
  for (auto& x : s) {
    // the same name twice only for different types
    if (x->key() == f->key() || (x->label == f->label && (x->kind == f->kind || r.chance(0.7)))) {
      return;
    }
  }
  s.push_back(std::move(f));
}

Schema copySchema(const Schema& s) {
  Schema x;
  for (auto& f : s) {
    x.push_back(f->copy());
  }
  return x;
}

Schema randomSchema(Case& c, size_t maxFields) {
  Schema s;
  for (size_t n = c.rng.chance(0.04) ? 0 : 1 + c.rng.below(maxFields); n > 0; n--) {
    addField(s, randomField(c), c.rng);
  }
  return s;
}

unique_ptr<ManualDataLayout> build(const Schema& s) {
  auto l = make_unique<ManualDataLayout>();
  for (auto& f : s) {
    l->add(f->make());
  }
  l->endLayout();
  return l;
}

// pieces in layout order: fixed size ones first
vector<const Field*> ordered(const Schema& s) {
  vector<const Field*> v;
  for (int pass = 0; pass < 2; pass++) {
    for (auto& f : s) {
      if (f->fixed() == (pass == 0)) {
        v.push_back(f.get());
      }
    }
  }
  return v;
}
vector<DataPiece*> pieces(DataLayout& l) {
  vector<DataPiece*> v;
  l.forEachDataPiece([&](DataPiece* p) { v.push_back(p); });
  return v;
}

void verifyDefinition(Case& c, DataLayout& l, const Schema& s, bool text, const char* what) {
  auto fields = ordered(s);
  auto ps = pieces(l);
  if (ps.size() != fields.size()) {
    c.failNow("definition", "%s has %zu pieces instead of %zu", what, ps.size(), fields.size());
  }
  string list;
  for (size_t i = 0; i < ps.size(); i++) {
    string d = fields[i]->checkDefinition(ps[i], text);
    if (!d.empty()) {
      c.failNow("definition", "%s: %s: %s", what, fields[i]->str().c_str(), d.c_str());
    }
    if (ps[i]->getPieceIndex() != i) {
      c.failNow("piece-index", "%s: piece %zu says %zu", what, i, ps[i]->getPieceIndex());
    }
    list += fields[i]->label + " - " + ps[i]->getTypeName() + "\n";
    if (fields[i]->find(l) != ps[i]) {
      c.failNow("find", "%s: %s is not found by name", what, fields[i]->str().c_str());
    }
  }
  if (list != l.getListOfPiecesSpec()) {
    c.failNow("spec", "%s: other list of pieces", what);
  }
  if (l.findDataPieceValue<double>("no such label") != nullptr || l.findDataPieceString("no such label") != nullptr) {
    c.failNow("find", "%s: finds a field that isn't there", what);
  }
}

void setRandom(Case& c, Schema& s, DataLayout& l, double share = 0.8) {
  auto fields = ordered(s);
  auto ps = pieces(l);
  for (size_t i = 0; i < ps.size(); i++) {
    if (c.rng.chance(share)) {
      auto* f = const_cast<Field*>(fields[i]);
      f->newValue(c.rng);
      f->put(c.rng, ps[i]);
    }
  }
}

struct Data {
  vector<int8_t> fixedPart, varPart;
};

// bytes of a layout, in every way they can be had
Data collect(Case& c, DataLayout& l, const Schema& s) {
  size_t fixedSize = 0, varSize = 0, varCount = 0;
  for (auto& f : s) {
    if (f->fixed()) {
      fixedSize += f->storedSize();
    } else {
      varSize += f->storedSize();
      varCount++;
    }
  }
  fixedSize += varCount * 8;
  if (l.getFixedDataSizeNeeded() != fixedSize || l.getVarDataSizeNeeded() != varSize) {
    c.failNow("size", "sizes %zu + %zu instead of %zu + %zu", l.getFixedDataSizeNeeded(), l.getVarDataSizeNeeded(), fixedSize, varSize);
  }
  auto block = l.getContentBlock();
  if (block.getBlockSize() != (varCount == 0 ? fixedSize : ContentBlock::kSizeUnknown)) {
    c.failNow("block-size", "content block of %zu bytes", block.getBlockSize());
  }
  // the way a record is made
  DataSource source(l);
  vector<int8_t> record(source.getDataSize());
  if (record.size() != fixedSize + varSize) {
    c.failNow("size", "data source of %zu bytes instead of %zu + %zu", record.size(), fixedSize, varSize);
  }
  uint8_t* p = reinterpret_cast<uint8_t*>(record.data());
  source.copyTo(p);
  l.collectVariableDataAndUpdateIndex();
  vector<int8_t> raw;
  l.getRawData(raw);
  if (raw != record) {
    c.failNow("raw-data", "the raw data isn't the data of the record");
  }
  if (!l.isVarDataIndexValid() || l.getVarDataSizeFromIndex() != varSize) {
    c.failNow("index", "invalid index, %zu bytes instead of %zu", l.getVarDataSizeFromIndex(), varSize);
  }
  Data d;
  d.fixedPart.assign(record.begin(), record.begin() + static_cast<ptrdiff_t>(fixedSize));
  d.varPart.assign(record.begin() + static_cast<ptrdiff_t>(fixedSize), record.end());
  return d;
}

void load(DataLayout& l, const Data& d) {
  // exact size buffers
  l.getFixedData() = d.fixedPart;
  l.getVarData() = d.varPart;
  l.getFixedData().shrink_to_fit();
  l.getVarData().shrink_to_fit();
}

const Field* lookup(const Schema& s, const Field& f) {
  for (auto& x : s) {
    if (x->key() == f.key()) {
      return x.get();
    }
  }
  return nullptr;
}

// every field of l (definition s) tells what `stored` holds
void verifyValues(Case& c, DataLayout& l, const Schema& s, const Schema& stored, const char* what) {
  auto fields = ordered(s);
  auto ps = pieces(l);
  size_t fixedThere = 0, varThere = 0;
  bool allRequired = true;
  for (size_t i = 0; i < ps.size(); i++) {
    auto* have = lookup(stored, *fields[i]);
    string d;
    if (have != nullptr) {
      d = fields[i]->checkValue(ps[i], *have);
      if (d.empty() && !ps[i]->isAvailable()) {
        d = "is said not to be available";
      }
      (fields[i]->fixed() ? fixedThere : varThere)++;
    } else {
      d = fields[i]->checkDefault(ps[i]);
      if (d.empty() && ps[i]->isAvailable()) {
        d = "is said to be available";
      }
      allRequired = allRequired && !fields[i]->required;
    }
    if (l.isMapped() && ps[i]->isMapped() != (have != nullptr)) {
      d = "isMapped is wrong";
    }
    if (!d.empty()) {
      c.failNow(have ? "value" : "default", "%s: %s (%s): %s", what, fields[i]->str().c_str(), have ? "stored" : "missing", d.c_str());
    }
  }
  if (l.getAvailableFixedDataPiecesCount() != fixedThere || l.getAvailableVarDataPiecesCount() != varThere) {
    c.failNow("available", "%s: %zu and %zu pieces available instead of %zu and %zu", what, l.getAvailableFixedDataPiecesCount(), l.getAvailableVarDataPiecesCount(), fixedThere, varThere);
  }
  if (l.isMapped() && l.hasAllRequiredPieces() != allRequired) {
    c.failNow("required", "%s: hasAllRequiredPieces is wrong", what);
  }
  c.count("values_read", static_cast<int64_t>(fixedThere + varThere));
  c.count("values_missing", static_cast<int64_t>(ps.size() - fixedThere - varThere));
}

Schema evolve(Case& c, const Schema& s) {
  auto& r = c.rng;
  Schema x = copySchema(s);
  for (auto& f : x) {
    f->isSet = false;
  }
  for (size_t n = r.below(6); n > 0; n--) {
    switch (r.below(6)) {
      case 0:
        addField(x, randomField(c), r);
        break;
      case 1:
        if (!x.empty()) {
          x.erase(x.begin() + static_cast<ptrdiff_t>(r.below(x.size())));
        }
        break;
      case 2: // another order
        for (size_t i = x.size(); i > 1; i--) {
          swap(x[i - 1], x[r.below(i)]);
        }
        break;
      case 3:
        if (!x.empty()) {
          auto& f = *x[r.below(x.size())];
          f.newDefault(r);
          f.required = r.chance(0.5);
          f.tags.clear();
        }
        break;
      case 4: // same name, other type
        if (!x.empty()) {
          auto f = randomField(c);
          size_t k = r.below(x.size());
          f->label = x[k]->label;
          if (lookup(x, *f) == nullptr) {
            x[k] = std::move(f);
          }
        }
        break;
      default: // another array size, or name
        if (!x.empty()) {
          auto f = x[r.below(x.size())]->copy();
          if (f->kind == DataPieceType::Array) {
            f->count = 1 + r.skewed(9);
            f->newDefault(r);
          } else {
            f->label = vh::sf("g%zu", static_cast<size_t>(r.below(30)));
          }
          if (lookup(x, *f) == nullptr) {
            x[r.below(x.size())] = std::move(f);
          }
        }
    }
  }
  // a replaced field may have been there twice: keep names unique per type
  Schema unique;
  for (auto& f : x) {
    if (lookup(unique, *f) == nullptr) {
      unique.push_back(std::move(f));
    }
  }
  return unique;
}

void print(DataLayout& l) {
  ostringstream out;
  l.printLayout(out, "  ");
  l.printLayoutCompact(out);
  for (auto p : {JsonFormatProfile::VrsFormat, JsonFormatProfile::ExternalCompact, JsonFormatProfile::ExternalPretty, JsonFormatProfile::Public}) {
    out << l.asJson(p);
  }
}

unique_ptr<DataLayout> rebuild(Case& c, const Schema& s, DataLayout& l, bool& text) {
  text = false;
  switch (c.rng.below(3)) {
    case 0: {
      text = true;
      auto x = DataLayout::makeFromJson(l.asJson());
      if (!x) {
        c.failNow("from-text", "no layout from '%s'", vh::printable(l.asJson(), 300).c_str());
      }
      return x;
    }
    case 1: {
      auto x = make_unique<ManualDataLayout>(static_cast<const DataLayout&>(l));
      x->endLayout();
      return x;
    }
    default:
      return build(s);
  }
}

void memory(Case& c) {
  auto& r = c.rng;
  Schema s = randomSchema(c, 14);
  auto la = build(s);
  verifyDefinition(c, *la, s, false, "layout");
  // text form
  string json = la->asJson();
  auto copy = DataLayout::makeFromJson(json);
  if (!copy) {
    c.failNow("from-text", "no layout from '%s'", vh::printable(json, 300).c_str());
  }
  verifyDefinition(c, *copy, s, true, "layout from text");
  if (!la->isSame(*copy) || !copy->isSame(*la)) {
    c.failNow("is-same", "the layout rebuilt from text isn't the same: '%s'", vh::printable(json, 300).c_str());
  }
  string again = copy->asJson();
  auto third = DataLayout::makeFromJson(again);
  if (!third || !third->isSame(*copy) || !third->isSame(*la)) {
    c.failNow("text-stable", "'%s' then '%s'", vh::printable(again, 3000).c_str(), third ? vh::printable(third->asJson(), 3000).c_str() : "nothing");
  }
  {
    ManualDataLayout clone(static_cast<const DataLayout&>(*la));
    clone.endLayout();
    verifyDefinition(c, clone, s, false, "clone");
    if (!clone.isSame(*la)) {
      c.failNow("is-same", "the clone isn't the same");
    }
  }
  c.count("texts");
  // a different definition isn't the same
  {
    Schema o = evolve(c, s);
    auto lo = build(o);
    auto fa = ordered(s), fo = ordered(o);
    bool same = fa.size() == fo.size();
    for (size_t i = 0; same && i < fa.size(); i++) {
      same = fa[i]->key() == fo[i]->key() && fo[i]->checkDefinition(pieces(*la)[i], false).empty();
    }
    if (!same && fa.size() == fo.size()) {
      bool keys = true;
      for (size_t i = 0; i < fa.size(); i++) {
        keys = keys && fa[i]->key() == fo[i]->key() && fa[i]->required == fo[i]->required && fa[i]->tags == fo[i]->tags;
      }
      if (!keys && lo->isSame(*la)) {
        c.failNow("is-same", "layouts with other pieces are said to be the same");
      }
    }
  }
  // values
  size_t rounds = 1 + r.below(3);
  bool text;
  auto lb = rebuild(c, s, *la, text);
  for (size_t round = 0; round < rounds; round++) {
    if (r.chance(0.1)) {
      la->initDataPiecesToDefaultValue();
      for (auto& f : s) {
        f->initDefault();
      }
      c.count("inits");
    }
    setRandom(c, s, *la);
    Data d = collect(c, *la, s);
    verifyValues(c, *la, s, s, "the layout itself");
    load(*lb, d);
    verifyValues(c, *lb, s, s, "read back");
    if (!lb->isVarDataIndexValid()) {
      c.failNow("index", "index said to be invalid");
    }
    // another definition, mapped
    Schema t = evolve(c, s);
    auto lc = build(t);
    bool all = lc->mapLayout(*lb);
    verifyValues(c, *lc, t, s, "mapped");
    if (all != lc->hasAllRequiredPieces() || !lc->isMapped()) {
      c.failNow("required", "mapLayout says %d", all);
    }
    vector<int8_t> raw;
    lc->getRawData(raw);
    if (raw.size() != d.fixedPart.size() + d.varPart.size()) {
      c.failNow("raw-data", "raw data of a mapped layout");
    }
    c.count("mappings");
    if (r.chance(0.2)) {
      print(*lb);
      print(*lc);
    }
    // values copied from the mapped layout
    if (r.chance(0.5)) {
      Schema u = copySchema(t);
      auto ld = build(u);
      setRandom(c, u, *ld, 1.0);
      size_t n = ld->copyDataPieceValuesFromMappedLayout(*lc);
      size_t want = 0;
      for (auto& f : u) {
        if (auto* have = lookup(s, *f)) {
          f->takeValue(*have);
          want++;
        }
      }
      if (n != want) {
        c.failNow("copy-count", "%zu values copied instead of %zu", n, want);
      }
      auto fields = ordered(u);
      auto ps = pieces(*ld);
      for (size_t i = 0; i < ps.size(); i++) {
        string p = fields[i]->checkStaged(ps[i]);
        if (!p.empty()) {
          c.failNow("copied", "after copyDataPieceValuesFromMappedLayout: %s (%s): %s", fields[i]->str().c_str(), lookup(s, *fields[i]) ? "copied" : "not copied", p.c_str());
        }
      }
      collect(c, *ld, u);
      verifyValues(c, *ld, u, u, "copied");
      c.count("copies_of_mapped");
    }
    // a clone with more fields, edited
    if (r.chance(0.5)) {
      bool fromMapped = r.chance(0.3);
      DataLayout& original = fromMapped ? static_cast<DataLayout&>(*lc) : *lb;
      const Schema& os = fromMapped ? t : s;
      Schema u;
      for (auto& f : os) {
        auto x = f->copy();
        if (auto* have = lookup(s, *f)) {
          x->takeValue(*have);
        } else {
          x->initDefault();
        }
        u.push_back(std::move(x));
      }
      size_t base = u.size();
      ManualDataLayout clone(static_cast<const DataLayout&>(original));
      for (size_t n = r.below(4); n > 0; n--) {
        auto f = randomField(c);
        if (lookup(u, *f) == nullptr) {
          clone.add(f->make());
          u.push_back(std::move(f));
        }
      }
      clone.endLayout();
      // new fields have a value before
      for (size_t i = base; i < u.size(); i++) {
        if (r.chance(0.7)) {
          u[i]->newValue(r);
          u[i]->put(r, const_cast<DataPiece*>(u[i]->find(clone)));
        }
      }
      if (!clone.copyClonedDataPieceValues(original)) {
        c.failNow("clone-copy", "copyClonedDataPieceValues refuses a clone");
      }
      for (auto& f : u) {
        string p = f->checkStaged(f->find(clone));
        if (!p.empty()) {
          c.failNow("cloned", "after copyClonedDataPieceValues%s: %s: %s", fromMapped ? " from a mapped layout" : "", f->str().c_str(), p.c_str());
        }
      }
      for (auto& f : u) {
        if (r.chance(0.3)) {
          f->newValue(r);
          f->put(r, const_cast<DataPiece*>(f->find(clone)));
        }
      }
      collect(c, clone, u);
      verifyValues(c, clone, u, u, "edited clone");
      c.count("clones_edited");
    }
    // edited in place, or through a mapped definition
    if (r.chance(0.4)) {
      Schema u = copySchema(s);
      lb->stageCurrentValues();
      for (auto& f : u) {
        if (r.chance(0.4)) {
          f->newValue(r);
          auto* other = lookup(t, *f);
          if (other != nullptr && r.chance(0.6)) {
            if (!f->patch(r, other->find(*lc))) {
              c.failNow("patch", "%s can't be patched", f->str().c_str());
            }
          } else {
            f->put(r, const_cast<DataPiece*>(f->find(*lb)));
          }
        }
      }
      for (auto& f : t) {
        if (lookup(s, *f) == nullptr && f->patch(r, f->find(*lc))) {
          c.failNow("patch", "%s is patched though it isn't there", f->str().c_str());
        }
      }
      collect(c, *lb, u);
      verifyValues(c, *lb, u, u, "edited");
      verifyValues(c, *lc, t, u, "mapped and edited");
      c.count("edits");
    }
    // damaged data: anything but reading outside
    if (r.chance(0.3)) {
      Data bad = d;
      size_t varCount = 0;
      for (auto& f : s) {
        varCount += f->fixed() ? 0 : 1;
      }
      for (size_t n = 1 + r.below(4); n > 0; n--) {
        switch (r.below(3)) {
          case 0:
            if (varCount > 0) {
              size_t at = bad.fixedPart.size() - varCount * 8 + r.below(varCount * 2) * 4;
              uint32_t v = static_cast<uint32_t>(r.pick<uint64_t>({0, 1, 3, 0xffffffff, 0x7fffffff, 0x80000000, bad.varPart.size(), bad.varPart.size() + 1, r.below(64), r.next()}));
              memcpy(bad.fixedPart.data() + at, &v, 4);
            }
            break;
          case 1:
            if (!bad.varPart.empty()) {
              size_t at = r.below(bad.varPart.size());
              uint32_t v = static_cast<uint32_t>(r.pick<uint64_t>({0, 0xffffffff, 0xfffffffe, 0x3fffffff, 5, bad.varPart.size(), r.next()}));
              memcpy(bad.varPart.data() + at, &v, min<size_t>(4, bad.varPart.size() - at));
            }
            break;
          default:
            bad.varPart.resize(r.below(bad.varPart.size() + 1));
        }
      }
      auto lx = build(s);
      load(*lx, bad);
      lc->mapLayout(*lx);
      bool bools = false; // a Bool must be 0 or 1: don't look at damaged ones
      for (auto& f : s) {
        bools = bools || f->element() == "Bool";
      }
      for (auto& f : s) {
        f->readAnything(f->find(*lx));
      }
      for (auto& f : t) {
        f->readAnything(f->find(*lc));
      }
      lx->isVarDataIndexValid();
      lx->getVarDataSizeFromIndex();
      lx->getAvailableVarDataPiecesCount();
      if (!bools && r.chance(0.3)) {
        print(*lx);
        print(*lc);
      }
      c.count("damaged");
    }
  }
  c.signature(json.size() > 20 ? vh::sf("%zx", hash<string>()(json)) : "");
}

// ---- through files, with static definitions ----
enum class Color : uint32_t { red, green = 7, blue = 0xffffffff };
struct Inner : DataLayoutStruct {
  DATA_LAYOUT_STRUCT(Inner)
  DataPieceValue<float> x{"f0", 1.5f};
  DataPieceVector<int16_t> v{"f1"};
};
struct Optional {
  DataPieceValue<int64_t> big{"f20", -5};
  DataPieceString text{"f21", "opt"};
};
struct Expected : AutoDataLayout {
  explicit Expected(bool opt = true) : optional{opt} {}
  DataPieceValue<double> d{"f0", -1};
  DataPieceEnum<Color, uint32_t> color{"f1", Color::green};
  DataPieceString text{"f2", "def"};
  DataPieceVector<float> vec{"f3", {1, 2}};
  DataPieceStringMap<string> smap{"f4"};
  DataPieceArray<int32_t> arr{"f5", 3, {7, 8}};
  DataPieceVector<string> strs{"f6"};
  DataPieceValue<Bool> flag{"f7", true};
  DataPieceValue<Matrix3Df> mat{"f8"};
  DataLayoutStructArray<Inner, 2> inner{"in"};
  OptionalDataPieces<Optional> optional;
  AutoDataLayoutEnd end;
};
struct Legacy : AutoDataLayout {
  DataPieceValue<uint8_t> d{"f0", 9};
  DataPieceValue<float> f{"f9", 2.5};
  DataPieceString text{"f10"};
  AutoDataLayoutEnd end;
};

Schema expectedSchema() {
  Schema s;
  auto add = [&](unique_ptr<Field> f, const string& label) {
    f->label = label;
    s.push_back(std::move(f));
  };
  auto value = [](auto v) {
    using T = decltype(v);
    auto f = make_unique<ValueField<T>>();
    f->kind = DataPieceType::Value;
    f->def = v;
    f->hasDef = true;
    return f;
  };
  auto vec = [](auto v) {
    using T = typename decltype(v)::value_type;
    auto f = make_unique<VectorField<T>>();
    f->kind = DataPieceType::Vector;
    f->def = v;
    return f;
  };
  auto text = [](const string& v) {
    auto f = make_unique<StringField>();
    f->kind = DataPieceType::String;
    f->def = v;
    return f;
  };
  add(value(-1.0), "f0");
  add(value(uint32_t(7)), "f1");
  add(text("def"), "f2");
  add(vec(vector<float>{1, 2}), "f3");
  auto m = make_unique<MapField<string>>();
  m->kind = DataPieceType::StringMap;
  add(std::move(m), "f4");
  auto a = make_unique<ArrayField<int32_t>>();
  a->kind = DataPieceType::Array;
  a->count = 3;
  a->hasDef = true;
  a->def = {7, 8, 0};
  add(std::move(a), "f5");
  add(vec(vector<string>{}), "f6");
  add(value(Bool(true)), "f7");
  add(value(Matrix3Df()), "f8");
  for (const char* n : {"in/0/", "in/1/"}) {
    add(value(1.5f), string(n) + "f0");
    add(vec(vector<int16_t>{}), string(n) + "f1");
  }
  add(value(int64_t(-5)), "f20");
  add(text("opt"), "f21");
  return s;
}
Schema legacySchema() {
  Schema s;
  auto a = make_unique<ValueField<uint8_t>>();
  a->kind = DataPieceType::Value;
  a->label = "f0";
  a->def = 9;
  s.push_back(std::move(a));
  auto b = make_unique<ValueField<float>>();
  b->kind = DataPieceType::Value;
  b->label = "f9";
  b->def = 2.5;
  s.push_back(std::move(b));
  auto t = make_unique<StringField>();
  t->kind = DataPieceType::String;
  t->label = "f10";
  s.push_back(std::move(t));
  return s;
}

struct Wrote {
  uint32_t ver;
  Record::Type type;
  vector<Schema> blocks;
};

struct LayoutStream : Stream {
  using Stream::Stream;
  using Recordable::addRecordFormat;
};

struct Player : RecordFormatStreamPlayer {
  Case& c;
  const vector<Wrote>& wrote;
  size_t at{}, block{};
  explicit Player(Case& c_, const vector<Wrote>& w) : c{c_}, wrote{w} {}
  bool onDataLayoutRead(const CurrentRecord& rec, size_t index, DataLayout& dl) override {
    auto& w = wrote[at];
    if (rec.formatVersion != w.ver || index >= w.blocks.size()) {
      c.failNow("wrong-record", "record %zu: version %u instead of %u, block %zu of %zu", at, rec.formatVersion, w.ver, index, w.blocks.size());
    }
    auto& s = w.blocks[index];
    verifyDefinition(c, dl, s, true, "read from a file");
    verifyValues(c, dl, s, s, "read from a file");
    static const Schema se = expectedSchema(), sl = legacySchema();
    auto& e = getExpectedLayout<Expected>(dl, index);
    verifyValues(c, e, se, s, "expected layout");
    auto& l = getLegacyLayout<Legacy>(dl, index);
    verifyValues(c, l, sl, s, "legacy layout");
    block++;
    c.count("blocks_read");
    return true;
  }
};

void file(Case& c) {
  auto& r = c.rng;
  LayoutStream stream(RecordableTypeId::UnitTest1);
  stream.autoConfig = stream.autoState = false;
  stream.setCompression(randomPreset(r, false));
  struct Format {
    uint32_t ver;
    Record::Type type;
    vector<Schema> schemas;
    vector<unique_ptr<ManualDataLayout>> layouts;
  };
  vector<Format> formats;
  for (size_t n = 1 + r.below(3); n > 0; n--) {
    Format f;
    f.ver = static_cast<uint32_t>(n);
    f.type = r.pick({Record::Type::DATA, Record::Type::CONFIGURATION, Record::Type::STATE});
    RecordFormat rf;
    vector<const DataLayout*> dls;
    for (size_t b = 1 + r.below(2); b > 0; b--) {
      // often the fields the player expects
      Schema s = r.chance(0.6) ? evolve(c, expectedSchema()) : formats.empty() || r.chance(0.5) ? randomSchema(c, 12) : evolve(c, formats[0].schemas[0]);
      f.layouts.push_back(build(s));
      f.schemas.push_back(std::move(s));
      rf = rf.getUsedBlocksCount() == 0 ? RecordFormat(f.layouts.back()->getContentBlock()) : rf + f.layouts.back()->getContentBlock();
    }
    for (auto& l : f.layouts) {
      dls.push_back(l.get());
    }
    if (!stream.addRecordFormat(f.type, f.ver, rf, dls)) {
      c.failNow("add-format", "addRecordFormat refuses '%s'", rf.asString().c_str());
    }
    formats.push_back(std::move(f));
  }
  RecordFileWriter writer;
  writer.addRecordable(&stream);
  vector<Wrote> wrote;
  for (size_t n = 1 + r.below(8); n > 0; n--) {
    auto& f = formats[r.below(formats.size())];
    Wrote w{f.ver, f.type, {}};
    Bytes bytes;
    for (size_t b = 0; b < f.layouts.size(); b++) {
      setRandom(c, f.schemas[b], *f.layouts[b]);
      Data d = collect(c, *f.layouts[b], f.schemas[b]);
      bytes.insert(bytes.end(), d.fixedPart.begin(), d.fixedPart.end());
      bytes.insert(bytes.end(), d.varPart.begin(), d.varPart.end());
      w.blocks.push_back(copySchema(f.schemas[b]));
    }
    stream.add(static_cast<double>(wrote.size()), f.type, f.ver, bytes);
    wrote.push_back(std::move(w));
  }
  string path = c.file("a.vrs");
  int st = writer.writeToFile(path);
  if (st != 0) {
    c.failNow("write", "-> %d", st);
  }
  RecordFileReader reader;
  Player player(c, wrote);
  if (reader.openFile(path) != 0 || reader.getIndex().size() != wrote.size()) {
    c.failNow("open", "%zu records", reader.getIndex().size());
  }
  reader.setStreamPlayer(stream.getStreamId(), &player);
  for (auto& f : formats) {
    RecordFormat rf;
    if (!reader.getRecordFormat(stream.getStreamId(), f.type, f.ver, rf) || rf.getUsedBlocksCount() != f.layouts.size()) {
      c.failNow("format", "no record format");
    }
    for (size_t b = 0; b < f.layouts.size(); b++) {
      auto dl = reader.getDataLayout(stream.getStreamId(), ContentBlockId(stream.getStreamId().getTypeId(), f.type, f.ver, b));
      if (!dl || !dl->isSame(*f.layouts[b])) {
        c.failNow("layout-read", "%s of block %zu", dl ? "other layout" : "no layout", b);
      }
    }
  }
  size_t order = r.below(3);
  for (size_t i = 0; i < wrote.size(); i++) {
    player.at = order == 0 ? i : order == 1 ? wrote.size() - 1 - i : r.below(wrote.size());
    player.block = 0;
    st = reader.readRecord(reader.getIndex()[player.at]);
    if (st != 0 || player.block != wrote[player.at].blocks.size()) {
      c.failNow("read", "record %zu -> %d, %zu of %zu blocks", player.at, st, player.block, wrote[player.at].blocks.size());
    }
    c.count("records_read");
  }
  // typed access to an enum, and optional parts left out
  if (r.chance(0.1)) {
    Expected e(r.chance(0.5)), back;
    Color col = r.pick({Color::red, Color::green, Color::blue});
    e.color.set(col);
    e.inner[1].x.set(4);
    e.inner[1].v.stage({1, 2});
    e.collectVariableDataAndUpdateIndex();
    back.mapLayout(e);
    Color got{};
    vector<int16_t> v;
    e.inner[1].v.get(v);
    if (back.color.get() != col || !back.color.get(got) || got != col || back.inner[1].x.get() != 4 || back.inner[0].x.get() != 0 || v != vector<int16_t>({1, 2})) {
      c.failNow("typed", "enum or sub structure lost");
    }
    if (back.optional->big.isAvailable() != (e.optional != nullptr)) {
      c.failNow("optional", "optional part");
    }
  }
  c.signature(vh::sf("%zu %zu %zu", formats.size(), wrote.size(), formats[0].layouts[0]->asJson().size()));
}
} // namespace

static void runCase(Case& c) {
  if (c.mode == "file") {
    file(c);
  } else {
    memory(c);
  }
}
VH_MAIN()
