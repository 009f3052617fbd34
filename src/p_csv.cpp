// C17, C18: CSV files.
#include "mc.hpp"
#include "faultfs.hpp"
#include <curves/helpers.hpp>
#include <limits>
#include <locale>
#include <locale.h>
#include <sys/file.h>
#include <sys/resource.h>
#include <sys/stat.h>
using mc::Ctx;
using curves::Time;
typedef std::vector<std::vector<std::string>> Table;
typedef std::vector<Eigen::VectorXd> Vecs;
static const double INF = std::numeric_limits<double>::infinity();

static std::string scratch() {
  const char* e = getenv("MC_SCRATCH");
  static std::string own;
  if (e) return e;
  if (own.empty()) {
    char t[] = "/tmp/curves-mc-csv-XXXXXX";
    own = mkdtemp(t);
  }
  return own;
}
static std::string file(const char* nm = "t") {
  std::string d = scratch() + "/" + std::to_string(getpid());
  mkdir(d.c_str(), 0700);
  return d + "/" + nm + ".csv";
}
//! What this process left in the scratch directory goes away with each execution.
struct Tidy {
  ~Tidy() {
    std::string d = scratch() + "/" + std::to_string(getpid());
    for (const char* n : {"/t.csv", "/u.csv"}) unlink((d + n).c_str());
    rmdir(d.c_str());
    const char* e = getenv("MC_SCRATCH");
    if (!e) rmdir(scratch().c_str());
  }
};
static std::string show(const Table& t) {
  std::string s = mc::fmt("%zu rows:", t.size());
  for (size_t i = 0; i < t.size() && i < 4; i++) {
    s += " [";
    for (size_t j = 0; j < t[i].size() && j < 6; j++) s += (j ? "|" : "") + t[i][j].substr(0, 20);
    s += "]";
  }
  return s;
}
static std::string slurp(const std::string& f) {
  std::string s;
  int fd = open(f.c_str(), O_RDONLY);
  char buf[65536];
  ssize_t n;
  while (fd >= 0 && (n = read(fd, buf, sizeof buf)) > 0) s.append(buf, n);
  if (fd >= 0) close(fd);
  return s;
}
static void spew(const std::string& f, const std::string& s) {
  int fd = open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  size_t o = 0;
  while (o < s.size()) {
    ssize_t n = write(fd, s.data() + o, s.size() - o);
    if (n <= 0) abort();
    o += n;
  }
  close(fd);
}
static void roundTrip(Ctx& c, const Table& t, bool dirty) {
  Tidy tidy;
  std::string f = file();
  if (dirty) spew(f, std::string(3000, 'z') + ",old\nmore,old\n");
  c.step("write and load a table of %s", show(t).c_str());
  curves::writeCSV(f, t);
  Table r = curves::loadCSV(f);
  c.check(r == t, "a table of %s comes back as %s", show(t).c_str(), show(r).c_str());
  c.observe((uint64_t)std::hash<std::string>()(slurp(f)));
}
static void tables(Ctx& c, int maxRows, int maxCols, const std::vector<std::string>& F) {
  Table t;
  int rows = 1 + c.choose(maxRows, "rows-1");
  for (int i = 0; i < rows; i++) {
    std::vector<std::string> r;
    int cols = 1 + c.choose(maxCols, "fields-1");
    for (int j = 0; j < cols; j++) r.push_back(c.pick(F, "field"));
    t.push_back(r);
  }
  roundTrip(c, t, t.size() % 2);
}
SCENARIO("C17", "C17.tables", mc::QUICK, "all tables of up to 2 rows of 1..3 fields out of 5 (empty, text, spaces, number, quotes), rows of any lengths") {
  static const std::vector<std::string> F = {"", "a", " x y ", "-1.5e+300", "\"q\";\t'"};
  tables(c, 2, 3, F);
}
SCENARIO("C17", "C17.bytes", mc::BOTH, "every character but comma, line breaks and zero x alone, first, in the middle or last in a field x 6 places of the field in a table") {
  int b = 1 + c.choose(255, "character");
  if (b == ',' || b == '\n' || b == '\r') return;
  int how = c.choose(4, "where in the field"), where = c.choose(6, "where in the table");
  std::string x(1, (char)b), f = how == 0 ? x : how == 1 ? x + "ab" : how == 2 ? "a" + x + "b" : "ab" + x;
  Table t = {{"p", "q", "r"}, {"s"}, {"t", "u"}};
  if (where == 0) t = {{f}};
  if (where == 1) t[0][0] = f;
  if (where == 2) t[0][2] = f;
  if (where == 3) t[1][0] = f;
  if (where == 4) t[2][1] = f;
  if (where == 5) t = {{f, f}, {f}, {"", f, ""}};
  roundTrip(c, t, false);
}
SCENARIO("C17", "C17.tables.rows", mc::BOTH, "all tables of up to 4 rows of 1..2 fields out of {empty, text}, and up to 3 rows of 1..3") {
  static const std::vector<std::string> F = {"", "v"};
  bool wide = c.flip("wide");
  tables(c, wide ? 3 : 4, wide ? 3 : 2, F);
}
SCENARIO("C17", "C17.tables.deep", mc::THOROUGH, "all tables of up to 3 rows of 1..3 fields out of {empty, text, blank, number}") {
  static const std::vector<std::string> F = {"", "ab", " ", "1.25"};
  tables(c, 3, 3, F);
}
SCENARIO("C17", "C17.tables.large", mc::BOTH, "shapes up to 5000 rows, 700 fields and fields of 100000 characters, around the sizes of stream buffers") {
  static const std::vector<std::pair<int, int>> S = {{1, 1}, {1, 700}, {5000, 1}, {300, 30}, {2, 2}, {17, 3}};
  static const std::vector<int> L = {0, 1, 2, 15, 16, 100, 1022, 1023, 1024, 4095, 4096, 8189, 8190, 8191, 8192, 8193, 16383, 16384, 100000};
  auto s = c.pick(S, "shape");
  int l = c.pick(L, "length of a field");
  if ((double)s.first * s.second * l > 2e7) return;
  int where = c.choose(3, "which fields are long");
  Table t(s.first, std::vector<std::string>(s.second));
  for (int i = 0; i < s.first; i++)
    for (int j = 0; j < s.second; j++) {
      bool lg = where == 0 || (where == 1 && i == 0 && j == 0) || (where == 2 && i == s.first - 1 && j == s.second - 1);
      t[i][j] = lg ? std::string(l, 'a' + (i * 3 + j) % 26) : (i + j) % 3 ? mc::fmt("%d", i * j) : "";
    }
  roundTrip(c, t, true);
}

static const std::vector<double>& numbers() {
  static const std::vector<double> v = {0,
                                        -0.0,
                                        1.0 / 3,
                                        -0.1,
                                        1234567890.1234567,
                                        std::numeric_limits<double>::max(),
                                        std::numeric_limits<double>::min(),
                                        std::numeric_limits<double>::denorm_min(),
                                        -std::nextafter(1.0, 2.0),
                                        9007199254740993.0,
                                        INF,
                                        -INF,
                                        1e-300,
                                        1,
                                        -2.5,
                                        100000,
                                        1e6 + 0.1,
                                        4.35,
                                        0.1 + 0.2,
                                        1e22,
                                        1e23};
  return v;
}
static bool same(double a, double b) { return mc::bits(a) == mc::bits(b); }
static void vectorTrip(Ctx& c, const std::vector<Time>& t, const Vecs& v, bool dirty) {
  Tidy tidy;
  std::string f = file();
  c.step("write and load %zu vectors of dimension %d, first time %.17g", t.size(), (int)v[0].size(), t[0]);
  if (dirty) {
    std::vector<Time> a(t.size() + 2, 7.5);
    Vecs b(t.size() + 2, Eigen::VectorXd::Constant(5, 8.25));
    curves::writeTimeVectorCSV(f, a, b);
  }
  curves::writeTimeVectorCSV(f, t, v);
  std::vector<Time> rt(3, 1.0);
  Vecs rv(2, Eigen::VectorXd::Constant(4, 3.0));
  curves::loadTimeVectorCSV(f, &rt, &rv);
  c.check(rt.size() == t.size() && rv.size() == v.size(), "%zu rows come back as %zu times and %zu vectors", t.size(), rt.size(), rv.size());
  for (size_t i = 0; i < t.size(); i++) {
    c.check(same(rt[i], t[i]), "time %zu: %.17g comes back as %.17g", i, t[i], rt[i]);
    c.check(rv[i].size() == v[i].size(), "vector %zu: dimension %d comes back as %d", i, (int)v[i].size(), (int)rv[i].size());
    for (int j = 0; j < v[i].size(); j++) c.check(same(rv[i][j], v[i][j]), "vector %zu entry %d: %.17g comes back as %.17g", i, j, v[i][j], rv[i][j]);
  }
  Table raw = curves::loadCSV(f);
  c.check(raw.size() == t.size(), "%zu rows in the file, not %zu", raw.size(), t.size());
  for (auto& r : raw) c.check((int)r.size() == 1 + v[0].size(), "%zu fields in a row, not %d", r.size(), 1 + (int)v[0].size());
  c.observe((uint64_t)std::hash<std::string>()(slurp(f)));
}
SCENARIO("C17", "C17.vectors", mc::BOTH, "times and vectors: up to 2 rows of dimension 1..2 with all values from 21 special numbers") {
  int rows = 1 + c.choose(2, "rows-1"), dim = 1 + c.choose(2, "dimension-1");
  std::vector<Time> t;
  Vecs v;
  for (int i = 0; i < rows; i++) {
    t.push_back(c.pick(numbers(), "time"));
    Eigen::VectorXd x(dim);
    if (rows == 1)
      for (int j = 0; j < dim; j++) x[j] = c.pick(numbers(), "entry");
    else {
      int k = c.choose((int)numbers().size(), "first entry");
      for (int j = 0; j < dim; j++) x[j] = numbers()[(k + j * 4) % numbers().size()];
    }
    v.push_back(x);
  }
  vectorTrip(c, t, v, rows == 2);
}
SCENARIO("C17", "C17.exponents", mc::BOTH, "every one of the 2046 exponents of a double x 16 mantissas x both signs, as times and as entries") {
  int block = c.choose(2046 / 33, "block of exponents");
  int sign = c.choose(2, "sign");
  static const uint64_t man[16] = {0, 1, 2, 0xFFFFFFFFFFFFFull, 0xFFFFFFFFFFFFEull, 0x8000000000000ull, 0x5555555555555ull, 0xAAAAAAAAAAAAAull,
                                   0x999999999999Aull, 0x7FFFFFFFFFFFFull, 0x8000000000001ull, 0x123456789ABCDull, 0xFEDCBA9876543ull, 0x0000000010000ull, 0x3333333333333ull, 0x921FB54442D18ull};
  std::vector<Time> t;
  Vecs v;
  for (uint64_t e = block * 33; e < (uint64_t)block * 33 + 33; e++)
    for (int m = 0; m < 16; m++) {
      uint64_t u = ((uint64_t)sign << 63) | (e << 52) | man[m];
      double d;
      memcpy(&d, &u, 8);
      t.push_back(d);
      Eigen::VectorXd x(2);
      u ^= 1;
      memcpy(&d, &u, 8);
      x[0] = -d;
      u ^= 0x400000000000ull;
      memcpy(&d, &u, 8);
      x[1] = d;
      v.push_back(x);
    }
  vectorTrip(c, t, v, false);
}
SCENARIO("C17", "C17.shapes", mc::BOTH, "dimensions 1..16, 50 and 500 x 1..20, 100, 3000 rows x 3 value patterns (constant, decreasing times, equal times)") {
  static const std::vector<int> D = {1, 2, 3, 4, 5, 6, 7, 8, 16, 50, 500}, N = {1, 2, 3, 4, 5, 9, 20, 100, 3000};
  int d = c.pick(D, "dimension"), n = c.pick(N, "rows"), p = c.choose(3, "pattern");
  if ((double)d * n > 3e5) return;
  std::vector<Time> t;
  Vecs v;
  for (int i = 0; i < n; i++) {
    t.push_back(p == 0 ? i * 0.1 : p == 1 ? -i / 3.0 : 1.5e9 + 1e-3);
    Eigen::VectorXd x(d);
    for (int j = 0; j < d; j++) x[j] = p == 0 ? 0.1 * j + i : std::sin(i * 17.0 + j) * std::pow(10.0, (i + j) % 40 - 20);
    v.push_back(x);
  }
  vectorTrip(c, t, v, p == 2);
}
SCENARIO("C17", "C17.twotimes", mc::BOTH, "files with two time columns: dimensions 1..4 x 1..3 rows x all pairs of 21 special numbers for the times of the first row") {
  int d = 1 + c.choose(4, "dimension-1"), n = 1 + c.choose(3, "rows-1");
  double a = c.pick(numbers(), "first time"), b = c.pick(numbers(), "second time");
  Tidy tidy;
  std::string f = file(), s;
  std::vector<Time> t0, t1;
  Vecs v;
  for (int i = 0; i < n; i++) {
    t0.push_back(i ? 10.5 * i : a);
    t1.push_back(i ? -3.25 * i : b);
    Eigen::VectorXd x(d);
    s += mc::fmt("%.17g,%.17g", t0[i], t1[i]);
    for (int j = 0; j < d; j++) {
      x[j] = i * 7 + j / 3.0;
      s += mc::fmt(",%.17g", x[j]);
    }
    s += "\n";
    v.push_back(x);
  }
  spew(f, s);
  c.step("load %d rows with two times", n);
  std::vector<Time> r0(2, 9.0), r1(5, 8.0);
  Vecs rv(1, Eigen::VectorXd::Constant(2, 1.0));
  curves::loadTimeTimeVectorCSV(f, &r0, &r1, &rv);
  c.check(r0.size() == (size_t)n && r1.size() == (size_t)n && rv.size() == (size_t)n, "%d rows are read as %zu, %zu, %zu", n, r0.size(), r1.size(), rv.size());
  for (int i = 0; i < n; i++) {
    c.check(same(r0[i], t0[i]) && same(r1[i], t1[i]), "row %d: times %.17g, %.17g are read as %.17g, %.17g", i, t0[i], t1[i], r0[i], r1[i]);
    c.check(rv[i].size() == d, "row %d: dimension %d read as %d", i, d, (int)rv[i].size());
    for (int j = 0; j < d; j++) c.check(same(rv[i][j], v[i][j]), "row %d entry %d: %.17g read as %.17g", i, j, v[i][j], rv[i][j]);
  }
  c.observe(mc::bits(a) * 3 + mc::bits(b));
}

namespace {
//! A C locale with a decimal comma, made in the scratch directory; empty if the tools for this are missing.
std::string commaLocale() {
  static std::string path = [] {
    std::string d = scratch() + "/locale", lock = scratch() + "/locale.lock", src = d + ".tmp.def";
    int fd = open(lock.c_str(), O_RDWR | O_CREAT, 0600);
    if (fd < 0 || flock(fd, LOCK_EX)) return std::string();
    if (access((d + "/xx").c_str(), F_OK)) {
      std::string t;
      for (const char* k : {"CTYPE", "COLLATE", "MONETARY", "TIME", "MESSAGES"}) t += mc::fmt("LC_%s\ncopy \"POSIX\"\nEND LC_%s\n", k, k);
      t += "LC_NUMERIC\ndecimal_point \"<U002C>\"\nthousands_sep \"<U002E>\"\ngrouping 3;3\nEND LC_NUMERIC\n";
      mkdir(d.c_str(), 0700);
      spew(src, t);
      if (system(mc::fmt("localedef -c -i '%s' -f UTF-8 '%s/xx' >/dev/null 2>&1 </dev/null", src.c_str(), d.c_str()).c_str())) {}
      unlink(src.c_str());
    }
    close(fd);
    return d;
  }();
  return path;
}
struct Comma : std::numpunct<char> {
  char do_decimal_point() const override { return ','; }
  char do_thousands_sep() const override { return '.'; }
  std::string do_grouping() const override { return "\3"; }
};
struct Points : std::numpunct<char> {
  char do_thousands_sep() const override { return ','; }
  std::string do_grouping() const override { return "\3"; }
};
//! What the program may have selected: C++ locale classic, decimal comma, grouped digits; C locale "C", decimal comma.
struct InLocale {
  std::locale old;
  bool c, usable = true;
  InLocale(int cpp, bool cLocale) : c(cLocale) {
    if (c) {
      setenv("LOCPATH", commaLocale().c_str(), 1);
      usable = setlocale(LC_NUMERIC, "xx") != nullptr;
    }
    if (cpp) old = std::locale::global(cpp == 1 ? std::locale(std::locale::classic(), new Comma) : std::locale(std::locale::classic(), new Points));
  }
  ~InLocale() {
    std::locale::global(old);
    setlocale(LC_NUMERIC, "C");
    unsetenv("LOCPATH");
  }
};
}  // namespace
SCENARIO("C17", "C17.locales", mc::BOTH, "3 C++ locales x 2 C locales (decimal point or comma, digits grouped or not) while saving x while loading x 21 special numbers, one or two times, and a table") {
  int cppS = c.choose(3, "C++ locale while saving"), cppL = c.choose(3, "C++ locale while loading");
  bool cS = c.flip("decimal comma in C while saving"), cL = c.flip("decimal comma in C while loading");
  double x = c.pick(numbers(), "number");
  int how = c.choose(3, "one time, two times, table");
  Tidy tidy;
  std::string f = file();
  c.step("save and load %.17g with other locales", x);
  std::vector<Time> t = {x, 1234567.25}, r0, r1;
  Vecs v(2, Eigen::VectorXd(2)), rv;
  v[0] << -0.5, x;
  v[1] << 1e22, 98765.4321;
  Table tab = {{mc::fmt("%.17g", x), "1.5"}, {"1234567", "x"}}, rt;
  {
    InLocale l(cppS, cS);
    if (!l.usable) return;
    if (how == 0) curves::writeTimeVectorCSV(f, t, v);
    if (how == 2) curves::writeCSV(f, tab);
  }
  if (how == 1) spew(f, mc::fmt("%.17g,%.17g,%.17g\n1234567.25,-8.5,1e22\n", x, -x, x));
  {
    InLocale l(cppL, cL);
    if (!l.usable) return;
    if (how == 0) curves::loadTimeVectorCSV(f, &r0, &rv);
    if (how == 1) curves::loadTimeTimeVectorCSV(f, &r0, &r1, &rv);
    if (how == 2) rt = curves::loadCSV(f);
  }
  if (how == 0) {
    c.check(r0.size() == 2 && rv.size() == 2 && rv[0].size() == 2 && rv[1].size() == 2, "2 rows of 2 entries come back in another shape (%zu times, %zu vectors)", r0.size(), rv.size());
    for (int i = 0; i < 2; i++)
      c.check(same(r0[i], t[i]) && same(rv[i][0], v[i][0]) && same(rv[i][1], v[i][1]), "row %d: %.17g, %.17g, %.17g come back as %.17g, %.17g, %.17g", i, t[i], v[i][0], v[i][1], r0[i],
              rv[i][0], rv[i][1]);
  } else if (how == 1) {
    c.check(r0.size() == 2 && r1.size() == 2 && rv.size() == 2 && rv[0].size() == 1 && rv[1].size() == 1, "2 rows with two times come back in another shape");
    c.check(same(r0[0], x) && same(r1[0], -x) && same(rv[0][0], x) && r0[1] == 1234567.25 && r1[1] == -8.5 && rv[1][0] == 1e22, "two times: %.17g is read as %.17g, %.17g, %.17g; %.17g %.17g %.17g", x,
            r0[0], r1[0], rv[0][0], r0[1], r1[1], rv[1][0]);
  } else
    c.check(rt == tab, "a table of %s comes back as %s", show(tab).c_str(), show(rt).c_str());
  c.observe(mc::bits(x) + how);
}

// ---------------------------------------------------------------- C18
namespace {
struct Job {
  std::string name;
  bool save;
  std::function<void(const std::string&)> prepare;                 // before the faults
  std::function<void(const std::string&, bool* complete)> run;     // the call, and whether its result is complete (loads)
  std::string content;                                             // what a complete save leaves
};
Table bigTable(int rows, int cols, int len) {
  Table t(rows, std::vector<std::string>(cols));
  for (int i = 0; i < rows; i++)
    for (int j = 0; j < cols; j++) t[i][j] = std::string(len, 'a' + (i * 5 + j) % 26);
  return t;
}
std::string text(const Table& t) {
  std::string s;
  for (auto& r : t) {
    for (size_t j = 0; j < r.size(); j++) s += (j ? "," : "") + r[j];
    s += "\n";
  }
  return s;
}
const std::vector<Job>& jobs() {
  static const std::vector<Job> v = [] {
    std::vector<Job> r;
    struct Sh {
      int rows, cols, len;
    };
    for (Sh s : {Sh{1, 1, 3}, Sh{3, 2, 4}, Sh{2, 2, 9000}, Sh{1, 3, 5000}, Sh{12, 1, 700}}) {
      Table t = bigTable(s.rows, s.cols, s.len);
      std::string nm = mc::fmt("a table of %d rows of %d fields of %d characters", s.rows, s.cols, s.len);
      r.push_back({"saving " + nm, true, [](const std::string& f) { spew(f, "old,content\n"); }, [t](const std::string& f, bool*) { curves::writeCSV(f, t); }, text(t)});
      r.push_back({"loading " + nm, false, [t](const std::string& f) { spew(f, text(t)); }, [t](const std::string& f, bool* ok) { *ok = curves::loadCSV(f) == t; }, ""});
    }
    std::vector<Time> times;
    Vecs vals;
    for (int i = 0; i < 4; i++) {
      times.push_back(0.5 * i);
      vals.push_back(Eigen::VectorXd::Constant(3, 0.25 * i));
    }
    std::string s = "0,0,0,0\n0.5,0.25,0.25,0.25\n1,0.5,0.5,0.5\n1.5,0.75,0.75,0.75\n";
    r.push_back({"saving 4 vectors", true, [](const std::string&) {}, [=](const std::string& f, bool*) { curves::writeTimeVectorCSV(f, times, vals); }, s});
    r.push_back({"loading 4 vectors", false, [s](const std::string& f) { spew(f, s); },
                 [=](const std::string& f, bool* ok) {
                   std::vector<Time> t;
                   Vecs v;
                   curves::loadTimeVectorCSV(f, &t, &v);
                   *ok = t == times && v.size() == 4;
                   for (size_t i = 0; i < v.size(); i++) *ok = *ok && v[i] == vals[i];
                 }, ""});
    r.push_back({"loading 4 vectors with two times", false, [s](const std::string& f) { spew(f, s); },
                 [=](const std::string& f, bool* ok) {
                   std::vector<Time> t, u;
                   Vecs v;
                   curves::loadTimeTimeVectorCSV(f, &t, &u, &v);
                   *ok = t == times && u.size() == 4 && v.size() == 4;
                   for (size_t i = 0; i < v.size(); i++) *ok = *ok && u[i] == vals[i][0] && v[i].size() == 2 && v[i][0] == vals[i][1] && v[i][1] == vals[i][2];
                 }, ""});
    return r;
  }();
  return v;
}
enum { DIFFERS = 81, NOFILTER = 82 };
//! Run a job with faults in a child; what came of it.
mc::Fate attempt(const Job& j, const std::string& f, const std::string& dir, const faultfs::Fault& f0, const faultfs::Fault& f1) {
  j.prepare(f);
  faultfs::arm(dir.c_str(), f0, f1);
  return mc::inChild([&] {
    signal(SIGPIPE, SIG_IGN);
    bool complete = true;
    if (!faultfs::install()) _exit(NOFILTER);
    faultfs::st().active = true;
    j.run(f, &complete);
    faultfs::st().active = false;
    if (!complete) _exit(DIFFERS);
  });
}
void judge(Ctx& c, const Job& j, const std::string& f, const mc::Fate& r, const char* what, bool hard, bool closeFails) {
  if (r.code == NOFILTER) {
    fprintf(stderr, "mc: no seccomp filters here\n");
    _exit(94);
  }
  if (r.kind == mc::Fate::Checked || r.kind == mc::Fate::Threw) {
    c.check(hard, "%s with %s reports an error although nothing failed for good", j.name.c_str(), what);
    return;
  }
  c.check(r.code != DIFFERS, "%s with %s returns incomplete or wrong data as if it had succeeded", j.name.c_str(), what);
  c.check(r.kind == mc::Fate::Returned, "%s with %s: %s", j.name.c_str(), what, r.text.c_str());
  if (j.save) {
    c.check(slurp(f) == j.content, "%s with %s returns as if it had succeeded, but the file is not complete", j.name.c_str(), what);
    c.check(!closeFails, "%s with %s returns as if it had succeeded", j.name.c_str(), what);
  }
}
const char* opName(int o) {
  static const char* n[] = {"open", "read", "write", "close", "sync", "other call"};
  return n[o];
}
struct Sort {
  faultfs::Kind k;
  int err;
  bool persistent;
  const char* nm;
};
std::vector<Sort> sorts(int op) {
  using namespace faultfs;
  switch (op) {
    case Open: return {{Fail, ENOENT, true, "ENOENT"}, {Fail, EACCES, true, "EACCES"}, {Fail, EMFILE, true, "EMFILE"}, {Fail, ENOSPC, true, "ENOSPC"}, {Fail, EISDIR, true, "EISDIR"}, {Fail, EIO, true, "EIO"}};
    case Write:
      return {{Fail, ENOSPC, true, "ENOSPC from then on"}, {Fail, ENOSPC, false, "ENOSPC once"}, {Fail, EIO, true, "EIO from then on"}, {Fail, EIO, false, "EIO once"}, {Fail, EDQUOT, true, "EDQUOT"},
              {Fail, EFBIG, true, "EFBIG"}, {Fail, EBADF, false, "EBADF once"}, {Short, 0, false, "half of the data"}, {Short, 1, false, "one byte"}, {Fail, EINTR, false, "EINTR once"}};
    case Read:
      return {{Fail, EIO, true, "EIO from then on"}, {Fail, EIO, false, "EIO once"}, {Fail, EISDIR, true, "EISDIR"}, {Short, 0, false, "half of the data"}, {Short, 1, false, "one byte"}, {Fail, EINTR, false, "EINTR once"}};
    case Close: return {{Fail, EIO, false, "EIO"}, {Fail, ENOSPC, false, "ENOSPC"}, {Fail, EDQUOT, false, "EDQUOT"}};
    case Sync: return {{Fail, EIO, false, "EIO"}, {Fail, ENOSPC, false, "ENOSPC"}};
    default: return {{Fail, EIO, true, "EIO"}, {Fail, ENOSPC, true, "ENOSPC"}};
  }
}
bool benign(const Sort& s) { return s.k == faultfs::Short || s.err == EINTR; }

void faults(Ctx& c, bool two) {
  const Job& j = c.pick(jobs(), "operation");
  Tidy tidy;
  std::string f = file();
  std::string dir = f.substr(0, f.rfind('/'));
  mc::Fate dry = attempt(j, f, dir, {}, {});
  judge(c, j, f, dry, "no fault", false, false);
  int n = faultfs::st().calls;
  c.check(n >= 3, "%s makes %d system calls on its file", j.name.c_str(), n);
  std::vector<int> op(faultfs::st().op, faultfs::st().op + n);
  int k = c.choose(n, "call that fails");
  auto ss = sorts(op[k]);
  const Sort& s = c.pick(ss, "failure");
  faultfs::Fault f0{k, s.k, s.err, s.persistent};
  std::string what = mc::fmt("%s at call %d (%s)", s.nm, k, opName(op[k]));
  c.step("%s, %s", j.name.c_str(), what.c_str());
  if (!two) {
    mc::Fate r = attempt(j, f, dir, f0, {});
    c.check(faultfs::st().hit[0] == 1, "call %d did not happen again", k);
    bool closes = op[k] == faultfs::Close || op[k] == faultfs::Sync || op[k] == faultfs::Other;
    judge(c, j, f, r, what.c_str(), !benign(s), closes && j.save);
    c.observe((uint64_t)((&j - &jobs()[0]) * 1000 + k * 16 + (&s - &ss[0]) + (r.kind << 20)));
    return;
  }
  // A partial or interrupted transfer first, and then another fault at one of the calls that follow.
  if (!benign(s)) return;
  attempt(j, f, dir, f0, {});
  int n2 = faultfs::st().calls;
  std::vector<int> op2(faultfs::st().op, faultfs::st().op + n2);
  if (k + 1 >= n2) return;
  int k2 = k + 1 + c.choose(std::min(3, n2 - k - 1), "second call that fails");
  auto ss2 = sorts(op2[k2]);
  const Sort& s2 = c.pick(ss2, "second failure");
  what += mc::fmt(", then %s at call %d (%s)", s2.nm, k2, opName(op2[k2]));
  c.step("%s, %s", j.name.c_str(), what.c_str());
  mc::Fate r = attempt(j, f, dir, f0, {k2, s2.k, s2.err, s2.persistent});
  bool closes = op2[k2] == faultfs::Close || op2[k2] == faultfs::Sync || op2[k2] == faultfs::Other;
  judge(c, j, f, r, what.c_str(), !benign(s2), closes && j.save);
  c.observe((uint64_t)((&j - &jobs()[0]) * 100000 + k * 1600 + (&s - &ss[0]) * 100 + (&s2 - &ss2[0]) + (r.kind << 24)));
}
}  // namespace
SCENARIO("C18", "C18.faults", mc::BOTH, "13 saves and loads x every system call on the file x every failure of it (open 6, write 10, read 6, close 3), including partial and interrupted transfers") { faults(c, false); }
SCENARIO("C18", "C18.faults.two", mc::BOTH, "the same operations x every partial or interrupted transfer x every failure of one of the next three calls") { faults(c, true); }
SCENARIO("C18", "C18.full", mc::BOTH, "saves that hit the size limit of the file system at every byte (up to 64 bytes, then every 97th and the last ones)") {
  const Job& j = c.pick(jobs(), "operation");
  if (!j.save) return;
  int size = (int)j.content.size();
  std::vector<int> L;
  for (int i = 0; i <= size; i++)
    if (i <= 64 || i % 97 == 0 || i >= size - 2) L.push_back(i);
  int l = c.pick(L, "limit");
  Tidy tidy;
  std::string f = file();
  unlink(f.c_str());
  c.step("%s, limit of %d bytes", j.name.c_str(), l);
  mc::Fate r = mc::inChild([&] {
    signal(SIGXFSZ, SIG_IGN);
    rlimit rl = {(rlim_t)l, (rlim_t)l};
    setrlimit(RLIMIT_FSIZE, &rl);
    bool ok = true;
    j.run(f, &ok);
  });
  judge(c, j, f, r, mc::fmt("room for %d of %d bytes", l, size).c_str(), l < size, false);
  if (l < size) c.check(r.kind == mc::Fate::Checked || r.kind == mc::Fate::Threw, "%s with room for %d of %d bytes returned", j.name.c_str(), l, size);
  c.observe((uint64_t)(size * 31 + r.kind));
}
SCENARIO("C18", "C18.places", mc::BOTH, "every operation on: a missing directory, a directory, a full device, an unreadable object, an empty name, a name that is too long, a missing file") {
  const Job& j = c.pick(jobs(), "operation");
  int p = c.choose(7, "place");
  Tidy tidy;
  std::string d = file();
  d = d.substr(0, d.rfind('/'));
  std::string f = p == 0 ? d + "/missing/x.csv" : p == 1 ? d : p == 2 ? "/dev/full" : p == 3 ? "/proc/self/mem" : p == 4 ? "" : p == 5 ? d + "/" + std::string(300, 'n') : d + "/nofile.csv";
  if (j.save && (p == 3 || p == 6)) return;
  if (!j.save && p == 2) return;
  c.step("%s at %s", j.name.c_str(), f.substr(0, 60).c_str());
  mc::Fate r = mc::inChild([&] {
    bool ok = true;
    j.run(f, &ok);
  });
  c.check(r.kind == mc::Fate::Checked || r.kind == mc::Fate::Threw, "%s at '%s' is not reported: %s", j.name.c_str(), f.substr(0, 60).c_str(), r.text.c_str());
  c.observe((uint64_t)(p * 2 + j.save));
}
