// C25: requests that cannot be met, for files of tables, times and vectors.
#include "mc.hpp"
#include <curves/helpers.hpp>
#include <fcntl.h>
#include <sys/stat.h>
using mc::Ctx;
using curves::Time;
typedef std::vector<std::vector<std::string>> Table;
typedef std::vector<Eigen::VectorXd> Vecs;

static std::string scratch() {
  const char* e = getenv("MC_SCRATCH");
  return e ? e : "/tmp";
}
struct File {
  std::string dir = mc::fmt("%s/refuse-%d", scratch().c_str(), (int)getpid()), name = dir + "/t.csv";
  File() { mkdir(dir.c_str(), 0700); }
  ~File() {
    unlink(name.c_str());
    rmdir(dir.c_str());
  }
  void put(const std::string& s) const {
    int fd = open(name.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (write(fd, s.data(), s.size()) != (ssize_t)s.size()) abort();
    close(fd);
  }
  std::string get() const {
    std::string s;
    int fd = open(name.c_str(), O_RDONLY);
    char b[4096];
    ssize_t n;
    while (fd >= 0 && (n = read(fd, b, sizeof b)) > 0) s.append(b, n);
    if (fd >= 0) close(fd);
    return s;
  }
};
static void refused(Ctx& c, const std::function<void()>& f, const std::string& what) {
  c.step("%s", what.c_str());
  mc::Fate r = mc::inChild(f);
  c.check(r.kind == mc::Fate::Checked || r.kind == mc::Fate::Threw, "%s is not refused: %s", what.c_str(), r.text.c_str());
}
static void accepted(Ctx& c, const std::function<void()>& f, const std::string& what) {
  c.step("%s", what.c_str());
  mc::Fate r = mc::inChild(f);
  c.check(r.kind == mc::Fate::Returned, "%s is refused: %s", what.c_str(), r.text.c_str());
}
SCENARIO("C25", "C25.tables", mc::BOTH, "tables of 0..5 rows of 0..3 fields each: refused exactly if there is no row or one without fields") {
  File f;
  int rows = c.choose(6, "rows");
  Table t;
  bool bad = rows == 0;
  std::string d;
  for (int i = 0; i < rows; i++) {
    int n = c.choose(rows > 4 ? 2 : 4, "fields");
    bad = bad || n == 0;
    t.push_back(std::vector<std::string>(n, mc::fmt("x%d", i)));
    d += mc::fmt(" %d", n);
  }
  if (c.flip("the file exists")) f.put("old,file\n");
  auto run = [&] { curves::writeCSV(f.name, t); };
  std::string what = mc::fmt("saving a table of %d rows with%s fields", rows, d.c_str());
  if (bad) refused(c, run, what);
  else accepted(c, run, what);
  c.observe(mc::mix(rows, bad));
}
SCENARIO("C25", "C25.vectors", mc::BOTH, "0..4 times x 0..4 vectors of dimension 0..3 each: refused exactly if numbers or dimensions differ or there are none, and then an existing file stays as it was") {
  File f;
  int n = c.choose(5, "times"), m = c.choose(5, "vectors");
  std::vector<Time> t;
  Vecs v;
  bool bad = n != m || n == 0;
  std::string d;
  for (int i = 0; i < n; i++) t.push_back(0.5 * i);
  for (int i = 0; i < m; i++) {
    int k = c.choose(4, "dimension");
    v.push_back(Eigen::VectorXd::Constant(k, 1.5 + i));
    bad = bad || k != v[0].size();
    d += mc::fmt(" %d", k);
  }
  if (!bad && v[0].size() == 0) return;  // nothing is said about these
  bool exists = c.flip("the file exists");
  const std::string old = "0.25,7,8\n0.75,9,10\n";
  if (exists) f.put(old);
  auto run = [&] { curves::writeTimeVectorCSV(f.name, t, v); };
  std::string what = mc::fmt("saving %d times and %d vectors of dimensions%s", n, m, d.c_str());
  if (bad) {
    refused(c, run, what);
    c.check(f.get() == (exists ? old : ""), "%s: the file has changed", what.c_str());
  } else
    accepted(c, run, what);
  c.observe(mc::mix(n * 8 + m, mc::mix(bad, exists)));
}
static void loads(Ctx& c, int maxRows, int maxFields) {
  File f;
  bool two = c.flip("two times");
  int need = two ? 3 : 2;
  int rows = c.choose(maxRows + 1, "rows");
  std::vector<int> k;
  std::string s, d;
  bool bad = rows == 0, even = true;
  for (int i = 0; i < rows; i++) {
    k.push_back(1 + c.choose(maxFields, "fields"));
    for (int j = 0; j < k[i]; j++) s += mc::fmt("%s%d.5", j ? "," : "", 10 * i + j);
    s += "\n";
    d += mc::fmt(" %d", k[i]);
    bad = bad || k[i] < need || k[i] < k[0];
    even = even && k[i] == k[0];
  }
  if (!bad && !even) return;  // longer rows: nothing is said about these
  f.put(s);
  auto run = [&] {
    std::vector<Time> a(3, 1.0), b(1, 2.0);
    Vecs v(2, Eigen::VectorXd::Constant(7, 3.0));
    if (two) curves::loadTimeTimeVectorCSV(f.name, &a, &b, &v);
    else curves::loadTimeVectorCSV(f.name, &a, &v);
    if (a.size() != (size_t)rows || v.size() != (size_t)rows || (two && b.size() != (size_t)rows)) _exit(85);
    for (auto& x : v)
      if (x.size() != k[0] - (two ? 2 : 1)) _exit(86);
  };
  std::string what = mc::fmt("loading a file of %d rows with%s fields as %s", rows, d.c_str(), two ? "two times and a vector" : "a time and a vector");
  if (bad) refused(c, run, what);
  else accepted(c, run, what);
  c.observe(mc::mix(rows, mc::mix(bad, two)));
}
SCENARIO("C25", "C25.files", mc::QUICK, "files of 0..3 rows of 1..5 fields, read with one or two times: refused exactly if there is no row, or one with too few fields or fewer than the first") { loads(c, 3, 5); }
SCENARIO("C25", "C25.files.deep", mc::THOROUGH, "files of 0..5 rows of 1..5 fields") { loads(c, 5, 5); }
SCENARIO("C25", "C25.outputs", mc::BOTH, "loads with every combination of missing outputs, of a good, an empty and a missing file") {
  File f;
  bool two = c.flip("two times");
  int k = c.choose(two ? 7 : 3, "outputs that are there"), file = c.choose(3, "file");  // not all of them
  if (file == 0) f.put("1,2,3,4\n5,6,7,8\n");
  if (file == 1) f.put("");
  std::vector<Time> a, b;
  Vecs v;
  refused(c, [&] {
    if (two) curves::loadTimeTimeVectorCSV(f.name, k & 1 ? &a : nullptr, k & 2 ? &b : nullptr, k & 4 ? &v : nullptr);
    else curves::loadTimeVectorCSV(f.name, k & 1 ? &a : nullptr, k & 2 ? &v : nullptr);
  }, mc::fmt("loading with outputs %d of %d", k, two ? 3 : 2));
}
