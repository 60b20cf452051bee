// C12: every written report is read back by expat and compared with what was recorded.
#include <expat.h>

#include <algorithm>
#include <cmath>
#include <fstream>
#include <memory>
#include <set>
#include <vector>

#include <simple_junit/junit5.hpp>
#include <simple_junit/test_suites.hpp>

#include "vh.hpp"
using namespace vh;

struct Node
{
  std::string name, text;
  std::map<std::string, std::string> attr;
  std::vector<std::unique_ptr<Node>> kids;
};
static std::unique_ptr<Node> parse(const std::string & s, std::string & err)
{
  struct Ctx { std::unique_ptr<Node> root; std::vector<Node *> stack; } c;
  XML_Parser p = XML_ParserCreate(nullptr);
  XML_SetUserData(p, &c);
  XML_SetElementHandler(
    p,
    [](void * u, const char * n, const char ** a) {
      auto & c = *static_cast<Ctx *>(u);
      auto e = std::make_unique<Node>();
      e->name = n;
      for (; *a; a += 2) e->attr[a[0]] = a[1];
      Node * raw = e.get();
      if (c.stack.empty()) c.root = std::move(e);
      else c.stack.back()->kids.push_back(std::move(e));
      c.stack.push_back(raw);
    },
    [](void * u, const char *) { static_cast<Ctx *>(u)->stack.pop_back(); });
  XML_SetCharacterDataHandler(p, [](void * u, const char * t, int n) {
    auto & c = *static_cast<Ctx *>(u);
    if (!c.stack.empty()) c.stack.back()->text.append(t, n);
  });
  if (XML_Parse(p, s.data(), int(s.size()), 1) == XML_STATUS_ERROR) {
    err = cat(XML_ErrorString(XML_GetErrorCode(p)), " at line ", XML_GetCurrentLineNumber(p));
    c.root.reset();
  }
  XML_ParserFree(p);
  return std::move(c.root);
}
static std::string slurp(const std::string & path)
{
  std::ifstream f(path, std::ios::binary);
  return {std::istreambuf_iterator<char>(f), {}};
}
static std::string text(Rng & r, bool word)
{
  static const std::vector<std::string> parts = {
    "a", "Z", "0", "_", "-", ".", "/", "<", ">", "&", "\"", "'", "&amp;", "&#10;", "]]>", "<!--", "-->", "<?", "é", "日本", "😀",
    "Simulator", "ego", "100%", "%s", "\\n", "=", ";", "  "};
  static const std::vector<std::string> ws = {" ", "\n", "\t", "\r", "\r\n"};
  std::string s;
  const int n = int(r.i(word ? 1 : 0, r.chance(0.05) ? 200 : 8));
  for (int i = 0; i < n; ++i) s += !word && r.chance(0.2) ? r.pick(ws) : r.pick(parts);
  return s;
}
static bool number(const Node & n, const std::string & key, double & v)
{
  auto it = n.attr.find(key);
  if (it == n.attr.end()) return false;
  char * e;
  v = std::strtod(it->second.c_str(), &e);
  return *e == 0 && !it->second.empty();
}
static std::string want_attr(const Node & n, const std::string & key, const std::string & value, bool omit_empty)
{
  auto it = n.attr.find(key);
  if (it == n.attr.end()) return omit_empty && value.empty() ? "" : cat("attribute ", key, " missing");
  return it->second == value ? "" : cat("attribute ", key, " is '", it->second, "' instead of '", value, "'");
}

// what any XML reader makes of line ends in character data
static std::string line_ends(const std::string & s)
{
  std::string r;
  for (std::size_t i = 0; i < s.size(); ++i)
    if (s[i] != '\r') r += s[i];
    else if (i + 1 >= s.size() || s[i + 1] != '\n') r += '\n';
  return r;
}

struct Case { std::string suite, name, description; double time; junit::TestResult result; };

// the total when the seconds of each suite are cut to whole ones (a recorded finding)
static double whole_seconds(const std::vector<Case> & model)
{
  std::map<std::string, double> by;
  for (auto & c : model) by[c.suite] += c.time;
  double total = 0;
  for (auto & [name, t] : by) total += std::floor(t);
  return total;
}

static void check_suites(const std::string & file, const std::vector<Case> & model, const std::string & story)
{
  std::string err;
  auto root = parse(file, err);
  if (!root) return fail("suites-malformed", cat(err, "\n", story, "\n", file.substr(0, 1500)));
  auto bad = [&](const std::string & k, const std::string & w) { fail("suites-" + k, cat(w, "\nafter ", story)); };
  if (root->name != "testsuites") return bad("root", "root element is " + root->name);
  std::map<std::string, std::vector<const Case *>> by;
  double total = 0;
  std::set<std::string> names;
  for (auto & c : model) { by[c.suite].push_back(&c); total += c.time; }
  double v;
  if (!number(*root, "time", v) || std::abs(v - total) > 1e-9 * (1 + std::abs(total)))
    bad(v == whole_seconds(model) ? "total-time-in-whole-seconds" : "total-time", cat("total time ", root->attr["time"], " but the cases sum up to ", total));
  if (!number(*root, "tests", v) || v != double(model.size()))
    bad(v == double(by.size()) ? "total-tests-counts-suites" : "total-tests", cat("total tests ", root->attr["tests"], " but ", model.size(), " cases were recorded"));
  for (auto & k : root->kids) {
    if (k->name != "testsuite") { bad("element", "unexpected element " + k->name); continue; }
    const auto & sn = k->attr["name"];
    if (!names.insert(sn).second) { bad("suite-twice", "suite '" + sn + "' is reported twice"); continue; }
    auto it = by.find(sn);
    if (it == by.end()) { bad("suite-invented", "suite '" + sn + "' was never recorded"); continue; }
    auto & cs = it->second;
    if (!number(*k, "tests", v) || v != double(cs.size()))
      bad("suite-tests", cat("suite '", sn, "' says tests=", k->attr["tests"], " instead of ", cs.size()));
    if (k->kids.size() != cs.size()) { bad("case-count", cat("suite '", sn, "' holds ", k->kids.size(), " cases instead of ", cs.size())); continue; }
    std::map<std::string, const Node *> seen;
    for (auto & c : k->kids) {
      if (c->name != "testcase") bad("element", "unexpected element " + c->name);
      if (!seen.emplace(c->attr["name"], c.get()).second) bad("case-twice", "case '" + c->attr["name"] + "' is reported twice");
    }
    for (auto * c : cs) {
      auto f = seen.find(c->name);
      if (f == seen.end()) { bad("case-lost", cat("case '", c->name, "' of suite '", sn, "' is missing")); continue; }
      const Node & n = *f->second;
      if (auto w = want_attr(n, "classname", sn, false); !w.empty()) bad("classname", w);
      if (!number(n, "time", v) || std::abs(v - c->time) > 1e-12 * (1 + std::abs(c->time)))
        bad("case-time", cat("case '", c->name, "' time ", const_cast<Node &>(n).attr["time"], " instead of ", c->time));
      const bool f0 = c->result == junit::TestResult::FAILURE, e0 = c->result == junit::TestResult::ERROR;
      std::size_t nf = 0, ne = 0;
      std::string desc;
      for (auto & x : n.kids) {
        if (x->name == "failure") { ++nf; desc = x->text; }
        else if (x->name == "error") { ++ne; desc = x->text; }
        else bad("element", "unexpected element " + x->name);
      }
      if (nf != std::size_t(f0) || ne != std::size_t(e0))
        bad("outcome", cat("case '", c->name, "' has ", nf, " failures and ", ne, " errors"));
      else if ((f0 || e0) && desc != line_ends(c->description))
        bad("description", cat("case '", c->name, "' description '", desc, "' instead of '", c->description, "'"));
    }
  }
  if (names.size() != by.size()) bad("suite-lost", cat(names.size(), " suites reported, ", by.size(), " recorded"));
}

static void run_suites(Rng & r, const std::string & path)
{
  junit::TestSuites suites;
  std::vector<Case> model;
  std::vector<std::string> sn, cn;
  for (int i = 0, n = int(r.i(1, 4)); i < n; ++i) sn.push_back(text(r, true));
  for (int i = 0, n = int(r.i(1, 8)); i < n; ++i) cn.push_back(text(r, true));
  std::string story;
  auto write = [&]() {
    if (r.chance(0.3)) { std::ofstream(path) << std::string(std::size_t(r.i(0, 5000)), 'x'); }
    current(story);
    suites.write(path);
    check_suites(slurp(path), model, story);
    count("reports read back");
  };
  for (int i = 0, n = int(r.i(0, 14)); i < n; ++i) {
    Case c{r.pick(sn), r.pick(cn), text(r, false),
           r.chance(0.3) ? double(r.i(0, 100)) : r.chance(0.1) ? 0.0 : r.r(0, 100) * std::pow(10.0, double(r.i(-4, 3))),
           junit::TestResult(r.i(0, 2))};
    story += cat("add(", c.suite, ", ", c.name, ", ", c.time, ", ", int(c.result), ", ", c.description, ")\n");
    current(story);
    bool there = false;
    for (auto & m : model) there |= m.suite == c.suite && m.name == c.name;
    if (suites.contains(c.suite, c.name) != there) fail("suites-contains", cat("contains() is ", !there, "\n", story));
    suites.addTestCase(c.suite, c.name, c.time, c.result, std::string("type"), c.description);
    if (!there) model.push_back(c);
    else count("duplicates offered");
    if (!suites.contains(c.suite, c.name)) fail("suites-contains", cat("a recorded case is not contained\n", story));
    double total = 0;
    for (auto & m : model) total += m.time;
    if (std::abs(double(suites.getTotalTime()) - total) > 1e-9 * (1 + total))
      fail(double(suites.getTotalTime()) == whole_seconds(model) ? "suites-getTotalTime-in-whole-seconds" : "suites-getTotalTime", cat("getTotalTime() = ", suites.getTotalTime(), " instead of ", total, "\n", story));
    if (r.chance(0.1)) write();
  }
  write();
  observed(story);
  sample(story.substr(0, 160));
}

struct M5 { std::map<std::string, std::map<std::string, struct T5>> s; };
struct T5
{
  std::vector<std::pair<std::string, std::string>> error, failure;
  int pass = 0;
  std::string time, classname, assertions, status;
};

static void check5(const std::string & file, const std::string & top, const std::map<std::string, std::map<std::string, T5>> & model, const std::string & story)
{
  std::string err;
  auto root = parse(file, err);
  auto bad = [&](const std::string & k, const std::string & w) { fail("junit5-" + k, cat(w, "\nafter ", story, "\n", file.substr(0, 1500))); };
  if (!root) return bad("malformed", err);
  if (root->name != "testsuites") return bad("root", "root element is " + root->name);
  if (auto w = want_attr(*root, "name", top, true); !w.empty()) bad("name", w);
  auto totals = [&](Node & n, std::size_t p, std::size_t f, std::size_t e) {
    double v;
    if (!number(n, "failures", v) || v != double(f)) bad("failures", cat(n.name, " '", n.attr["name"], "' failures=", n.attr["failures"], " instead of ", f));
    if (!number(n, "errors", v) || v != double(e)) bad("errors", cat(n.name, " '", n.attr["name"], "' errors=", n.attr["errors"], " instead of ", e));
    if (!number(n, "tests", v) || v != double(p + f + e)) bad("tests", cat(n.name, " '", n.attr["name"], "' tests=", n.attr["tests"], " instead of ", p + f + e));
  };
  std::size_t P = 0, F = 0, E = 0;
  std::set<std::string> names;
  for (auto & k : root->kids) {
    if (k->name != "testsuite") { bad("element", "unexpected element " + k->name); continue; }
    const auto & sn = k->attr["name"];
    if (!names.insert(sn).second) { bad("suite-twice", "suite '" + sn + "' is reported twice"); continue; }
    auto it = model.find(sn);
    if (it == model.end()) { bad("suite-invented", "suite '" + sn + "' was never recorded"); continue; }
    std::size_t p = 0, f = 0, e = 0;
    std::set<std::string> seen;
    for (auto & c : k->kids) {
      if (c->name != "testcase") { bad("element", "unexpected element " + c->name); continue; }
      if (!seen.insert(c->attr["name"]).second) bad("case-twice", "case '" + c->attr["name"] + "' is reported twice");
      auto m = it->second.find(c->attr["name"]);
      if (m == it->second.end()) { bad("case-invented", "case '" + c->attr["name"] + "' was never recorded"); continue; }
      for (auto [key, val] : {std::pair<const char *, const std::string *>{"time", &m->second.time}, {"classname", &m->second.classname}, {"assertions", &m->second.assertions}, {"status", &m->second.status}})
        if (auto w = want_attr(*c, key, *val, true); !w.empty()) bad(key, w);
      std::size_t ie = 0, jf = 0;
      for (auto & x : c->kids) {
        const bool er = x->name == "error";
        if (!er && x->name != "failure") { bad("element", "unexpected element " + x->name); continue; }
        auto & list = er ? m->second.error : m->second.failure;
        auto & i = er ? ie : jf;
        if (i >= list.size()) { bad("outcome-twice", x->name + " reported more often than recorded"); continue; }
        for (auto w : {want_attr(*x, "type", list[i].first, true), want_attr(*x, "message", list[i].second, true)})
          if (!w.empty()) bad("message", cat(x->name, " of '", c->attr["name"], "': ", w));
        ++i;
      }
      if (ie != m->second.error.size() || jf != m->second.failure.size()) bad("outcome-lost", cat("case '", c->attr["name"], "' reports ", ie, " errors and ", jf, " failures instead of ", m->second.error.size(), " and ", m->second.failure.size()));
    }
    for (auto & [n, m] : it->second) {
      if (!seen.count(n)) bad("case-lost", "case '" + n + "' is missing");
      p += std::size_t(m.pass); f += m.failure.size(); e += m.error.size();
    }
    totals(*k, p, f, e);
    P += p; F += f; E += e;
  }
  if (names.size() != model.size()) bad("suite-lost", cat(names.size(), " suites reported, ", model.size(), " recorded"));
  totals(*root, P, F, E);
}

static void run5(Rng & r, const std::string & path)
{
  using namespace common::junit;
  const std::string top = r.chance(0.3) ? "" : text(r, true);
  JUnit5 j(top);
  if (r.chance(0.3)) j.name = top;
  std::map<std::string, std::map<std::string, T5>> model;
  std::vector<std::string> sn, cn;
  for (int i = 0, n = int(r.i(1, 4)); i < n; ++i) sn.push_back(text(r, true));
  for (int i = 0, n = int(r.i(1, 6)); i < n; ++i) cn.push_back(text(r, true));
  std::string story;
  auto write = [&]() {
    current(story);
    if (r.chance(0.3)) { std::ofstream(path) << std::string(std::size_t(r.i(0, 5000)), 'x'); }
    if (r.chance(0.5)) j.write_to(path.c_str());
    else j.write_to(path.c_str(), "  ");
    check5(slurp(path), top, model, story);
    count("reports read back");
  };
  for (int i = 0, n = int(r.i(0, 14)); i < n; ++i) {
    const auto s = r.pick(sn), c = r.pick(cn), t = text(r, false), m = text(r, false);
    auto & tc = j.testsuite(s).testcase(c);
    auto & mc = model[s][c];
    const int what = int(r.i(0, 4));
    story += cat(s, " / ", c, ": ", what, " (", t, ", ", m, ")\n");
    current(story);
    if (what == 0) { tc.pass.push_back(Pass()); ++mc.pass; }
    else if (what == 1) { tc.error.push_back(Error(t, m)); mc.error.emplace_back(t, m); }
    else if (what == 2) { tc.failure.push_back(Failure(t, m)); mc.failure.emplace_back(t, m); }
    else if (what == 3) { tc.time = mc.time = std::to_string(r.r(0, 100)); tc.classname = mc.classname = t; }
    else { tc.assertions = mc.assertions = t; tc.status = mc.status = m; }
    if (r.chance(0.1)) write();
  }
  write();
  observed("5" + story);
}

int main(int argc, char ** argv)
{
  init(argc, argv);
  Rng r(st().seed);
  const std::string path = cat("report", getpid(), ".xml");
  for (std::uint64_t i = 0; i < n(3000, 60000); ++i) { run_suites(r, path); run5(r, path); }
  ::unlink(path.c_str());
  finish();
}
