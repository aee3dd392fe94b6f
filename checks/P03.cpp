// P03: the verdict of the test runner for every combination of test results.
#include "mc.h"
#include <iostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <cppunit/TestAssert.h>
#include <cppunit/TestCase.h>
#include <cppunit/TestSuite.h>
#include <cppunit/extensions/TestFactory.h>
#include <cppunit/extensions/TestFactoryRegistry.h>
#include "icl_core_testsuite/test_suite.h"
using std::string; using std::vector;

enum Result { PASS, FAIL, ERROR, OTHER, SETUP, TEARDOWN, RESULTS };
static const char* const NAME[] = { "passes", "fails", "throws an exception", "throws a number", "fails in its preparation", "fails while cleaning up" };
static vector<int> g_ran;
struct Case : CPPUNIT_NS::TestCase
{
  int n; Result r;
  Case(int n, Result r) : TestCase("case" + std::to_string(n)), n(n), r(r) { }
  void setUp() { if (r == SETUP) CPPUNIT_ASSERT(false); }
  void tearDown() { if (r == TEARDOWN) CPPUNIT_ASSERT(false); }
  void runTest() { g_ran.push_back(n); if (r == FAIL) CPPUNIT_ASSERT_EQUAL(1, 2); if (r == ERROR) throw std::runtime_error("broken"); if (r == OTHER) throw 7; }
};
static vector<vector<Result>> g_suites;
struct Factory : CPPUNIT_NS::TestFactory
{
  CPPUNIT_NS::Test* makeTest()
  {
    CPPUNIT_NS::TestSuite* all = new CPPUNIT_NS::TestSuite("everything"); int n = 0, k = 0;
    for (auto& s : g_suites) { CPPUNIT_NS::TestSuite* t = new CPPUNIT_NS::TestSuite("suite" + std::to_string(k++)); for (Result r : s) t->addTest(new Case(n++, r)); all->addTest(t); }
    return all;
  }
};
static size_t count(const string& text, const string& what) { size_t n = 0; for (size_t p = text.find(what); p != string::npos; p = text.find(what, p + 1)) ++n; return n; }

static void verdicts()
{
  static const icl_core::TestResultOutputType TYPE[] = { icl_core::eTROT_Text, icl_core::eTROT_Compiler, icl_core::eTROT_Xml };
  icl_core::TestResultOutputType type = mc::pick(TYPE, "output");
  int suites = mc::choose(3, "suites"); vector<Result> all; string ctx;
  for (int i = 0; i < suites; ++i)
  {
    vector<Result> s; int n = mc::choose(mc::thorough() ? 4 : 3, "cases");
    for (int k = 0; k < n; ++k) { s.push_back(Result(mc::choose(RESULTS, "result"))); all.push_back(s.back()); ctx += string(" ") + NAME[s.back()] + ","; }
    ctx += " |"; g_suites.push_back(s);
  }
  Factory* f = new Factory; CPPUNIT_NS::TestFactoryRegistry::getRegistry().registerFactory(f);
  std::ostringstream text; std::streambuf* old = std::cerr.rdbuf(text.rdbuf());
  int rc = -1; bool thrown = false;
  try { rc = icl_core::runCppunitTestSuite(type); } catch (...) { thrown = true; }
  std::cerr.rdbuf(old);
  mc::transition(all.size());
  bool good = true; for (Result r : all) good &= r == PASS;
  string t = text.str();
  MC_CHECK(!thrown, "P03-exception", "an exception leaves the runner: %s", ctx.c_str());
  MC_CHECK((rc == 0) == good, "P03-verdict", "the runner returns %d:%s", rc, ctx.c_str());
  vector<int> want; for (size_t i = 0; i < all.size(); ++i) if (all[i] != SETUP) want.push_back(int(i));
  MC_CHECK(g_ran == want, "P03-once", "%zu of %zu tests ran:%s", g_ran.size(), want.size(), ctx.c_str());
  if (type == icl_core::eTROT_Xml)
  {
    for (size_t i = 0; i < all.size(); ++i) MC_CHECK(count(t, ">case" + std::to_string(i) + "<") == 1, "P03-report", "case%zu is not reported once: %s", i, t.c_str());
    return;
  }
  // one line for each test, with its result; another test's result has no influence on it
  std::istringstream in(t); string line; size_t n = 0;
  while (getline(in, line))
  {
    size_t p = line.find("Running case"); if (p == string::npos) continue;
    size_t i = size_t(atoi(line.c_str() + p + 12));
    MC_CHECK(i == n && i < all.size(), "P03-lines", "line %zu is '%s':%s", n, line.c_str(), ctx.c_str());
    bool ok = line.size() > 2 && line.compare(line.size() - 2, 2, "OK") == 0, failed = line.size() > 6 && line.compare(line.size() - 6, 6, "FAILED") == 0;
    MC_CHECK(ok == (all[i] == PASS) && failed == (all[i] != PASS), "P03-lines", "case%zu %s, and the line is '%s'", i, NAME[all[i]], line.c_str());
    ++n;
  }
  MC_CHECK(n == all.size(), "P03-lines", "%zu lines for %zu tests: %s", n, all.size(), t.c_str());
  for (int k = 0; k < suites; ++k) MC_CHECK(count(t, "suite" + std::to_string(k)) == 2 || type != icl_core::eTROT_Text, "P03-suites", "suite%d is not announced and finished: %s", k, t.c_str());
}
int main(int argc, char** argv) { return mc::run(argc, argv, { mc::Scenario("verdicts", verdicts).forked() }); }
