// P30: the unit test framework runs every test, reports every failure in its exit code and its counts, and nothing else.
#include "coll.h"
#include <UnitTest/UnitTest.h>
#include <sys/mman.h>
#include <unistd.h>
#include <iostream>
#include <memory>
#include <map>
using namespace vl::unittest;
// ---- programs: each file is a list of nodes -------------------------------------------------------------------
enum Kind { Case, Category, BareAssert, BareThrow, BarePass };
enum Action { Pass, AssertFails, ThrowsError, ThrowsException, ThrowsInt, ErrorSeen, ErrorMissing, ExceptionSeen, ExceptionMissing, ExceptionOther, ExceptionCheckFails, NestedCase, NestedCategory, ErrorOther, ActionCount };
struct Node { Kind kind; int action; int id; std::vector<Node> sub; };
static std::vector<Node> files[3]; static std::vector<int> executed; static int g_counter;
static void mark(int id) { executed.push_back(id); }
static void perform(int action, int id)
{
	mark(id * 10 + 1);
	switch (action)
	{
	case Pass: TEST_ASSERT(1 + 1 == 2); TEST_PRINT(L"information"); break;
	case AssertFails: TEST_ASSERT(1 + 1 == 3); break;
	case ThrowsError: CHECK_ERROR(false, L"an error"); break;
	case ThrowsException: throw Exception(L"an exception");
	case ThrowsInt: throw 5;
	case ErrorSeen: TEST_ERROR(CHECK_ERROR(false, L"an expected error")); break;
	case ErrorMissing: TEST_ERROR(g_counter++); break;
	case ErrorOther: TEST_ERROR(throw Exception(L"not an error")); break;
	case ExceptionSeen: TEST_EXCEPTION(throw ArgumentException(L"x"), Exception, [](const Exception& e) { TEST_ASSERT(e.Message() == L"x"); }); break;
	case ExceptionMissing: TEST_EXCEPTION(g_counter++, Exception, [](const Exception&) {}); break;
	case ExceptionOther: TEST_EXCEPTION(throw 7, Exception, [](const Exception&) {}); break;
	case ExceptionCheckFails: TEST_EXCEPTION(throw Exception(L"x"), Exception, [](const Exception& e) { TEST_ASSERT(e.Message() == L"y"); }); break;
	case NestedCase: TEST_CASE(L"inner") { mark(777777); }); break;
	case NestedCategory: TEST_CATEGORY(L"inner") { mark(777778); }); break;
	}
	mark(id * 10 + 2);
}
static bool passes(int action) { return action == Pass || action == ErrorSeen || action == ExceptionSeen; }
static void runNodes(const std::vector<Node>& nodes)
{
	for (auto& n : nodes)
	{
		switch (n.kind)
		{
		case Case: { const Node* p = &n; TEST_CASE(L"case " + itow(p->id)) { perform(p->action, p->id); }); mark(n.id * 10 + 3); break; }
		case Category: { const Node* p = &n; TEST_CATEGORY(L"category " + itow(p->id)) { mark(p->id * 10 + 1); runNodes(p->sub); mark(p->id * 10 + 2); }); mark(n.id * 10 + 3); break; }
		case BareAssert: mark(n.id * 10 + 1); TEST_ASSERT(true); mark(n.id * 10 + 2); break;
		case BareThrow: mark(n.id * 10 + 1); throw Exception(L"bare"); break;
		case BarePass: mark(n.id * 10 + 1); break;
		}
	}
}
static const char* const fileNames[] = { "some/dir/TestA.cpp", "some\\dir\\TestB.cpp" };
static UnitTestFile fileA(fileNames[0], [] { runNodes(files[0]); });
static UnitTestFile fileB(fileNames[1], [] { runNodes(files[1]); });
// ---- model ------------------------------------------------------------------------------------------------------
struct Line { int depth; char kind; std::string text; bool whole; }; // kind: File, Group (category), Case, Error, Info
struct Model { std::vector<Line> lines; std::vector<int> executed; int cases = 0, passedCases = 0; bool failed = false; };
static void outcome(Model& m, int action, int depth)
{
	static const char* text[] = { "", "1 + 1 == 3", "an error", "an exception", "", "", "g_counter++", "", "g_counter++", "", "e.Message() ==", "", "", "not an error" };
	if (action == Pass) m.lines.push_back({ depth, 'I', "information", true }); else if (!passes(action)) m.lines.push_back({ depth, 'E', text[action], action == ThrowsError || action == ThrowsException });
}
static bool model(Model& m, const std::vector<Node>& nodes, int depth = 1) // false: the rest of the enclosing block is skipped
{
	for (auto& n : nodes)
	{
		m.executed.push_back(n.id * 10 + 1);
		switch (n.kind)
		{
		case Case: m.lines.push_back({ depth, 'C', "case " + std::to_string(n.id), true }); outcome(m, n.action, depth + 1); m.cases++; if (passes(n.action)) { m.executed.push_back(n.id * 10 + 2); m.passedCases++; } else m.failed = true; m.executed.push_back(n.id * 10 + 3); break;
		case Category: m.lines.push_back({ depth, 'G', "category " + std::to_string(n.id), true }); if (model(m, n.sub, depth + 1)) m.executed.push_back(n.id * 10 + 2); else m.failed = true; m.executed.push_back(n.id * 10 + 3); break;
		case BareAssert: m.lines.push_back({ depth, 'E', "", false }); return false;
		case BareThrow: m.lines.push_back({ depth, 'E', "bare", true }); return false;
		case BarePass: break;
		}
	}
	return true;
}
static std::string describe(const std::vector<Node>& ns) { static const char* k[] = { "case", "category", "bare assertion", "bare throw", "statement" }; static const char* a[] = { "passes", "fails an assertion", "raises an error", "throws an exception", "throws an int", "expects an error", "expects an error in vain", "expects an exception", "expects an exception in vain", "expects another exception", "fails the check of an exception", "contains a case", "contains a category", "expects an error but gets an exception" }; std::string r = "{ "; for (auto& n : ns) { r += k[n.kind]; if (n.kind == Case) r += std::string(" that ") + a[n.action]; if (n.kind == Category) r += " " + describe(n.sub); r += "; "; } return r + "}"; }
// ---- running ----------------------------------------------------------------------------------------------------
// the report: one line for every file, category, case, printed text and failure, in order, deeper ones indented more, one colour per kind
static void checkReport(const std::string& out, const Model& m, const bool* run)
{
	mc::Untracked u; struct Seen { int indent; std::string colour, text; }; std::vector<Seen> seen; std::string colour, line, at;
	auto flush = [&] { if (line.empty()) return; size_t n = line.find_first_not_of(' '); if (n != std::string::npos) { Seen x{ (int)n, at, line.substr(n) }; bool skip = x.text.compare(0, 12, "Failures are") == 0 || x.text.compare(0, 12, "Passed test ") == 0; for (int f = 0; f < 2; f++) if (!run[f] && x.text.compare(0, strlen(fileNames[f]), fileNames[f]) == 0) skip = true; if (!skip) seen.push_back(x); } line.clear(); };
	for (size_t i = 0; i < out.size(); i++)
	{
		if (out[i] == 27) { size_t e = out.find('m', i); MC_CHECK(e != std::string::npos, "a broken escape sequence in the report"); colour = out.substr(i, e - i); i = e; }
		else if (out[i] == '\n') flush(); else if (out[i] != '\r' && out[i]) { if (line.empty()) at = colour; line += out[i]; }
	}
	flush();
	std::map<int, int> indents; std::map<char, std::string> colours;
	for (size_t i = 0; i < seen.size() || i < m.lines.size(); i++)
	{
		MC_CHECK(i < m.lines.size(), "the report has an unexpected line '%s'", seen[i].text.c_str()); auto& x = m.lines[i]; MC_CHECK(i < seen.size(), "the report has no line '%s'", x.text.c_str()); auto& y = seen[i];
		MC_CHECK(x.whole ? y.text == x.text : y.text.find(x.text) != std::string::npos, "line %zu of the report is '%s', expected '%s'", i, y.text.c_str(), x.text.c_str());
		auto d = indents.insert({ x.depth, y.indent }).first; MC_CHECK(d->second == y.indent, "line %zu '%s' of the report is indented by %d, others on its level by %d", i, y.text.c_str(), y.indent, d->second);
		auto k = colours.insert({ x.kind, y.colour }).first; MC_CHECK(k->second == y.colour, "line %zu '%s' of the report has another colour than others of its kind", i, y.text.c_str());
	}
	int last = -1; for (auto& d : indents) { MC_CHECK(d.second > last, "level %d of the report is not indented more than the one around it", d.first); last = d.second; }
	for (auto& a : colours) for (auto& b : colours) MC_CHECK(a.first == b.first || a.second != b.second, "kinds %c and %c have the same colour", a.first, b.first);
}
static void runProgram(Ctx& c, std::vector<const char*> options, bool runA, bool runB)
{
	c.log("A %s", describe(files[0]).c_str()); c.log("B %s", describe(files[1]).c_str()); for (auto o : options) c.log("option %s", o);
	Model m; int passedFiles = 0, total = 0; bool run[2] = { runA, runB };
	for (int f = 0; f < 2; f++) if (run[f]) { m.lines.push_back({ 0, 'F', fileNames[f], true }); bool before = m.failed; m.failed = false; if (!model(m, files[f])) m.failed = true; total++; if (!m.failed) passedFiles++; m.failed |= before; }
	int expected = passedFiles == total ? 0 : 1; executed.clear();
	std::vector<char*> argv; argv.push_back((char*)"program"); for (auto o : options) argv.push_back((char*)o);
	std::vector<std::wstring> ws; for (auto o : options) ws.push_back(std::wstring(o, o + strlen(o))); std::vector<wchar_t*> wargv; wargv.push_back((wchar_t*)L"program"); for (auto& w : ws) wargv.push_back((wchar_t*)w.c_str());
	int fd, saved; std::string out; int code; bool escaped = false;
	{
		mc::Untracked u; std::wcout.flush(); fflush(stdout); fd = memfd_create("out", 0); saved = dup(1); dup2(fd, 1);
	}
	try { code = options.size() % 2 ? UnitTest::RunAndDisposeTests((int)wargv.size(), wargv.data()) : UnitTest::RunAndDisposeTests((int)argv.size(), argv.data()); } catch (...) { escaped = true; }
	{
		mc::Untracked u; std::wcout.flush(); std::wcout.clear(); fflush(stdout); dup2(saved, 1); close(saved); lseek(fd, 0, SEEK_SET); char buf[4096]; ssize_t n; while ((n = read(fd, buf, sizeof(buf))) > 0) for (ssize_t i = 0; i < n; i++) if (buf[i]) out += buf[i]; close(fd);
	}
	MC_CHECK(!escaped, "an exception escaped from the test run");
	MC_CHECK(executed == m.executed, "the statements that ran are %s, expected %s", show(executed).c_str(), show(m.executed).c_str());
	MC_CHECK(code == expected, "the exit code is %d, expected %d", code, expected);
	char line[100]; snprintf(line, sizeof(line), "Passed test files: %d/%d", passedFiles, total); MC_CHECK(out.find(line) != std::string::npos, "the report does not say '%s'", line);
	snprintf(line, sizeof(line), "Passed test cases: %d/%d", m.passedCases, m.cases); MC_CHECK(out.find(line) != std::string::npos, "the report does not say '%s'", line);
	checkReport(out, m, run);
	c.step(); uint64_t h = mc::hashSeq(m.executed, code); c.state(mc::mix(h, m.passedCases));
}
static int nextId;
static Node caseNode(int action) { Node n; n.kind = Case; n.action = action; n.id = nextId++; return n; }
static Node anyNode(Ctx& c, int depth, const std::vector<int>& actions)
{
	Node n; n.id = nextId++; int k = c.choose(depth > 0 ? 5 : 4); n.action = 0;
	switch (k) { case 0: n.kind = Case; n.action = actions[c.choose((int)actions.size())]; break; case 1: n.kind = BarePass; break; case 2: n.kind = BareAssert; break; case 3: n.kind = BareThrow; break; case 4: { n.kind = Category; int count = c.choose(3); for (int i = 0; i < count; i++) n.sub.push_back(anyNode(c, depth - 1, actions)); break; } }
	return n;
}
struct Clean { ~Clean() { for (auto& f : files) { f.clear(); f.shrink_to_fit(); } executed.clear(); executed.shrink_to_fit(); } };
static void begin() { nextId = 1; for (auto& f : files) f.clear(); }
// every way a case can end, next to every other
MC_SCENARIO(case_outcomes, 16, 2)
{
	Clean clean; begin(); int a = c.choose(ActionCount), b = c.choose(ActionCount), where = c.choose(3); Node x = caseNode(a), y = caseNode(b), z = caseNode(Pass);
	if (where == 0) { files[0] = { x, y }; files[1] = { z }; } else if (where == 1) { files[0] = { x }; files[1] = { y, z }; } else { Node cat; cat.kind = Category; cat.action = 0; cat.id = nextId++; cat.sub = { x }; files[0] = { cat, y }; files[1] = { z }; }
	runProgram(c, { }, true, true);
}
// every small program over the structural constructs
MC_SCENARIO(programs, 64, 4)
{
	Clean clean; begin(); std::vector<int> actions = c.thorough ? std::vector<int>{ Pass, AssertFails, NestedCase, ThrowsInt } : std::vector<int>{ Pass, AssertFails };
	int n = c.choose(3); for (int i = 0; i < n; i++) files[0].push_back(anyNode(c, i == 0 ? 2 : c.bound(1, 1), actions)); if (c.flip()) files[1].push_back(caseNode(Pass)); runProgram(c, { "/R" }, true, true);
}
MC_SCENARIO(two_files, 64, 4)
{
	Clean clean; begin(); std::vector<int> actions{ Pass, AssertFails, ThrowsException }; for (int f = 0; f < 2; f++) { int n = c.choose(3); for (int i = 0; i < n; i++) files[f].push_back(anyNode(c, c.thorough ? 1 : 0, actions)); } runProgram(c, {}, true, true);
}
// selecting files, and option errors
MC_SCENARIO(options, 16, 3)
{
	Clean clean; begin(); struct O { const char* text; int what; }; // what: bit 0 selects A, bit 1 selects B, 4 no file matches, 8 error, 16 release, 32 debug
	static const O os[] = { { "/R", 16 }, { "/F:TestA.cpp", 1 }, { "/F:TestB.cpp", 2 }, { "/F:some/dir/TestA.cpp", 1 }, { "/F:dir/TestA.cpp", 1 }, { "/F:estA.cpp", 4 }, { "/F:TestA", 4 }, { "/F:other/some/dir/TestA.cpp", 4 }, { "/F:some\\dir\\TestB.cpp", 2 }, { "/F:", 8 }, { "/X", 8 }, { "TestA.cpp", 8 }, { "/r", 8 }, { "/D", 32 } };
	int n = c.choose(4), sum = 0; bool filter = false; std::vector<const char*> o; for (int i = 0; i < n; i++) { auto& x = os[c.choose(14)]; o.push_back(x.text); sum |= x.what; if (x.what & 7) filter = true; }
	bool failing = c.flip(); bool debug = (sum & 32) && !(sum & 16); files[0] = { caseNode(failing && !debug ? AssertFails : Pass) }; files[1] = { caseNode(Pass) };
	bool usage = (sum & 8) || ((sum & 16) && (sum & 32));
	if (!usage) { runProgram(c, o, !filter || (sum & 1), !filter || (sum & 2)); return; }
	for (auto t : o) c.log("option %s", t); std::vector<char*> argv; argv.push_back((char*)"program"); for (auto t : o) argv.push_back((char*)t); executed.clear(); int code = UnitTest::RunAndDisposeTests((int)argv.size(), argv.data()); { mc::Untracked u; std::wcout.flush(); fflush(stdout); }
	MC_CHECK(code != 0 && executed.empty(), "a wrong option: exit code %d, %zu statements ran", code, executed.size()); c.step(); c.state(1000 + sum);
}
// outside of a run nothing may be asserted or declared
MC_SCENARIO(outside, 1, 1)
{
	Clean clean; begin(); int k = c.choose(4); bool threw = false; c.log("operation %d outside of a run", k);
	try { if (k == 0) TEST_ASSERT(true); else if (k == 1) { TEST_CASE(L"x") { mark(1); }); } else if (k == 2) { TEST_CATEGORY(L"x") { mark(1); }); } else TEST_PRINT(L"x"); } catch (const UnitTestConfigError&) { threw = true; }
	MC_CHECK(threw && executed.empty(), "the operation did not raise a configuration error"); c.step(); c.state(k);
}
// many cases with failures at several places, and deeply nested categories
MC_SCENARIO(many_cases, 16, 2)
{
	Clean clean; begin(); int n = mc::bigSize(c, 3, c.bound(260, 2100)), at = c.choose(5), bad = c.pick({ (int)AssertFails, (int)ThrowsException, (int)NestedCase }), f = c.choose(2);
	for (int i = 0; i < n; i++) files[f].push_back(caseNode((at == 0 && i == 0) || (at == 1 && i == n / 2) || (at == 2 && i == n - 1) || (at == 3 && i % 2) ? bad : Pass)); files[1 - f] = { caseNode(Pass) }; runProgram(c, {}, true, true);
}
MC_SCENARIO(deep_categories, 16, 2)
{
	Clean clean; begin(); int n = c.range(1, c.bound(40, 200)), bad = c.choose(5), at = c.choose(3); at = at == 0 ? 0 : at == 1 ? n / 2 : n - 1; std::vector<Node> inner;
	for (int i = n - 1; i >= 0; i--) { Node k; k.kind = Category; k.action = 0; k.id = nextId++; k.sub.push_back(caseNode(Pass)); for (auto& x : inner) k.sub.push_back(x); if (i == at && bad) { Node x = caseNode(bad == 1 ? AssertFails : bad == 2 ? ThrowsInt : Pass); if (bad >= 3) x.kind = bad == 3 ? BareAssert : BareThrow; k.sub.push_back(x); } k.sub.push_back(caseNode(Pass)); inner = { k }; }
	files[0] = inner; files[1] = { caseNode(Pass) }; runProgram(c, {}, true, true);
}
