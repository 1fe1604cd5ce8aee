// P31: placeholder text consists of whole words in the requested casing and has about the requested length.
#include "coll.h"
#include <Strings/LoremIpsum.h>
#include <unordered_set>
static bool dice; static int rolls; static const int maxRolls = 5; static int tape[maxRolls];
// the random choices of the paragraph generator are branches of the exploration
static const int faces[] = { 0, 44, 1, 2, 3, 10, 20, 30 };
extern "C" int rand() noexcept { if (!dice) return 7; rolls++; return rolls <= maxRolls ? tape[rolls - 1] : faces[rolls % 8]; }
extern "C" void srand(unsigned) noexcept {}
static bool lower(wchar_t x) { return x >= L'a' && x <= L'z'; }
static bool upper(wchar_t x) { return x >= L'A' && x <= L'Z'; }
// the vocabulary: the words in the middle of a long text
static std::unordered_set<std::wstring>& vocabulary()
{
	static std::unordered_set<std::wstring>* v = nullptr;
	if (!v)
	{
		WString t = LoremIpsum(30000, LoremIpsumCasing::AllWordsLowerCase); mc::Untracked u; v = new std::unordered_set<std::wstring>; std::wstring w; std::vector<std::wstring> ws; for (vint i = 0; i < t.Length(); i++) if (t[i] == L' ') { ws.push_back(w); w.clear(); } else w += t[i];
		for (size_t i = 1; i + 1 < ws.size(); i++) v->insert(ws[i]);
	}
	return *v;
}
// splits a text into words, checks their form and casing; returns the length of the last one
static int words(const std::wstring& s, LoremIpsumCasing casing, const char* what, int* count = nullptr)
{
	size_t i = 0; int last = 0, n = 0;
	while (i < s.size())
	{
		size_t j = i; while (j < s.size() && s[j] != L' ') j++;
		MC_CHECK(j > i, "%s: two spaces in a row or a space at the start", what); if (j < s.size()) MC_CHECK(j + 1 < s.size(), "%s: a space at the end", what);
		for (size_t k = i; k < j; k++) { bool first = k == i; bool up = first && (casing == LoremIpsumCasing::AllWordsUpperCase || (casing == LoremIpsumCasing::FirstWordUpperCase && n == 0)); bool ok = up ? upper(s[k]) : lower(s[k]) || (k + 1 == j && k > i && s[k] == L';'); MC_CHECK(ok, "%s: the character at %zu has the wrong case or is no letter", what, k); }
		{ mc::Untracked u; std::wstring w = s.substr(i, j - i); if (upper(w[0])) w[0] += L'a' - L'A'; MC_CHECK(vocabulary().count(w), "%s: the word at %zu is not a whole word of the vocabulary", what, i); }
		last = (int)(j - i); n++; i = j + 1;
	}
	if (count) *count = n; return last;
}
static const int longest = 12; // no word of the vocabulary is longer
static std::wstring text(const WString& s) { return std::wstring(s.Buffer(), s.Length()); }
MC_SCENARIO(every_length, 64, 2)
{
	int n = c.range(-2, c.bound(120, 400)); auto casing = (LoremIpsumCasing)c.choose(3); int rounds = c.bound(120, 700); c.log("length %d casing %d, from every position of the vocabulary", n, (int)casing);
	for (int r = 0; r < rounds; r++)
	{
		auto s = text(LoremIpsum(n, casing)); int count = 0, last = words(s, casing, "text", &count); int len = (int)s.size(); c.step();
		if (n <= 0) MC_CHECK(len == 0, "a text of length %d has %d characters", n, len);
		else { MC_CHECK(count > 0, "a text of length %d is empty", n); MC_CHECK(len - last - 1 < n, "the text has %d characters, %d were requested: at least one word too many", len, n); MC_CHECK(len >= n - longest, "the text has %d characters, %d were requested: at least one word is missing", len, n); }
		auto one = text(LoremIpsum(1, LoremIpsumCasing::AllWordsLowerCase)); int w = 0; words(one, LoremIpsumCasing::AllWordsLowerCase, "word", &w); MC_CHECK(w == 1 && one.size() <= longest + 1, "a text of length 1 is not one word"); c.state(mc::hashBytes(one.data(), one.size() * 4, n * 3 + (int)casing));
	}
}
MC_SCENARIO(titles_and_sentences, 64, 2)
{
	int n = c.range(0, c.bound(120, 300));
	for (int r = 0; r < 60; r++)
	{
		auto t = text(LoremIpsumTitle(n)); int last = words(t, LoremIpsumCasing::AllWordsUpperCase, "title"); if (n > 0) MC_CHECK((int)t.size() - last - 1 < n && (int)t.size() >= n - longest && last > 0, "a title of length %d has %zu characters", n, t.size());
		auto s = text(LoremIpsumSentence(n)); MC_CHECK(!s.empty() && s.back() == L'.', "a sentence does not end with a period"); s.pop_back(); last = words(s, LoremIpsumCasing::FirstWordUpperCase, "sentence"); if (n > 0) MC_CHECK((int)s.size() - last - 1 < n && (int)s.size() >= n - longest && last > 0, "a sentence of length %d has %zu characters", n, s.size()); c.step(2);
	}
	c.state(n);
}
MC_SCENARIO(paragraphs, 64, 3)
{
	// start from the same position of the vocabulary every time
	dice = false; for (int i = 0; i < 2000; i++) if (LoremIpsum(1, LoremIpsumCasing::AllWordsLowerCase) == L"lorem") break;
	int n = c.range(2, c.bound(150, 200)); int skip = c.pick({ 0, 5, 40 }); for (int i = 0; i < skip; i++) LoremIpsum(1, LoremIpsumCasing::AllWordsLowerCase);
	for (auto& t : tape) t = faces[c.choose(c.bound(4, 8))]; dice = true; rolls = 0; auto s = text(LoremIpsumParagraph(n)); dice = false; c.step();
	std::string shown; for (auto x : s) shown += (char)x; c.log("length %d: %s", n, shown.c_str());
	MC_CHECK(!s.empty(), "a paragraph of length %d is empty", n); MC_CHECK(s.back() == L'.', "a paragraph does not end with a period: %s", shown.c_str());
	// sentences are separated by ". ", their parts by ", "; each part is a text of its own
	size_t i = 0; bool first = true;
	while (i < s.size()) { size_t j = i; while (j < s.size() && s[j] != L'.' && s[j] != L',') j++; MC_CHECK(j < s.size() && j > i, "a paragraph with an empty part: %s", shown.c_str()); words(s.substr(i, j - i), first ? LoremIpsumCasing::FirstWordUpperCase : LoremIpsumCasing::AllWordsLowerCase, "part of a paragraph"); first = s[j] == L'.'; if (j + 1 < s.size()) { MC_CHECK(s[j + 1] == L' ' && j + 2 < s.size(), "a separator without a space: %s", shown.c_str()); } i = j + 2; }
	MC_CHECK((int)s.size() >= n - 2 * longest && (int)s.size() <= n + 2 * longest, "a paragraph of length %d has %zu characters", n, s.size()); c.state(mc::hashBytes(s.data(), s.size() * 4, n));
}
MC_SCENARIO(large, 32, 2)
{
	int n = mc::bigSize(c, 100, c.bound(5000, 100000)), kind = c.choose(5), rounds = c.bound(4, 10); c.log("length %d kind %d", n, kind);
	for (int r = 0; r < rounds; r++)
	{
		auto casing = kind == 3 ? LoremIpsumCasing::AllWordsUpperCase : kind == 4 ? LoremIpsumCasing::FirstWordUpperCase : (LoremIpsumCasing)kind; auto s = text(kind == 3 ? LoremIpsumTitle(n) : kind == 4 ? LoremIpsumSentence(n) : LoremIpsum(n, casing)); if (kind == 4) { MC_CHECK(s.back() == L'.', "a sentence does not end with a period"); s.pop_back(); }
		int count = 0, last = words(s, casing, "long text", &count); MC_CHECK((int)s.size() - last - 1 < n && (int)s.size() >= n - longest && count > 1, "a text of length %d has %zu characters", n, s.size()); c.step(); c.state(mc::hashBytes(s.data(), s.size() * 4, kind));
		LoremIpsum(1, LoremIpsumCasing::AllWordsLowerCase);
	}
}
// nothing is asked for
MC_SCENARIO(not_positive, 4, 2)
{
	static const vint ns[] = { 0, -1, -2, -12, -18, -19, -20, -21, -22, -40, -1000, -100000, -2147483647, INTPTR_MIN + 1, INTPTR_MIN }; vint n = ns[c.choose(15)]; int kind = c.choose(6); c.log("length %ld kind %d", (long)n, kind);
	std::wstring s; bool raised = raises([&] { auto t = kind < 3 ? LoremIpsum(n, (LoremIpsumCasing)kind) : kind == 3 ? LoremIpsumTitle(n) : kind == 4 ? LoremIpsumSentence(n) : LoremIpsumParagraph(n); s = text(t); MC_CHECK(s == (kind == 4 ? L"." : L""), "a text of length %ld has %zu characters", (long)n, s.size()); }); c.step(); MC_CHECK(!raised, "raised an error"); c.state(mc::mix((uint64_t)n, kind));
}
