// P04: glob patterns
#include "mc.h"
#include "StringPattern.h"
using namespace std;

static bool glob(const char* p, const char* s)
{
	if(!*p)
		return !*s;
	if(*p == '*')
		return glob(p + 1, s) || (*s && glob(p, s + 1));
	return *s == *p && glob(p + 1, s + 1);
}
static bool ref(const string& pat, const string& s)
{
	size_t b = 0;
	for(;;)
	{
		size_t e = pat.find('|', b);
		if(glob(pat.substr(b, e == string::npos ? e : e - b).c_str(), s.c_str()))
			return true;
		if(e == string::npos)
			return false;
		b = e + 1;
	}
}
static vector<string> words(const string& alpha, int maxlen)
{
	vector<string> r{""};
	size_t b = 0;
	for(int l = 1; l <= maxlen; l++)
	{
		size_t e = r.size();
		for(; b < e; b++)
			for(char c : alpha)
				r.push_back(r[b] + c);
	}
	return r;
}
static string word(const string& alpha, int maxlen)
{
	int len = mc::choose(maxlen + 1);
	string r;
	while(len--)
		r += alpha[mc::choose(alpha.size())];
	return r;
}
static void compare(const string& pat, const vector<string>& strs)
{
	if(pat.find('|') != string::npos && (pat[0] == '|' || pat.back() == '|' || pat.find("||") != string::npos))
		mc::prune(); // empty alternatives carry no stated meaning
	mc::note("pattern '" + pat + "'");
	mc::state(pat);
	StringPattern p(pat);
	StringPattern copy(p);
	ostringstream os;
	os << p;
	StringPattern printed(os.str());
	MC_CHECK(string(p) == pat, "string-form", "pattern '" << pat << "' converts to '" << string(p) << "'");
	int nm = 0;
	for(const string& s : strs)
	{
		bool want = ref(pat, s);
		nm += want;
		MC_CHECK(p.Match(s) == want, "match", "pattern '" << pat << "' string '" << s << "' expected " << want);
		MC_CHECK(p(s) == want, "match-call", "pattern '" << pat << "' string '" << s << "' expected " << want);
		MC_CHECK(copy.Match(s) == want, "match-copy", "copied pattern '" << pat << "' string '" << s << "' expected " << want);
		MC_CHECK(printed.Match(s) == want, "match-printed", "pattern '" << pat << "' printed '" << os.str() << "' string '" << s << "' expected " << want);
	}
	mc::outcome(to_string(nm));
	if(nm > 3 && pat.size() > 3)
		mc::sample("pattern '" + pat + "' matches " + to_string(nm) + " of " + to_string(strs.size()) + " strings");
}
MC_SECTION("two_letter_alternatives")
{
	static const vector<string> strs = words("ab", mc::thorough() ? 6 : 5);
	compare(word("ab*|", mc::thorough() ? 7 : 6), strs);
}
MC_SECTION("case_and_dots")
{
	static const vector<string> strs = words("aA.", 4);
	compare(word("aA.*", mc::thorough() ? 6 : 5), strs);
}
MC_SECTION("repeats_long")
{
	// repeated literals: the match must backtrack over earlier occurrences
	static const vector<string> strs = words("a1", mc::thorough() ? 9 : 8);
	static const vector<string> lits{"", "a", "aa", "1", "a1", "11", "1a1"};
	string pat = mc::pick(lits);
	int n = 1 + mc::choose(3);
	for(int i = 0; i < n; i++)
		pat += "*" + mc::pick(lits);
	compare(pat, strs);
}
MC_SECTION("three_alternatives")
{
	static const vector<string> strs = words("ab", 4);
	static const vector<string> alts{"a", "b", "*", "a*", "*b", "ab", "a*b", "*a*", "ba*"};
	string pat = mc::pick(alts) + "|" + mc::pick(alts) + "|" + mc::pick(alts);
	compare(pat, strs);
}
MC_SECTION("ordering")
{
	static const vector<string> pats = words("ab*", 3);
	string a = mc::pick(pats), b = mc::pick(pats);
	StringPattern A(a), B(b);
	mc::state(a + " " + b);
	MC_CHECK((A == B) == (a == b), "equality", a << " vs " << b);
	MC_CHECK((A < B) == (a < b), "order", a << " vs " << b);
}
