// P03: TFS reader: accepts exactly the well formed files, returns their content, rejects the rest with an exception
#include "mc.h"
#include "DataTableTFS.h"
using namespace std;
// ---- independent reference reader
struct Ref
{
	enum { OK, BAD, UNSPEC } verdict = OK;
	bool badformat = false; // must be a BadFormatException
	vector<pair<string, pair<char, string> > > head;
	vector<pair<string, char> > cols;
	vector<vector<string> > rows;
};
static vector<string> toks(const string& l, bool& odd)
{
	vector<string> r;
	size_t i = 0;
	while(i < l.size())
	{
		while(i < l.size() && strchr(" \t\r\f\v\n", l[i]))
			i++;
		if(i >= l.size())
			break;
		string t;
		bool q = false;
		for(; i < l.size() && (q || !strchr(" \t\r\f\v\n", l[i])); i++)
		{
			if(l[i] == '"')
				q = !q;
			else
				t += l[i];
		}
		odd |= q;
		r.push_back(t);
	}
	return r;
}
static char typ(const string& s)
{
	if(s == "%le" || s == "%e")
		return 'd';
	if(s == "%d")
		return 'i';
	if(s.size() >= 2 && s[0] == '%' && s.back() == 's' && s.find_first_not_of("0123456789", 1) == s.size() - 1)
		return 's';
	if(s.size() > 2 && s.back() == 's')
		return '?';
	return 0;
}
// 0 bad, 1 ok, 2 unspecified
static int value(char t, const string& s)
{
	if(t == 's')
		return 1;
	if(s.empty())
		return 0;
	char* e;
	if(t == 'd')
	{
		double v = strtod(s.c_str(), &e);
		if(e == s.c_str() || (isinf(v) && isdigit(s[s[0] == '-'])))
			return 0;
		return *e ? 2 : 1;
	}
	long v = strtol(s.c_str(), &e, 10);
	if(e == s.c_str() || v > 2147483647L || v < -2147483648L)
		return 0;
	return *e ? 2 : 1;
}
static Ref parse(const string& text)
{
	Ref r;
	vector<vector<string> > L;
	bool odd = false;
	{
		istringstream is(text);
		string l;
		while(getline(is, l))
			L.push_back(toks(l, odd));
	}
	auto bad = [&](bool fmt){
		if(r.verdict != Ref::UNSPEC)
		{
			r.verdict = Ref::BAD;
			r.badformat = fmt;
		}
		return r;
	};
	if(odd)
	{
		r.verdict = Ref::UNSPEC;
		return r;
	}
	size_t i = 0;
	set<string> seen;
	for(; i < L.size(); i++)
	{
		if(L[i].empty())
			continue;
		if(L[i][0] != "@")
			break;
		if(L[i].size() != 4)
			return bad(true);
		char t = typ(L[i][2]);
		if(t == 0)
			return bad(true);
		if(t == '?')
		{
			r.verdict = Ref::UNSPEC;
			return r;
		}
		if(!seen.insert(L[i][1]).second)
			return bad(false);
		int v = value(t, L[i][3]);
		if(v == 0)
			return bad(false);
		if(v == 2)
		{
			r.verdict = Ref::UNSPEC;
			return r;
		}
		r.head.push_back({L[i][1], {t, L[i][3]}});
	}
	if(i >= L.size() || L[i][0] != "*")
		return bad(true);
	vector<string> names(L[i].begin() + 1, L[i].end());
	i++;
	if(i >= L.size() || L[i].empty() || L[i][0] != "$")
		return bad(true);
	if(L[i].size() - 1 != names.size())
		return bad(true);
	seen.clear();
	bool dup = false;
	for(size_t k = 0; k < names.size(); k++)
	{
		char t = typ(L[i][k + 1]);
		if(t == 0)
			return bad(true);
		if(t == '?')
			r.verdict = Ref::UNSPEC;
		dup |= !seen.insert(names[k]).second;
		r.cols.push_back({names[k], t});
	}
	if(r.verdict == Ref::UNSPEC)
		return r;
	if(dup)
		return bad(false);
	for(i++; i < L.size(); i++)
	{
		if(L[i].empty())
			continue;
		if(L[i].size() != names.size())
			return bad(true);
		for(size_t k = 0; k < names.size(); k++)
		{
			int v = value(r.cols[k].second, L[i][k]);
			if(v == 0)
				return bad(false);
			if(v == 2)
			{
				r.verdict = Ref::UNSPEC;
				return r;
			}
		}
		r.rows.push_back(L[i]);
	}
	return r;
}
static void compare(const string& text)
{
	mc::note(text);
	mc::state(text);
	Ref r = parse(text);
	istringstream is(text);
	DataTable t;
	string got = "accepted";
	try
	{
		t = DataTableReaderTFS(&is).Read();
	}
	catch(BadFormatException&)
	{
		got = "badformat";
	}
	catch(exception& e)
	{
		got = "exception";
	}
	mc::step();
	mc::outcome(got + to_string(r.verdict) + to_string(t.Length()));
	if(r.verdict == Ref::UNSPEC)
		return;
	if(r.verdict == Ref::BAD)
	{
		MC_CHECK(got != "accepted", "malformed-accepted", text);
		if(r.badformat)
			MC_CHECK(got == "badformat", "not-badformat", text);
		return;
	}
	MC_CHECK(got == "accepted", "wellformed-rejected", got << ": " << text);
	MC_CHECK(t.Length() == r.rows.size(), "rows", text);
	MC_CHECK(t.ColumnNames().size() == r.cols.size() && t.HeaderNames().size() == r.head.size(), "shape", text);
	for(size_t k = 0; k < r.head.size(); k++)
	{
		const string& n = r.head[k].first;
		char ty = r.head[k].second.first;
		const string& v = r.head[k].second.second;
		MC_CHECK(t.HeaderNames()[k] == n && t.GetHeaderType(n) == ty, "header", n << " " << text);
		MC_CHECK(ty == 'd' ? t.HeaderGet_d(n) == strtod(v.c_str(), nullptr) : ty == 'i' ? t.HeaderGet_i(n) == atoi(v.c_str()) :
			t.HeaderGet_s(n) == v, "header-value", n << " " << text);
	}
	for(size_t k = 0; k < r.cols.size(); k++)
	{
		const string& n = r.cols[k].first;
		char ty = r.cols[k].second;
		MC_CHECK(t.ColumnNames()[k] == n && t.GetColumnType(n) == ty, "column", n << " " << text);
		for(size_t i = 0; i < r.rows.size(); i++)
		{
			const string& v = r.rows[i][k];
			MC_CHECK(ty == 'd' ? t.Get_d(n, i) == strtod(v.c_str(), nullptr) : ty == 'i' ? t.Get_i(n, i) == atoi(v.c_str()) :
				t.Get_s(n, i) == v, "value", n << " row " << i << " " << text);
		}
	}
	if(r.rows.size() > 1)
		mc::sample(text);
}
MC_SECTION("line_grammar")
{
	static const vector<string> lines{"@ H %d 5", "@ H %s", "@ H %q 5", "* A", "* A B", "$ %d", "$ %d %s", "$ %le %e", " 1", "2 \"x y\"", "word", "", "@ G %05s \"\"", "* A A"};
	int n = mc::choose(mc::thorough() ? 7 : 6);
	string text;
	for(int i = 0; i < n; i++)
		text += mc::pick(lines) + "\n";
	compare(text);
}
static const vector<vector<string> > BASES{
	{"@ NAME %04s \"Test\"", "@ N %d 12", "@ E %le 7.0e3", "* NAME S K N", "$ %s %le %le %d", " \"Q 1\" 1.5 -2e-3 4", " \"\" 0 1 -5"},
	{"* X", "$ %le", "1", "2", "3"},
	{"@ TYPE %s x", "", "* A B", "$ %d %s", "", "1 one", "", "2 two", ""},
	{"* NAME", "$ %s", "\"a b\"", "\"\"", "c"}};
static string join(const vector<string>& l, const string& nl = "\n")
{
	string r;
	for(auto& s : l)
		r += s + nl;
	return r;
}
static void mutateTokens(vector<string>& L)
{
	static const vector<string> repl{"", "x", "1", "@", "*", "$", "%d", "%s", "%le", "%q", "-", "1e999", "99999999999", "\"\"", "1 2"};
	size_t l = mc::choose(L.size());
	bool odd = false;
	vector<string> t = toks(L[l], odd);
	for(auto& s : t)
		if(s.empty() || s.find(' ') != string::npos)
			s = '"' + s + '"';
	size_t p = mc::choose(t.size() + 1);
	string r = mc::pick(repl);
	if(p == t.size())
		t.push_back(r);
	else
		t[p] = r;
	string s;
	for(auto& x : t)
		s += x + " ";
	L[l] = s;
}
MC_SECTION("token_mutations")
{
	vector<string> L = mc::pick(BASES);
	mutateTokens(L);
	if(mc::choose(2))
	{
		if(!mc::thorough() && L.size() > 5)
			mc::prune();
		mutateTokens(L);
	}
	compare(join(L));
}
MC_SECTION("line_mutations")
{
	vector<string> L = mc::pick(BASES);
	for(int k = 0; k < 2; k++)
	{
		int op = mc::choose(4);
		if(op == 0)
			continue;
		size_t a = mc::choose(L.size());
		if(op == 1)
			L.erase(L.begin() + a);
		else if(op == 2)
			L.insert(L.begin() + mc::choose(L.size() + 1), string(L[a]));
		else
			swap(L[a], L[mc::choose(L.size())]);
	}
	compare(join(L));
}
MC_SECTION("truncation")
{
	// every byte prefix, with three line endings / paddings
	const vector<string>& L = mc::pick(BASES);
	static const vector<string> nls{"\n", "\r\n", " \t\n", "\n\n"};
	string nl = mc::pick(nls);
	string t = join(L, nl);
	int pre = mc::choose(2);
	t = t.substr(0, mc::choose(t.size() + 1));
	compare((pre ? "\n \t\n" : "") + t);
}
MC_SECTION("byte_substitution")
{
	const vector<string>& L = mc::pick(BASES);
	static const string bytes = "\n \"@*$%ds1x\t-.";
	string t = join(L);
	t[mc::choose(t.size())] = bytes[mc::choose(bytes.size())];
	if(mc::thorough())
		t[mc::choose(t.size())] = bytes[mc::choose(bytes.size())];
	compare(t);
}
