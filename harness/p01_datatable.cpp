// P01: DataTable - every operation sequence up to a depth against a dictionary model
#include "mc.h"
#include "DataTable.h"
using namespace std;

struct Val
{
	char t;
	double d = 0;
	int i = 0;
	string s;
	string str() const
	{
		return t == 'd' ? to_string(d) : t == 'i' ? to_string(i) : s;
	}
	string key() const
	{
		return string(1, t) + str();
	}
};
struct Model
{
	vector<string> names, hnames;
	map<string, vector<Val> > cols;
	map<string, char> types;
	map<string, Val> head;
	size_t len = 0;
	string key() const
	{
		string k = to_string(len);
		for(auto& n : names)
		{
			k += ";" + n + types.at(n);
			for(auto& v : cols.at(n))
				k += "," + v.key();
		}
		k += "#";
		for(auto& n : hnames)
			k += ";" + n + head.at(n).key();
		return k;
	}
};
static Val zero(char t)
{
	Val v;
	v.t = t;
	return v;
}
static const vector<string> NAMES{"a", "b"};
static const vector<string> ALL{"a", "b", "zz"};

// outcome class of a call: "ok", exception class
template<class F> static string cls(F f)
{
	try
	{
		f();
		return "ok";
	}
	catch(WrongTypeException&)
	{
		return "wrongtype";
	}
	catch(out_of_range&)
	{
		return "range";
	}
	catch(invalid_argument&)
	{
		return "invalid";
	}
	catch(exception& e)
	{
		return string("other:") + e.what();
	}
}
static void compare(DataTable& dt, const Model& m, const string& hist)
{
	if(!mc::fresh())
		return;
	const DataTable& cdt = dt;
	MC_CHECK(dt.Length() == m.len, "length", hist << " length " << dt.Length() << " expected " << m.len);
	MC_CHECK(dt.ColumnNames() == m.names, "column-names", hist);
	MC_CHECK(dt.HeaderNames() == m.hnames, "header-names", hist);
	for(auto& n : ALL)
	{
		bool has = m.types.count(n), hh = m.head.count(n);
		MC_CHECK(cdt.HasCol(n) == has, "hascol", hist << " HasCol " << n);
		MC_CHECK(cdt.HeaderHasKey(n) == hh, "headerhaskey", hist << " HeaderHasKey " << n);
		string c = cls([&]{char t = dt.GetColumnType(n); if(t != m.types.at(n)) throw runtime_error("bad type");});
		MC_CHECK(c == (has ? "ok" : "range"), "columntype", hist << " GetColumnType " << n << " " << c);
		c = cls([&]{char t = dt.GetHeaderType(n); if(t != m.head.at(n).t) throw runtime_error("bad type");});
		MC_CHECK(c == (hh ? "ok" : "range"), "headertype", hist << " GetHeaderType " << n << " " << c);
		for(char t : string("dis"))
		{
			MC_CHECK(cdt.HasCol(n, t) == (has && m.types.at(n) == t), "hascol-type", hist << " HasCol " << n << t);
			MC_CHECK(cdt.HeaderHasKey(n, t) == (hh && m.head.at(n).t == t), "headerhaskey-type", hist << n << t);
			string want = !hh ? "range" : m.head.at(n).t != t ? "wrongtype" : "ok";
			string got = cls([&]{
				bool eq = t == 'd' ? cdt.HeaderGet_d(n) == m.head.at(n).d : t == 'i' ? cdt.HeaderGet_i(n) == m.head.at(n).i :
					cdt.HeaderGet_s(n) == m.head.at(n).s;
				if(!eq)
					throw runtime_error("value");
			});
			MC_CHECK(got == want, "header-get", hist << " HeaderGet_" << t << "(" << n << ") " << got << " expected " << want);
			for(size_t r = 0; r <= m.len + 1; r++)
			{
				want = !has ? "range" : m.types.at(n) != t ? "wrongtype" : r >= m.len ? "range" : "ok";
				got = cls([&]{
					Val v = zero(t);
					t == 'd' ? (void) (v.d = cdt.Get_d(n, r)) : t == 'i' ? (void) (v.i = cdt.Get_i(n, r)) : (void) (v.s = cdt.Get_s(n, r));
					const Val& w = m.cols.at(n).at(r);
					if(v.d != w.d || v.i != w.i || v.s != w.s)
						throw runtime_error("value");
				});
				MC_CHECK(got == want, "get", hist << " Get_" << t << "(" << n << "," << r << ") " << got << " expected " << want);
			}
		}
		for(size_t r = 0; r <= m.len; r++)
		{
			string want = !has || r >= m.len ? "range" : "ok";
			string got = cls([&]{if(cdt.GetAsStr(n, r) != m.cols.at(n).at(r).str()) throw runtime_error("value");});
			MC_CHECK(got == want, "getasstr", hist << " GetAsStr(" << n << "," << r << ") " << got);
		}
		string got = cls([&]{if(cdt.HeaderGetAsStr(n) != m.head.at(n).str()) throw runtime_error("value");});
		MC_CHECK(got == (hh ? "ok" : "range"), "headergetasstr", hist << " " << got);
	}
	// iteration sees each row once, in order, mutable and const, forward and backward
	size_t r = 0;
	for(auto row : dt)
	{
		MC_CHECK(r < m.len && row.get_pos() == r, "iterate", hist << " row " << r);
		for(auto& n : m.names)
			MC_CHECK(row.GetAsStr(n) == m.cols.at(n)[r].str(), "row-value", hist << " " << n << r);
		r++;
	}
	MC_CHECK(r == m.len, "iterate-count", hist << " iterated " << r);
	r = 0;
	for(auto& row : cdt)
	{
		for(auto& n : m.names)
		{
			MC_CHECK(row.GetAsStr(n) == m.cols.at(n)[r].str(), "crow-value", hist << " " << n << r);
			const Val& v = m.cols.at(n)[r];
			bool eq = v.t == 'd' ? row.Get_d(n) == v.d : v.t == 'i' ? row.Get_i(n) == v.i : row.Get_s(n) == v.s;
			MC_CHECK(eq, "crow-typed", hist);
		}
		r++;
	}
	MC_CHECK(r == m.len, "citerate-count", hist << " iterated " << r);
	MC_CHECK(dt.end() - dt.begin() == (ptrdiff_t) m.len, "distance", hist);
	MC_CHECK(cdt.end() - cdt.begin() == (ptrdiff_t) m.len, "cdistance", hist);
	// ascii output: a line per header, the column names, a line per row
	ostringstream os, want;
	cdt.OutputAscii(os);
	for(auto& n : m.hnames)
		want << n << "\t" << m.head.at(n).str() << "\n";
	for(auto& n : m.names)
		want << n << "\t";
	want << "\n";
	for(size_t i = 0; i < m.len; i++)
	{
		for(auto& n : m.names)
			want << m.cols.at(n)[i].str() << "\t";
		want << "\n";
	}
	MC_CHECK(os.str() == want.str(), "ascii", hist << " got [" << os.str() << "] expected [" << want.str() << "]");
}
static Val typed(char t, int k)
{
	Val v;
	v.t = t;
	if(t == 'd')
		v.d = k ? -2.5 : 1.25e7;
	else if(t == 'i')
		v.i = k ? -3 : 70000;
	else
		v.s = k ? "x y" : "";
	return v;
}
// one operation, applied to both; returns description
static string apply(DataTable& dt, Model& m, bool header, bool cols)
{
	vector<function<string()> > ops;
	if(cols)
		ops.push_back([&]() -> string {
			string n = mc::pick(NAMES);
			char t = string("disx")[mc::choose(4)];
			string want = m.types.count(n) ? "invalid" : t == 'x' ? "wrongtype" : "ok";
			string got = cls([&]{dt.AddColumn(n, t);});
			if(want == "ok")
			{
				m.names.push_back(n);
				m.types[n] = t;
				m.cols[n].assign(m.len, zero(t));
			}
			string d = "AddColumn(" + n + "," + t + ")";
			MC_CHECK(got == want, "addcolumn", d << " " << got << " expected " << want);
			return d;
		});
	if(cols)
		ops.push_back([&]() -> string {
			size_t p = dt.AddRow();
			for(auto& n : m.names)
				m.cols[n].push_back(zero(m.types[n]));
			MC_CHECK(p == m.len, "addrow-index", "AddRow returned " << p << " expected " << m.len);
			m.len++;
			return "AddRow()";
		});
	if(cols)
		ops.push_back([&]() -> string { // typed Set through three interfaces
			string n = mc::pick(ALL);
			char t = string("dis")[mc::choose(3)];
			size_t r = mc::choose(m.len + 1);
			int how = r < m.len ? mc::choose(3) : mc::choose(2);
			Val v = typed(t, (m.len + r) % 2);
			string want = !m.types.count(n) ? "range" : m.types[n] != t ? "wrongtype" : r >= m.len ? "range" : "ok";
			string got = cls([&]{
				if(how == 2)
				{
					auto it = dt.begin();
					it += r;
					t == 'd' ? (*it).Set_d(n, v.d) : t == 'i' ? (*it).Set_i(n, v.i) : (*it).Set_s(n, v.s);
				}
				else if(how == 1)
					t == 'd' ? dt.Set_d(n, r, v.d) : t == 'i' ? dt.Set_i(n, r, v.i) : dt.Set_s(n, r, v.s);
				else
					t == 'd' ? dt.Set(n, r, v.d) : t == 'i' ? dt.Set(n, r, v.i) : dt.Set(n, r, v.s);
			});
			string d = string("Set_") + t + "(" + n + "," + to_string(r) + "," + v.str() + ") via " + to_string(how);
			MC_CHECK(got == want, "set", d << " " << got << " expected " << want);
			if(want == "ok")
				m.cols[n][r] = v;
			return d;
		});
	if(cols)
		ops.push_back([&]() -> string { // SetWithStr
			static const vector<string> strs{"7", "-1.5e1", "word", ""};
			string n = mc::pick(ALL);
			string s = mc::pick(strs);
			size_t r = mc::choose(m.len + 1);
			string want = "ok";
			Val v;
			if(!m.types.count(n))
				want = "range";
			else
			{
				v.t = m.types[n];
				if(v.t == 's')
					v.s = s;
				else if(s == "7")
				{
					v.d = 7;
					v.i = 7;
				}
				else if(s == "-1.5e1" && v.t == 'd')
					v.d = -15;
				else if(s == "-1.5e1")
					mc::prune(); // text with trailing characters: unspecified
				else
					want = "invalid";
				if(want == "ok" && r >= m.len)
					want = "range";
				if(v.t == 'd')
					v.i = 0;
				else
					v.d = 0;
			}
			string got = cls([&]{dt.SetWithStr(n, r, s);});
			string d = "SetWithStr(" + n + "," + to_string(r) + ",'" + s + "')";
			if(want == "invalid" && got == "range" && r >= m.len)
				got = want; // both reasons apply
			MC_CHECK(got == want, "setwithstr", d << " " << got << " expected " << want);
			if(want == "ok")
				m.cols[n][r] = v;
			return d;
		});
	if(cols)
		ops.push_back([&]() -> string { // a copy is independent
			DataTable c(dt);
			Model mc_ = m;
			c.AddRow();
			if(!m.names.empty())
				c.SetWithStr(m.names[0], 0, "4");
			if(!c.HasCol("b"))
				c.AddColumn("b", 'i');
			DataTable e;
			e.AddRow();
			e = dt;
			compare(e, m, "assigned copy");
			return "copy";
		});
	if(header)
		ops.push_back([&]() -> string {
			string n = mc::pick(NAMES);
			char t = string("disx")[mc::choose(4)];
			string want = m.head.count(n) ? "invalid" : t == 'x' ? "wrongtype" : "ok";
			string got = cls([&]{dt.HeaderAddColumn(n, t);});
			if(want == "ok")
			{
				m.hnames.push_back(n);
				m.head[n] = zero(t);
			}
			string d = "HeaderAddColumn(" + n + "," + t + ")";
			MC_CHECK(got == want, "headeraddcolumn", d << " " << got << " expected " << want);
			return d;
		});
	if(header)
		ops.push_back([&]() -> string {
			string n = mc::pick(ALL);
			char t = string("dis")[mc::choose(3)];
			int k = mc::choose(2), how = mc::choose(2);
			Val v = typed(t, k);
			string want = !m.head.count(n) ? "range" : m.head[n].t != t ? "wrongtype" : "ok";
			string got = cls([&]{
				if(how)
					t == 'd' ? dt.HeaderSet_d(n, v.d) : t == 'i' ? dt.HeaderSet_i(n, v.i) : dt.HeaderSet_s(n, v.s);
				else
					t == 'd' ? dt.HeaderSet(n, v.d) : t == 'i' ? dt.HeaderSet(n, v.i) : dt.HeaderSet(n, v.s);
			});
			string d = string("HeaderSet_") + t + "(" + n + "," + v.str() + ")";
			MC_CHECK(got == want, "headerset", d << " " << got << " expected " << want);
			if(want == "ok")
				m.head[n] = v;
			return d;
		});
	if(header)
		ops.push_back([&]() -> string {
			static const vector<string> strs{"7", "word"};
			string n = mc::pick(ALL), s = mc::pick(strs);
			string want = "ok";
			Val v;
			if(!m.head.count(n))
				want = "range";
			else
			{
				v.t = m.head[n].t;
				if(v.t == 's')
					v.s = s;
				else if(s == "7")
					v.t == 'd' ? (void) (v.d = 7) : (void) (v.i = 7);
				else
					want = "invalid";
			}
			string got = cls([&]{dt.HeaderSetWithStr(n, s);});
			string d = "HeaderSetWithStr(" + n + ",'" + s + "')";
			MC_CHECK(got == want, "headersetwithstr", d << " " << got << " expected " << want);
			if(want == "ok")
				m.head[n] = v;
			return d;
		});
	return ops[mc::choose(ops.size())]();
}
static void explore(int depth, bool header, bool cols)
{
	DataTable dt;
	Model m;
	string hist;
	for(int i = 0; i < depth; i++)
	{
		hist += apply(dt, m, header, cols) + "; ";
		mc::note(hist);
		if(!mc::state(m.key() + "@" + to_string(i)))
		{
			compare(dt, m, hist); // reached by another history: same observations required, continuation already explored
			mc::outcome(m.key());
			return;
		}
		compare(dt, m, hist);
	}
	mc::outcome(m.key());
	mc::sample(hist);
}
MC_SECTION("columns_and_rows")
{
	explore(mc::thorough() ? 6 : 5, false, true);
}
MC_SECTION("headers")
{
	explore(mc::thorough() ? 6 : 5, true, false);
}
MC_SECTION("mixed")
{
	explore(mc::thorough() ? 5 : 4, true, true);
}
MC_SECTION("variadic_rows")
{
	// AddRow(v...) fills columns in order and type; wrong type raises WrongTypeException
	DataTable dt;
	char t1 = string("dis")[mc::choose(3)], t2 = string("dis")[mc::choose(3)];
	char a1 = string("dis")[mc::choose(3)], a2 = string("dis")[mc::choose(3)];
	int pre = mc::choose(3);
	dt.AddColumn("z", t1);
	dt.AddColumn("a", t2);
	for(int i = 0; i < pre; i++)
		dt.AddRow();
	string got = cls([&]{
		if(a1 == 'd' && a2 == 'd')
			dt.AddRow(1.5, 2.5);
		if(a1 == 'd' && a2 == 'i')
			dt.AddRow(1.5, 3);
		if(a1 == 'd' && a2 == 's')
			dt.AddRow(1.5, string("q"));
		if(a1 == 'i' && a2 == 'd')
			dt.AddRow(2, 2.5);
		if(a1 == 'i' && a2 == 'i')
			dt.AddRow(2, 3);
		if(a1 == 'i' && a2 == 's')
			dt.AddRow(2, "q");
		if(a1 == 's' && a2 == 'd')
			dt.AddRow("p", 2.5);
		if(a1 == 's' && a2 == 'i')
			dt.AddRow("p", 3);
		if(a1 == 's' && a2 == 's')
			dt.AddRow("p", "q");
	});
	bool ok = a1 == t1 && a2 == t2;
	mc::state(string() + t1 + t2 + a1 + a2 + to_string(pre));
	mc::outcome(got);
	MC_CHECK(got == (ok ? "ok" : "wrongtype"), "addrow-args", t1 << t2 << a1 << a2 << " " << got);
	if(ok)
	{
		MC_CHECK(dt.Length() == size_t(pre + 1), "addrow-args-length", dt.Length());
		string e1 = t1 == 'd' ? to_string(1.5) : t1 == 'i' ? "2" : "p", e2 = t2 == 'd' ? to_string(2.5) : t2 == 'i' ? "3" : "q";
		MC_CHECK(dt.GetAsStr("z", pre) == e1 && dt.GetAsStr("a", pre) == e2, "addrow-args-value", t1 << t2);
		for(int i = 0; i < pre; i++)
			MC_CHECK(dt.GetAsStr("z", i) == (t1 == 'd' ? to_string(0.0) : t1 == 'i' ? "0" : ""), "addrow-args-old", t1 << t2);
	}
}
template<class T, class It> static void iters(T& dt, int n)
{
	int i = mc::choose(n + 1), j = mc::choose(n + 1);
	It a = dt.begin() + i, b = dt.begin();
	b += j;
	mc::state(to_string(n) + "," + to_string(i) + "," + to_string(j));
	MC_CHECK((a == b) == (i == j) && (a != b) == (i != j) && (a < b) == (i < j) && (a <= b) == (i <= j) && (a > b) == (i > j)
		&& (a >= b) == (i >= j), "iter-compare", n << " " << i << " " << j);
	MC_CHECK(a - b == i - j, "iter-diff", n << " " << i << " " << j);
	MC_CHECK((a - (i - j)) == b && ((j - i) + a) == b, "iter-arith", n << " " << i << " " << j);
	It c = a;
	c -= (i - j);
	MC_CHECK(c == b, "iter-minuseq", i << j);
	if(i < n)
	{
		It d = a, e = a;
		MC_CHECK(d++ == a && d - a == 1 && ++e == d && --e == a && d-- - a == 1 && d == a, "iter-step", n << " " << i);
		MC_CHECK(a->get_pos() == size_t(i) && (*a).Get_i("v") == i * 10, "iter-deref", n << " " << i);
		if(j < n)
			MC_CHECK(a[j - i].Get_i("v") == j * 10, "iter-index", n << " " << i << " " << j);
	}
	MC_CHECK((int) std::distance(dt.begin(), dt.end()) == n, "iter-distance", n);
}
MC_SECTION("iterators")
{
	DataTable dt;
	dt.AddColumn("v", 'i');
	int n = mc::choose(mc::thorough() ? 8 : 5);
	for(int i = 0; i < n; i++)
		dt.AddRow(i * 10);
	const DataTable& c = dt;
	if(mc::choose(2))
		iters<DataTable, DataTableRowIterator>(dt, n);
	else
		iters<const DataTable, ConstDataTableRowIterator>(c, n);
}
