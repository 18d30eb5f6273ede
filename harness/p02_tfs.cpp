// P02: TFS write/read round trip
#include "mc.h"
#include "DataTableTFS.h"
#include <fstream>
#include <unistd.h>
using namespace std;
static const vector<double> DV{0., 1. / 3, -1e-9, 123456789.123456, 1e15, 1.2345678905e300, -4.9e-324, 2.3e-308, 1e-310, INFINITY, -INFINITY, NAN, 100000, 0.1, -1, 6.02214076e23, 12345678901234., 1e-5};
static const vector<int> IV{0, 1, -1, 2147483647, -2147483647 - 1, 123456789, -12345678, 42};
static const vector<string> SV{"", "a", "two words", "\t tab", " lead and trail ", "@", "*", "$", "%le", "12", "-1e5", "it's", "#!|\\", "QUADRUPOLE.12R5:B1/magnet_with_a_very_long_name_0123456789_0123456789_0123456789", "\xc3\xa9"};
static const vector<string> NAMES{"S", "NAME", "*", "@", "A.B", "$", "L-1", "A_LONG_COLUMN_NAME_EXCEEDING_THE_FIELD_WIDTH", "%d", "x", "7"};

static bool same(double a, double b)
{
	if(isnan(a))
		return isnan(b);
	if(isinf(a) || a == 0)
		return a == b;
	// ten significant digits; subnormals are exact to their spacing
	return fabs(a - b) <= 5.01e-10 * fabs(a) + 5e-324;
}
static void setv(DataTable& t, const string& n, size_t r, char ty, size_t k)
{
	if(ty == 'd')
		t.Set_d(n, r, DV[k % DV.size()]);
	else if(ty == 'i')
		t.Set_i(n, r, IV[k % IV.size()]);
	else
		t.Set_s(n, r, SV[k % SV.size()]);
}
static void setheader(DataTable& t, const string& n, char ty, size_t k)
{
	t.HeaderAddColumn(n, ty);
	if(ty == 'd')
		t.HeaderSet_d(n, DV[k % DV.size()]);
	else if(ty == 'i')
		t.HeaderSet_i(n, IV[k % IV.size()]);
	else
		t.HeaderSet_s(n, SV[k % SV.size()]);
}
static DataTable load(DataTable& t, int via, string& text)
{
	if(via == 0)
	{
		stringstream ss;
		ss.precision(3);
		DataTableWriterTFS w(&ss);
		w.Write(t);
		text = ss.str();
		MC_CHECK(ss.precision() == 3 && ss.flags() == stringstream().flags() && ss.fill() == ' ', "stream-state", "stream formatting changed by Write");
		return DataTableReaderTFS(&ss).Read();
	}
	{
		DataTableWriterTFS w("t.tfs");
		w.Write(t);
	}
	ifstream f("t.tfs");
	stringstream ss;
	ss << f.rdbuf();
	text = ss.str();
	DataTable r = DataTableReaderTFS("t.tfs").Read();
	unlink("t.tfs");
	return r;
}
static void roundtrip(DataTable& t, int via)
{
	string text;
	DataTable r;
	ostringstream desc;
	t.OutputAscii(desc);
	mc::note(desc.str());
	try
	{
		r = load(t, via, text);
	}
	catch(exception& e)
	{
		mc::fail("read-back-throws", string(e.what()) + " file: " + text);
	}
	mc::state(text);
	MC_CHECK(r.ColumnNames() == t.ColumnNames(), "columns", text);
	MC_CHECK(r.HeaderNames() == t.HeaderNames(), "headers", text);
	MC_CHECK(r.Length() == t.Length(), "length", "rows " << r.Length() << " expected " << t.Length() << " " << text);
	for(auto& n : t.HeaderNames())
	{
		char ty = t.GetHeaderType(n);
		MC_CHECK(r.GetHeaderType(n) == ty, "header-type", n << " " << text);
		MC_CHECK(ty == 'd' ? same(t.HeaderGet_d(n), r.HeaderGet_d(n)) : ty == 'i' ? t.HeaderGet_i(n) == r.HeaderGet_i(n) :
			t.HeaderGet_s(n) == r.HeaderGet_s(n), "header-value", n << " " << text);
	}
	for(auto& n : t.ColumnNames())
	{
		char ty = t.GetColumnType(n);
		MC_CHECK(r.GetColumnType(n) == ty, "type", n << " " << text);
		for(size_t i = 0; i < t.Length(); i++)
			MC_CHECK(ty == 'd' ? same(t.Get_d(n, i), r.Get_d(n, i)) : ty == 'i' ? t.Get_i(n, i) == r.Get_i(n, i) :
				t.Get_s(n, i) == r.Get_s(n, i), "value", n << "[" << i << "] " << text);
	}
	mc::outcome(text);
	if(t.Length() > 1)
		mc::sample(text);
}
static const string TY = "dis";
MC_SECTION("single_values")
{
	// every value alone in a column and in a header, by stream and by file
	char ty = TY[mc::choose(3)];
	size_t k = mc::choose(ty == 'd' ? DV.size() : ty == 'i' ? IV.size() : SV.size());
	string n = mc::pick(NAMES);
	int head = mc::choose(3), via = mc::choose(2);
	DataTable t;
	if(head != 1)
		setheader(t, n, ty, k);
	t.AddColumn(n, ty);
	if(head != 0)
	{
		t.AddRow();
		setv(t, n, 0, ty, k);
	}
	roundtrip(t, via);
}
MC_SECTION("value_pairs_in_a_row")
{
	char a = TY[mc::choose(3)], b = TY[mc::choose(3)];
	size_t i = mc::choose(a == 'd' ? DV.size() : a == 'i' ? IV.size() : SV.size());
	size_t j = mc::choose(b == 'd' ? DV.size() : b == 'i' ? IV.size() : SV.size());
	DataTable t;
	t.AddColumn("A", a);
	t.AddColumn("B", b);
	t.AddRow();
	setv(t, "A", 0, a, i);
	setv(t, "B", 0, b, j);
	roundtrip(t, 0);
}
MC_SECTION("shapes")
{
	// every shape: up to 2 headers, up to 3 columns, up to 3 rows; values rotate through the value sets
	int nh = mc::choose(3), nc = 1 + mc::choose(mc::thorough() ? 4 : 3), nr = mc::choose(4);
	DataTable t;
	size_t seed = mc::choose(mc::thorough() ? 18 : 6);
	for(int h = 0; h < nh; h++)
		setheader(t, NAMES[h], TY[mc::choose(3)], seed + 3 * h);
	string types;
	for(int c = 0; c < nc; c++)
	{
		types += TY[mc::choose(3)];
		t.AddColumn(NAMES[(c * 4 + seed) % NAMES.size()], types.back());
	}
	for(int r = 0; r < nr; r++)
	{
		t.AddRow();
		for(int c = 0; c < nc; c++)
			setv(t, t.ColumnNames()[c], r, types[c], seed + 5 * r + c);
	}
	roundtrip(t, 0);
}
MC_SECTION("second_generation")
{
	// writing what was read reproduces the same file
	char a = TY[mc::choose(3)], b = TY[mc::choose(3)], h = TY[mc::choose(3)];
	size_t k = mc::choose(18);
	DataTable t;
	setheader(t, "H", h, k);
	t.AddColumn("A", a);
	t.AddColumn("B", b);
	for(int r = 0; r < 3; r++)
	{
		t.AddRow();
		setv(t, "A", r, a, k + r);
		setv(t, "B", r, b, k + 2 * r);
	}
	stringstream s1, s2;
	DataTableWriterTFS(&s1).Write(t);
	string text = s1.str();
	DataTable r = DataTableReaderTFS(&s1).Read();
	DataTableWriterTFS(&s2).Write(r);
	mc::state(text);
	MC_CHECK(text == s2.str(), "fixpoint", text << " became " << s2.str());
}
