// P08: local displacements of frames, movers, mounts and girders, and AcceleratorErrors
#include "mc.h"
#include "ref3d.h"
#include "MerlinIO.h"
#include "SequenceFrame.h"
#include "ComponentFrame.h"
#include "MagnetMover.h"
#include "SupportStructure.h"
#include "AcceleratorSupport.h"
#include "AcceleratorModelConstructor.h"
#include "AcceleratorErrors.h"
#include "RandomNG.h"
#include "Components.h"
using namespace std;
typedef AcceleratorGeometry AG;
static T3 orbit(double s, double h)
{
	T3 t;
	double phi = h * s;
	t.X = h == 0 ? v3(0, 0, s) : v3(-2 * pow(sin(phi / 2), 2) / h, 0, sin(phi) / h);
	t.R = axisrot(1, -phi);
	return t;
}
static T3 toT3(const Transform3D& t)
{
	T3 r;
	for(int k = 0; k < 3; k++)
	{
		Vector3D e = t(Vector3D(k == 0, k == 1, k == 2));
		r.R.a[0][k] = e.x;
		r.R.a[1][k] = e.y;
		r.R.a[2][k] = e.z;
	}
	Point3D o = t(Point3D(0, 0, 0)); // -R X
	r.X = v3(0, 0, 0) - transpose(r.R) * v3(o.x, o.y, o.z);
	return r;
}
static double dist(const Transform3D& t, const T3& r)
{
	double e = 0;
	for(int k = 0; k < 4; k++)
	{
		V3 p = v3(k == 1, k == 2, k == 3), w = r.point(p);
		Point3D q = t(Point3D(p.v[0], p.v[1], p.v[2]));
		e = max({e, fabs(q.x - w.v[0]), fabs(q.y - w.v[1]), fabs(q.z - w.v[2])});
		if(isnan(q.x + q.y + q.z))
			return NAN;
	}
	return e;
}
#define SAME(t, r, key, msg) do { double mc_e_ = dist(t, r); MC_CHECK(mc_e_ < 1e-10, key, msg << " deviates by " << mc_e_); } while(0)

struct Node
{
	LatticeFrame* frame = nullptr;
	char kind = 'd'; // d drift b bend; S sequence M mover s simple mount g girder
	int mode = 1;
	double len = 0, h = 0, s_in = 0;
	vector<Node*> kids;
	Node* parent = nullptr;
	T3 local; // user transform
	double mx = 0, my = 0, mroll = 0; // mover
	vector<AcceleratorSupport*> sup;
	V3 off[2];
	bool seq() const
	{
		return isupper(kind) || kind == 's' || kind == 'g';
	}
	double origin() const
	{
		return !seq() || mode == 1 ? s_in + len / 2 : mode == 0 ? s_in : s_in + len;
	}
};
struct World
{
	vector<Node*> all;
	vector<AcceleratorComponent*> comps;
	Node* root = nullptr;
	string d;
	~World()
	{
		for(auto n : all)
		{
			delete n->frame;
			delete n;
		}
		for(auto c : comps)
			delete c;
	}
	Node* leaf(char k, double l, double h = 0)
	{
		Node* n = new Node;
		all.push_back(n);
		n->kind = k;
		n->len = l;
		n->h = h;
		string nm = string(1, k) + to_string(all.size());
		AcceleratorComponent* c = k == 'd' ? (AcceleratorComponent*) new Drift(nm, l) : new SectorBend(nm, l, h, 0.1);
		comps.push_back(c);
		n->frame = new ComponentFrame(*c);
		return n;
	}
	Node* box(char kind, int mode = 1)
	{
		Node* n = new Node;
		all.push_back(n);
		n->kind = kind;
		n->mode = mode;
		string nm = string(1, kind) + to_string(all.size());
		n->frame = kind == 'S' ? new SequenceFrame(nm, SequenceFrame::Origin(mode)) : kind == 'M' ? new MagnetMover(nm) :
			kind == 's' ? (SequenceFrame*) new SimpleMount(nm) : new GirderMount(nm);
		return n;
	}
	void add(Node* p, Node* k)
	{
		p->kids.push_back(k);
		k->parent = p;
		static_cast<SequenceFrame*>(p->frame)->AppendFrame(*k->frame);
		p->len += k->len;
	}
	void finish()
	{
		root->frame->ConsolidateConstruction();
		place(root, 0);
		for(Node* n : all)
			if(n->kind == 's' || n->kind == 'g')
			{
				AcceleratorSupportList l;
				int k = static_cast<SupportStructure*>(n->frame)->ExportSupports(l);
				MC_CHECK(k == (n->kind == 'g' ? 2 : 1) && int(l.size()) == k, "support-count", d);
				n->sup.assign(l.begin(), l.end());
				for(int i = 0; i < k; i++)
				{
					double s = n->kind == 's' ? n->origin() : n->s_in + i * n->len;
					T3 t = between(root->origin(), s);
					MC_CLOSE(n->sup[i]->GetArcPosition(), s - root->origin(), "support-position", d);
					MC_CLOSET(n->sup[i]->GetLocation().x, t.X.v[0], 1e-9, 1e-10, "support-location", d);
					MC_CLOSET(n->sup[i]->GetLocation().y, t.X.v[2], 1e-9, 1e-10, "support-location", d);
				}
			}
	}
	void place(Node* n, double s)
	{
		n->s_in = s;
		for(auto k : n->kids)
		{
			place(k, s);
			s += k->len;
		}
	}
	T3 design(Node* n, double s, bool& done) const
	{
		T3 t;
		if(!n->seq())
		{
			double u = min(max(s - n->s_in, 0.), n->len);
			done = s <= n->s_in + n->len + 1e-13;
			return orbit(u, n->h);
		}
		for(auto k : n->kids)
		{
			t = design(k, s, done) * t;
			if(done)
				break;
		}
		return t;
	}
	T3 between(double a, double b) const
	{
		bool f = false, g = false;
		return design(root, b, g) * inverse(design(root, a, f));
	}
	// the displacement of the frame from its design position
	T3 local(Node* n) const
	{
		if(n->kind == 'M')
			return ttransrot(n) * n->local;
		if(n->kind == 's')
		{
			V3 x = between(root->origin(), n->origin()).R * n->off[0];
			return n->local * ttrans(x.v[0], x.v[1], x.v[2]);
		}
		if(n->kind == 'g')
			return toT3(n->frame->GetLocalFrameTransform()); // checked separately
		return n->local;
	}
	static T3 ttransrot(Node* n)
	{
		return trot(2, n->mroll) * ttrans(n->mx, n->my, 0);
	}
	T3 physical(Node* n, Node* a) const
	{
		if(n == a)
			return T3();
		T3 t = local(n);
		return n->parent ? t * between(n->parent->origin(), n->origin()) * physical(n->parent, a) : t;
	}
	T3 boundary(Node* n, bool exit) const
	{
		if(!n->parent)
			return T3();
		T3 g = between(n->origin(), exit ? n->s_in + n->len : n->s_in);
		T3 t = g * local(n) * inverse(g);
		if((exit ? n->parent->kids.back() : n->parent->kids.front()) == n)
			t = t * boundary(n->parent, exit);
		return t;
	}
};
static void examine(World& w)
{
	for(Node* n : w.all)
	{
		LatticeFrame* f = n->frame;
		string m = w.d + " frame " + f->GetName();
		if(n->kind == 'g')
		{
			// the girder's entrance follows the first support exactly, its exit the second to first order
			T3 loc = toT3(f->GetLocalFrameTransform());
			T3 ts = inverse(n->local) * loc; // supports act first, then the user's transform
			T3 gi = w.between(n->origin(), n->s_in);
			T3 te = gi * ts * inverse(gi);
			V3 x1 = w.between(w.root->origin(), n->s_in).R * n->off[0], x2 = w.between(w.root->origin(), n->s_in).R * n->off[1];
			double d2 = 0;
			for(int i = 0; i < 3; i++)
			{
				MC_CLOSET(te.X.v[i], x1.v[i], 1e-9, 1e-10, "girder-entrance", m << " axis " << i);
				d2 += pow(x2.v[i] - x1.v[i], 2);
			}
			T3 g = w.between(n->s_in, n->s_in + n->len);
			V3 e = g.X; // exit point in the entrance axes
			V3 moved = te.X + transpose(te.R) * e;
			double tol = 4 * d2 / n->len + 1e-10;
			bool straight = fabs(g.X.v[0]) + fabs(g.X.v[1]) < 1e-12;
			if(straight)
				for(int i = 0; i < 2; i++)
					MC_CHECK(fabs(moved.v[i] - e.v[i] - x2.v[i]) < tol, "girder-exit", m << " axis " << i << " exit moved by " << moved.v[i] - e.v[i] << " second support by " << x2.v[i]);
			MC_CHECK(fabs(te.R.a[0][1]) < tol && fabs(te.R.a[1][0]) < tol, "girder-roll", m);
		}
		else
			SAME(f->GetLocalFrameTransform(), w.local(n), "local-transform", m);
		if(n->kind != 'M' && n->kind != 's' && n->kind != 'g')
			MC_CHECK(f->IsTransformed() == (dist(Transform3D(), n->local) > 1e-14), "is-transformed", m);
		if(n->kind == 'M')
		{
			MagnetMover* mm = static_cast<MagnetMover*>(f);
			MC_CLOSE(mm->GetX(), n->mx, "mover-x", m);
			MC_CLOSE(mm->GetY(), n->my, "mover-y", m);
			MC_CLOSE(mm->GetRoll(), n->mroll, "mover-roll", m);
		}
		for(size_t i = 0; i < n->sup.size(); i++)
		{
			Vector3D o = n->sup[i]->GetOffset();
			MC_CHECK(mc::close(o.x, n->off[i].v[0]) && mc::close(o.y, n->off[i].v[1]) && mc::close(o.z, n->off[i].v[2]), "support-offset", m);
		}
		for(Node* a = n->parent; a; a = a->parent)
		{
			SAME(f->GetPhysicalTransform(a->frame), w.physical(n, a), "physical", m << " in " << a->frame->GetName());
			T3 ft = a == n->parent ? w.local(n) : w.physical(n, a) * inverse(w.between(a->origin(), n->origin()));
			SAME(f->GetFrameTransform(a->frame), ft, "frame-transform", m << " in " << a->frame->GetName());
		}
		SAME(f->GetPhysicalTransform(), w.physical(n, nullptr), "physical-global", m);
		if(n->parent)
			SAME(f->GetLocalPhysicalTransform(), w.physical(n, n->parent), "physical-local", m);
		SAME(f->GetEntrancePlaneTransform(), w.boundary(n, false), "entrance-plane", m);
		SAME(f->GetExitPlaneTransform(), inverse(w.boundary(n, true)), "exit-plane", m);
		SAME(f->GetBoundaryPlaneTransform(AG::exit), w.boundary(n, true), "exit-boundary", m);
	}
}
// one operation on a frame; returns its name
static string apply(Node* n)
{
	LatticeFrame* f = n->frame;
	int extra = n->kind == 'M' ? 4 : n->kind == 's' ? 3 : n->kind == 'g' ? 6 : 0;
	int op = mc::choose((mc::thorough() ? 10 : 7) + extra);
	if(!mc::thorough())
		op = op < 7 ? vector<int>{0, 3, 5, 6, 7, 8, 9}[op] : op + 3;
	string r = f->GetName() + ":";
	T3 g = ttrans(1e-3, -2e-3, 5e-4);
	g = trot(0, 0.02) * trot(1, -0.03) * g;
	Transform3D lg = Transform3D::rotationX(0.02) * Transform3D::rotationY(-0.03) * Transform3D::translation(1e-3, -2e-3, 5e-4);
	switch(op)
	{
	case 0: f->TranslateX(1e-3); n->local = ttrans(1e-3, 0, 0) * n->local; return r + "tx";
	case 1: f->TranslateY(-2e-3); n->local = ttrans(0, -2e-3, 0) * n->local; return r + "ty";
	case 2: f->TranslateZ(0.01); n->local = ttrans(0, 0, 0.01) * n->local; return r + "tz";
	case 3: f->Translate(Vector3D(1e-3, 2e-3, 3e-3)); n->local = ttrans(1e-3, 2e-3, 3e-3) * n->local; return r + "t";
	case 4: f->RotateX(0.1); n->local = trot(0, 0.1) * n->local; return r + "rx";
	case 5: f->RotateY(-0.2); n->local = trot(1, -0.2) * n->local; return r + "ry";
	case 6: f->RotateZ(0.3); n->local = trot(2, 0.3) * n->local; return r + "rz";
	case 7: f->ApplyLocalFrameTransform(lg); n->local = g * n->local; return r + "apply";
	case 8: f->SetLocalFrameTransform(lg); n->local = g; return r + "set";
	case 9: f->ClearLocalFrameTransform(); n->local = T3(); return r + "clear";
	}
	op -= 10;
	if(n->kind == 'M')
	{
		MagnetMover* m = static_cast<MagnetMover*>(f);
		switch(op)
		{
		case 0: m->SetX(2e-3); n->mx = 2e-3; return r + "mx";
		case 1: m->SetY(-3e-3); n->my = -3e-3; return r + "my";
		case 2: m->SetRoll(0.15); n->mroll = 0.15; return r + "mroll";
		default: m->Reset(); n->mx = n->my = n->mroll = 0; return r + "mreset";
		}
	}
	int i = op / 3;
	switch(op % 3)
	{
	case 0: n->sup[i]->SetOffset(1e-3, 2e-3 - 1e-3 * i, -1e-3); n->off[i] = v3(1e-3, 2e-3 - 1e-3 * i, -1e-3); break;
	case 1: n->sup[i]->IncrementOffset(Vector3D(5e-4, -1e-3, 0)); n->off[i] = n->off[i] + v3(5e-4, -1e-3, 0); break;
	default: n->sup[i]->Reset(); n->off[i] = v3(0, 0, 0);
	}
	return r + "sup" + to_string(op);
}
static void build(World& w, bool few)
{
	int mode = mc::thorough() && !few ? mc::choose(3) : -1, place = few ? 1 : mc::choose(3), what = mc::choose(6), content = few ? 1 : mc::choose(2);
	w.root = w.box('S', mode < 0 ? place : mode);
	Node* b = what < 3 ? w.box('S', what) : w.box("Msg"[what - 3]);
	w.add(b, w.leaf('d', 0.7));
	w.add(b, content ? w.leaf('b', 1.1, 0.4) : w.leaf('d', 0.4));
	w.add(b, w.leaf('d', 0.2));
	if(place > 0)
		w.add(w.root, w.leaf('b', 0.9, 0.5));
	w.add(w.root, b);
	if(place < 2)
		w.add(w.root, w.leaf('d', 0.6));
	w.d = mc::S() << "root " << w.root->mode << " place " << place << " box " << what << (content ? " bent:" : " straight:");
	w.finish();
}
static void histories(int depth, bool few)
{
	World w;
	build(w, few);
	Node* box = w.root->kids[w.root->kids[0]->seq() ? 0 : 1];
	vector<Node*> targets{box, box->kids[0], w.root->kids[0] == box ? box->kids[2] : w.root->kids[0], w.root};
	examine(w);
	for(int i = 0; i < depth; i++)
	{
		int t = mc::choose(1 + int(few ? 2 : targets.size()));
		if(t == 0)
			break;
		w.d += " " + apply(targets[t - 1]);
		mc::note(w.d);
		mc::state(w.d);
		if(mc::fresh())
			examine(w);
	}
	mc::outcome(mc::S() << dist(Transform3D(), w.physical(box->kids[1], nullptr)));
	mc::sample(w.d);
}
MC_SECTION("histories")
{
	histories(mc::thorough() ? 3 : 2, false);
}
MC_SECTION("deeper_histories")
{
	// the displaced box and its first element only
	histories(3, true);
}
MC_SECTION("copies")
{
	// copies carry the displacement and are independent
	int what = mc::choose(4);
	World w;
	w.root = w.box('S', 1);
	Node* b = w.box("SMsg"[what]);
	w.add(b, w.leaf('d', 0.5));
	w.add(b, w.leaf('b', 0.5, 0.3));
	w.add(w.root, w.leaf('d', 0.3));
	w.add(w.root, b);
	w.finish();
	w.d = string("copy of ") + "SMsg"[what];
	w.d += " " + apply(b);
	w.d += " " + apply(b->kids[0]);
	mc::note(w.d);
	mc::state(w.d);
	unique_ptr<SequenceFrame> c(static_cast<SequenceFrame*>(b->frame->Copy()));
	MC_CHECK(c->GetType() == b->frame->GetType() && c->GetName() == b->frame->GetName(), "copy-type", w.d);
	if(what < 2)
		SAME(c->GetLocalFrameTransform(), w.local(b), "copy-transform", w.d);
	else
		SAME(c->LatticeFrame::GetLocalFrameTransform(), b->local, "copy-transform", w.d);
	if(what >= 2)
	{
		AcceleratorSupportList l;
		MC_CHECK(static_cast<SupportStructure*>(c.get())->ExportSupports(l) == what - 1 && l[0] != b->sup[0], "copy-supports", w.d);
	}
	c->TranslateX(0.5);
	if(what == 1)
		static_cast<MagnetMover*>(c.get())->SetY(0.25);
	SAME(b->frame->GetLocalFrameTransform(), w.local(b), "copy-independent", w.d);
	struct T: FrameTraverser
	{
		vector<LatticeFrame*> v;
		void ActOn(LatticeFrame* f) override
		{
			v.push_back(f);
		}
	} t;
	c->Traverse(t);
	MC_CHECK(t.v.size() == 3, "copy-size", w.d);
	SAME(t.v[1]->GetLocalFrameTransform(), w.local(b->kids[0]), "copy-sub-transform", w.d);
	for(size_t i = 1; i < t.v.size(); i++)
		delete t.v[i];
}
// AcceleratorErrors: means exactly, spreads by the library's generator in a fixed order, on matching frames only
MC_SECTION("errors")
{
	RandomNG::init(17);
	AcceleratorModelConstructor ctor;
	ctor.NewModel();
	vector<string> names{"q1", "d", "q2", "q12", "d"};
	vector<T3> local(names.size());
	for(size_t i = 0; i < names.size(); i++)
		if(names[i][0] == 'q')
			ctor.AppendComponent(new Quadrupole(names[i], 0.5, 0.1));
		else
			ctor.AppendComponent(new Drift(names[i], 1));
	unique_ptr<AcceleratorModel> model(ctor.GetModel());
	string d;
	int n = mc::thorough() ? 3 : 2;
	AcceleratorErrors e;
	ostringstream log;
	int lines = 0;
	if(mc::choose(2))
		e.Report(&log);
	else
		lines = -1000;
	static const vector<string> pats{"*", "q*", "*1*", "none", "q1"};
	for(int k = 0; k < n; k++)
	{
		bool add = mc::choose(2), rot = mc::choose(2);
		string pat = mc::pick(pats);
		static const double V[4][6] = {{0, 0, 0, 1e-3, -2e-3, 3e-3}, {1e-3, 2e-3, 3e-9, 0, 0, 0}, {0, 1e-3, 0, 1e-2, 0, 0}, {0, 0, 1e-9, 0, 1e-9, 0}};
		const double* v = V[mc::choose(4)];
		size_t from = mc::choose(2);
		AcceleratorModel::Beamline bl = from ? model->GetBeamline(1, 3) : model->GetBeamline();
		size_t to = from ? 3 : names.size() - 1;
		d += mc::S() << (add ? " add" : " set") << (rot ? "Rot(" : "Shift(") << pat << "," << v[0] << "," << v[3] << (from ? ",part)" : ")");
		if(add)
			e.AddErrors(v[0], v[1], v[2], v[3], v[4], v[5]);
		else
			e.SetErrors(v[0], v[1], v[2], v[3], v[4], v[5]);
		RandomNG::reset(99 + k);
		if(rot)
			e.ApplyRotations(bl, pat);
		else
			e.ApplyShifts(bl, pat);
		double after = RandomNG::uniform(0, 1);
		RandomNG::reset(99 + k);
		for(size_t i = from; i <= to; i++)
		{
			const string& m = names[i];
			bool hit = pat == "*" || (pat == "q*" && m[0] == 'q') || (pat == "*1*" && m.find('1') != string::npos) || pat == m;
			if(!hit)
				continue;
			if(!add)
				local[i] = T3();
			double x[3];
			for(int a = 0; a < 3; a++)
				x[a] = v[a] == 0 ? v[3 + a] : RandomNG::normal(v[3 + a], v[a] * v[a]);
			local[i] = (rot ? trot(2, x[2]) * trot(1, x[1]) * trot(0, x[0]) : ttrans(x[0], x[1], x[2])) * local[i];
			lines++;
		}
		MC_CHECK(RandomNG::uniform(0, 1) == after, "random-consumption", d);
		AcceleratorModel::Beamline all = model->GetBeamline();
		size_t i = 0;
		for(auto f : all)
		{
			T3 t = local[i];
			MC_CHECK(dist(f->GetLocalFrameTransform(), t) < 1e-12, "errors", d << " element " << i << " deviates by " << dist(f->GetLocalFrameTransform(), t));
			i++;
		}
		mc::state(d);
	}
	if(lines >= 0)
	{
		int c = 0;
		string s = log.str();
		for(char ch : s)
			c += ch == '\n';
		MC_CHECK(c == lines, "report-lines", d << " reported " << c << " of " << lines);
	}
	mc::sample(d);
}
