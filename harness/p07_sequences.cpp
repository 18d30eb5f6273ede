// P07: nested sequence frames
#include "mc.h"
#include "ref3d.h"
#include "MerlinIO.h"
#include "SequenceFrame.h"
#include "ComponentFrame.h"
#include "TComponentFrame.h"
#include "Drift.h"
#include "Marker.h"
#include "SectorBend.h"
using namespace std;
typedef AcceleratorGeometry AG;
static T3 orbit(double s, double h)
{
	T3 t;
	double phi = h * s;
	t.X = h == 0 ? v3(0, 0, s) : v3(-2 * pow(sin(phi / 2), 2) / h, 0, sin(phi) / h);
	t.R = axisrot(1, -phi);
	return t;
}
static double dist(const Transform3D& t, const T3& r)
{
	double e = 0;
	for(int k = 0; k < 4; k++)
	{
		V3 p = v3(k == 1, k == 2, k == 3), w = r.point(p);
		Point3D q = t(Point3D(p.v[0], p.v[1], p.v[2]));
		e = max({e, fabs(q.x - w.v[0]), fabs(q.y - w.v[1]), fabs(q.z - w.v[2])});
		if(isnan(q.x + q.y + q.z))
			return NAN;
	}
	return e;
}
#define SAME(t, r, key, msg) do { double mc_e_ = dist(t, r); MC_CHECK(mc_e_ < 1e-10, key, msg << " deviates by " << mc_e_); } while(0)
struct Leaf
{
	char kind; // d drift, b bend, m marker
	double l, h;
};
static const vector<Leaf> LEAVES{{'d', 1, 0}, {'b', 0.8, 0.5}, {'d', 0.1, 0}, {'m', 0, 0}, {'b', 0.3, -1.1}};
struct Node
{
	LatticeFrame* frame = nullptr;
	int mode = 1; // sequences: 0 entrance, 1 centre, 2 exit
	bool seq = false;
	Leaf leaf{};
	vector<Node*> kids;
	Node* parent = nullptr;
	double s_in = 0, len = 0; // entrance position along the whole line
	double origin() const // origin along the whole line
	{
		if(!seq)
			return s_in + len / 2;
		return mode == 0 ? s_in : mode == 1 ? s_in + len / 2 : s_in + len;
	}
};
struct World
{
	vector<Node*> all;
	vector<AcceleratorComponent*> comps;
	Node* root = nullptr;
	string d;
	~World()
	{
		for(auto n : all)
		{
			delete n->frame;
			delete n;
		}
		for(auto c : comps)
			delete c;
	}
	Node* leaf(const Leaf& L)
	{
		Node* n = new Node;
		all.push_back(n);
		n->leaf = L;
		n->len = L.l;
		string nm = string(1, L.kind) + to_string(all.size());
		AcceleratorComponent* c = L.kind == 'd' ? (AcceleratorComponent*) new Drift(nm, L.l) : L.kind == 'b' ?
			(AcceleratorComponent*) new SectorBend(nm, L.l, L.h, 0.1) : new Marker(nm);
		comps.push_back(c);
		n->frame = new ComponentFrame(*c);
		d += string(1, L.kind) + (L.l == 0.1 || L.l == 0.3 ? "' " : " ");
		return n;
	}
	Node* seqn(int mode)
	{
		Node* n = new Node;
		all.push_back(n);
		n->seq = true;
		n->mode = mode;
		n->frame = new SequenceFrame("s" + to_string(all.size()), SequenceFrame::Origin(mode));
		return n;
	}
	void add(Node* p, Node* k)
	{
		p->kids.push_back(k);
		k->parent = p;
		static_cast<SequenceFrame*>(p->frame)->AppendFrame(*k->frame);
		p->len += k->len;
	}
	void finish()
	{
		root->frame->ConsolidateConstruction();
		place(root, 0);
	}
	void place(Node* n, double s)
	{
		n->s_in = s;
		for(auto k : n->kids)
		{
			place(k, s);
			s += k->len;
		}
	}
	// design transform from the line entrance to position s
	T3 design(Node* n, double s, bool& done) const
	{
		T3 t;
		if(!n->seq)
		{
			double u = min(max(s - n->s_in, 0.), n->len);
			done = s <= n->s_in + n->len + 1e-13;
			return orbit(u, n->leaf.h);
		}
		for(auto k : n->kids)
		{
			t = design(k, s, done) * t;
			if(done)
				break;
		}
		return t;
	}
	T3 between(double a, double b) const
	{
		bool f = false, g = false;
		return design(root, b, g) * inverse(design(root, a, f));
	}
};
static int innermost = 99;
static Node* sub(World& w, int depth, int maxkids, int nleaf)
{
	Node* n = w.seqn(mc::choose(3));
	w.d += "012"[n->mode];
	w.d += "( ";
	int k = 1 + mc::choose(depth == 0 ? min(innermost, maxkids) : maxkids);
	for(int i = 0; i < k; i++)
	{
		int c = mc::choose(nleaf + (depth > 0));
		Node* kid = c < nleaf ? w.leaf(LEAVES[c]) : sub(w, depth - 1, maxkids > 2 ? 2 : maxkids, nleaf);
		w.add(n, kid);
	}
	w.d += ") ";
	return n;
}
static void examine(World& w)
{
	mc::note(w.d);
	mc::state(w.d);
	double L = w.root->len;
	for(Node* n : w.all)
	{
		LatticeFrame* f = n->frame;
		MC_CLOSE(f->GetGeometryLength(), n->len, "length", w.d);
		AG::Extent e = f->GetLocalGeometryExtent();
		MC_CLOSE(e.first, n->s_in - n->origin(), "extent-first", w.d);
		MC_CLOSE(e.second, n->s_in + n->len - n->origin(), "extent-second", w.d);
		if(n->parent)
		{
			MC_CLOSE(f->GetLocalPosition(), n->origin() - n->parent->origin(), "local-position", w.d);
			for(Node* a = n->parent; a; a = a->parent)
			{
				double pos = n->origin() - a->origin();
				MC_CLOSE(f->GetPosition(a->frame), pos, "position", w.d);
				AG::Extent x = f->GetGeometryExtent(a->frame);
				MC_CLOSE(x.first, n->s_in - a->origin(), "extent-in-frame", w.d);
				MC_CLOSE(x.second, n->s_in + n->len - a->origin(), "extent-in-frame", w.d);
				// the frame's own axes seen from an enclosing frame: along the design orbit
				SAME(f->GetPhysicalTransform(a->frame), w.between(a->origin(), n->origin()), "physical-transform", w.d << " " << f->GetName());
				SAME(f->GetFrameTransform(a->frame), T3(), "frame-transform", w.d << " undisplaced " << f->GetName());
			}
			MC_CLOSE(f->GetPosition(), n->origin() - w.root->origin(), "global-position", w.d);
			SAME(f->GetPhysicalTransform(), w.between(w.root->origin(), n->origin()), "global-physical", w.d);
			MC_CHECK(f->GetGlobalFrame() == w.root->frame && !f->IsGlobalFrame(), "global-frame", w.d);
		}
		else
			MC_CHECK(f->IsGlobalFrame() && f->GetGlobalFrame() == f, "global-frame", w.d);
		SAME(f->GetTotalGeometryTransform(), w.between(n->s_in, n->s_in + n->len), "total", w.d << " " << f->GetName());
		SAME(f->GetGeometryTransform(AG::entrance), w.between(n->origin(), n->s_in), "entrance", w.d << " " << f->GetName());
		SAME(f->GetGeometryTransform(AG::exit), w.between(n->origin(), n->s_in + n->len), "exit", w.d << " " << f->GetName());
		// interior: boundaries, middles and quarter points of the sub-frames
		vector<double> pts;
		if(n->seq)
		{
			for(auto k : n->kids)
			{
				pts.push_back(k->s_in);
				pts.push_back(k->s_in + 0.25 * k->len);
				pts.push_back(k->s_in + 0.5 * k->len);
			}
			pts.push_back(n->s_in + n->len);
			sort(pts.begin(), pts.end());
			pts.erase(unique(pts.begin(), pts.end(), [](double a, double b){return fabs(a - b) < 1e-12;}), pts.end());
			for(double a : pts)
			{
				for(double b : pts)
					SAME(f->GetGeometryTransform(a - n->origin(), b - n->origin()), w.between(a, b), "transform", w.d << " "
						<< f->GetName() << " from " << a << " to " << b);
				SAME(f->GetGeometryTransform(a - n->origin()), w.between(n->origin(), a), "transform-from-origin", w.d << " to " << a);
			}
			for(double out : {n->s_in - 1e-3, n->s_in + n->len + 1e-3})
			{
				bool thrown = false;
				try
				{
					f->GetGeometryTransform(n->s_in - n->origin(), out - n->origin());
				}
				catch(AG::BeyondExtent&)
				{
					thrown = true;
				}
				MC_CHECK(thrown, "beyond-extent", w.d);
			}
		}
	}
	bool g = false;
	T3 t = w.design(w.root, L, g);
	mc::outcome(mc::S() << t.X.v[0] << " " << t.X.v[2]);
	if(w.all.size() > 5)
		mc::sample(w.d);
}
MC_SECTION("flat")
{
	World w;
	w.root = sub(w, 0, mc::thorough() ? 5 : 4, LEAVES.size());
	w.finish();
	examine(w);
}
MC_SECTION("nested")
{
	World w;
	w.root = sub(w, 1, 2, mc::thorough() ? 4 : 3);
	w.finish();
	examine(w);
}
MC_SECTION("deeply_nested")
{
	World w;
	innermost = mc::thorough() ? 2 : 1;
	w.root = sub(w, 2, 2, 1);
	w.finish();
	examine(w);
}
MC_SECTION("ring_of_cells")
{
	// long regular line: positions accumulate rounding errors
	World w;
	w.root = w.seqn(mc::choose(3));
	int n = mc::choose(2) ? 37 : 12;
	int mode = mc::choose(3);
	double l = mc::choose(2) ? 0.1 : 1. / 3;
	for(int i = 0; i < n; i++)
	{
		Node* c = w.seqn(mode);
		w.add(c, w.leaf({'d', l, 0}));
		w.add(c, w.leaf({'m', 0, 0}));
		w.add(c, w.leaf({'b', 0.7, 2 * M_PI / n / 0.7}));
		w.add(w.root, c);
	}
	w.add(w.root, w.leaf({'m', 0, 0}));
	w.finish();
	w.d = mc::S() << "ring of " << n << " cells, modes " << w.root->mode << mode << " drift " << l;
	examine(w);
	T3 t = w.between(0, w.root->len);
	SAME(Transform3D(), T3(), "closure", w.d);
	MC_CHECK(fabs(t.R.a[0][2]) < 1e-9, "closure", w.d);
}
MC_SECTION("empty_sequences")
{
	World w;
	w.root = w.seqn(mc::choose(3));
	int n = mc::choose(4);
	for(int i = 0; i < n; i++)
		w.add(w.root, mc::choose(2) ? w.seqn(mc::choose(3)) : w.leaf(LEAVES[mc::choose(2)]));
	w.d = mc::S() << w.d << "with empty sequences, mode " << w.root->mode << " children " << n;
	w.finish();
	mc::note(w.d);
	mc::state(w.d);
	for(Node* x : w.all)
		if(x->seq && x->kids.empty())
		{
			MC_CHECK(x->frame->GetGeometryLength() == 0, "empty-length", w.d);
			SAME(x->frame->GetTotalGeometryTransform(), T3(), "empty-total", w.d);
			SAME(x->frame->GetGeometryTransform(AG::entrance), T3(), "empty-entrance", w.d);
			SAME(x->frame->GetGeometryTransform(AG::exit), T3(), "empty-exit", w.d);
		}
	SAME(w.root->frame->GetTotalGeometryTransform(), w.between(0, w.root->len), "total", w.d);
	SAME(w.root->frame->GetGeometryTransform(AG::exit), w.between(w.root->origin(), w.root->len), "exit", w.d);
}
static void destroy(LatticeFrame* f)
{
	struct T: FrameTraverser
	{
		vector<LatticeFrame*> v;
		void ActOn(LatticeFrame* f) override
		{
			v.push_back(f);
		}
	} t;
	f->Traverse(t);
	for(auto x : t.v)
		delete x;
}
MC_SECTION("copies")
{
	// a copied sequence has the same geometry as its original, and is independent of it
	World w;
	w.root = sub(w, 1, 2, 3);
	w.finish();
	mc::note(w.d);
	mc::state(w.d);
	LatticeFrame* c = static_cast<LatticeFrame*>(w.root->frame->Copy());
	struct T: FrameTraverser
	{
		vector<LatticeFrame*> v;
		void ActOn(LatticeFrame* f) override
		{
			v.push_back(f);
		}
	} a, b;
	w.root->frame->Traverse(a);
	c->Traverse(b);
	MC_CHECK(a.v.size() == w.all.size() && b.v.size() == a.v.size(), "traverse-count", w.d);
	for(int pass = 0; pass < 2; pass++)
	{
		for(size_t i = 0; i < a.v.size(); i++)
		{
			MC_CHECK(a.v[i] != b.v[i], "copy-shared", w.d);
			MC_CLOSE(b.v[i]->GetGeometryLength(), a.v[i]->GetGeometryLength(), "copy-length", w.d);
			if(i)
				MC_CLOSE(b.v[i]->GetPosition(c), a.v[i]->GetPosition(w.root->frame), "copy-position", w.d);
			Transform3D ta = a.v[i]->GetTotalGeometryTransform(), tb = b.v[i]->GetTotalGeometryTransform();
			Transform3D xa = a.v[i]->GetGeometryTransform(AG::exit), xb = b.v[i]->GetGeometryTransform(AG::exit);
			SAME(ta * tb.inv(), T3(), "copy-total", w.d);
			SAME(xa * xb.inv(), T3(), "copy-exit", w.d);
			if(i)
				SAME(a.v[i]->GetPhysicalTransform(w.root->frame) * b.v[i]->GetPhysicalTransform(c).inv(), T3(), "copy-physical", w.d);
		}
		c->ConsolidateConstruction();
	}
	destroy(c);
}
