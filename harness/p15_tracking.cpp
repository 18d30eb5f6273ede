// P15: tracking a bunch along a lattice is the composition of its elements, however it is driven
#include "mc.h"
#include "MerlinIO.h"
#include "MerlinException.h"
#include "AcceleratorModelConstructor.h"
#include "SequenceFrame.h"
#include "PatchFrame.h"
#include "Components.h"
#include "ParticleTracker.h"
#include "ParticleBunch.h"
#include "ElectronBunch.h"
#include "MuonBunch.h"
#include "ProtonBunch.h"
#include "SpinParticleProcess.h"
#include <typeinfo>
#include "ParticleBunchProcess.h"
#include "StdIntegrators.h"
#include "SymplecticIntegrators.h"
#include "ref3d.h"
using namespace std;
using namespace ParticleTracking;
typedef AcceleratorModel AM;
static const double P0 = 10;
static ParticleBunch mkbunch(int n = 3)
{
	ParticleBunch b(P0, 1e-9);
	for(int i = 0; i < n; i++)
	{
		Particle p(0);
		p.x() = 1e-3 * (i + 1);
		p.xp() = -2e-4 * (i - 1);
		p.y() = 5e-4 * (2 - i);
		p.yp() = 1e-4 * (i + 1) * (i % 2 ? -1 : 1);
		p.ct() = 1e-4 * i;
		p.dp() = 1e-4 * (i - 1);
		p.id() = i + 1;
		b.AddParticle(p);
	}
	return b;
}
static void same(const ParticleBunch& a, const ParticleBunch& b, const char* key, const string& d, double tol = 1e-12)
{
	MC_CHECK(a.size() == b.size(), key, d << " bunch of " << a.size() << " expected " << b.size());
	MC_CLOSET(a.GetReferenceMomentum(), b.GetReferenceMomentum(), 1e-12, 0, key, d << " reference momentum");
	MC_CLOSET(a.GetReferenceTime(), b.GetReferenceTime(), 1e-12, 1e-12, key, d << " reference time");
	auto i = a.begin();
	auto j = b.begin();
	for(int n = 0; i != a.end(); ++i, ++j, ++n)
		for(int k = 0; k < 6; k++)
			MC_CLOSET((*i)[k], (*j)[k], 1e-10, tol, key, d << " particle " << n << " coordinate " << k);
}
static const vector<string> KINDS{"drift", "quad", "bend", "sext*", "patch", "cor", "marker", "twrf", "drift*", "seq*", "solenoid", "bpm"};
struct World
{
	unique_ptr<AM> model;
	string d;
	vector<ComponentFrame*> frames;
	double length = 0;
};
static void append(AcceleratorModelConstructor& c, const string& k, int i, vector<function<void()> >& later)
{
	string n = k[0] + to_string(i);
	if(k == "drift")
		c.AppendComponent(new Drift(n, 1.1));
	if(k == "quad")
		c.AppendComponent(new Quadrupole(n, 0.5, 6.0));
	if(k == "bend")
	{
		SectorBend* b = new SectorBend(n, 1, 0.02, 0.02 * P0 / 0.299792458);
		b->SetPoleFaceInfo(new SectorBend::PoleFace(0.01, 0, 0.02), new SectorBend::PoleFace(0.015, 0, 0.02));
		c.AppendComponent(b);
	}
	if(k == "sext*")
	{
		ComponentFrame* f = new ComponentFrame(*new Sextupole(n, 0.3, 200.0));
		c.AppendComponentFrame(f);
		f->Translate(1e-4 * (i + 1), -2e-4, 1e-3);
		f->RotateZ(0.01);
		f->RotateY(1e-3);
	}
	if(k == "patch")
	{
		GeometryPatch* g = new GeometryPatch;
		g->Translate(1e-4, 2e-4, 0);
		g->RotateZ(0.1 * (i + 1));
		c.AppendComponentFrame(new PatchFrame(g, n));
	}
	if(k == "cor")
		c.AppendComponent(new XCor(n, 0.2, 1e-3));
	if(k == "marker")
		c.AppendComponent(new Marker(n));
	if(k == "twrf")
		c.AppendComponent(new TWRFStructure(n, 1, 1e9, 0.01, 0.3));
	if(k == "drift*")
	{
		ComponentFrame* f = new ComponentFrame(*new Drift(n, 0.7));
		c.AppendComponentFrame(f);
		f->RotateX(2e-3);
		f->Translate(1e-3, 0, 0);
	}
	if(k == "seq*")
	{
		SequenceFrame* s = new SequenceFrame(n);
		c.NewFrame(s);
		c.AppendComponent(new Quadrupole(n + "q", 0.4, -5.0));
		c.AppendComponent(new Drift(n + "d", 0.3));
		c.EndFrame();
		later.push_back([s]
			{
				s->Translate(2e-4, 1e-4, 0);
				s->RotateY(1e-3);
			});
	}
	if(k == "solenoid")
		c.AppendComponent(new Solenoid(n, 0.6, 0.5));
	if(k == "bpm")
		c.AppendComponent(new BPM(n));
}
static void build(World& w, const vector<string>& ks)
{
	AcceleratorModelConstructor c;
	vector<function<void()> > later;
	int i = 0;
	for(const string& k : ks)
	{
		w.d += k + " ";
		append(c, k, i++, later);
	}
	w.model.reset(c.GetModel());
	for(auto& f : later)
		f();
	for(auto f : w.model->GetBeamline())
		w.frames.push_back(f);
	mc::note(w.d);
	mc::state(w.d);
}
static World* chooselattice(int maxn, int nk)
{
	vector<string> ks;
	int n = 1 + mc::choose(maxn);
	for(int i = 0; i < n; i++)
		ks.push_back(KINDS[mc::choose(nk)]);
	World* w = new World;
	build(*w, ks);
	return w;
}
// reference: element by element with a fresh component tracker each
static void byhand(ParticleBunch& b, const vector<ComponentFrame*>& fr, bool flat = false, bool onaxis = false, const ParticleComponentTracker::ISetBase* is = nullptr)
{
	bool first = true;
	for(ComponentFrame* f : fr)
	{
		if(!flat && !(first && onaxis))
			b.ApplyTransformation(f->GetEntrancePlaneTransform());
		if(f->GetEntranceGeometryPatch())
			b.ApplyTransformation(*f->GetEntranceGeometryPatch());
		if(f->IsComponent())
		{
			unique_ptr<ParticleComponentTracker> ct(is ? new ParticleComponentTracker(*is) : new ParticleComponentTracker);
			ct->SetBunch(b);
			(*ct)(&f->GetComponent());
		}
		if(!flat)
			b.ApplyTransformation(f->GetExitPlaneTransform());
		first = false;
	}
}
struct Quiet
{
	streambuf* a, * e;
	ostringstream sink;
	Quiet() :
		a(cout.rdbuf(sink.rdbuf())), e(cerr.rdbuf(sink.rdbuf()))
	{
	}
	~Quiet()
	{
		cout.rdbuf(a);
		cerr.rdbuf(e);
	}
};
MC_SECTION("equivalence")
{
	unique_ptr<World> w(chooselattice(mc::thorough() ? 4 : 3, 12));
	Quiet q;
	ParticleBunch b0 = mkbunch();
	bool flat = false, onaxis = false;
	int mode = mc::choose(3);
	flat = mode == 1;
	onaxis = mode == 2;
	string d = w->d + (flat ? "flat" : onaxis ? "onaxis" : "");
	ParticleBunch ref(b0);
	byhand(ref, w->frames, flat, onaxis);
	ParticleTracker t(w->model->GetBeamline(), &b0);
	t.AssumeFlatLattice(flat);
	t.InjectBeamOnAxis(onaxis);
	t.Run();
	same(t.GetTrackedBunch(), ref, "run", d + ": Run");
	t.Run();
	same(t.GetTrackedBunch(), ref, "run-again", d + ": second Run");
	// by steps
	t.InitStepper();
	size_t n = 0;
	bool more = true;
	while(more)
	{
		MC_CHECK(n < w->frames.size(), "step-count", d << " too many steps");
		MC_CHECK(&t.GetCurrentFrame() == w->frames[n], "step-frame", d << " at step " << n);
		more = t.StepComponent();
		n++;
		MC_CHECK(more == (n < w->frames.size()), "step-count", d << " step " << n << " of " << w->frames.size() << " says " << more);
	}
	same(t.GetTrackedBunch(), ref, "stepped", d + ": StepComponent to the end");
	// a given bunch
	{
		ParticleBunch* given = new ParticleBunch(b0);
		ParticleBunch* back = t.Track(given);
		MC_CHECK(back == given, "track", d << " Track returns another bunch");
		same(*back, ref, "track", d + ": Track(bunch)");
		delete back;
		t.InitStepper(new ParticleBunch(b0));
		while(t.StepComponent())
			;
		same(t.GetTrackedBunch(), ref, "stepped-given", d + ": InitStepper(bunch)");
	}
	same(b0, mkbunch(), "source-bunch", d + ": source bunch changed");
	if(mode == 2)
		return;
	// continue = once more through the line
	t.Run();
	t.Continue();
	ParticleBunch ref2(ref);
	byhand(ref2, w->frames, flat, false);
	same(t.GetTrackedBunch(), ref2, "continue", d + ": Continue");
	t.Run();
	t.InitStepper(false);
	while(t.StepComponent())
		;
	same(t.GetTrackedBunch(), ref2, "stepped-again", d + ": InitStepper(false)");
	// in two parts
	for(size_t k = 1; k < w->frames.size(); k++)
	{
		ParticleTracker t1(w->model->GetBeamline(0, k - 1), &b0), t2(w->model->GetBeamline(k, w->frames.size() - 1));
		t1.AssumeFlatLattice(flat);
		t2.AssumeFlatLattice(flat);
		t1.Run();
		unique_ptr<ParticleBunch> m(t2.Track(new ParticleBunch(t1.GetTrackedBunch())));
		same(*m, ref, "split", d + ": split at " + to_string(k));
		ParticleTracker t3;
		t3.AssumeFlatLattice(flat);
		t3.SetInitialBunch(new ParticleBunch(b0), true);
		t3.SetBeamline(w->model->GetBeamline(0, k - 1));
		t3.Run();
		t3.SetBeamline(w->model->GetBeamline(k, w->frames.size() - 1));
		t3.Continue();
		same(t3.GetTrackedBunch(), ref, "split-continue", d + ": SetBeamline and Continue at " + to_string(k));
	}
	// around the ring from every element
	for(size_t k = 0; k < w->frames.size(); k++)
	{
		vector<ComponentFrame*> rot(w->frames.begin() + k, w->frames.end());
		rot.insert(rot.end(), w->frames.begin(), w->frames.begin() + k);
		ParticleBunch r(b0);
		byhand(r, rot, flat);
		ParticleTracker tr(w->model->GetRing(k), &b0);
		tr.AssumeFlatLattice(flat);
		tr.Run();
		same(tr.GetTrackedBunch(), r, "ring", d + ": ring from " + to_string(k));
		tr.InitStepper();
		size_t m = 0;
		do
		{
			MC_CHECK(m < rot.size() && &tr.GetCurrentFrame() == rot[m], "ring-step", d << " from " << k << " at step " << m);
			m++;
		} while(tr.StepComponent());
		MC_CHECK(m == rot.size(), "ring-step", d << " ring stepping took " << m << " steps");
		same(tr.GetTrackedBunch(), r, "ring-stepped", d + ": stepped ring from " + to_string(k));
		tr.Run();
		tr.Continue();
		byhand(r, rot, flat);
		same(tr.GetTrackedBunch(), r, "ring-continue", d + ": second turn from " + to_string(k));
	}
	mc::sample(d);
}
// sees what the processes get
class Sort: public ParticleBunchProcess
{
public:
	const type_info*& t;
	double& mass;
	Sort(const type_info*& a, double& m) :
		ParticleBunchProcess("sort", 1), t(a), mass(m)
	{
	}
	void SetCurrentComponent(AcceleratorComponent& c) override
	{
		currentComponent = &c;
		active = true;
	}
	void DoProcess(double) override
	{
		const ParticleBunch& b = *currentBunch;
		t = &typeid(b);
		mass = b.GetParticleMass();
	}
	double GetMaxAllowedStepSize() const override
	{
		return 100;
	}
};
// bunches stay what they are, however they are given to the tracker, and are copied for each run
MC_SECTION("sorts")
{
	static const char* NAME[] = {"particles", "electrons", "muons", "protons", "spins"};
	int sort = mc::choose(5), way = mc::choose(6), n = mc::choose(3);
	string d = mc::S() << n << " " << NAME[sort] << " way " << way;
	mc::note(d);
	mc::state(d);
	AcceleratorModelConstructor c;
	c.AppendComponent(new Quadrupole("q", 0.5, 3));
	c.AppendComponent(new Drift("d", 1));
	c.AppendComponent(new SectorBend("b", 1, 0.01, 0.01 * P0 / 0.299792458));
	unique_ptr<AM> m(c.GetModel());
	auto given = [&]() -> ParticleBunch* {
		ParticleBunch* b;
		switch(sort)
		{
		case 0:
			b = new ParticleBunch(P0, 1e-9);
			break;
		case 1:
			b = new ElectronBunch(P0, 1e-9);
			break;
		case 2:
			b = new MuonBunch(P0, 1e-9);
			break;
		case 3:
			b = new ProtonBunch(P0, 1e-9);
			break;
		default:
			b = new SpinParticleBunch(P0, 1e-9);
		}
		ParticleBunch from = mkbunch(n);
		for(auto& p : from.GetParticles())
			b->AddParticle(p);
		return b;
	};
	unique_ptr<ParticleBunch> b0(given()), ref(given());
	const type_info& is = typeid(*b0);
	double mass = b0->GetParticleMass();
	// tracked as it is
	{
		ParticleTracker t(m->GetBeamline());
		ref.reset(t.Track(ref.release()));
		MC_CHECK(typeid(*ref) == is, "sort", d << ": Track gave " << typeid(*ref).name());
	}
	auto spins = [&](const ParticleBunch& b) {
		auto* s = dynamic_cast<const SpinParticleBunch*>(&b);
		auto* q = const_cast<SpinParticleBunch*>(s);
		return q ? q->endSpinArray() - q->beginSpinArray() : -1;
	};
	for(int again = 0; again < 2; again++)
	{
		unique_ptr<ParticleTracker> t;
		const type_info* seen = nullptr;
		double saw = -2;
		if(way == 0)
			t.reset(new ParticleTracker(m->GetBeamline(), b0.get(), false));
		else if(way == 1)
			t.reset(new ParticleTracker(m->GetBeamline(), given(), true));
		else
			t.reset(new ParticleTracker(m->GetBeamline()));
		if(way == 2)
			t->SetInitialBunch(b0.get(), false);
		if(way == 3 || way == 4)
			t->SetInitialBunch(given(), true);
		t->AddProcess(new Sort(seen, saw));
		ParticleBunch* end = nullptr;
		unique_ptr<ParticleBunch> own;
		for(int run = 0; run < 2; run++)
		{
			if(way == 5)
			{
				own.reset(t->Track(given()));
				end = own.get();
			}
			else if(way == 4)
			{
				t->InitStepper();
				while(t->StepComponent())
					;
				end = &t->GetTrackedBunch();
			}
			else
			{
				t->Run();
				end = &t->GetTrackedBunch();
			}
			MC_CHECK(seen && *seen == is && saw == mass, "sort", d << " run " << run << ": processes were given " << (seen ? seen->name() : "nothing") << " of mass " << saw);
			MC_CHECK(typeid(*end) == is && end->GetParticleMass() == mass, "sort", d << " run " << run << ": tracked " << typeid(*end).name());
			same(*end, *ref, "sort-tracked", d + " run " + to_string(run));
			MC_CHECK(spins(*end) == (sort == 4 ? n : -1), "sort-spins", d << " run " << run << ": " << spins(*end) << " spins");
		}
		MC_CHECK(end != b0.get() && b0->size() == size_t(n), "sort-source", d);
	}
}
// each particle of a bunch is tracked as if it were alone
MC_SECTION("particles-independent")
{
	unique_ptr<World> w(chooselattice(2, 12));
	Quiet q;
	ParticleBunch b0 = mkbunch(4);
	ParticleTracker t(w->model->GetBeamline(), &b0);
	t.Run();
	ParticleBunch& res = t.GetTrackedBunch();
	MC_CHECK(res.size() == 4, "particle-count", w->d);
	for(int i = 0; i < 4; i++)
	{
		ParticleTracker s(w->model->GetBeamline(), b0.GetParticles()[i], P0);
		s.Run();
		const Particle& a = s.GetTrackedBunch().FirstParticle(), & b = res.GetParticles()[i];
		MC_CHECK(b.id() == b0.GetParticles()[i].id(), "particle-id", w->d << " ids changed");
		for(int k = 0; k < 6; k++)
			MC_CLOSET(b[k], a[k], 1e-12, 1e-14, "particle-alone", w->d << " particle " << i << " coordinate " << k);
	}
}
// cutting tracking steps with an extra process does not change the tracking (exactly additive elements)
struct Cutter: public ParticleBunchProcess
{
	double step;
	vector<pair<AcceleratorComponent*, double> > seen;
	Cutter(double s, int prio) :
		ParticleBunchProcess("cut", prio), step(s)
	{
	}
	void InitialiseProcess(Bunch& b) override
	{
		ParticleBunchProcess::InitialiseProcess(b);
		active = true;
	}
	void DoProcess(double ds) override
	{
		seen.push_back({currentComponent, ds});
	}
	double GetMaxAllowedStepSize() const override
	{
		return step;
	}
};
static void usesets(int k, const ParticleComponentTracker::ISetBase*& is)
{
	static TRANSPORT::StdISet tr;
	static THIN_LENS::StdISet tl;
	static SYMPLECTIC::StdISet sy;
	is = k == 0 ? nullptr : k == 1 ? (const ParticleComponentTracker::ISetBase*) &tr : k == 2 ? (const ParticleComponentTracker::ISetBase*) &tl :
		(const ParticleComponentTracker::ISetBase*) &sy;
}
MC_SECTION("integrator-sets")
{
	unique_ptr<World> w(chooselattice(2, 12));
	int k = mc::choose(4);
	Quiet q;
	const ParticleComponentTracker::ISetBase* is;
	usesets(k, is);
	string d = w->d + " integrator set " + to_string(k);
	mc::note(d);
	ParticleBunch b0 = mkbunch(), ref(b0);
	byhand(ref, w->frames, false, false, is);
	ParticleTracker t(w->model->GetBeamline(), &b0);
	t.Run(); // with the default set first
	if(is)
		t.SetIntegratorSet(is);
	t.Run();
	same(t.GetTrackedBunch(), ref, "integrator-set", d);
	if(k == 1)
	{
		ParticleTracker u(w->model->GetBeamline(), &b0);
		u.Run();
		same(u.GetTrackedBunch(), ref, "default-set", d + ": the default is TRANSPORT");
	}
}
// a registered integrator replaces the one for its component type and no other
struct FlipDrift: public ParticleComponentTracker::Integrator<Drift>
{
	void TrackStep(double ds) override
	{
		for(auto& p : *currentBunch)
			p.x() += 1;
	}
};
MC_SECTION("register")
{
	unique_ptr<World> w(chooselattice(3, 4));
	Quiet q;
	ParticleBunch b0 = mkbunch(), ref(b0);
	bool has = false;
	for(auto f : w->frames)
	{
		if(f->GetComponent().GetType() == "Drift")
		{
			has = true;
			for(auto& p : ref)
				p.x() += 1;
			ref.IncrReferenceTime(f->GetComponent().GetLength());
		}
		else
			byhand(ref, {f});
	}
	ParticleTracker t(w->model->GetBeamline(), &b0);
	MC_CHECK(t.RegisterIntegrator(new FlipDrift), "register-replaces", w->d << " RegisterIntegrator does not report a replacement");
	t.Run();
	same(t.GetTrackedBunch(), ref, "register", w->d + (has ? " with drifts" : ""));
}
MC_SECTION("extra-process")
{
	unique_ptr<World> w(chooselattice(2, 12));
	int prio = mc::choose(3) - 1;
	Quiet q;
	ParticleBunch b0 = mkbunch();
	ParticleTracker t0(w->model->GetBeamline(), &b0), t(w->model->GetBeamline(), &b0);
	Cutter* c = new Cutter(1e9, prio);
	t.AddProcess(c);
	t0.Run();
	t.Run();
	same(t.GetTrackedBunch(), t0.GetTrackedBunch(), "observer", w->d + ": an observing process changed the tracking");
	size_t k = 0;
	for(auto f : w->frames)
		if(f->IsComponent())
		{
			double s = 0;
			AcceleratorComponent* comp = &f->GetComponent();
			int n = 0;
			while(k < c->seen.size() && c->seen[k].first == comp)
			{
				s += c->seen[k++].second;
				n++;
			}
			MC_CHECK(n >= 1, "process-calls", w->d << " process not called for " << comp->GetQualifiedName());
			MC_CLOSE(s, comp->GetLength(), "process-calls", w->d << " steps in " << comp->GetQualifiedName());
		}
	MC_CHECK(k == c->seen.size(), "process-calls", w->d << " extra calls");
	// removed: not called any more; ours to delete
	c->seen.clear();
	MC_CHECK(t.RemoveProcess(c), "process-remove", w->d);
	t.Run();
	MC_CHECK(c->seen.empty(), "process-remove", w->d << " removed process still called");
	delete c;
}
// exceptions
struct Thrower: public ParticleBunchProcess
{
	int at, n = 0;
	Thrower(int a) :
		ParticleBunchProcess("throw", 5), at(a)
	{
	}
	void InitialiseProcess(Bunch& b) override
	{
		ParticleBunchProcess::InitialiseProcess(b);
		active = true;
	}
	void DoProcess(double) override
	{
		if(n++ == at)
			throw MerlinException("stop here");
	}
	double GetMaxAllowedStepSize() const override
	{
		return 1e9;
	}
};
struct Out: public SimulationOutput
{
	vector<const ComponentFrame*> rec;
	vector<ParticleBunch> states;
	int ini = 0, fin = 0;
	void Record(const ComponentFrame* f, const Bunch* b) override
	{
		rec.push_back(f);
		states.push_back(static_cast<const ParticleBunch&>(*b));
	}
	void RecordInitialBunch(const Bunch* b) override
	{
		ini++;
		states.push_back(static_cast<const ParticleBunch&>(*b));
	}
	void RecordFinalBunch(const Bunch* b) override
	{
		fin++;
		states.push_back(static_cast<const ParticleBunch&>(*b));
	}
};
MC_SECTION("exceptions")
{
	unique_ptr<World> w(chooselattice(3, 4));
	int at = mc::choose(4);
	bool handle = mc::choose(2);
	int how = mc::choose(2);
	Quiet q;
	string d = w->d + (mc::S() << " exception at " << at << (handle ? " handled" : "") << (how ? " Track" : " Run")).o.str();
	mc::note(d);
	ParticleBunch b0 = mkbunch(), ref(b0), full(b0);
	byhand(full, w->frames);
	bool thrown = at < int(w->frames.size());
	for(int i = 0; i < int(w->frames.size()); i++)
	{
		if(i == at)
		{
			// up to the exit of the element, not its exit transformation
			ComponentFrame* f = w->frames[i];
			ref.ApplyTransformation(f->GetEntrancePlaneTransform());
			ParticleComponentTracker ct;
			ct.SetBunch(ref);
			ct(&f->GetComponent());
			break;
		}
		byhand(ref, {w->frames[i]});
	}
	ParticleTracker t(w->model->GetBeamline(), &b0);
	Thrower* th = new Thrower(at);
	t.AddProcess(th);
	t.HandleExceptions(handle);
	Out out;
	out.output_final = out.output_initial = true;
	t.SetOutput(&out);
	bool caught = false;
	ParticleBunch* given = how ? new ParticleBunch(b0) : nullptr;
	try
	{
		if(how)
			t.Track(given);
		else
			t.Run();
	}
	catch(MerlinException& e)
	{
		caught = true;
		MC_CHECK(string(e.what()) == "stop here", "exception-identity", d);
	}
	MC_CHECK(caught == (thrown && !handle), "exception-propagation", d << (caught ? " reached the caller" : " did not reach the caller"));
	same(how ? *given : t.GetTrackedBunch(), thrown ? ref : full, "exception-state", d + ": bunch state");
	MC_CHECK(out.ini == 1 && out.fin == (caught ? 0 : 1), "exception-output", d << " initial/final recorded " << out.ini << "/" << out.fin);
	delete given;
	// usable afterwards
	th->at = -1;
	t.Run();
	same(t.GetTrackedBunch(), full, "exception-after", d + ": Run after the exception");
}
// recorded output
MC_SECTION("output")
{
	unique_ptr<World> w(chooselattice(3, 7));
	static const vector<vector<string> > PATS{{}, {"Drift.*"}, {"*.q*"}, {"Quadrupole.q0", "Marker.*"}, {"*"}, {"nothing"}, {"drift.*", "S*"}};
	const vector<string>& ps = mc::pick(PATS);
	int flags = mc::choose(9); // 8: as constructed
	Quiet q;
	string d = w->d + "patterns";
	for(auto& p : ps)
		d += " " + p;
	d += " flags " + to_string(flags);
	mc::note(d);
	unique_ptr<Out> out(new Out);
	if(flags < 8)
	{
		out->output_all = flags & 1;
		out->output_initial = flags & 2;
		out->output_final = flags & 4;
	}
	else
		flags = 0;
	for(auto& p : ps)
		out->AddIdentifier(p);
	ParticleBunch b0 = mkbunch();
	ParticleTracker t(w->model->GetBeamline(), &b0);
	t.SetOutput(out.get());
	t.Run();
	size_t k = 0, r = 0;
	ParticleBunch ref(b0);
	if(flags & 2)
		same(out->states.at(k++), ref, "output-initial", d);
	for(auto f : w->frames)
	{
		byhand(ref, {f});
		if(!f->IsComponent())
			continue;
		string n = f->GetComponent().GetQualifiedName();
		bool want = flags & 1;
		for(auto& p : ps)
			want = want || p == "*" || p == n || (p == "Drift.*" && n.substr(0, 6) == "Drift.") || (p == "*.q*" && n.find(".q") != string::npos) ||
				(p == "Marker.*" && n.substr(0, 7) == "Marker.") || (p == "S*" && n[0] == 'S');
		if(want)
		{
			MC_CHECK(r < out->rec.size() && out->rec[r] == f, "output-frames", d << " recording at " << n);
			r++;
			same(out->states.at(k++), ref, "output-state", d + " at " + n);
		}
	}
	MC_CHECK(r == out->rec.size(), "output-frames", d << " recorded " << out->rec.size() << " expected " << r);
	if(flags & 4)
		same(out->states.at(k++), ref, "output-final", d);
	MC_CHECK(k == out->states.size() && out->ini == !!(flags & 2) && out->fin == !!(flags & 4), "output-count", d << " recorded " << out->states.size() << " expected " << k);
	// stepping records the same frames
	out->rec.clear();
	out->states.clear();
	t.InitStepper();
	while(t.StepComponent())
		;
	MC_CHECK(out->rec.size() == r, "output-stepping", d << " stepping recorded " << out->rec.size() << " expected " << r);
}
// a change of reference frame moves rays as the rigid motion does
MC_SECTION("frame-change")
{
	T3 ref;
	Transform3D T;
	int n = 1 + mc::choose(3);
	string d = "transform";
	for(int i = 0; i < n; i++)
	{
		int k = mc::choose(6);
		double v = vector<double>{0.3, -0.01}[mc::choose(2)];
		if(k < 3)
		{
			double x[3] = {0, 0, 0};
			x[k] = v;
			T = Transform3D::translation(x[0], x[1], x[2]) * T;
			ref = ttrans(x[0], x[1], x[2]) * ref;
		}
		else
		{
			T = (k == 3 ? Transform3D::rotationX(v) : k == 4 ? Transform3D::rotationY(v) : Transform3D::rotationZ(v)) * T;
			ref = trot(k - 3, v) * ref;
		}
		d += mc::S() << " " << k << ":" << v;
	}
	mc::note(d);
	mc::state(d);
	ParticleBunch b = mkbunch(4), b0(b);
	b.ApplyTransformation(T);
	for(int i = 0; i < 4; i++)
	{
		Particle p = b0.GetParticles()[i];
		double x = p.x(), y = p.y(), xp = p.xp(), yp = p.yp();
		rayto(ref, x, y, xp, yp);
		const Particle& g = b.GetParticles()[i];
		double want[4] = {x, xp, y, yp};
		for(int k = 0; k < 4; k++)
			MC_CLOSET(g[k], want[k], 1e-9, 1e-13, "frame-ray", d << " particle " << i << " coordinate " << k);
		MC_CHECK(g.ct() == p.ct() && g.dp() == p.dp() && g.id() == p.id(), "frame-others", d);
	}
}
// misaligned drift spaces do nothing
MC_SECTION("misaligned-drifts")
{
	AcceleratorModelConstructor c;
	int n = 1 + mc::choose(3);
	string d;
	double L = 0;
	vector<function<void()> > later;
	auto displace = [&](LatticeFrame* f)
		{
			int k = mc::choose(5);
			d += to_string(k) + ")";
			later.push_back([f, k]
				{
					if(k == 1)
						f->Translate(1e-3, -2e-3, 5e-3);
					if(k == 2)
						f->RotateX(0.1);
					if(k == 3)
						f->RotateY(-0.05);
					if(k == 4)
					{
						f->RotateZ(0.3);
						f->Translate(0, 1e-3, 0);
						f->RotateY(0.02);
					}
				});
		};
	for(int i = 0; i < n; i++)
	{
		int nest = mc::choose(2);
		SequenceFrame* s = nullptr;
		if(nest)
		{
			s = new SequenceFrame("S" + to_string(i));
			c.NewFrame(s);
			d += "S(";
			displace(s);
		}
		ComponentFrame* f = new ComponentFrame(*new Drift("D" + to_string(i), 0.5 + i));
		c.AppendComponentFrame(f);
		L += 0.5 + i;
		d += "D(";
		displace(f);
		if(nest && i % 2)
		{
			c.AppendComponent(new Drift("E", 0.25));
			L += 0.25;
		}
		if(nest)
			c.EndFrame();
	}
	unique_ptr<AM> m(c.GetModel());
	for(auto& f : later)
		f();
	mc::note(d);
	mc::state(d);
	ParticleBunch b0 = mkbunch();
	ParticleTracker t(m->GetBeamline(), &b0);
	t.Run();
	for(size_t i = 0; i < b0.size(); i++)
	{
		Particle p = b0.GetParticles()[i], g = t.GetTrackedBunch().GetParticles()[i];
		double want[4] = {p.x() + L * p.xp(), p.xp(), p.y() + L * p.yp(), p.yp()};
		double got[4] = {g.x(), g.xp(), g.y(), g.yp()};
		for(int k = 0; k < 4; k++)
			MC_CLOSET(got[k], want[k], 1e-9, 1e-12, "misaligned-drift", d << " particle " << i << " coordinate " << k);
	}
}
