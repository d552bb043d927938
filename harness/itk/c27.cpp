// C27: a filter watcher logs each event once and can go before the filter
#include "common.h"
#include "itktf/itktfFilterWatcher.h"
#include "itktf/itktfDifferenceImageFilter.h"
#include "itkImage.h"
#include "itkCurvatureFlowImageFilter.h"
#include "itkMultiThreaderBase.h"
using namespace vf;
static int g_live = 0;
class Proc : public itk::ProcessObject {
public:
  typedef Proc Self; typedef itk::SmartPointer<Self> Pointer; itkFactorylessNewMacro(Self);
  str name; const char *GetNameOfClass() const override { return name.c_str(); }
protected:
  Proc() { ++g_live; } ~Proc() { --g_live; }
};
typedef itk::Image<float, 2> Im;
struct W { itk::tf::FilterWatcher *w; int proc, stream; str comment; };
struct UserObs { long n; void hit() { ++n; } };
static Im::Pointer image(Rng &r, int w, int h) { auto p = Im::New(); Im::SizeType s = {{(unsigned)w, (unsigned)h}}; p->SetRegions(s); p->Allocate(); for (int i = 0; i < w * h; ++i) p->GetBufferPointer()[i] = (float)r.range(0, 20); return p; }
int main(int argc, char **argv) {
  Ctx &c = Ctx::get(); c.parse(argc, argv); if (chdir(c.scratch.c_str())) return 3;
  itk::MultiThreaderBase::SetGlobalDefaultNumberOfThreads(1); itk::MultiThreaderBase::SetGlobalDefaultThreader(itk::MultiThreaderBase::ThreaderEnum::Platform);
  cases([&](Rng &r, long k) {
    uint64_t seed = r.next(); str trace, got, want; long nev = 0;
    auto body = [&](bool judge) {
      Rng q(seed); trace.clear(); int np = q.range(1, 4), ns = q.range(1, 3); std::vector<itk::ProcessObject::Pointer> ps; std::vector<str> names; std::vector<int> refs; 
      std::vector<std::ostringstream> ss(3); std::vector<str> exp(4); std::vector<W> ws; std::vector<UserObs> uo(np); std::vector<long> uw(np, 0);
      Capture co(std::cout);
      bool real = q.chance(25); Im::Pointer in, in2, plain;
      for (int i = 0; i < np; ++i) {
        if (real && i == 0) { in = image(q, q.range(2, 9), q.range(2, 9)); if (q.chance(50)) { auto f = itk::CurvatureFlowImageFilter<Im, Im>::New(); f->SetInput(in); f->SetNumberOfIterations(q.range(0, 6)); f->SetTimeStep(0.1); f->SetNumberOfWorkUnits(1); ps.push_back(f.GetPointer()); auto g = itk::CurvatureFlowImageFilter<Im, Im>::New(); g->SetInput(in); g->SetNumberOfIterations(f->GetNumberOfIterations()); g->SetTimeStep(0.1); g->SetNumberOfWorkUnits(1); g->Update(); plain = g->GetOutput(); }
          else { in2 = image(q, in->GetLargestPossibleRegion().GetSize()[0], in->GetLargestPossibleRegion().GetSize()[1]); auto f = itk::tf::DifferenceImageFilter<Im, Im>::New(); f->SetValidInput(in); f->SetTestInput(in2); ps.push_back(f.GetPointer()); auto g = itk::tf::DifferenceImageFilter<Im, Im>::New(); g->SetValidInput(in); g->SetTestInput(in2); g->Update(); plain = g->GetOutput(); } }
        else { auto p = Proc::New(); p->name = q.chance(80) ? str("Proc") + char('A' + q.below(3)) : printable(q, 10); ps.push_back(p.GetPointer()); }
        names.push_back(ps.back()->GetNameOfClass());
        for (const itk::EventObject *e : std::vector<const itk::EventObject *>{new itk::StartEvent, new itk::EndEvent, new itk::IterationEvent, new itk::AbortEvent}) { auto cmd = itk::SimpleMemberCommand<UserObs>::New(); cmd->SetCallbackFunction(&uo[i], &UserObs::hit); ps.back()->AddObserver(*e, cmd); delete e; }
        refs.push_back(ps.back()->GetReferenceCount());
      }
      auto expect = [&](int p, int ev) { ++uw[p]; ++nev; for (auto &w : ws) if (w.proc == p) { str &o = exp[w.stream]; if (ev == 0) o += "-------- Start " + names[p] + " \"" + w.comment + "\" "; else if (ev == 1) o += "\n-------- End " + names[p] + " \"" + w.comment + "\" \n"; else if (ev == 2) o += " # "; else o += "\n      ABORT\n"; } };
      auto drop = [&](size_t i) { delete ws[i].w; trace += "drop" + std::to_string(i) + " "; ws.erase(ws.begin() + i); };
      int steps = q.range(3, 60);
      for (int i = 0; i < steps; ++i) {
        int p = (int)q.below(np), what = (int)q.below(20);
        if (what < 3) { W w; w.proc = p; w.stream = q.chance(10) ? 3 : (int)q.below(ns); bool dflt = q.chance(20); w.comment = dflt ? "" : printable(q, 20); { std::vector<char> tmp(w.comment.begin(), w.comment.end()); tmp.push_back(0); if (w.stream == 3 && w.comment.empty()) w.w = new itk::tf::FilterWatcher(ps[p]); else if (w.comment.empty()) w.w = new itk::tf::FilterWatcher(ps[p], ss[w.stream % 3]); else if (w.stream == 3) w.w = new itk::tf::FilterWatcher(ps[p], std::cout, tmp.data()); else w.w = new itk::tf::FilterWatcher(ps[p], ss[w.stream], tmp.data()); if (w.stream == 3 && w.comment.empty()) {} std::fill(tmp.begin(), tmp.end(), 'Z'); } ws.push_back(w); trace += "watch" + std::to_string(p) + ">" + std::to_string(w.stream) + " "; if (str(w.w->GetNameOfClass()) != names[p] && judge) VIOL("className", w.w->GetNameOfClass() << " for " << names[p]); }
        else if (what < 5) { if (!ws.empty()) drop(q.below(ws.size())); }
        else if (real && p == 0 && what < 11) {
          // run the filter
          typedef itk::ImageSource<Im> Src; Src *s = dynamic_cast<Src *>(ps[0].GetPointer()); auto cf = dynamic_cast<itk::CurvatureFlowImageFilter<Im, Im> *>(s); ps[0]->Modified();
          trace += "run "; expect(0, 0); if (cf) { int n = cf->GetNumberOfIterations(); for (int j = 0; j < n; ++j) expect(0, 2); } expect(0, 1); s->Update();
          if (judge) { Im *o = s->GetOutput(); size_t n = o->GetLargestPossibleRegion().GetNumberOfPixels(); if (memcmp(o->GetBufferPointer(), plain->GetBufferPointer(), n * sizeof(float))) VIOL("result", "the result of the watched filter differs: " << trace); }
          c.count("real_runs");
        } else {
          int ev = (int)q.below(8); itk::ProcessObject *x = ps[p]; static const char *en[] = {"S", "E", "I", "A", "p", "m", "I2", "d"}; trace += en[ev]; trace += std::to_string(p) + " ";
          if (ev == 2 && q.below(400) == 0) { int many = q.range(300, 3000); trace += "x" + std::to_string(many) + " "; for (int j = 0; j < many; ++j) { expect(p, 2); x->InvokeEvent(itk::IterationEvent()); } c.count("long_executions"); }
          switch (ev) { case 0: expect(p, 0); x->InvokeEvent(itk::StartEvent()); break; case 1: expect(p, 1); x->InvokeEvent(itk::EndEvent()); break; case 2: expect(p, 2); x->InvokeEvent(itk::IterationEvent()); break; case 3: expect(p, 3); x->InvokeEvent(itk::AbortEvent()); break; case 4: x->UpdateProgress((float)q.unit()); break; case 5: x->Modified(); break; case 6: expect(p, 2); x->InvokeEvent(itk::MultiResolutionIterationEvent()); break; case 7: x->InvokeEvent(itk::UserEvent()); break; }
        }
        if (q.chance(2) && np > 1 && !(real && p == 0)) { // the filter is released, its watchers keep it
          trace += "rel" + std::to_string(p) + " "; bool watched = false; for (auto &w : ws) watched |= w.proc == p; if (!watched) continue; itk::ProcessObject *raw = ps[p].GetPointer(); ps[p] = 0; expect(p, 2); raw->InvokeEvent(itk::IterationEvent()); for (size_t j = ws.size(); j-- > 0;) if (ws[j].proc == p) { delete ws[j].w; ws.erase(ws.begin() + j); } auto n = Proc::New(); n->name = names[p]; ps[p] = n.GetPointer(); refs[p] = 1; if (judge && uo[p].n != uw[p]) VIOL("userObserver", "an observer of the user got " << uo[p].n << " events of " << uw[p] << ": " << trace); uo[p].n = uw[p] = 0; for (const itk::EventObject *e : std::vector<const itk::EventObject *>{new itk::StartEvent, new itk::EndEvent, new itk::IterationEvent, new itk::AbortEvent}) { auto cmd = itk::SimpleMemberCommand<UserObs>::New(); cmd->SetCallbackFunction(&uo[p], &UserObs::hit); ps[p]->AddObserver(*e, cmd); delete e; }
        }
      }
      while (!ws.empty()) drop(q.below(ws.size()));
      for (int p = 0; p < np; ++p) { expect(p, 0); ps[p]->InvokeEvent(itk::StartEvent()); ps[p]->InvokeEvent(itk::EndEvent()); expect(p, 1); if (judge && ps[p]->GetReferenceCount() != refs[p]) VIOL("references", "the filter has " << ps[p]->GetReferenceCount() << " references, had " << refs[p] << ": " << trace); if (judge && uo[p].n != uw[p]) VIOL("userObserver", "an observer of the user got " << uo[p].n << " events of " << uw[p] << ": " << trace); if (judge && ps[p]->HasObserver(itk::ProgressEvent())) VIOL("observerLeft", "an observer is left after all watchers have gone: " << trace); }
      got.clear(); want.clear(); for (int i = 0; i < 3; ++i) { got += "{" + ss[i].str() + "}"; want += "{" + exp[i] + "}"; } got += "{" + co.text() + "}"; want += "{" + exp[3] + "}";
      if (judge && got != want) VIOL("log", "written " << jsonq(cut(got, 900)) << " expected " << jsonq(cut(want, 900)) << " for " << cut(trace, 800));
    };
    nev = 0; body(true); c.count("events", nev); if (g_live) { VIOL("released", g_live << " filters are not released: " << trace); g_live = 0; }
    str g1 = got; body(false); if (got != g1) VIOL("deterministic", "the same execution gave " << jsonq(cut(g1, 600)) << " and " << jsonq(cut(got, 600)));
    if (k % 8 == 0) leakcheck("leak", trace, [&] { body(false); });
    c.nontrivial(trace + g1); if (k < 3 * c.shards) c.sample(trace);
  });
  c.finish(); return 0;
}
