// Simulated processes that run the ITK part: "filter" drives the difference
// filter on simulated worker threads, "itk" runs an image regression test,
// "imgcmp" the image comparison tool.
#include "exec.h"
#include "itktfRegression.h"
#include "itkMultiThreaderBase.h"
#include "itkObjectFactory.h"
#include "itkObjectFactoryBase.h"
#include "itkVersion.h"
#include "itkMetaImageIOFactory.h"
#include "itkMetaImageIO.h"
#include "itkPNGImageIOFactory.h"
#include "itkPNGImageIO.h"
#include "itkVector.h"
#include <complex>
#include "itkVectorImage.h"
#include "itktfFilterWatcher.h"
#include <sstream>
#include <memory>
#include "itkImageRegionIteratorWithIndex.h"
#include <algorithm>
#include <cstring>
#include <exception>

namespace sim {
namespace {
// ------------------------------------------------------------- worker threads
// Runs the work units of a filter as simulated threads; the order in which
// they start comes from the seed of the process, the switches from the plan.
struct Mt { uint64_t seed = 0; long calls = 0, units = 0; bool in_worker = false; };
Mt g_mt;
class SimMultiThreader : public itk::MultiThreaderBase {
public:
  typedef SimMultiThreader Self;
  typedef itk::MultiThreaderBase Superclass;
  typedef itk::SmartPointer<Self> Pointer;
  itkFactorylessNewMacro(Self);
  itkTypeMacro(SimMultiThreader, MultiThreaderBase);
  void SetSingleMethod(itk::ThreadFunctionType f, void* d) override { m_F = f; m_D = d; }
  void SingleMethodExecute() override {
    if (!m_F) itkExceptionMacro(<< "no method");
    this->SetNumberOfWorkUnits(std::min<itk::ThreadIdType>(itk::ITK_MAX_THREADS, this->GetNumberOfWorkUnits()));
    itk::ThreadIdType n = this->GetNumberOfWorkUnits();
    itk::ThreadFunctionType f = m_F; void* d = m_D;
    std::vector<std::exception_ptr>* ex; std::vector<WorkUnitInfo>* wi;
    {
      HostScope h;
      log("workers " + std::to_string(n));
      g_mt.calls++; g_mt.units += n;
      ex = new std::vector<std::exception_ptr>(n); wi = new std::vector<WorkUnitInfo>(n);
      std::vector<itk::ThreadIdType> order(n);
      for (itk::ThreadIdType i = 0; i < n; ++i) { order[i] = i; WorkUnitInfo& w = (*wi)[i]; w.WorkUnitID = i; w.NumberOfWorkUnits = n; w.UserData = d; w.ThreadFunction = f; w.ThreadExitCode = WorkUnitInfo::ThreadExitCodeEnum::SUCCESS; }
      Rng r(g_mt.seed + (uint64_t)g_mt.calls * 7919);
      for (size_t i = n; i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
      auto one = [f, ex, wi](itk::ThreadIdType i) {
        bool bad = false;
        { SutScope s; try { f(&(*wi)[i]); } catch (...) { bad = true; cur->sut = false; (*ex)[i] = std::current_exception(); } }
        if (bad) { HostScope h2; log("work unit " + std::to_string(i) + " threw"); }
      };
      if (n == 1) one(0);
      else {
        std::vector<std::pair<int, std::function<void()>>> es;
        int proc = P().id;
        for (itk::ThreadIdType i : order) es.emplace_back(proc, [one, i] { one(i); });
        run_fibers(es, true);
      }
    }
    std::exception_ptr first;
    { HostScope h; for (auto& e : *ex) if (e && !first) first = e; delete ex; delete wi; }
    if (first) std::rethrow_exception(first);
  }
protected:
  itk::ThreadFunctionType m_F = nullptr;
  void* m_D = nullptr;
  SimMultiThreader() { this->m_NumberOfWorkUnits = 4; }
};
class SimFactory : public itk::ObjectFactoryBase {
public:
  typedef SimFactory Self;
  typedef itk::SmartPointer<Self> Pointer;
  itkFactorylessNewMacro(Self);
  const char* GetITKSourceVersion() const override { return ITK_SOURCE_VERSION; }
  const char* GetDescription() const override { return "simulated worker threads"; }
protected:
  SimFactory() { this->RegisterOverride("MultiThreaderBase", "SimMultiThreader", "simulated", true, itk::CreateObjectFunction<SimMultiThreader>::New()); this->RegisterOverride(typeid(itk::MultiThreaderBase).name(), typeid(SimMultiThreader).name(), "simulated", true, itk::CreateObjectFunction<SimMultiThreader>::New()); }
};
void itk_setup() {
  itk::ObjectFactoryBase::RegisterFactory(SimFactory::New());
  itk::MetaImageIOFactory::RegisterOneFactory();
  itk::PNGImageIOFactory::RegisterOneFactory();
  itk::Object::SetGlobalWarningDisplay(false);
  itk::MultiThreaderBase::SetGlobalMaximumNumberOfThreads(16);
  // first use of the singletons of the libraries happens outside any simulated run
  typedef itk::Image<double, 3> I;
  I::Pointer a = I::New(); I::SizeType s; s.Fill(2); I::RegionType rg; rg.SetSize(s); a->SetRegions(rg); a->Allocate(); a->FillBuffer(1);
  typedef itk::tf::DifferenceImageFilter<I, I> D;
  D::Pointer d = D::New(); d->SetNumberOfWorkUnits(1); (void)d;
  itk::ImageFileReader<I>::New(); itk::ImageFileWriter<I>::New();
  itk::MetaImageIO::New(); itk::PNGImageIO::New();
}
double num(long long b) { double d; memcpy(&d, &b, 8); return d; }
long long bits(double d) { long long b; memcpy(&b, &d, 8); return b; }

// ------------------------------------------------------------- filter
template <class V> struct Comp { static const unsigned N = 1; static void get(const V& v, J& o) { o.push(bits((double)v)); } static V set(const J& p, size_t i, unsigned) { return (V)num(p.a[i].i); } };
template <class T, unsigned D> struct Comp<itk::Vector<T, D>> {
  static const unsigned N = D; typedef itk::Vector<T, D> V;
  static void get(const V& v, J& o) { for (unsigned i = 0; i < D; ++i) o.push(bits((double)v[i])); }
  static V set(const J& p, size_t i, unsigned) { V v; for (unsigned k = 0; k < D; ++k) v[k] = (T)num(p.a[i * D + k].i); return v; }
};
template <class T> struct Comp<std::complex<T>> {
  static const unsigned N = 2; typedef std::complex<T> V;
  static void get(const V& v, J& o) { o.push(bits((double)v.real())); o.push(bits((double)v.imag())); }
  static V set(const J& p, size_t i, unsigned) { return V((T)num(p.a[i * 2].i), (T)num(p.a[i * 2 + 1].i)); }
};
template <class T> struct Comp<itk::VariableLengthVector<T>> {
  static const unsigned N = 2; typedef itk::VariableLengthVector<T> V;
  static void get(const V& v, J& o) { for (unsigned i = 0; i < v.GetSize(); ++i) o.push(bits((double)v[i])); }
  static V set(const J& p, size_t i, unsigned) { V v(2); for (unsigned k = 0; k < 2; ++k) v[k] = (T)num(p.a[i * 2 + k].i); return v; }
};
template <class I> void set_len(I*, long) {}
template <class T, unsigned D> void set_len(itk::VectorImage<T, D>* i, long) { i->SetVectorLength(2); }

// Records the events a filter sends, and aborts it at a given progress event.
class Recorder : public itk::Command {
public:
  typedef Recorder Self;
  typedef itk::SmartPointer<Self> Pointer;
  itkFactorylessNewMacro(Self);
  std::string* to = nullptr; long progress = 0, abort_at = -1;
  void Execute(itk::Object* o, const itk::EventObject& e) override { seen(dynamic_cast<itk::ProcessObject*>(o), e); }
  void Execute(const itk::Object*, const itk::EventObject& e) override { seen(nullptr, e); }
private:
  void seen(itk::ProcessObject* p, const itk::EventObject& e) {
    bool stop = false;
    {
      HostScope h;
      const char* n = e.GetEventName(); char c = 0;
      if (!strcmp(n, "StartEvent")) c = 'S'; else if (!strcmp(n, "EndEvent")) c = 'E'; else if (!strcmp(n, "IterationEvent")) c = 'I'; else if (!strcmp(n, "AbortEvent")) c = 'A';
      else if (!strcmp(n, "ProgressEvent")) { if (progress++ == abort_at) stop = true; }
      if (c && to) { *to += c; log(std::string("filter event ") + c); }
    }
    if (stop && p) p->SetAbortGenerateData(true);
  }
};
struct Watch { itk::tf::FilterWatcher* w = nullptr; int stream = 0; };

template <class In, class Out> void run_filter(RunProc& rp) {
  const J& s = *rp.spec;
  typedef typename In::PixelType Px;
  const unsigned D = In::ImageDimension;
  std::vector<typename In::Pointer> imgs;
  auto region = [&](const J& r) {
    typename In::RegionType rg; typename In::IndexType ix; typename In::SizeType sz;
    for (unsigned d = 0; d < D; ++d) { ix[d] = r.at("start").a[d].i; sz[d] = (itk::SizeValueType)r.at("size").a[d].i; }
    rg.SetIndex(ix); rg.SetSize(sz); return rg;
  };
  auto fill = [&](In* im, const J& px) { itk::ImageRegionIteratorWithIndex<In> it(im, im->GetBufferedRegion()); size_t k = 0; for (it.GoToBegin(); !it.IsAtEnd(); ++it) it.Set(Comp<Px>::set(px, k++, 0)); };
  SutScope su;
  for (auto& im : s.at("images").a) {
    typename In::Pointer p = In::New();
    p->SetRegions(region(im)); set_len(p.GetPointer(), 0); p->Allocate();
    if (im.has("spacing")) { typename In::SpacingType sp; for (unsigned d = 0; d < D; ++d) sp[d] = num(im.at("spacing").a[d].i); p->SetSpacing(sp); }
    fill(p, im.at("px"));
    imgs.push_back(p);
  }
  typedef itk::tf::DifferenceImageFilter<In, Out> F;
  typename F::Pointer f = F::New();
  int k = 0; bool failed = false;
  std::string evs; std::vector<Watch> ws; std::vector<std::ostringstream*> ss; Recorder::Pointer rec;
  bool watched = s.num("streams") > 0;
  auto observe = [&] { if (watched) { rec = Recorder::New(); rec->to = &evs; f->AddObserver(itk::AnyEvent(), rec); } };
  auto end_watch = [&](Watch& w) { delete w.w; w.w = nullptr; };
  for (long i = 0; i < s.num("streams"); ++i) ss.push_back(new std::ostringstream);
  observe();
  for (auto& rd : s.at("rounds").a) {
    { HostScope h; event("op", "round " + std::to_string(k)); }
    J o; bool thrown = false; std::string what;
    { HostScope h; o = J::obj(); }
    if (rd.num("fresh") && k) { for (auto& w : ws) if (w.w) end_watch(w); f = F::New(); observe(); HostScope h; evs += 'N'; }
    if (rd.has("acts")) for (auto& a : rd.at("acts").a) {
      std::string what = a.str("a");
      if (what == "new") { Watch w; w.stream = (int)a.num("stream"); std::string text = a.str("text"); w.w = a.num("plain") ? new itk::tf::FilterWatcher(f, *ss[w.stream]) : new itk::tf::FilterWatcher(f, *ss[w.stream], text.c_str()); HostScope h; ws.push_back(w); evs += '+'; evs += (char)('a' + ws.size() - 1); }
      else if (what == "del") { size_t id = (size_t)a.num("id"); if (id < ws.size() && ws[id].w) { end_watch(ws[id]); HostScope h; evs += '-'; evs += (char)('a' + id); } }
      else if (what == "iter") f->InvokeEvent(itk::IterationEvent());
    }
    if (watched) { rec->progress = 0; rec->abort_at = rd.num("abort", -1); }
    if (rd.has("edit")) { const J& e = rd.at("edit"); In* im = imgs[e.num("img")]; fill(im, e.at("px")); im->Modified(); }
    f->SetValidInput(imgs[rd.num("valid")]); f->SetTestInput(imgs[rd.num("test")]);
    f->SetMagnitudeThreshold(num(rd.num("thr"))); f->SetToleranceRadius((unsigned)rd.num("radius")); f->SetIgnoreBoundaryPixels(rd.num("ign") != 0);
    f->SetNumberOfWorkUnits((itk::ThreadIdType)rd.num("wu"));
    // a region that is up to date is not computed again, so its statistics would be those of the last execution
    if (rd.num("touch") || rd.has("region") || failed) f->Modified();
    if (failed) { try { f->ResetPipeline(); } catch (...) {} }
    P().armed = true;
    try {
      if (rd.has("region")) { f->UpdateOutputInformation(); f->GetOutput()->SetRequestedRegion(region(rd.at("region"))); f->Update(); }
      else f->UpdateLargestPossibleRegion();
    } catch (std::exception& e) { HostScope h; thrown = true; what = e.what(); }
    catch (...) { thrown = true; }
    P().armed = false;
    failed = thrown;
    HostScope h;
    if (thrown) { o["thrown"] = 1; o["what"] = what.substr(0, 200); }
    else {
      o["count"] = (long long)f->GetNumberOfPixelsWithDifferences();
      o["total"] = bits((double)f->GetTotalMagnitude()); o["mean"] = bits((double)f->GetMeanMagnitude());
      Out* out = f->GetOutput();
      J px = J::arr(), st = J::arr(), sz = J::arr();
      typename Out::RegionType br = out->GetBufferedRegion();
      for (unsigned d = 0; d < D; ++d) { st.push((long long)br.GetIndex()[d]); sz.push((long long)br.GetSize()[d]); }
      itk::ImageRegionIteratorWithIndex<Out> it(out, br);
      for (it.GoToBegin(); !it.IsAtEnd(); ++it) Comp<typename Out::PixelType>::get(it.Get(), px);
      o["px"] = px; o["start"] = st; o["size"] = sz;
    }
    rp.res["rounds"].push(o);
    ++k;
  }
  for (auto& w : ws) if (w.w && s.num("keep")) end_watch(w); // some outlive the filter
  rec = nullptr; f = nullptr;
  for (auto& w : ws) if (w.w) end_watch(w);
  for (auto* o : ss) { std::string t = o->str(); delete o; HostScope h; rp.res["texts"].push(t); }
  { HostScope h; if (watched) rp.res["events"] = evs; }
  imgs.clear();
}
void filter_kind(RunProc& rp) {
  g_mt = Mt(); g_mt.seed = (uint64_t)rp.spec->num("seed");
  rp.res["rounds"] = J::arr(); rp.res["texts"] = J::arr();
  std::string t = rp.spec->str("type");
  if (t == "d2") run_filter<itk::Image<double, 2>, itk::Image<double, 2>>(rp);
  else if (t == "f2") run_filter<itk::Image<float, 2>, itk::Image<float, 2>>(rp);
  else if (t == "f3") run_filter<itk::Image<float, 3>, itk::Image<double, 3>>(rp);
  else if (t == "d3") run_filter<itk::Image<double, 3>, itk::Image<double, 3>>(rp);
  else if (t == "s2") run_filter<itk::Image<short, 2>, itk::Image<float, 2>>(rp);
  else if (t == "u3") run_filter<itk::Image<unsigned char, 3>, itk::Image<float, 3>>(rp);
  else if (t == "v2") run_filter<itk::Image<itk::Vector<float, 2>, 2>, itk::Image<itk::Vector<float, 2>, 2>>(rp);
  else if (t == "v3") run_filter<itk::Image<itk::Vector<double, 3>, 3>, itk::Image<itk::Vector<double, 3>, 3>>(rp);
  else if (t == "c2") run_filter<itk::Image<std::complex<double>, 2>, itk::Image<std::complex<double>, 2>>(rp);
  else if (t == "n2") run_filter<itk::Image<unsigned int, 2>, itk::Image<double, 2>>(rp);
  else if (t == "w2") run_filter<itk::VectorImage<float, 2>, itk::VectorImage<float, 2>>(rp);
  else fatal("harness", "unknown image type");
  rp.res["calls"] = g_mt.calls; rp.res["units"] = g_mt.units;
  rp.res["returned"] = 1;
}
// ------------------------------------------------------------- image regression test
class ItkTest : public itk::Regression {
public:
  RunProc* rp = nullptr;
protected:
  // a composite measurement: the values are those of its parts
  int comp(const J& op) {
    int r = 0;
    std::string c = op.str("comp"), name = op.str("name"); bool tol = op.num("tol") != 0, dflt = op.num("dflt") != 0;
    std::vector<long> iv; std::vector<double> dv;
    for (auto& q : op.at("parts").a) { iv.push_back((long)q.num("i")); dv.push_back(num(q.num("i"))); }
    auto sz = [&](auto& s, size_t at) { for (unsigned d = 0; d < s.Dimension; ++d) s[d] = (itk::SizeValueType)iv[at + d]; };
    auto ix = [&](auto& s, size_t at) { for (unsigned d = 0; d < s.Dimension; ++d) s[d] = iv[at + d]; };
    auto fl = [&](auto& v, unsigned n) { for (unsigned d = 0; d < n; ++d) v[d] = dv[d]; };
#define CALL(f, v) do { SutScope su_; r = dflt ? this->f(v, name) : this->f(v, name, tol); } while (0)
    if (c == "size1") { itk::Size<1> s; sz(s, 0); CALL(MeasurementInsightSize, s); }
    else if (c == "size2") { itk::Size<2> s; sz(s, 0); CALL(MeasurementInsightSize, s); }
    else if (c == "size3") { itk::Size<3> s; sz(s, 0); CALL(MeasurementInsightSize, s); }
    else if (c == "index2") { itk::Index<2> s; ix(s, 0); CALL(MeasurementInsightIndex, s); }
    else if (c == "index3") { itk::Index<3> s; ix(s, 0); CALL(MeasurementInsightIndex, s); }
    else if (c == "region2") { itk::ImageRegion<2> rg; itk::Index<2> i; itk::Size<2> s; ix(i, 0); sz(s, 2); rg.SetIndex(i); rg.SetSize(s); CALL(MeasurementInsightRegion, rg); }
    else if (c == "region3") { itk::ImageRegion<3> rg; itk::Index<3> i; itk::Size<3> s; ix(i, 0); sz(s, 3); rg.SetIndex(i); rg.SetSize(s); CALL(MeasurementInsightRegion, rg); }
    else if (c == "point2") { itk::Point<double, 2> v; fl(v, 2); CALL(MeasurementInsightPoint, v); }
    else if (c == "point3") { itk::Point<double, 3> v; fl(v, 3); CALL(MeasurementInsightPoint, v); }
    else if (c == "vector2") { itk::Vector<double, 2> v; fl(v, 2); CALL(MeasurementInsightVector, v); }
    else if (c == "vector4") { itk::Vector<double, 4> v; fl(v, 4); CALL(MeasurementInsightVector, v); }
    else if (c == "array3") { itk::FixedArray<double, 3> v; fl(v, 3); CALL(MeasurementInsightFixedArray, v); }
    else if (c == "array1") { itk::FixedArray<double, 1> v; fl(v, 1); CALL(MeasurementInsightFixedArray, v); }
    else if (c == "matrix23") { itk::Matrix<double, 2, 3> m; for (int i = 0; i < 2; ++i) for (int k = 0; k < 3; ++k) m[i][k] = dv[i * 3 + k]; CALL(MeasurementInsightMatrix, m); }
    else if (c == "matrix32") { itk::Matrix<double, 3, 2> m; for (int i = 0; i < 3; ++i) for (int k = 0; k < 2; ++k) m[i][k] = dv[i * 2 + k]; CALL(MeasurementInsightMatrix, m); }
    else fatal("harness", "unknown composite");
#undef CALL
    return r;
  }
  // counts the differing pixels of two images
  void cmp(const J& op) {
    std::string o = op.str("op"); int k = (int)op.num("k"); double t = num(op.at("x_tol").i); unsigned n = (unsigned)op.num("x_n"), rad = (unsigned)op.num("x_r");
    J out = J::obj(); unsigned long v = 0; bool threw = false; std::string what;
    typedef itk::Regression R;
    if (o == "cmpfile") {
      typedef itk::Image<double, 3> I; std::string a = op.str("path"), b = op.str("base");
      SutScope s;
      try {
        fileutil::PathName pa(a), pb(b);
        v = k == 0 ? R::CompareImage<I>(pa, pb) : k == 1 ? R::CompareImage<I>(pa, pb, t) : k == 2 ? R::CompareImage<I>(pa, pb, t, n) : R::CompareImage<I>(pa, pb, t, n, rad);
      } catch (std::exception& e) { HostScope h; threw = true; what = e.what(); }
    } else {
      typedef itk::Image<double, 2> I; I::Pointer im[2];
      SutScope s;
      try {
        for (int z = 0; z < 2; ++z) {
          const J& q = op.at(z ? "b" : "a"); im[z] = I::New(); I::IndexType ix; I::SizeType sz; for (int d = 0; d < 2; ++d) { ix[d] = q.at("start").a[d].i; sz[d] = (itk::SizeValueType)q.at("size").a[d].i; }
          I::RegionType rg; rg.SetIndex(ix); rg.SetSize(sz); im[z]->SetRegions(rg); im[z]->Allocate();
          size_t c = 0; itk::ImageRegionIteratorWithIndex<I> it(im[z], rg); for (it.GoToBegin(); !it.IsAtEnd(); ++it) it.Set(num(q.at("px").a[c++].i));
        }
        I::ConstPointer a = im[0].GetPointer(), b = im[1].GetPointer(); I::RegionType rg = a->GetLargestPossibleRegion();
        v = op.num("region") ? (k == 0 ? R::CompareImage<I>(a, b, rg) : R::CompareImage<I>(a, b, t, n, rad, rg))
          : k == 0 ? R::CompareImage<I>(a, b) : k == 1 ? R::CompareImage<I>(a, b, t) : k == 2 ? R::CompareImage<I>(a, b, t, n) : R::CompareImage<I>(a, b, t, n, rad);
      } catch (std::exception& e) { HostScope h; threw = true; what = e.what(); }
      im[0] = nullptr; im[1] = nullptr;
    }
    if (threw) { out["threw"] = 1; out["what"] = what; } else if (v == std::numeric_limits<unsigned long>::max()) out["max"] = 1; else out["v"] = (long)v;
    rp->res["cmps"].push(out);
  }
  int Test(int argc, char* argv[]) override {
    HostScope h;
    J& res = rp->res; const J& spec = *rp->spec;
    res["called"] = res.num("called") + 1;
    J av = J::arr(); for (int i = 0; i < argc; ++i) av.push(std::string(argv[i])); res["argv"] = av;
    int i = 0; res["done"] = 0;
    for (auto& op : spec.at("ops").a) {
      std::string o = op.str("op"), name = op.str("name");
      event("op", std::to_string(i) + " " + o);
      if (o == "itol") { double t = num(op.at("v").i); unsigned n = (unsigned)op.num("n"), r = (unsigned)op.num("r"); SutScope s; if (op.num("off")) this->SetImageInsightToleranceOff(); else this->SetImageInsightTolerance(t, n, r); }
      else if (o == "img") { std::string path = op.str("path"); int q; { SutScope s; q = this->MeasurementInsightFileImage(path, name); } res["mret"].push(q); }
      else if (o == "imgmem") { // writes the image itself, then measures the file
        typedef itk::Image<float, 2> I; int q;
        { SutScope s;
        I::Pointer im = I::New(); I::SizeType sz; sz[0] = op.at("size").a[0].i; sz[1] = op.at("size").a[1].i; I::RegionType rg; rg.SetSize(sz); im->SetRegions(rg); im->Allocate();
        { size_t k = 0; itk::ImageRegionIteratorWithIndex<I> it(im, rg); for (it.GoToBegin(); !it.IsAtEnd(); ++it) it.Set((float)num(op.at("px").a[k++].i)); }
        q = this->MeasurementInsightImage<I>(im, name); }
        res["mret"].push(q);
      }
      else if (o == "comp") { int q = comp(op); res["mret"].push(q); }
      else if (o.compare(0, 3, "cmp") == 0) cmp(op);
      else if (o == "m") { long v = (long)op.num("i"); int q; { SutScope s; q = this->MeasurementNumericInteger(v, name, op.num("tol") != 0); } res["mret"].push(q); }
      else if (o == "str") { std::string v = op.str("text"); int q; { SutScope s; q = this->MeasurementTextString(v, name); } res["mret"].push(q); }
      else fatal("harness", "unknown operation");
      ++i; res["done"] = i;
    }
    event("op", "end");
    res["completed"] = 1;
    return 0;
  }
};
} // namespace
} // namespace sim
int itktfImageCompare_main(int argc, char* argv[]);
namespace sim {
namespace {
void itk_kind(RunProc& rp) {
  const J& spec = *rp.spec;
  g_mt = Mt(); g_mt.seed = (uint64_t)spec.num("seed");
  Proc& p = P();
  std::vector<std::string> args = {spec.str("argv0", "prog")};
  for (auto& a : spec.at("args").a) args.push_back(a.s);
  char** argv;
  bool tool = spec.num("tool") != 0;
  int r = 0;
  ItkTest* t = nullptr;
  {
    SutScope s;
    argv = (char**)arena_alloc_nofault((args.size() + 1) * sizeof(char*));
    for (size_t i = 0; i < args.size(); ++i) { argv[i] = (char*)arena_alloc_nofault(args[i].size() + 1); HostScope h; memcpy(argv[i], args[i].c_str(), args[i].size() + 1); }
    argv[args.size()] = 0;
    if (!tool) { t = new ItkTest; t->rp = &rp; }
  }
  p.armed = true;
  for (int k = 0; k < (int)spec.num("runs", 1); ++k) {
    { SutScope s; r = tool ? itktfImageCompare_main((int)args.size(), argv) : t->Main((int)args.size(), argv); }
    rp.res["rets"].push(r);
  }
  rp.res["ret"] = r; rp.res["returned"] = 1;
  event("ret", std::to_string(r));
  if (t) { SutScope s; delete t; }
  p.armed = false;
  rp.res["units"] = g_mt.units;
  long lv = 0; for (auto& o : W->ofds) if (o->proc == p.id && o->open) ++lv;
  rp.res["open_after"] = lv;
}
struct Reg { Reg() { add_kind("itk", itk_kind); add_warm(itk_setup); add_kind("filter", filter_kind); } } reg;
}
}
