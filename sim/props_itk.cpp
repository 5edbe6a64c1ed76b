// Properties of the ITK part: C12 (image comparison), C13 (difference filter).
#include "common.h"
#include <png.h>
#include <set>
#include <cerrno>
using namespace prop;

namespace {
double num(long long b) { double d; memcpy(&d, &b, 8); return d; }
long long bits(double d) { long long b; memcpy(&b, &d, 8); return b; }
typedef std::vector<long> Ix;
struct Region { Ix start, size; long count() const { long n = 1; for (long s : size) n *= s; return n; } };
Region region_of(const J& j) { Region r; for (auto& x : j.at("start").a) r.start.push_back(x.i); for (auto& x : j.at("size").a) r.size.push_back(x.i); return r; }
bool inside(const Region& r, const Ix& p) { for (size_t d = 0; d < p.size(); ++d) if (p[d] < r.start[d] || p[d] >= r.start[d] + r.size[d]) return false; return true; }
long offset(const Region& r, const Ix& p) { long o = 0, st = 1; for (size_t d = 0; d < p.size(); ++d) { o += (p[d] - r.start[d]) * st; st *= r.size[d]; } return o; }
bool next(const Region& r, Ix& p) { for (size_t d = 0; d < p.size(); ++d) { if (++p[d] < r.start[d] + r.size[d]) return true; p[d] = r.start[d]; } return false; }
struct Img { Region r; unsigned nc = 1; std::vector<double> px; const double* at(const Ix& p) const { return &px[offset(r, p) * nc]; } };

// ---- the difference of one pixel, computed one after another
enum PT { Same, Differs, Edge }; // Edge: within rounding of the threshold
struct PixRef { PT t = Same; long double mag = 0; bool nonfinite = false; std::vector<std::vector<double>> cand; bool boundary = false; };
bool whole(double d) { return std::fabs(d) < 1e7 && d == std::floor(d); }
PixRef pixel(const Img& valid, const Img& test, const Ix& p, long radius, double thr, bool ign) {
  PixRef R;
  unsigned nc = valid.nc;
  const double* c = valid.at(p);
  Ix o(p.size(), -radius), q(p.size());
  bool first = true, allint = whole(thr), any_edge = false, any_same = false, alln = true;
  long double best = 0; std::vector<double> bd(nc);
  struct C { long double m2; std::vector<double> d; };
  std::vector<C> cs;
  for (;;) {
    for (size_t d = 0; d < p.size(); ++d) {
      q[d] = p[d] + o[d]; long lo = test.r.start[d], hi = lo + test.r.size[d] - 1;
      if (q[d] < lo) { q[d] = lo; R.boundary = true; } if (q[d] > hi) { q[d] = hi; R.boundary = true; }
    }
    const double* t = test.at(q);
    long double m2 = 0; std::vector<double> df(nc); bool nan = false, same = true;
    for (unsigned k = 0; k < nc; ++k) {
      bool bothnan = c[k] != c[k] && t[k] != t[k];
      if (!(c[k] == t[k] || bothnan)) same = false;
      df[k] = c[k] - t[k]; if (df[k] != df[k]) nan = true;
      if (!std::isfinite(df[k])) R.nonfinite = true;
      m2 += (long double)df[k] * df[k];
      if (!whole(c[k]) || !whole(t[k])) allint = false;
    }
    long double t2 = (long double)thr * thr;
    if (same) any_same = true;
    else if (!nan) {
      alln = false;
      bool eq = nc == 1 ? std::fabs(df[0]) == thr : allint && m2 == t2;
      if (eq) any_same = true;
      else if (m2 == 0 && t2 == 0) any_same = true;
      else if (std::fabs((double)(m2 - t2)) <= 1e-11 * (double)t2) any_edge = true;
      else if (m2 < t2) any_same = true;
    }
    if (same) m2 = 0;
    if (!nan || same) { cs.push_back({m2, df}); if (first || m2 < best) { best = m2; first = false; } }
    size_t d = 0; for (; d < p.size(); ++d) { if (++o[d] <= radius) break; o[d] = -radius; }
    if (d == p.size()) break;
  }
  if (ign && R.boundary) { R.t = Same; return R; }
  R.t = any_same ? Same : any_edge ? Edge : Differs;
  R.mag = std::sqrt((double)best);
  for (auto& x : cs) if (x.m2 <= best * (1 + 1e-12L)) R.cand.push_back(x.d);
  if (alln && !any_same) R.nonfinite = true;
  (void)bd;
  return R;
}
const char* TYPES[] = {"d2", "f2", "f3", "d3", "s2", "u3", "v2", "w2", "c2", "n2", "v3"};
unsigned comps(const std::string& t) { return t == "v3" ? 3 : t[0] == 'v' || t[0] == 'w' || t[0] == 'c' ? 2 : 1; }
size_t dims(const std::string& t) { return t[1] - '0'; }
struct Vals {
  int mode; std::string type; Rng& r;
  double one() {
    double v;
    switch (mode) {
      case 0: v = (double)r.below(3); break;
      case 1: v = (double)r.range(-40, 40); break;
      case 2: v = (double)r.range(-1000, 1000) / 7.0; break;
      case 3: v = (double)(r.below(2) * 255); break;
      case 4: v = (double)r.range(-5, 5) + 0.25 * r.below(4); break;
      default: v = (r.chance(1, 8) ? 1e6 : 1.0) * (double)r.range(-300, 300) / 3.0; break;
    }
    return fit(v);
  }
  double fit(double v) const {
    char k = type[0];
    if (k == 'u') return (double)(((long)std::floor(std::fabs(v))) & 255);
    if (k == 's') { long l = (long)std::floor(v); return (double)std::max(-30000L, std::min(30000L, l)); }
    if (k == 'n') return (double)(uint32_t)(long)std::floor(std::max(-4e9, std::min(4e9, v)));
    if (k == 'd' || k == 'c' || type == "v3") return v;
    return (double)(float)v;
  }
};
J px_json(const std::vector<double>& v) { J a = J::arr(); for (double d : v) a.push(bits(d)); return a; }
// a test image near the baseline image
std::vector<double> perturb_px(Rng& r, Vals& va, const std::vector<double>& base, const Region& rg, unsigned nc, double thr, bool nonfinite) {
  std::vector<double> t = base;
  long n = rg.count();
  int k = (int)r.below(6);
  if (k == 0) {}
  else if (k <= 2) { long m = r.chance(1, 3) ? 1 : (long)r.range(1, std::max(1L, n / 2)); for (long i = 0; i < m; ++i) { size_t at = r.below(t.size()); static const double S[] = {1, -1, 0.5, 2, 1.0000001, 0.999, -1.001, 3}; t[at] = va.fit(base[at] + S[r.below(8)] * (thr > 0 && r.chance(2, 3) ? thr : 1 + (double)r.below(4))); } }
  else if (k == 3) { for (auto& x : t) x = va.one(); }
  else if (k == 4) { // moved by some pixels
    Ix p = rg.start, q(p.size()), sh(p.size()); for (auto& s : sh) s = (long)r.range(-2, 2);
    do { for (size_t d = 0; d < p.size(); ++d) { long s = rg.size[d]; q[d] = rg.start[d] + ((p[d] - rg.start[d] + sh[d]) % s + s) % s; } for (unsigned c = 0; c < nc; ++c) t[offset(rg, p) * nc + c] = base[offset(rg, q) * nc + c]; } while (next(rg, p));
  } else { for (size_t i = 0; i < t.size(); ++i) if (r.chance(1, 3)) t[i] = va.fit(base[i] + (r.chance(1, 2) ? thr : -thr) * (r.chance(1, 2) ? 1.0 : 1.5)); }
  if (nonfinite) { static const double N[] = {NAN, INFINITY, -INFINITY}; int m = (int)r.range(1, 3); for (int i = 0; i < m; ++i) t[r.below(t.size())] = N[r.below(3)]; }
  return t;
}
} // namespace

// ------------------------------------------------------------------ C13
static J filter_plan(const char* id, uint64_t seed) {
  Gen g(seed); Rng& r = g.r;
  J pl = gen::plan(id, seed, g);
  pl["trace"] = 1; pl["step_cap"] = 30000000L;
  J p = J::obj(); p["kind"] = "filter"; p["cwd"] = "/w"; p["host"] = "h"; p["clock"] = 1000000000L; p["seed"] = (long)r.below(1u << 30); p["split"] = 0L; p["args"] = J::arr(); p["ops"] = J::arr();
  std::string type = TYPES[r.below(11)]; p["type"] = type;
  size_t D = dims(type); unsigned nc = comps(type);
  Vals va{(int)r.below(6), type, r};
  bool nf = type[0] != 's' && type[0] != 'u' && type[0] != 'n' && r.chance(1, 6);
  auto thr = [&]() -> double { static const double T[] = {0, 0, 0.5, 1, 2, 5, 1.0 / 7, 40, 1e-3}; return T[r.below(9)]; };
  Region rg; bool shifted = r.chance(1, 4);
  for (size_t d = 0; d < D; ++d) { rg.size.push_back(r.chance(1, 6) ? 1 : (long)r.range(1, D == 2 ? 9 : 5)); rg.start.push_back(shifted ? (long)r.range(-3, 4) : 0); }
  auto image = [&](const Region& q, const std::vector<double>& px) { J i = J::obj(); J s = J::arr(), z = J::arr(); for (long x : q.start) s.push(x); for (long x : q.size) z.push(x); i["start"] = s; i["size"] = z; i["px"] = px_json(px); if (r.chance(1, 5)) { J sp = J::arr(); for (size_t d = 0; d < D; ++d) sp.push(bits(0.5 + (double)r.below(4))); i["spacing"] = sp; } return i; };
  std::vector<std::vector<double>> data; std::vector<Region> regs;
  std::vector<double> b(rg.count() * nc); for (auto& x : b) x = va.one();
  if (r.chance(1, 8)) for (auto& x : b) x = b[0];
  if (nf && r.chance(1, 2)) b[r.below(b.size())] = r.chance(1, 2) ? NAN : INFINITY;
  double t0 = thr();
  data.push_back(b); regs.push_back(rg); data.push_back(perturb_px(r, va, b, rg, nc, t0, nf)); regs.push_back(rg);
  bool bigger = r.chance(1, 6);
  if (bigger) { // the test image reaches beyond the baseline
    Region q = rg; for (size_t d = 0; d < D; ++d) { long lo = (long)r.below(3), hi = (long)r.below(3); q.start[d] -= lo; q.size[d] += lo + hi; }
    std::vector<double> t(q.count() * nc); for (auto& x : t) x = va.one();
    Ix i = rg.start; do { for (unsigned c = 0; c < nc; ++c) if (!r.chance(1, 5)) t[offset(q, i) * nc + c] = b[offset(rg, i) * nc + c]; } while (next(rg, i));
    data.push_back(t); regs.push_back(q);
  } else if (r.chance(1, 3)) { data.push_back(perturb_px(r, va, b, rg, nc, t0, false)); regs.push_back(rg); }
  if (nc > 1) for (auto& d : data) for (auto& x : d) if (x != x) x = INFINITY; // vectors that are not a number: not specified
  J ims = J::arr(); for (size_t i = 0; i < data.size(); ++i) ims.push(image(regs[i], data[i]));
  p["images"] = ims;
  J rds = J::arr(); int n = r.chance(1, 2) ? 1 : (int)r.range(2, 4);
  for (int i = 0; i < n; ++i) {
    J q = J::obj(); int t = 1 + (int)r.below(data.size() - 1); int v = 0;
    if (!bigger && r.chance(1, 5)) std::swap(t, v);
    q["valid"] = v; q["test"] = t; q["thr"] = bits(i == 0 || r.chance(1, 2) ? t0 : thr()); q["radius"] = r.chance(1, 2) ? 0L : (long)r.range(1, 3); q["ign"] = r.chance(1, 4);
    static const int WU[] = {1, 2, 3, 4, 5, 7, 8, 16}; q["wu"] = r.chance(1, 5) ? 1 : WU[r.below(8)];
    if (r.chance(1, 3)) q["touch"] = 1;
    if (i && r.chance(1, 6)) q["fresh"] = 1;
    if (i && r.chance(1, 4)) { int im = (int)r.below(data.size()); std::vector<double> e = perturb_px(r, va, data[im], regs[im], nc, t0, false); J ed = J::obj(); ed["img"] = im; ed["px"] = px_json(e); q["edit"] = ed; }
    if (r.chance(1, 5)) { J reg = J::obj(); J s = J::arr(), z = J::arr(); for (size_t d = 0; d < D; ++d) { long a = (long)r.below(rg.size[d]), l = (long)r.range(1, rg.size[d] - a); s.push(rg.start[d] + a); z.push(l); } reg["start"] = s; reg["size"] = z; q["region"] = reg; }
    rds.push(q);
  }
  p["rounds"] = rds;
  pl["procs"].push(p); add_phase(pl, phase1({0}));
  return pl;
}
static J c13_gen(uint64_t seed) { return filter_plan("C13", seed); }
static void c13_place(J& pl, const J& dry, uint64_t seed) {
  Gen g(seed ^ 0xC13); Rng& r = g.r;
  if (dry.at("phases").size() == 0) return;
  const J& ph = dry.at("phases").a[0];
  std::vector<std::pair<long, long>> sp; for (auto& s : ph.at("spans").a) if (s.a[1].i > s.a[0].i + 2) sp.emplace_back(s.a[0].i, s.a[1].i);
  const J& sh = ph.at("shared_steps");
  if (!sp.empty() && r.chance(7, 8)) {
    std::vector<long> at; int k = (int)r.range(1, r.chance(1, 3) ? 60 : 8); bool burst = r.chance(1, 3);
    long lo = 0;
    for (int i = 0; i < k; ++i) {
      if (sh.size() && r.chance(2, 3)) at.push_back(sh.a[r.below(sh.size())].i + (long)r.below(2));
      else if (burst && lo) at.push_back(lo + (long)r.range(1, 150));
      else { auto& s = sp[r.below(sp.size())]; at.push_back(s.first + 1 + (long)r.below(s.second - s.first)); }
      lo = at.back();
    }
    std::sort(at.begin(), at.end());
    J pre = J::arr(); for (long a : at) { J e = J::arr(); e.push(a); e.push((long)r.below(64)); pre.push(e); }
    pl["phases"].a[0]["preempt"] = pre;
  }
  if (r.chance(1, 6)) place(g, pl, dry, 0, {"alloc"}, (int)r.range(1, 2));
}
static void c13_judge(Judge& j) {
  const J& s = j.spec(0); const J& r = j.proc(0);
  std::string type = s.str("type"); unsigned nc = comps(type);
  bool faulty = j.rec.at("fired").has("alloc/ENOMEM");
  if (!r.num("returned")) { if (!faulty) j.bad("no-return", "the filter did not return: " + r.str("escaped")); return; }
  std::vector<Img> im;
  for (auto& i : s.at("images").a) { Img x; x.r = region_of(i); x.nc = nc; for (auto& v : i.at("px").a) x.px.push_back(num(v.i)); im.push_back(x); }
  for (size_t k = 0; k < s.at("rounds").size(); ++k) {
    const J& q = s.at("rounds").a[k]; const J& o = r.at("rounds").a[k];
    if (q.has("edit")) { auto& e = im[q.at("edit").num("img")]; e.px.clear(); for (auto& v : q.at("edit").at("px").a) e.px.push_back(num(v.i)); }
    if (q.num("wu") > 1) j.nontrivial = true;
    if (o.has("thrown")) { if (!faulty) { j.bad("thrown", "the filter threw " + model::printable(o.str("what"), 200)); return; } j.probes["c13.thrown"]++; continue; }
    const Img &v = im[q.num("valid")], &t = im[q.num("test")];
    Region rg = q.has("region") ? region_of(q.at("region")) : v.r;
    std::string where = "round " + S(k) + " (" + type + ", " + S(q.num("wu")) + " work units, radius " + S(q.num("radius")) + ", threshold " + std::to_string(num(q.at("thr").i)) + (q.num("ign") ? ", ignoring the boundary" : "") + "): ";
    Region got = region_of(o);
    long lo = 0, hi = 0; long double total = 0; bool nf = false, edge = false;
    Ix p = rg.start;
    do {
      PixRef x = pixel(v, t, p, q.num("radius"), num(q.at("thr").i), q.num("ign"));
      if (x.t == Differs) { ++lo; ++hi; total += x.mag; if (x.nonfinite) nf = true; } else if (x.t == Edge) { ++hi; edge = true; }
      if (!inside(got, p)) { j.bad("region", where + "the output does not hold the requested region"); return; }
      const J& px = o.at("px"); size_t at = (size_t)offset(got, p) * nc;
      std::vector<double> d; for (unsigned c = 0; c < nc; ++c) d.push_back(num(px.a[at + c].i));
      bool zero = true; for (double y : d) if (y != 0) zero = false;
      std::string ps; for (long i : p) ps += (ps.empty() ? "" : ",") + S(i);
      if (x.t == Same && !zero) { j.bad("output", where + "the difference at [" + ps + "] is " + std::to_string(d[0]) + " although a pixel in the radius is within the threshold"); return; }
      if (x.t == Differs && !x.nonfinite) {
        bool ok = false;
        for (auto& c : x.cand) { bool m = true; for (unsigned z = 0; z < nc; ++z) { double w = type[0] == 'd' || type[0] == 'c' || type[0] == 'n' || type == "f3" || type == "v3" ? c[z] : (double)(float)c[z]; if (!(std::fabs(w - d[z]) <= 1e-9 * std::fabs(w))) m = false; } if (m) ok = true; }
        if (!ok) { j.bad("output", where + "the difference at [" + ps + "] is " + std::to_string(d[0]) + ", not the smallest difference to a pixel in the radius, of magnitude " + std::to_string((double)x.mag)); return; }
      }
      if (x.t != Same) j.probes["c13.differs"]++;
    } while (next(rg, p));
    long cnt = (long)o.num("count");
    if (cnt < lo || cnt > hi) { j.bad("count", where + "the number of differing pixels is " + S(cnt) + " instead of " + S(lo)); return; }
    if (!nf && !edge) {
      double T = num(o.at("total").i), M = num(o.at("mean").i), m = (double)total / rg.count();
      if (!(std::fabs(T - (double)total) <= 1e-9 * (double)total)) { j.bad("total", where + "the total difference is " + std::to_string(T) + " instead of " + std::to_string((double)total)); return; }
      if (!(std::fabs(M - m) <= 1e-9 * m)) { j.bad("mean", where + "the mean difference is " + std::to_string(M) + " instead of " + std::to_string(m)); return; }
    }
    if (k && j.plan.at("faults").size()) j.probes["c13.after-fault"]++;
    if (q.num("ign")) j.probes["c13.ignore-boundary"]++;
    if (q.has("region")) j.probes["c13.requested-region"]++;
    if (nf) j.probes["c13.non-finite"]++;
  }
  j.probes["c13.workers"] += r.num("units");
}
static RegProp rC13({"C13", c13_gen, c13_place, nullptr, false, c13_judge, true});

// ------------------------------------------------------------------ C20
static J c20_gen(uint64_t seed) {
  J pl = filter_plan("C20", seed);
  Gen g(seed ^ 0xC20); Rng& r = g.r;
  J& p = pl["procs"].a[0];
  long streams = r.chance(2, 3) ? 1 : 2; p["streams"] = streams; p["keep"] = (long)r.below(2);
  auto& rds = p["rounds"].a;
  if (r.chance(1, 2)) { size_t n = rds.size(); for (size_t i = 0; i < n && rds.size() < 5; ++i) { J c = rds[i]; c.o.erase(std::remove_if(c.o.begin(), c.o.end(), [](const std::pair<std::string, J>& x) { return x.first == "edit"; }), c.o.end()); rds.push_back(c); } }
  int made = 0;
  for (size_t i = 0; i < rds.size(); ++i) {
    J acts = J::arr(); int n = i == 0 ? (int)r.range(1, 2) : (int)r.below(4);
    for (int k = 0; k < n; ++k) {
      J a = J::obj();
      if (!made || r.chance(1, 3)) { if (made > 8) continue; a["a"] = "new"; a["stream"] = (long)r.below(streams); if (r.chance(1, 6)) a["plain"] = 1; else { std::string t = g.str(20); t = t.substr(0, t.find('\0')); a["text"] = t; } ++made; }
      else if (r.chance(1, 2)) { a["a"] = "del"; a["id"] = (long)r.below(made); }
      else a["a"] = "iter";
      acts.push(a);
    }
    if (r.chance(1, 16)) { int m = (int)r.range(20, 150); for (int k = 0; k < m; ++k) { J a = J::obj(); a["a"] = "iter"; acts.push(a); } }
    rds[i]["acts"] = acts;
    if (r.chance(1, 4)) rds[i]["abort"] = (long)r.below(12);
    if (r.chance(2, 3)) rds[i]["touch"] = 1;
  }
  return pl;
}
static void c20_judge(Judge& j) {
  const J& s = j.spec(0); const J& r = j.proc(0);
  bool faulty = j.rec.at("fired").has("alloc/ENOMEM");
  if (!r.num("returned")) { if (!faulty) j.bad("no-return", "the filter did not return: " + r.str("escaped")); return; }
  struct W { int stream; std::string text; bool on; };
  std::vector<W> ws, all; std::vector<std::string> want((size_t)s.num("streams"));
  for (auto& q : s.at("rounds").a) for (auto& a : q.at("acts").a) if (a.str("a") == "new") all.push_back({(int)a.num("stream"), a.num("plain") ? std::string() : a.str("text"), true});
  std::string ev = r.str("events");
  long starts = 0, ends = 0, aborts = 0; bool running = false;
  for (size_t i = 0; i < ev.size(); ++i) {
    char c = ev[i];
    if (c == '+') { ws.push_back(all.at(ev[++i] - 'a')); continue; }
    if (c == '-') { ws.at(ev[++i] - 'a').on = false; continue; }
    if (c == 'N') { for (auto& w : ws) w.on = false; running = false; continue; }
    if (c == 'S') { ++starts; running = true; } else if (c == 'E') { ++ends; if (!running) { j.bad("events", "the filter sent an end without a start"); return; } running = false; } else if (c == 'A') { ++aborts; running = false; }
    for (auto& w : ws) if (w.on) {
      std::string& t = want.at(w.stream);
      if (c == 'S') t += "-------- Start DifferenceImageFilter \"" + w.text + "\" ";
      else if (c == 'I') t += " # ";
      else if (c == 'A') t += "\n      ABORT\n";
      else if (c == 'E') t += "\n-------- End DifferenceImageFilter \"" + w.text + "\" \n";
      j.nontrivial = true;
    }
  }
  j.probes["c20.starts"] += starts; j.probes["c20.ends"] += ends; j.probes["c20.aborts"] += aborts; j.probes["c20.watchers"] += (long)ws.size();
  for (auto& w : ws) if (!w.on) j.probes["c20.ended"]++;
  for (size_t i = 0; i < want.size(); ++i) {
    std::string got = r.at("texts").a.at(i).s;
    if (faulty && got != want[i] && want[i].compare(0, got.size(), got) == 0) { j.probes["c20.stream-failed"]++; continue; } // the stream itself ran out of memory
    if (got != want[i]) { j.bad("text", "the watchers of stream " + S((long)i) + " wrote " + model::printable(got, 300) + " instead of " + model::printable(want[i], 300) + " (events " + ev + ")"); return; }
  }
}
static RegProp rC20({"C20", c20_gen, c13_place, nullptr, false, c20_judge, true});

// ------------------------------------------------------------------ C12
namespace {
struct Image3 { bool ok = true; long cut = -1; Region r; // cut: the first pixel that is missing in the file
  double spacing[3] = {1, 1, 1}, origin[3] = {0, 0, 0}; std::vector<double> px; };
J img_json(const Image3& i) { J o = J::obj(); o["ok"] = i.ok; o["cut"] = i.cut; J s = J::arr(), sp = J::arr(), og = J::arr(); for (long x : i.r.size) s.push(x); for (int d = 0; d < 3; ++d) { sp.push(bits(i.spacing[d])); og.push(bits(i.origin[d])); } o["size"] = s; o["spacing"] = sp; o["origin"] = og; o["px"] = px_json(i.px); return o; }
Image3 img_of(const J& o) { Image3 i; i.ok = o.num("ok"); i.cut = o.num("cut", -1); for (auto& x : o.at("size").a) { i.r.size.push_back(x.i); i.r.start.push_back(0); } for (int d = 0; d < 3; ++d) { i.spacing[d] = num(o.at("spacing").a[d].i); i.origin[d] = num(o.at("origin").a[d].i); } for (auto& x : o.at("px").a) i.px.push_back(num(x.i)); return i; }
// MetaImage files: element type, byte order, text or binary, one file or two
struct Meta { std::string type; bool ascii = false, msb = false, ext = false; int dim = 3; };
std::string put_elem(double v, const Meta& m) {
  std::string b;
  auto raw = [&](const void* p, size_t n) { b.assign((const char*)p, n); if (m.msb) std::reverse(b.begin(), b.end()); };
  if (m.type == "MET_DOUBLE") raw(&v, 8); else if (m.type == "MET_FLOAT") { float f = (float)v; raw(&f, 4); }
  else if (m.type == "MET_SHORT") { short x = (short)v; raw(&x, 2); } else if (m.type == "MET_INT") { int x = (int)v; raw(&x, 4); } else { unsigned char x = (unsigned char)v; raw(&x, 1); }
  return b;
}
std::string dtext(double v) { char b[40]; snprintf(b, sizeof b, "%.17g", v); return b; }
std::string meta_data(const Image3& i, const Meta& m) {
  std::string d; for (double v : i.px) { if (m.ascii) { d += dtext(v) + " "; } else d += put_elem(v, m); } return d;
}
std::string meta_header(const Image3& i, const Meta& m, const std::string& where, Rng& r) {
  std::string s = "ObjectType = Image\nNDims = " + S(m.dim) + "\n";
  auto list = [&](const char* k, const double* v) { s += k; s += " ="; for (int d = 0; d < m.dim; ++d) s += " " + dtext(v[d]); s += "\n"; };
  s += std::string("BinaryData = ") + (m.ascii ? "False" : "True") + "\nBinaryDataByteOrderMSB = " + (m.msb ? "True" : "False") + "\n";
  if (r.chance(1, 3)) s += "CompressedData = False\n";
  bool plain = true; for (int d = 0; d < 3; ++d) if (i.origin[d] != 0) plain = false;
  if (!plain || r.chance(1, 2)) list(r.chance(1, 3) ? "Position" : "Offset", i.origin);
  list("ElementSpacing", i.spacing);
  s += "DimSize ="; for (int d = 0; d < m.dim; ++d) s += " " + S(i.r.size[d]);
  s += "\nElementType = " + m.type + "\nElementDataFile = " + where + "\n";
  return s;
}
void put_image(Gen& g, J& pl, const std::string& path, const Image3& i, Meta m, const std::string& damage) {
  Rng& r = g.r;
  if (m.dim == 2 && (i.r.size[2] != 1 || i.spacing[2] != 1 || i.origin[2] != 0)) m.dim = 3;
  std::string data = meta_data(i, m);
  Image3 rec = i; bool missing = damage == "missing", known = true;
  if (damage == "noraw" && !m.ext) rec.cut = 0; else if (!damage.empty() && damage != "cut") rec.ok = false;
  if (damage == "cut") { m.ext = false; size_t e = data.size() / i.px.size(); data.resize(data.size() - 1 - r.below(data.size())); rec.cut = (long)(data.size() / e); }
  std::string head = meta_header(i, m, m.ext ? path.substr(path.rfind('/') + 1) + ".raw" : "LOCAL", r);
  if (damage == "head") head.resize(r.below(head.size() > 60 ? head.size() - 60 : 1));
  if (damage == "empty") { head.clear(); data.clear(); }
  if (damage == "noise") { head = "not an image\n"; data = "1 2 3 4\n"; }
  if (!missing) { if (m.ext) { pl["fs"].push(file(path, head)); if (damage != "noraw") pl["fs"].push(file(path + ".raw", data)); } else if (damage == "noraw") pl["fs"].push(file(path, head)); else pl["fs"].push(file(path, head + data)); }
  J o = img_json(rec); o["etype"] = m.type; (void)known;
  pl["x_imgs"][path] = o;
}
// the number of pixels beyond the tolerance; true if it is determined by all of the pixels
bool differing(const Image3& t, const Image3& b, double tol, long radius, long& lo, long& hi) {
  Img vi, ti; vi.r = b.r; vi.px = b.px; ti.r = t.r; ti.px = t.px;
  lo = hi = 0; Ix p = b.r.start;
  bool part = t.cut >= 0 || b.cut >= 0; // the library fills in what is missing
  do {
    PixRef x = pixel(vi, ti, p, radius, tol, false);
    if (part && (radius || (t.cut >= 0 && offset(t.r, p) >= t.cut) || (b.cut >= 0 && offset(b.r, p) >= b.cut))) { ++hi; continue; }
    if (x.t != Same) ++hi;
    if (x.t == Differs) ++lo;
    double c = *vi.at(p); if (c != c && x.t == Same) ++hi; // both not a number: not specified
  } while (next(b.r, p));
  return !part;
}
double slight(Rng& r) { static const double V[] = {1e-2, 1e-3, 1e-5, 1e-6, 1e-7, 1e-9, 1e-11}; return V[r.below(7)]; }
bool same_space(const Image3& t, const Image3& b) { for (int d = 0; d < 3; ++d) if (t.spacing[d] != b.spacing[d] || t.origin[d] != b.origin[d]) return false; return true; }
Tri image_match(const Image3& t, const Image3& b, double tol, long n, long radius) {
  if (!t.ok || !b.ok) return model::No;
  if (t.r.size != b.r.size || !same_space(t, b)) return model::No;
  long lo, hi; bool part = !differing(t, b, tol, radius, lo, hi);
  return lo > n ? model::No : part ? model::Maybe : hi <= n ? model::Yes : model::Maybe;
}
} // namespace
static J image_plan(const char* id_, uint64_t seed) {
  Gen g(seed); Rng& r = g.r;
  J pl = gen::plan(id_, seed, g);
  pl["step_cap"] = 60000000L; pl["x_imgs"] = J::obj(); pl["trace"] = 1;
  pl["fs"].push(dir("/itkdata")); pl["fs"].push(dir("/b")); pl["fs"].push(dir("/w/out"));
  J p = proc(g); p["kind"] = "itk"; p["outpath"] = "";
  bool tool = r.chance(1, 5); if (tool) p["tool"] = 1;
  std::vector<Entry> es; J args = J::arr();
  std::string bdir = r.chance(1, 2) ? "/b" : "/itkdata";
  args.push("-I"); args.push("/w/base.xml"); if (bdir == "/b") { args.push("-P"); args.push("/b"); }
  if (r.chance(1, 3)) { args.push("-O"); args.push("/w/o.xml"); p["outpath"] = "/w/o.xml"; }
  int n = (int)r.range(1, 3), imgno = 0;
  double tol = 0; long np = 0, rad = 0;
  double tool_tol = 0; long tool_np = 0, tool_rad = 0;
  int bad = tool && std::string(id_) == "C12" && r.chance(1, 6) ? (int)r.below(n + 1) : -1;
  auto malformed = [&] {
    pl["x_badopt"] = 1; static const char* U[] = {"-x", "--", "--tolerance", "--radiustolerance", "-1"}; static const char* O[] = {"--intensityTolerance", "--numberOfPixelTolerance", "--radiusTolerance"};
    int k = (int)r.below(8);
    if (k == 0) { args.push(U[r.below(5)]); return; }
    int o = (int)r.below(3); args.push(O[o]);
    static const char* D[] = {"x", "", "-", ".", "one", "--radiusTolerance"}; static const char* N[] = {"x", "", "-1", "-3", " -2", "99999999999", ".5", "-4294967295", "one", "--intensityTolerance"};
    args.push(o == 0 ? D[r.below(6)] : N[r.below(10)]);
  };
  for (int i = 0; i < n; ++i) {
    if (i == bad) malformed();
    if (!tool && r.chance(1, 6)) { J o = J::obj(); if (r.chance(1, 2)) { o["op"] = "m"; o["kind"] = "int"; o["i"] = (long)r.range(-9, 9); o["text"] = S(o.num("i")); o["name"] = "n"; } else { o["op"] = "str"; o["kind"] = "string"; o["text"] = "text"; o["name"] = "s"; } p["ops"].push(o); Entry e = entry_of(meas_of(o)); if (r.chance(1, 4)) e.content += "1"; es.push_back(e); continue; }
    if (r.chance(3, 4)) {
      static const double T[] = {0, 0, 0.5, 1, 2, 1.0 / 7, 10, 100}; tol = T[r.below(8)]; np = r.chance(1, 2) ? 0 : (long)r.range(1, 12); rad = r.chance(2, 3) ? 0 : (long)r.range(1, 2);
      if (tool) { // options stay in force; the last one counts
        std::vector<int> which = {0, 1, 2}; for (int k = 3; k > 1; --k) std::swap(which[k - 1], which[r.below(k)]);
        auto opt = [&](int k, double t, long a, long b) { args.push(k == 0 ? "--intensityTolerance" : k == 1 ? "--numberOfPixelTolerance" : "--radiusTolerance"); std::string v = k == 0 ? dtext(t) : S(k == 1 ? a : b); int w = (int)r.below(16); args.push((w == 0 ? "+" : w == 1 ? " " : w == 2 ? "0" : "") + v); };
        int sup = r.chance(1, 4) ? (int)r.below(3) : -1; if (sup >= 0) opt(sup, (double)r.below(50), (long)r.below(9), (long)r.below(3)); // superseded
        for (int k : which) { bool changed = k == 0 ? tol != tool_tol : k == 1 ? np != tool_np : rad != tool_rad; if (changed || k == sup || r.chance(1, 3)) opt(k, tol, np, rad); }
        tool_tol = tol; tool_np = np; tool_rad = rad;
      }
      else { J o = J::obj(); o["op"] = "itol"; o["v"] = bits(tol); o["n"] = np; o["r"] = rad; if (tol == 0 && !np && !rad && r.chance(1, 2)) o["off"] = 1; p["ops"].push(o); }
    }
    // two images
    Image3 b; bool twod = r.chance(1, 2);
    static const char* MT[] = {"MET_DOUBLE", "MET_FLOAT", "MET_SHORT", "MET_INT", "MET_UCHAR"};
    Meta mb; mb.type = MT[r.below(5)];  mb.msb = r.chance(1, 4); mb.ext = r.chance(1, 6); mb.dim = twod ? 2 : 3;
    Meta mt = mb; if (r.chance(1, 3)) { mt.type = MT[r.below(5)];  mt.msb = r.chance(1, 2); mt.ext = r.chance(1, 4); if (r.chance(1, 4)) mt.dim = 3; }
    auto code = [](const std::string& t) { return t == "MET_DOUBLE" ? "d" : t == "MET_FLOAT" ? "f" : t == "MET_UCHAR" ? "u" : "s"; };
    std::string narrow = mb.type == "MET_UCHAR" || mt.type == "MET_UCHAR" ? "u" : code(mb.type)[0] == 's' || code(mt.type)[0] == 's' ? "s" : code(mb.type)[0] == 'f' || code(mt.type)[0] == 'f' ? "f" : "d";
    Vals va{(int)r.below(6), narrow, r};
    for (int d = 0; d < 3; ++d) { b.r.start.push_back(0); b.r.size.push_back(d == 2 && twod ? 1 : r.chance(1, 8) ? 1 : (long)r.range(1, twod ? 7 : 4)); if (!(d == 2 && twod)) { if (r.chance(1, 3)) b.spacing[d] = 0.25 * (double)r.range(1, 12); if (r.chance(1, 3)) b.origin[d] = 0.5 * (double)r.range(-9, 9); } }
    b.px.resize(b.r.count()); for (auto& x : b.px) x = va.one();
    Image3 t = b;
    bool fl = (narrow == "d" || narrow == "f") && !mb.ascii && !mt.ascii;
    bool nf = fl && r.chance(1, 6);
    if (r.chance(4, 5)) t.px = perturb_px(r, va, b.px, b.r, 1, tol, nf);
    if (nf && r.chance(1, 4)) b.px[r.below(b.px.size())] = r.chance(1, 2) ? NAN : INFINITY;
    if (np && r.chance(1, 2)) { t.px = b.px; long m = np + (long)r.range(-1, 1); for (long k = 0; k < m && k < (long)t.px.size(); ++k) t.px[k] = va.fit(b.px[k] >= 100 ? b.px[k] - tol - 20 : b.px[k] + tol + 20); } // about as many as allowed
    if (r.chance(1, 10)) { int d = (int)r.below(twod ? 2 : 3); t.spacing[d] *= r.chance(1, 2) ? 1.5 : 1 + slight(r); }
    if (r.chance(1, 10)) { int d = (int)r.below(twod ? 2 : 3); t.origin[d] += r.chance(1, 3) ? slight(r) : r.chance(1, 2) ? 1 : -0.25; }
    if (r.chance(1, 10)) { int d = (int)r.below(3); if (!(d == 2 && (mb.dim == 2 || mt.dim == 2))) { int c = r.chance(1, 2) ? 1 : -1; if (t.r.size[d] + c > 0) { t.r.size[d] += c; t.px.resize(t.r.count(), 0.0); } } else std::swap(t.r.size[0], t.r.size[1]); }
    static const char* DMG[] = {"missing", "cut", "head", "empty", "noise", "noraw"};
    std::string dt = r.chance(1, 12) ? DMG[r.below(6)] : "", db = r.chance(1, 12) ? DMG[r.below(6)] : "";
    std::string id = S(imgno), bn = r.chance(1, 8) ? "base image" + id : "b" + id;
    std::string tp = (r.chance(1, 3) ? "/w/out/t" : "/w/t") + id + (mt.ext ? ".mhd" : ".mha"), bp = bdir + "/" + bn + (mb.ext ? ".mhd" : ".mha");
    bool mem = !tool && twod && r.chance(1, 6);
    bool self = !mem && r.chance(1, 14); if (self && r.chance(1, 2)) dt = DMG[r.below(6)]; // the baseline is looked up as written, and is the test image
    J o = J::obj(); o["name"] = tool ? "ImageFile" + id : "image" + id;
    if (mem) {
      for (auto& x : t.px) x = (double)(float)x;
      t.spacing[0] = t.spacing[1] = 1; t.origin[0] = t.origin[1] = 0; t.ok = true; if (r.chance(1, 2)) { b.spacing[0] = b.spacing[1] = 1; b.origin[0] = b.origin[1] = 0; }
      o["op"] = "imgmem"; J s = J::arr(); s.push(t.r.size[0]); s.push(t.r.size[1]); o["size"] = s; o["px"] = px_json(t.px); o["path"] = "mem" + id; pl["x_imgs"]["mem" + id] = img_json(t); pl["x_imgs"]["mem" + id]["etype"] = "MET_FLOAT";
    } else { o["op"] = "img"; o["path"] = tp.size() > 3 && r.chance(1, 4) ? tp.substr(3) : tp; o["abs"] = tp; put_image(g, pl, tp, t, mt, dt); }
    if (self) bp = tp; else put_image(g, pl, bp, b, mb, db);
    Entry e; e.elem = "DartMeasurementFile"; e.type = "image/itk"; e.name = o.str("name"); e.has_name = e.has_type = true; e.content = r.chance(1, 3) ? "sub/dir/" + bp.substr(bp.rfind('/') + 1) : bp.substr(bp.rfind('/') + 1);
    if (self) e.content = o.str("path");
    o["x_base"] = bp; o["x_tol"] = bits(tol); o["x_n"] = np; o["x_r"] = rad;
    if (r.chance(1, 20)) { e.name += "x"; } else if (r.chance(1, 30)) e.type = "image/png";
    if (!r.chance(1, 30)) es.push_back(e);
    if (tool) { args.push(o.str("path")); }
    p["ops"].push(o); ++imgno;
    if (std::string(id_) == "C12" && !tool) { // counting without a measurement
      auto settings = [&](J& c) { int k = (int)r.below(4); c["k"] = k; c["x_tol"] = bits(k >= 1 ? tol : 0.0); c["x_n"] = k >= 2 ? (np ? np : (long)r.below(6)) : 0L; c["x_r"] = k >= 3 ? (r.chance(1, 2) ? rad : (long)r.below(3)) : 0L; };
      if (!mem && r.chance(1, 5)) { J c = J::obj(); c["op"] = "cmpfile"; settings(c); c["path"] = tp; c["base"] = bp; p["ops"].push(c); }
      if (r.chance(1, 6)) {
        J c = J::obj(); c["op"] = "cmpmem"; settings(c);
        Vals w{(int)r.below(6), "d", r}; Region ra, rb; bool shift = r.chance(1, 3), within = r.chance(1, 2), other = !within && r.chance(1, 5);
        for (int d = 0; d < 2; ++d) { rb.size.push_back((long)r.range(1, 7)); rb.start.push_back(shift ? (long)r.range(-3, 4) : 0); }
        ra = rb; if (within) for (int d = 0; d < 2; ++d) { long a = (long)r.below(rb.size[d]); ra.start[d] += a; ra.size[d] = (long)r.range(1, rb.size[d] - a); }
        if (other) ra.size[r.below(2)] += 1;
        std::vector<double> pb(rb.count()), pa(ra.count()); for (auto& x : pb) x = w.one(); for (auto& x : pa) x = w.one();
        Ix i = ra.start; do { if (inside(rb, i)) pa[offset(ra, i)] = pb[offset(rb, i)]; } while (next(ra, i));
        if (r.chance(4, 5)) pa = perturb_px(r, w, pa, ra, 1, num(c.at("x_tol").i), false);
        c["region"] = within || (!other && r.chance(1, 4)) ? 1L : 0L; if (c.num("region") && c.num("k")) { c["k"] = 3; }
        auto put = [&](const Region& q, const std::vector<double>& px) { J o = J::obj(); J s = J::arr(), z = J::arr(); for (long x : q.start) s.push(x); for (long x : q.size) z.push(x); o["start"] = s; o["size"] = z; o["px"] = px_json(px); return o; };
        c["a"] = put(ra, pa); c["b"] = put(rb, pb); p["ops"].push(c);
      }
    }
  }
  if (bad == n) { if (r.chance(1, 3)) { static const char* O[] = {"--intensityTolerance", "--numberOfPixelTolerance", "--radiusTolerance"}; args.push(O[r.below(3)]); pl["x_badopt"] = 1; } else malformed(); }
  if (r.chance(1, 12)) { Entry e; e.elem = "DartMeasurement"; e.type = "text/string"; e.name = "left"; e.has_name = e.has_type = true; e.content = "over"; es.push_back(e); }
  Rng q(r.next()); pl["fs"].push(file("/w/base.xml", write_doc(es, r.chance(1, 2) ? nullptr : &q)));
  p["args"] = args;
  pl["procs"].push(p); add_phase(pl, phase1({0}));
  return pl;
}
static J c12_gen(uint64_t seed) { return image_plan("C12", seed); }
static void c12_place(J& pl, const J& dry, uint64_t seed) {
  Gen g(seed ^ 0xC12); Rng& r = g.r;
  int k = (int)r.below(6);
  if (k >= 2 && k <= 4) place(g, pl, dry, 0, {"read", "open", "open", "read:short", "read:short", "read:eintr", "alloc", "stat", "write", "write:short", "close", "fstat", "access"}, (int)r.range(1, 2));
  if (k == 5) { // an image changes while it is read
    std::vector<J> acts;
    for (auto& i : pl.at("x_imgs").o) if (i.first[0] == '/') {
      acts.push_back(env("truncate", i.first, (long)r.below(400))); acts.push_back(env("remove", i.first)); acts.push_back(env("chmod", i.first, 0));
      { long head = -1, len = 0; for (auto& f : pl.at("fs").a) if (f.str("path") == i.first) { size_t at = f.str("data").find("LOCAL\n"); head = at == std::string::npos ? -1 : (long)at + 6; len = (long)f.str("data").size(); } if (head < 0 || head >= len) continue; J a = env("flip", i.first, head + (long)r.below((unsigned)(len - head))); // only in the pixels: the library itself overruns its buffers on some damaged headers
        a["bit"] = (long)r.below(8); acts.push_back(a); }
    }
    place_env(g, pl, dry, 0, acts, (int)r.range(1, 2), {"read", "open", "stat", "io", "op"});
  }
  if (dry.at("phases").size() && r.chance(1, 3)) {
    const J& ph = dry.at("phases").a[0]; std::vector<std::pair<long, long>> sp; for (auto& s : ph.at("spans").a) if (s.a[1].i > s.a[0].i + 2) sp.emplace_back(s.a[0].i, s.a[1].i);
    if (!sp.empty()) { std::vector<long> at; int c = (int)r.range(1, 10); const J& sh = ph.at("shared_steps"); for (int i = 0; i < c; ++i) { if (sh.size() && r.chance(1, 2)) at.push_back(sh.a[r.below(sh.size())].i); else { auto& s = sp[r.below(sp.size())]; at.push_back(s.first + 1 + (long)r.below(s.second - s.first)); } } std::sort(at.begin(), at.end()); J pre = J::arr(); for (long a : at) { J e = J::arr(); e.push(a); e.push((long)r.below(64)); pre.push(e); } pl["phases"].a[0]["preempt"] = pre; }
  }
}
// CompareImage: the number of pixels beyond the tolerance, less the tolerated number
static void counted(Judge& j, const J& op, size_t& at, bool clean, bool mut, bool readfault) {
  const J& all = j.proc(0).at("cmps"); if (at >= all.size()) return; // not reached
  const J& c = all.a[at++];
  double tol = num(op.at("x_tol").i); long n = op.num("x_n"), rad = op.num("x_r"), lo = 0, hi = 0; bool whole = true;
  std::string w = op.str("op") + " with tolerance " + std::to_string(tol) + ", " + S(n) + " pixels, radius " + S(rad) + (op.num("region") ? ", in the region of the test image" : "") + ": ";
  if (op.str("op") == "cmpfile") {
    if (mut) return;
    const J& xi = j.plan.at("x_imgs"); Image3 t = img_of(xi.at(op.str("path"))), b = img_of(xi.at(op.str("base")));
    if (!t.ok || !b.ok) { if (!c.num("threw")) j.bad("count", w + "a number of differing pixels for an image which cannot be read"); return; }
    if (readfault) t.cut = 0;
    bool part = t.cut >= 0 || b.cut >= 0;
    if (c.num("threw")) { if (clean && !part && same_space(t, b)) j.bad("count", w + "failed: " + model::printable(c.str("what"), 200)); return; }
    if (t.r.size != b.r.size) { if (!c.num("max")) j.bad("count", w + S(c.num("v")) + " differing pixels in images of different size"); return; }
    if (!same_space(t, b)) return;
    whole = differing(t, b, tol, rad, lo, hi);
  } else {
    if (c.num("threw")) { if (clean) j.bad("count", w + "failed: " + model::printable(c.str("what"), 200)); return; }
    Img v, t; v.r = region_of(op.at("b")); t.r = region_of(op.at("a")); for (auto& x : op.at("b").at("px").a) v.px.push_back(num(x.i)); for (auto& x : op.at("a").at("px").a) t.px.push_back(num(x.i));
    if (!op.num("region") && t.r.size != v.r.size) { if (!c.num("max")) j.bad("count", w + S(c.num("v")) + " differing pixels in images of different size"); return; }
    Ix p = t.r.start;
    do { PixRef x = pixel(v, t, p, rad, tol, false); if (x.t != Same) ++hi; if (x.t == Differs) ++lo; } while (next(t.r, p));
  }
  lo = std::max(0L, lo - n); hi = std::max(0L, hi - n);
  j.probes[op.num("region") ? "c12.count-region" : "c12.count"]++;
  if (c.num("max") || c.num("v") < lo || c.num("v") > hi) j.bad("count", w + (c.num("max") ? std::string("the largest number") : S(c.num("v"))) + " instead of " + S(lo) + (hi > lo ? ".." + S(hi) : std::string()));
  (void)whole;
}
static void c12_judge(Judge& j) {
  const J& s = j.spec(0); const J& r = j.proc(0);
  j.nontrivial = true;
  bool clean = !harmed(j), mut = false;
  for (auto& f : j.plan.at("faults").a) if (f.str("act") == "env") mut = true;
  if (!r.num("returned")) {
    if (j.rec.at("fired").has("alloc/ENOMEM")) { j.probes["c12.aborted"]++; return; } // an exception outside of the guarded part ends the process
    j.bad("no-return", "the comparison did not return: " + r.str("escaped")); return; }
  if (j.plan.num("x_badopt")) {
    j.probes["c12.malformed-option"]++;
    if (r.num("ret") == 0) { std::string al; for (auto& a : s.at("args").a) al += " '" + a.s + "'"; j.bad("malformed-option", "the tool succeeded with the arguments" + al); }
    return;
  }
  std::string bd; for (auto& f : j.plan.at("fs").a) if (f.str("path") == "/w/base.xml") bd = f.str("data");
  Doc d = model::parse_doc(bd);
  if (!d.ok) return;
  bool readfault = false; for (auto& q : j.rec.at("fired").o) if ((q.first.compare(0, 10, "read/errno") == 0 || q.first.compare(0, 5, "lseek") == 0) && q.second.i) readfault = true;
  size_t k = 0, nc = 0, nm = 0; long lo = 0, hi = 0; bool unread = false, thrown = false; std::string why;
  for (auto& op : s.at("ops").a) {
    std::string o = op.str("op");
    if (o == "itol") continue;
    if (o.compare(0, 3, "cmp") == 0) { counted(j, op, nc, clean, mut, readfault); if (!j.v.empty()) return; continue; }
    bool img = o == "img" || o == "imgmem";
    Tri t = model::No; std::string w = op.str("name") + ": ";
    Entry e; bool have = k < d.es.size(); if (have) e = d.es[k++];
    if (!img) { t = have ? model::matches(e, meas_of(op), DEFTOL) : model::No; w += "value"; }
    else if (!have || e.name != op.str("name") || e.type != "image/itk") { w += "no such measurement in the baseline"; }
    else {
      const J& xi = j.plan.at("x_imgs"); Image3 ti = img_of(xi.at(op.has("abs") ? op.str("abs") : op.str("path"))), bi = img_of(xi.at(op.str("x_base")));
      if (!ti.ok || !bi.ok) { unread = true; thrown = true; w += !ti.ok ? "the test image cannot be read" : "the baseline image cannot be read"; }
      else {
        if (readfault) { ti.cut = 0; } // the library does not report that reading the pixels failed
        if (ti.cut >= 0 || bi.cut >= 0) { unread = true; j.probes["c12.cut"]++; }
        t = image_match(ti, bi, num(op.at("x_tol").i), op.num("x_n"), op.num("x_r"));
        w += "images of " + S(ti.px.size()) + " and " + S(bi.px.size()) + " pixels, tolerance " + std::to_string(num(op.at("x_tol").i)) + ", " + S(op.num("x_n")) + " pixels, radius " + S(op.num("x_r"));
        j.probes[t == model::Yes ? "c12.equal" : "c12.different"]++;
        if (op.num("x_n") > 0) j.probes["c12.pixel-tolerance"]++;
        if (op.num("x_r") > 0) j.probes["c12.radius"]++;
      }
    }
    { const J& mr = r.at("mret"); if (!mut && nm < mr.size()) { long m = mr.a[nm].i; // the call itself returns 0 for a match
        if ((t == model::No && m == 0) || (t == model::Yes && m != 0 && clean && !unread)) { j.bad("measurement-result", "the call returned " + S(m) + " for " + (m ? "a match: " : "a mismatch: ") + w); return; } } ++nm; }
    if (t != model::Yes) { ++hi; if (t == model::No) { ++lo; why += (why.empty() ? "" : "; ") + w; } }
    (void)thrown;
  }
  long ret = r.num("ret");
  if (unread) j.probes["c12.unreadable"]++;
  if (mut) { j.probes["c12.mutation"]++; return; }
  if (ret == 0) {
    if (lo > 0) { j.bad(unread ? "unreadable-matched" : "false-match", "the test succeeded although " + S(lo) + " measurement" + (lo > 1 ? "s do" : " does") + " not match: " + why); return; }
    for (auto& op : s.at("ops").a) if (op.str("op") == "img") for (auto* path : {&op.at("abs"), &op.at("x_base")}) {
      std::string data; if (!j.file(path->s, data)) continue;
      bool any = false; for (auto& o : j.rec.at("ofds").a) if (o.str("path") == path->s && o.num("r") && !o.str("dl").empty()) any = true;
      if (!any) { j.bad("unread-matched", "the test succeeded although nothing of " + path->s + " was read"); return; }
    }
  } else if (clean && !unread) {
    if (hi == 0) { j.bad("false-mismatch", "the test returned " + S(ret) + " although every measurement matches: " + model::printable(r.str("err"), 200)); return; }
    if (ret < lo || ret > hi) { j.bad("verdict", "the test returned " + S(ret) + " for " + S(lo) + ".." + S(hi) + " mismatching measurements: " + why + " " + model::printable(r.str("err"), 200)); return; }
  }
  if (clean && !unread && ret == 0) j.probes["c12.success"]++;
}
// MetaIO reads the header character by character until the end of the file, and never ends when a read fails.
static bool c12_outside(const J&, const J& rec) {
  if (rec.str("abnormal") != "hang") return false;
  for (auto& q : rec.at("fired").o) if (q.first.compare(0, 10, "read/errno") == 0 && q.second.i) return true;
  return false;
}
static RegProp rC12({"C12", c12_gen, c12_place, nullptr, false, c12_judge, true, c12_outside});

// ------------------------------------------------------------------ C18
static J c18_gen(uint64_t seed) { return image_plan("C18", seed); }
static void c18_place(J& pl, const J& dry, uint64_t seed) {
  Gen g(seed ^ 0xC18); Rng& r = g.r;
  int k = (int)r.below(4);
  if (k == 0) place(g, pl, dry, 0, {"write", "write", "close", "write:short"}, (int)r.range(1, 3));
  if (k == 1) place(g, pl, dry, 0, {"read:short", "read:eintr", "write:short"}, (int)r.range(1, 3));
}
namespace {
bool png_gray(const std::string& d, long& w, long& h, std::vector<unsigned char>& px) {
  png_image im; memset(&im, 0, sizeof im); im.version = PNG_IMAGE_VERSION;
  if (!png_image_begin_read_from_memory(&im, d.data(), d.size())) return false;
  im.format = PNG_FORMAT_GRAY;
  w = im.width; h = im.height; px.resize(PNG_IMAGE_SIZE(im));
  if (!png_image_finish_read(&im, nullptr, px.data(), 0, nullptr)) { png_image_free(&im); return false; }
  return true;
}
// numbers of a text like "[1, 2.5, -3]"
std::vector<double> numbers(const std::string& s) { std::vector<double> v; const char* p = s.c_str(); while (*p) { char* e; double d = strtod(p, &e); if (e != p) { v.push_back(d); p = e; } else ++p; } return v; }
bool close_to(const std::vector<double>& v, const double* w) { if (v.size() != 3) return false; for (int d = 0; d < 3; ++d) if (fabs(v[d] - w[d]) > 1e-5 * (fabs(w[d]) + 1e-3)) return false; return true; }
// the central slice, rescaled to the range of a byte; false if it is not determined
bool slice_bytes(const Region& rg, const std::vector<double>& px, std::vector<double>& out) {
  long n = rg.size[0] * rg.size[1], z = rg.size[2] / 2;
  double lo = INFINITY, hi = -INFINITY;
  for (long i = 0; i < n; ++i) { double v = px[z * n + i]; if (!std::isfinite(v) || fabs(v) > 1e100) return false; lo = std::min(lo, v); hi = std::max(hi, v); }
  if (!(hi > lo) || !((hi - lo) > 1e-9 * std::max(fabs(lo), fabs(hi)))) return false;
  for (long i = 0; i < n; ++i) out.push_back((px[z * n + i] - lo) * 255 / (hi - lo));
  return true;
}
}
static void c18_judge(Judge& j) {
  const J& s = j.spec(0); const J& r = j.proc(0);
  if (!r.num("returned") || r.has("escaped")) return;
  bool clean = !harmed(j);
  if (r.num("stdout_bad")) return;
  for (auto& q : j.rec.at("fired").o) if (!benign(q.first) && q.first.compare(0, 5, "write") && q.first.compare(0, 5, "close")) return;
  std::string bd; for (auto& f : j.plan.at("fs").a) if (f.str("path") == "/w/base.xml") bd = f.str("data");
  Doc d = model::parse_doc(bd);
  if (!d.ok) return;
  std::string out = r.str("out");
  Doc rep = model::parse_fragment(out);
  size_t k = 0; double tol = 0; (void)tol;
  std::set<std::string> tails;
  for (auto& op : s.at("ops").a) {
    std::string o = op.str("op");
    if (o == "itol") continue;
    Entry e; bool have = k < d.es.size(); if (have) e = d.es[k++];
    if (o != "img" && o != "imgmem") continue;
    std::string name = op.str("name");
    if (!have || e.name != name || e.type != "image/itk") continue;
    const J& xi = j.plan.at("x_imgs"); const J& tj = xi.at(op.has("abs") ? op.str("abs") : op.str("path")); const J& bj = xi.at(op.str("x_base"));
    Image3 t = img_of(tj), b = img_of(bj);
    if (!t.ok || !b.ok) break; // ends the test
    if (o == "imgmem" && !clean) break; // the test image itself may not have been written
    if (t.cut >= 0 || b.cut >= 0) continue;
    Tri m = image_match(t, b, num(op.at("x_tol").i), op.num("x_n"), op.num("x_r"));
    std::vector<Entry> es; bool xml = rep.ok;
    for (auto& x : rep.es) if (x.name.size() > name.size() + 1 && x.name.compare(x.name.size() - name.size() - 1, std::string::npos, " " + name) == 0) es.push_back(x);
    std::string w = name + " (images of " + S(t.px.size()) + " and " + S(b.px.size()) + " pixels): ";
    if (!xml) { j.bad("not-markup", "the report is not markup: " + model::printable(out, 300)); return; }
    if (m == model::Yes) { j.probes["c18.matches"]++; if (!es.empty()) { j.bad("reported-match", w + "the images match, and the report has \"" + es[0].name + "\""); return; } continue; }
    if (m != model::No) continue;
    j.nontrivial = true;
    auto find = [&](const char* prefix, const char* part) -> std::vector<const Entry*> { std::vector<const Entry*> v; for (auto& x : es) if (x.name.compare(0, strlen(prefix), prefix) == 0 && x.name.find(part) != std::string::npos) v.push_back(&x); return v; };
    auto pair = [&](const char* part, bool differ, const double* bw, const double* tw) {
      auto vb = find("Baseline", part), vt = find("Test", part);
      if (vb.size() != (size_t)differ || vt.size() != (size_t)differ) { j.bad("geometry-report", w + part + (differ ? " differs and is not reported once for each image" : " is the same and is reported")); return false; }
      if (differ && bw && (!close_to(numbers(vb[0]->content), bw) || !close_to(numbers(vt[0]->content), tw))) { j.bad("geometry-values", w + part + " is reported as " + vb[0]->content + " and " + vt[0]->content); return false; }
      if (differ && !bw && vb[0]->content == vt[0]->content) { j.bad("geometry-values", w + part + " is reported as the same for both: " + vb[0]->content); return false; }
      return true;
    };
    double bs[3], ts[3]; for (int q = 0; q < 3; ++q) { bs[q] = (double)b.r.size[q]; ts[q] = (double)t.r.size[q]; }
    bool size = t.r.size != b.r.size, sp = false, og = false;
    for (int q = 0; q < 3; ++q) { if (t.spacing[q] != b.spacing[q]) sp = true; if (t.origin[q] != b.origin[q]) og = true; }
    if (!pair("Size", size, bs, ts)) return;
    if (size) j.probes["c18.size"]++;
    auto ie = find("ImageError", "");
    if (size) { if (!ie.empty()) { j.bad("counted", w + "the sizes differ, and a number of differing pixels is reported"); return; } continue; }
    if (!pair("Spacing", sp, b.spacing, t.spacing) || !pair("Origin", og, b.origin, t.origin) || !pair("Component", tj.str("etype") != bj.str("etype"), nullptr, nullptr)) return;
    if (sp) j.probes["c18.spacing"]++;
    if (og) j.probes["c18.origin"]++;
    // the number of differing pixels
    Img vi, ti; vi.r = b.r; vi.px = b.px; ti.r = t.r; ti.px = t.px;
    long lo = 0, hi = 0; Ix p = b.r.start; long rad = op.num("x_r"); double thr = num(op.at("x_tol").i);
    std::vector<double> diff; bool dok = rad == 0;
    do {
      PixRef x = pixel(vi, ti, p, rad, thr, false);
      double c = *vi.at(p), v = *ti.at(p);
      if (x.t != Same || c != c) ++hi;
      if (x.t == Differs) ++lo;
      if (x.t != Same && x.t != Differs) dok = false;
      diff.push_back(x.t == Differs ? c - v : 0);
    } while (next(b.r, p));
    if (ie.size() != 1) { j.bad("no-count", w + "the number of differing pixels is reported " + S(ie.size()) + " times"); return; }
    double n = strtod(ie[0]->content.c_str(), nullptr);
    if (ie[0]->type != "numeric/double" || n < lo || n > hi) { j.bad("count", w + "the number of differing pixels is reported as " + ie[0]->type + " " + ie[0]->content + " instead of " + S(lo) + (hi > lo ? ".." + S(hi) : "")); return; }
    j.probes["c18.counted"]++;
    auto im = find("Difference", "");
    if (im.size() != 3) { j.bad("no-images", w + S(im.size()) + " images are reported instead of 3"); return; }
    static const char* SUF[] = {".diff.png", ".base.png", ".test.png"};
    for (int q = 0; q < 3; ++q) {
      const Entry* x = nullptr; for (auto* y : im) if (y->content.size() > 9 && y->content.compare(y->content.size() - 9, 9, SUF[q]) == 0) x = y;
      if (!x || x->type != "image/png" || x->elem != "DartMeasurementFile") { j.bad("no-image", w + "the report does not name the image *" + SUF[q]); return; }
      std::string path = x->content, tail = path.substr(path.rfind('/') + 1);
      std::string want = op.str("abs"); want = want.substr(want.rfind('/') + 1);
      if (path.compare(0, 9, "/itkdata/") || (o == "img" && tail != want + SUF[q])) { j.bad("image-name", w + "the image is named " + path); return; }
      tails.insert(path);
      if (!clean) continue;
      std::string data; if (!j.file(path, data)) { j.bad("image-missing", w + "the image " + path + " was not written"); return; }
      long pw, ph; std::vector<unsigned char> px;
      if (!png_gray(data, pw, ph, px)) { bool fin = true; for (double v : b.px) fin = fin && std::isfinite(v); for (double v : t.px) fin = fin && std::isfinite(v); if (!fin) continue; j.bad("image-unreadable", w + "the image " + path + " is not a complete image"); return; }
      if (pw != t.r.size[0] || ph != t.r.size[1]) { j.bad("image-size", w + "the image " + path + " has " + S(pw) + "x" + S(ph) + " pixels"); return; }
      std::vector<double> ref; const std::vector<double>& src = q == 0 ? diff : q == 1 ? b.px : t.px;
      if ((q == 0 && !dok) || !slice_bytes(t.r, src, ref)) continue;
      j.probes["c18.slice"]++;
      for (size_t z = 0; z < ref.size(); ++z) if (fabs(ref[z] - px[z]) > 1.01) { j.bad("image-pixels", w + "pixel " + S((long)z) + " of " + path + " is " + S(px[z]) + " instead of " + std::to_string(ref[z])); return; }
    }
  }
}
static RegProp rC18({"C18", c18_gen, c18_place, nullptr, false, c18_judge, true, c12_outside});

// ------------------------------------------------------------------ C19
namespace {
const char* COMPS[] = {"size1", "size2", "size3", "index2", "index3", "region2", "region3", "point2", "point3", "vector2", "vector4", "array1", "array3", "matrix23", "matrix32"};
J comp_op(Gen& g, const std::string& name) {
  Rng& r = g.r;
  std::string c = COMPS[r.below(15)]; bool ints = c[0] == 's' || c[0] == 'i' || c[0] == 'r'; int n = c[c.size() - 1] - '0';
  J o = J::obj(); o["op"] = "comp"; o["comp"] = c; o["name"] = name; o["tol"] = (long)r.below(2); o["dflt"] = (long)r.below(2);
  bool tol = o.num("dflt") ? !ints : o.num("tol") != 0;
  std::vector<std::pair<std::string, bool>> parts; // name, not negative
  if (c.compare(0, 6, "matrix") == 0) { int rows = c[6] - '0', cols = c[7] - '0'; for (int i = 0; i < rows; ++i) for (int k = 0; k < cols; ++k) parts.push_back({name + "_" + S(i) + "_" + S(k), false}); }
  else if (c[0] == 'r') { for (int i = 0; i < n; ++i) parts.push_back({name + " Index_" + S(i), false}); for (int i = 0; i < n; ++i) parts.push_back({name + " Size_" + S(i), true}); }
  else for (int i = 0; i < n; ++i) parts.push_back({name + "_" + S(i), c[0] == 's'});
  o["parts"] = J::arr();
  for (auto& q : parts) {
    J m = g.meas(ints ? "int" : "double"); m["name"] = q.first; m["tol"] = tol;
    if (ints && q.second && m.num("i") < 0) m["i"] = -(m.num("i") + 1);
    o["parts"].push(g.set_num(m));
  }
  return o;
}
// the entries a run records; image names of memory images are not known
std::vector<Entry> c19_entries(const J& ops) {
  std::vector<Entry> v;
  for (auto& o : ops.a) {
    std::string k = o.str("op");
    if (k == "comp") for (auto& q : o.at("parts").a) v.push_back(entry_of(meas_of(q)));
    else if (k == "m" || k == "str") v.push_back(entry_of(meas_of(o)));
    else if (k == "img" || k == "imgmem") { Entry e; e.elem = "DartMeasurementFile"; e.type = "image/itk"; e.name = o.str("name"); std::string path = o.str("path"); e.content = k == "img" ? path.substr(path.rfind('/') + 1) : std::string(); v.push_back(e); }
  }
  return v;
}
// a MetaImage as the library writes it: two dimensions, floats
bool read_mha(const std::string& d, std::vector<long>& size, std::vector<double>& px) {
  size_t at = d.find("ElementDataFile = LOCAL\n"); if (at == std::string::npos) return false;
  std::string head = d.substr(0, at), data = d.substr(at + 24);
  if (head.find("ElementType = MET_FLOAT\n") == std::string::npos || head.find("BinaryDataByteOrderMSB = False") == std::string::npos) return false;
  if (head.find("CompressedData = True") != std::string::npos) return true; // judged by reading it in the comparing run
  size_t s = head.find("DimSize = "); if (s == std::string::npos) return false;
  for (double v : numbers(head.substr(s + 10, head.find('\n', s) - s - 10))) size.push_back((long)v);
  if (size.size() != 2 || data.size() != (size_t)(size[0] * size[1] * 4)) return false;
  for (size_t i = 0; i + 3 < data.size(); i += 4) { float f; memcpy(&f, &data[i], 4); px.push_back(f); }
  return true;
}
}
static J c19_gen(uint64_t seed) {
  Gen g(seed); Rng& r = g.r;
  J pl = gen::plan("C19", seed, g);
  pl["step_cap"] = 60000000L; pl["trace"] = 1; pl["x_imgs"] = J::obj();
  for (auto d : {"/itkdata", "/w1", "/w2", "/w3", "/img", "/w1/bin", "/w2/bin", "/w3/bin"}) pl["fs"].push(dir(d));
  J rec = proc(g); rec["kind"] = "itk"; rec["cwd"] = "/w1"; rec["outpath"] = "/w1/rec.xml";
  static const char* A0[] = {"prog", "prog", "./prog", "bin/prog", "my prog"};
  rec["argv0"] = A0[r.below(5)];
  rec["args"].push("-O"); rec["args"].push("rec.xml");
  int ex = (int)r.below(3); for (int i = 0; i < ex; ++i) rec["args"].push(r.chance(1, 2) ? "arg" + S(i) : g.str(8));
  bool lots = r.chance(1, 24);
  int n = lots ? (int)r.range(6, 40) : (int)r.range(1, 5), img = 0;
  for (int i = 0; i < n; ++i) {
    int k = lots ? 5 + (int)r.below(4) : (int)r.below(10);
    if (k < 5) { std::string nm = g.name(); rec["ops"].push(comp_op(g, nm)); }
    else if (k == 5) { J o = g.meas("int"); rec["ops"].push(o); }
    else {
      Image3 b; std::string id = S(img++); b.r.start = {0, 0, 0}; b.r.size = {(long)r.range(1, lots ? 2 : 6), (long)r.range(1, lots ? 2 : 6), 1}; b.px.resize(b.r.count());
      Vals va{(int)r.below(6), "f", r}; for (auto& x : b.px) x = (double)(float)va.one();
      J o = J::obj(); o["name"] = "image" + id;
      if (k < 9) { o["op"] = "imgmem"; J s = J::arr(); s.push(b.r.size[0]); s.push(b.r.size[1]); o["size"] = s; o["px"] = px_json(b.px); }
      else { Meta m; m.type = "MET_FLOAT"; m.dim = 2; o["op"] = "img"; std::string path = "/img/i" + id + ".mha"; o["path"] = path; put_image(g, pl, path, b, m, ""); o["px"] = px_json(b.px); J s = J::arr(); s.push(b.r.size[0]); s.push(b.r.size[1]); o["size"] = s; }
      rec["ops"].push(o);
    }
  }
  J again = rec; again["cwd"] = "/w3"; again["outpath"] = "/w3/rec.xml"; again["host"] = "other"; again["clock"] = 1234567890;
  // the comparing run: the same body, or one with one changed value
  J cmp = rec; cmp["cwd"] = "/w2"; cmp["outpath"] = ""; cmp["seed"] = (long)(r.next() >> 40);
  J args = J::arr(); args.push("-I"); args.push("/w1/rec.xml"); args.push("-P"); args.push("/w1"); args.push("-P"); args.push("/w1/bin"); args.push("-P"); args.push("/img");
  for (size_t i = 2; i < rec.at("args").a.size(); ++i) args.push(rec.at("args").a[i]);
  cmp["args"] = args;
  if (r.chance(1, 2)) {
    auto& ops = cmp["ops"].a; int times = (int)r.range(1, 2);
    for (int q = 0; q < times; ++q) {
      J& o = ops[r.below(ops.size())]; std::string k = o.str("op");
      if (k == "comp") { auto& ps = o["parts"].a; J& m = ps[r.below(ps.size())]; std::string kind = m.str("kind"), nm = m.str("name"); bool tol = m.num("tol") != 0; bool neg = m.num("i") < 0; J x = g.meas(kind); x["name"] = nm; x["tol"] = tol; if (kind == "int" && !neg && x.num("i") < 0) x["i"] = -(x.num("i") + 1); m = g.set_num(x); }
      else if (k == "imgmem") { auto& px = o["px"].a; J& v = px[r.below(px.size())]; double d = num(v.i); if (std::isfinite(d) && fabs(d) < 1e6) v = J(bits((double)(float)(d + 8))); }
      else if (k == "m") { J x = g.meas("int"); x["name"] = o.str("name"); x["tol"] = o.num("tol"); o = x; }
    }
    cmp["x_changed"] = 1;
  }
  pl["procs"].push(rec); pl["procs"].push(again); pl["procs"].push(cmp);
  add_phase(pl, phase1({0})); add_phase(pl, phase1({1}));
  if (r.chance(1, 3)) { // an earlier comparing run with other images left its files
    J old = cmp;
    for (auto& o : old["ops"].a) if (o.str("op") == "imgmem") { if (r.chance(1, 2)) continue; for (auto& v : o["px"].a) v = J(bits((double)r.range(-4, 4))); }
    pl["procs"].push(old); add_phase(pl, phase1({3}));
  }
  add_phase(pl, phase1({2}));
  return pl;
}
static void c19_place(J& pl, const J& dry, uint64_t seed) {
  Gen g(seed ^ 0xC19); Rng& r = g.r;
  int k = (int)r.below(4);
  if (k == 0) place(g, pl, dry, 0, {"write", "write", "close", "write:short", "open", "alloc", "stdout"}, (int)r.range(1, 3));
  if (k == 1) { place(g, pl, dry, 0, {"write:short"}, (int)r.range(1, 3)); place(g, pl, dry, 2, {"read:short", "read:eintr", "write:short"}, (int)r.range(1, 3)); }
}
static void c19_judge(Judge& j) {
  const J& s = j.spec(0); const J& a = j.proc(0); const J& b = j.proc(1); const J& c = j.proc(2);
  j.nontrivial = true;
  bool hurt = harmed(j);
  if (!a.num("returned")) { if (!j.rec.at("fired").has("alloc/ENOMEM")) j.bad("no-return", "the recording run did not return: " + a.str("escaped")); return; }
  long ret = a.num("ret");
  if (ret != 0) { if (!hurt) j.bad("record-failed", "the recording run returned " + S(ret) + ": " + model::printable(a.str("err"), 200)); else j.probes["c19.failed-recording"]++; return; }
  if (!a.num("completed")) { j.bad("aborted-success", "the recording run returned 0 and did not complete"); return; }
  std::string x1; if (!j.file("/w1/rec.xml", x1, 0)) { j.bad("no-recording", "the recording run returned 0 and left no file"); return; }
  Doc d1 = model::parse_doc(x1);
  std::vector<Entry> want = c19_entries(s.at("ops"));
  if (!d1.ok || d1.es.size() != want.size()) { j.bad("recording", "the recording has " + (d1.ok ? S((long)d1.es.size()) + " measurements instead of " + S((long)want.size()) : "no document: " + d1.err)); return; }
  std::set<std::string> names; size_t k = 0;
  auto cut = [](const std::string& p) { return p.substr(p.rfind('/') + 1); };
  std::string a0 = s.str("argv0"), dirname = a0.find('/') == std::string::npos ? "" : a0.substr(0, a0.rfind('/') + 1);
  if (dirname == "./") dirname.clear();
  std::vector<std::string> memname;
  for (auto& o : s.at("ops").a) {
    size_t m = o.str("op") == "comp" ? o.at("parts").size() : 1;
    for (size_t q = 0; q < m; ++q, ++k) {
      const Entry& e = d1.es[k]; const Entry& w = want[k];
      bool mem = o.str("op") == "imgmem";
      if (e.elem != w.elem || e.type != w.type || e.name != w.name || (!mem && e.content != w.content)) { j.bad("recorded-value", "recorded " + e.type + " \"" + model::printable(e.name) + "\" = " + model::printable(e.content) + " instead of " + w.type + " \"" + model::printable(w.name) + "\" = " + model::printable(w.content)); return; }
      if (!mem) continue;
      j.probes["c19.image"]++;
      if (e.content.find('/') != std::string::npos || e.content.compare(0, cut(a0).size() + 1, cut(a0) + "_") != 0 || e.content.size() < 5 || e.content.substr(e.content.size() - 4) != ".mha") { j.bad("file-name", "the image is recorded as " + model::printable(e.content)); return; }
      if (!names.insert(e.content).second) { j.bad("same-name", "two images of one run are written to " + e.content); return; }
      memname.push_back(e.content);
      std::string data; bool there = j.file("/w1/" + dirname + e.content, data, 0);
      bool iofault = false; for (auto& q2 : j.rec.at("fired").o) if (!benign(q2.first)) iofault = true;
      if (iofault) continue; // the image library does not report every failure of a write
      std::vector<long> size; std::vector<double> px;
      if (!there || !read_mha(data, size, px)) { j.bad("image-file", "the recorded image " + e.content + (there ? " is not a complete image" : " does not exist")); return; }
      if (size.empty()) { j.probes["c19.compressed"]++; continue; }
      if (size[0] != o.at("size").a[0].i || size[1] != o.at("size").a[1].i) { j.bad("image-size", "the recorded image " + e.content + " has another size"); return; }
      for (size_t z = 0; z < px.size(); ++z) { double v = num(o.at("px").a[z].i); if (!(px[z] == v || (v != v && px[z] != px[z]))) { j.bad("image-pixels", "the recorded image " + e.content + " has another pixel " + S((long)z)); return; } }
    }
  }
  // again, elsewhere: the same recording
  if (b.num("returned") && b.num("ret") == 0) {
    std::string x2; Doc d2; if (j.file("/w3/rec.xml", x2, 1)) d2 = model::parse_doc(x2);
    if (!d2.ok || d2.es.size() != d1.es.size()) { j.bad("not-repeatable", "the same run recorded something else"); return; }
    for (size_t i = 0; i < d1.es.size(); ++i) if (d1.es[i].content != d2.es[i].content || d1.es[i].name != d2.es[i].name || d1.es[i].type != d2.es[i].type) { j.bad("not-repeatable", "the same run recorded " + model::printable(d2.es[i].content) + " instead of " + model::printable(d1.es[i].content) + " for " + model::printable(d1.es[i].name)); return; }
    j.probes["c19.repeated"]++;
  } else if (!hurt) { j.bad("record-failed", "the second recording run returned " + S(b.num("ret"))); return; }
  for (auto* q : {&a, &b}) for (auto& m : q->at("mret").a) if (m.i != 0) { j.bad("measurement-result", "recording a measurement returned " + S(m.i)); return; }
  // comparing with the recording
  if (!c.num("returned")) { j.bad("no-return", "the comparing run did not return: " + c.str("escaped")); return; }
  if (hurt) return;
  long lo = 0, hi = 0; k = 0; std::string why;
  const J& oa = s.at("ops"); const J& oc = j.spec(2).at("ops");
  for (size_t i = 0; i < oc.a.size(); ++i) {
    const J& o = oc.a[i]; std::string kind = o.str("op");
    long l0 = lo, h0 = hi;
    auto one = [&](Tri t, const std::string& w) { if (t != model::Yes) { ++hi; if (t == model::No) { ++lo; why += " " + w; } } };
    if (kind == "comp") for (auto& q : o.at("parts").a) one(model::matches(d1.es[k++], meas_of(q), DEFTOL), q.str("name"));
    else if (kind == "m") one(model::matches(d1.es[k++], meas_of(o), DEFTOL), o.str("name"));
    else {
      const J& p = oa.a[i];
      Image3 t, u; t.r.start = u.r.start = {0, 0, 0}; t.r.size = {o.at("size").a[0].i, o.at("size").a[1].i, 1}; u.r.size = {p.at("size").a[0].i, p.at("size").a[1].i, 1};
      for (auto& v : o.at("px").a) t.px.push_back(num(v.i));
      for (auto& v : p.at("px").a) u.px.push_back(num(v.i));
      one(image_match(t, u, 0, 0, 0), o.str("name")); ++k;
    }
    if (i < c.at("mret").size()) { long m = c.at("mret").a[i].i; if ((m == 0 && lo > l0) || (m != 0 && hi == h0)) { j.bad("measurement-result", "the call for " + o.str("name") + " returned " + S(m) + (m ? " although it is the same" : " although it differs")); return; } }
  }
  long rc = c.num("ret");
  if (hi == 0 && rc != 0) j.bad("false-mismatch", "the same run compared with its own recording returned " + S(rc) + ": " + model::printable(c.str("out"), 300) + model::printable(c.str("err"), 300));
  else if (lo > 0 && rc == 0) j.bad("false-match", "the comparison succeeded although these differ:" + why);
  else if (rc < lo || rc > hi) j.bad("verdict", "the comparison returned " + S(rc) + " for " + S(lo) + ".." + S(hi) + " differing measurements:" + why);
  else j.probes[hi == 0 ? "c19.same" : "c19.different"]++;
}
static RegProp rC19({"C19", c19_gen, c19_place, nullptr, false, c19_judge, true, c12_outside});
