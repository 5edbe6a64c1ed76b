// Workload and fault generation shared by the properties.
#pragma once
#include "exec.h"
#include "model.h"
namespace gen {
using model::Entry;
using model::Meas;
struct Gen {
  Rng r;
  int alpha;          // character set of this run
  int maxlen;
  bool dupnames;
  std::vector<std::string> kinds;
  explicit Gen(uint64_t seed);
  std::string str(int max);
  std::string name();
  std::string lines(int maxlines);
  std::string big(); // larger than any buffer on the way
  J meas(const std::string& kind);      // one measurement op
  J meas() { return meas(kinds[r.below(kinds.size())]); }
  J ops(int lo, int hi);
  J set_num(J op);                      // fills text of a numeric op from its bits
  std::string corrupt(std::string doc); // damaged copy of a document
};
Meas meas_of(const J& op);
Entry entry_of(const Meas& m);
std::string write_entry(const Entry& e, Rng* r);
// style 0: as the framework writes it; 1: random layout
std::string write_doc(const std::vector<Entry>& es, Rng* r, long want_size_mod = -1);
std::vector<Entry> entries_of(const J& ops);
void perturb(Gen& g, std::vector<Entry>& es, const J& ops, double tol, int n);
J proc(Gen& g, const std::string& kind = "test");
J file(const std::string& path, const std::string& data, int mode = 6);
J dir(const std::string& path, int mode = 7);
J phase1(std::vector<int> procs, bool conc = false);
void add_phase(J& plan, const J& ph);
J plan(const char* prop, uint64_t seed, Gen& g);
// Adds up to n faults for process proc, placed on events counted in the dry run.
void place(Gen& g, J& plan, const J& dry, int proc, const std::vector<std::string>& menu, int n);
J env(const std::string& op, const std::string& path, long arg = 0, const std::string& data = "");
}
struct Viol { std::string key, msg; };
struct Judge {
  const J& plan; const J& rec; const J& ref;
  std::vector<Viol> v;
  bool nontrivial = false;
  std::map<std::string, long> probes;
  Judge(const J& p, const J& r, const J& f) : plan(p), rec(r), ref(f) {}
  void bad(const std::string& key, const std::string& msg) { v.push_back({key, msg}); }
  const J& proc(int i) const { return rec.at("procs").a.at(i); }
  const J& spec(int i) const { return plan.at("procs").a.at(i); }
  bool file(const std::string& abs, std::string& data, int phase = -1) const;
  bool fired_any() const { return rec.at("fired").size() > 0; }
};
struct Prop {
  const char* id;
  J (*gen)(uint64_t seed);
  void (*place)(J& plan, const J& dry, uint64_t seed); // may be null
  J (*ref)(const J& plan);                              // reference plan (default: the plan without faults); used if needs_ref
  bool needs_ref;
  void (*judge)(Judge&);
  bool abnormal_is_violation;
  bool (*outside)(const J& plan, const J& rec) = nullptr; // an abnormal end which a library below the framework causes
};
std::vector<Prop>& props();
struct RegProp { RegProp(Prop p) { props().push_back(p); } };
