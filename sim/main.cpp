// Command line of the simulator:
//   worker PROP SEED INDEX NWORKERS SECONDS MAXRUNS   search; one JSON line per violation, one summary line
//   exec   PROP [log]        < plan.json              run one plan, print the result
//   plan   PROP RUNSEED                               print the plan a run seed stands for
//   twice  PROP SEED N                                hashes of N runs (determinism check)
#include "gen.h"
#include <cstdio>
#include <cstring>
#include <ctime>
#include <iostream>
#include <sstream>
#include <unistd.h>
#include <unordered_set>
using namespace sim;
static const Prop* find(const char* id) { for (auto& p : props()) if (!strcmp(p.id, id)) return &p; return nullptr; }
static J judge(const Prop& p, const J& plan, const J& rec, const J& ref) {
  J out = J::obj();
  Judge j(plan, rec, ref);
  out["hash"] = rec.str("hash"); out["shape"] = rec.str("shape");
  if (rec.has("abnormal")) {
    std::string a = rec.str("abnormal"), m = rec.str("msg");
    if (a == "harness") { out["error"] = a + ": " + m; }
    else if (a == "stuck") out["abnormal"] = a + ": " + m; // the process waited for something the simulator does not control: no verdict
    else if (p.abnormal_is_violation && !(p.outside && p.outside(plan, rec))) {
      std::string key = a + ":" + m;
      for (char& c : key) if (c >= '0' && c <= '9') c = '#';
      j.bad(key, "the run did not end normally: " + a + ": " + m);
    } else out["abnormal"] = a + ": " + m;
    j.nontrivial = true;
  } else {
    try { p.judge(j); } catch (std::exception& e) { out["error"] = std::string("judge: ") + e.what(); }
  }
  J v = J::arr();
  for (auto& x : j.v) { J e = J::obj(); e["key"] = x.key; e["msg"] = x.msg; v.push(e); }
  out["viol"] = v; out["nontrivial"] = j.nontrivial;
  J pb = rec.at("probes").is_null() ? J::obj() : rec.at("probes"); for (auto& q : j.probes) pb[q.first] = pb.num(q.first) + q.second; out["probes"] = pb;
  out["fired"] = rec.at("fired"); out["steps"] = rec.num("steps"); out["simtime_us"] = rec.num("simtime_us"); out["switches"] = rec.num("switches");
  return out;
}
static J reference(const Prop& p, const J& plan) { return exec_plan(p.ref ? p.ref(plan) : plan, true); }
static J make_plan(const Prop& p, uint64_t seed, J* ref, J* early) {
  J plan = p.gen(seed);
  if (p.place || p.needs_ref) {
    J d = reference(p, plan);
    if (d.has("abnormal")) { *early = d; return plan; }
    if (p.place) p.place(plan, d, seed);
    *ref = d;
  }
  return plan;
}
static J run_plan(const Prop& p, const J& plan, J* rec_out, std::string* lg, const J* have_ref = nullptr) {
  J ref;
  if (p.needs_ref) {
    ref = have_ref ? *have_ref : reference(p, plan);
    if (ref.has("abnormal")) { if (rec_out) *rec_out = ref; return judge(p, plan, ref, ref); }
  }
  J rec = exec_plan(plan, false, lg);
  J r = judge(p, plan, rec, ref);
  if (rec_out) *rec_out = rec;
  return r;
}
static J run_seed(const Prop& p, uint64_t seed, J* plan_out) {
  J ref, early;
  J plan = make_plan(p, seed, &ref, &early);
  *plan_out = plan;
  if (!early.is_null()) return judge(p, plan, early, early);
  return run_plan(p, plan, nullptr, nullptr, &ref);
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static uint64_t run_seed_of(uint64_t base, uint64_t i) { Rng r(base * 1000003 + i); return r.next() >> 2; }
int main(int argc, char** argv) {
  harness_init();
  if (argc < 3) return 2;
  std::string cmd = argv[1];
  const Prop* p = find(argv[2]);
  if (!p) { fprintf(stderr, "unknown property %s\n", argv[2]); return 2; }
  install_streams();
  FILE* so = fdopen(1, "w");
  auto emit = [&](const J& j) { std::string s = j.dump() + "\n"; fwrite(s.data(), 1, s.size(), so); fflush(so); };
  if (cmd == "worker") {
    uint64_t base = strtoull(argv[3], 0, 10), idx = strtoull(argv[4], 0, 10), nw = strtoull(argv[5], 0, 10);
    double secs = atof(argv[6]); uint64_t maxr = strtoull(argv[7], 0, 10);
    double t0 = now();
    uint64_t runs = 0, nontriv = 0, steps = 0, simt = 0, sw = 0, nviol = 0, abn = 0, nerr = 0;
    std::unordered_set<std::string> hashes, shapes;
    std::map<std::string, long> fired, probes, keys, abnorm;
    J samples = J::arr(), abseeds = J::arr();
    for (uint64_t i = idx; runs < maxr && now() - t0 < secs; i += nw, ++runs) {
      uint64_t s = run_seed_of(base, i);
      J plan; J r = run_seed(*p, s, &plan);
      if (r.has("error")) { J e = J::obj(); e["error"] = r.str("error"); e["seed"] = (long long)s; if (nerr < 3) { e["plan"] = plan; emit(e); } ++nerr; if (nerr > 200) break; continue; }
      if (r.num("nontrivial")) { ++nontriv; if (shapes.size() < 400000) shapes.insert(r.str("shape")); if (hashes.size() < 400000) hashes.insert(r.str("hash")); if (samples.size() < 2 && plan.at("faults").size()) samples.push(plan); else if (samples.size() == 0) samples.push(plan); }
      steps += r.num("steps"); simt += r.num("simtime_us"); sw += r.num("switches");
      for (auto& q : r.at("fired").o) fired[q.first] += q.second.i;
      for (auto& q : r.at("probes").o) probes[q.first] += q.second.i;
      if (r.has("abnormal")) { ++abn; abnorm[r.str("abnormal").substr(0, 60)]++; if (abseeds.size() < 8) abseeds.push((long long)s); }
      for (auto& v : r.at("viol").a) {
        ++nviol;
        if (keys[v.str("key")]++ < 2) { J e = J::obj(); e["violation"] = v; e["seed"] = (long long)s; e["plan"] = plan; e["hash"] = r.str("hash"); emit(e); }
      }
    }
    J e = J::obj();
    J sm = J::obj();
    sm["runs"] = (long)runs; sm["nontrivial"] = (long)nontriv; sm["steps"] = (long)steps; sm["simtime_us"] = (long)simt; sm["switches"] = (long)sw; sm["violations"] = (long)nviol; sm["abnormal"] = (long)abn; sm["errors"] = (long)nerr;
    J f = J::obj(); for (auto& q : fired) f[q.first] = q.second; sm["fired"] = f;
    J pb = J::obj(); for (auto& q : probes) pb[q.first] = q.second; sm["probes"] = pb;
    J ab = J::obj(); for (auto& q : abnorm) ab[q.first] = q.second; sm["abnormal_kinds"] = ab; sm["abnormal_seeds"] = abseeds;
    J hs = J::arr(); for (auto& h : hashes) hs.push(h); sm["hashes"] = hs;
    J ss = J::arr(); for (auto& h : shapes) ss.push(h); sm["shapes"] = ss;
    sm["samples"] = samples; sm["secs_ms"] = (long)((now() - t0) * 1000);
    e["summary"] = sm;
    emit(e);
    return 0;
  }
  if (cmd == "exec") {
    std::string in; { char b[65536]; ssize_t n; while ((n = read(0, b, sizeof b)) > 0) in.append(b, n); }
    J plan = J::parse(in);
    std::string lg; J rec;
    J r = run_plan(*p, plan, &rec, &lg);
    if (argc > 3 && !strcmp(argv[3], "log")) { r["log"] = lg; r["rec"] = rec; }
    emit(r);
    return r.has("error") ? 3 : 0;
  }
  if (cmd == "batch") { // one plan per line on stdin, one result per line
    std::string line; int c;
    FILE* fi = fdopen(0, "r");
    while ((c = fgetc(fi)) != EOF) {
      if (c != '\n') { line += (char)c; continue; }
      J plan = J::parse(line); line.clear();
      emit(run_plan(*p, plan, nullptr, nullptr));
    }
    return 0;
  }
  if (cmd == "plan") { J ref, early; J plan = make_plan(*p, strtoull(argv[3], 0, 10), &ref, &early); emit(plan); return 0; }
  if (cmd == "twice") {
    uint64_t base = strtoull(argv[3], 0, 10), idx = strtoull(argv[4], 0, 10), nw = strtoull(argv[5], 0, 10), n = strtoull(argv[6], 0, 10);
    for (uint64_t i = idx; i < n; i += nw) {
      J plan; J r = run_seed(*p, run_seed_of(base, i), &plan);
      std::string s = std::to_string(i) + " " + r.str("hash") + " " + std::to_string(fnv(plan.dump())) + " " + std::to_string(r.at("viol").size()) + "\n";
      fwrite(s.data(), 1, s.size(), so); fflush(so);
    }
    fflush(so);
    return 0;
  }
  return 2;
}
