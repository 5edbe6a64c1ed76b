// The "pipe" kind: the tfPipeToXML program, run on a simulated child process.
// The child is a script of output chunks followed by an end state; the
// itksysProcess functions below are a stand-in for the kwsys library with its
// documented contract.
#include "exec.h"
#include "itksys/Process.h"
#include <cstring>
#include <string>
#include <vector>
int tfPipeToXML_main(int argc, char** argv);
using namespace sim;
struct itksysProcess_s {
  std::vector<std::vector<std::string>>* cmds;
  bool shared[4];
  std::string* pfile[4];
  int opt[8];
  int state, exit_value, exc;
  size_t pos;        // next chunk
  char* buf;         // data handed out last; invalid after the next call
  size_t buflen;
  bool closed, killed, native[4];
  double timeout;
};
static RunProc* rp_of[8];
static const J& child() { return rp_of[P().id]->spec->at("child"); }
static J& res() { return rp_of[P().id]->res; }
static void drop(itksysProcess* c) { if (c->buf) { memset(c->buf, 0xEE, c->buflen); SutScope s; free(c->buf); } c->buf = nullptr; }
static void finish(itksysProcess* c) {
  if (c->state != itksysProcess_State_Executing) return;
  const J& ch = child();
  std::string e = ch.str("end", "exit");
  if (c->killed) c->state = itksysProcess_State_Killed;
  else if (e == "exit") { c->state = itksysProcess_State_Exited; c->exit_value = (int)ch.num("code"); }
  else if (e == "exception") { c->state = itksysProcess_State_Exception; c->exc = (int)ch.num("exc", itksysProcess_Exception_Fault); }
  else { c->state = itksysProcess_State_Error; }
}
extern "C" {
itksysProcess* itksysProcess_New(void) {
  HostScope h; Fault* f = event("pipe", "new"); if (f && f->act == "errno") return nullptr;
  auto c = new itksysProcess_s(); c->cmds = new std::vector<std::vector<std::string>>; memset(c->opt, 0, sizeof c->opt);
  for (int i = 0; i < 4; ++i) { c->shared[i] = i == 1; c->pfile[i] = nullptr; c->native[i] = false; }
  c->state = itksysProcess_State_Starting; c->pos = 0; c->buf = nullptr; c->closed = c->killed = false; c->exit_value = 0; c->exc = 0; c->timeout = 0;
  res()["procs_open"] = res().num("procs_open") + 1;
  return c;
}
void itksysProcess_Delete(itksysProcess* c) { HostScope h; if (!c) return; res()["procs_open"] = res().num("procs_open") - 1; finish(c); drop(c); delete c->cmds; for (auto* p : c->pfile) delete p; delete c; }
int itksysProcess_AddCommand(itksysProcess* c, char const* const* cmd) {
  HostScope h; if (!c || !cmd) return 0;
  std::vector<std::string> v;
  for (int i = 0;; ++i) { check_access(cmd + i, sizeof(char*), false); if (!cmd[i]) break; check_access(cmd[i], strlen(cmd[i]) + 1, false); v.push_back(cmd[i]); if (c->opt[itksysProcess_Option_Verbatim]) break; }
  if (v.empty()) return 0;
  c->cmds->push_back(v);
  return 1;
}
int itksysProcess_SetCommand(itksysProcess* c, char const* const* cmd) { HostScope h; if (!c) return 0; c->cmds->clear(); return itksysProcess_AddCommand(c, cmd); }
void itksysProcess_SetTimeout(itksysProcess* c, double t) { HostScope h; c->timeout = t; }
int itksysProcess_SetWorkingDirectory(itksysProcess* c, const char*) { return c != 0; }
int itksysProcess_SetPipeFile(itksysProcess* c, int p, const char* f) { HostScope h; if (p < 1 || p > 3) return 0; delete c->pfile[p]; c->pfile[p] = f ? new std::string(norm(f, P().cwd)) : nullptr; if (f) c->shared[p] = false; return 1; }
void itksysProcess_SetPipeShared(itksysProcess* c, int p, int s) { HostScope h; if (p >= 1 && p <= 3) c->shared[p] = s != 0; }
void itksysProcess_SetPipeNative(itksysProcess* c, int p, const itksysProcess_Pipe_Handle h[2]) { if (p >= 1 && p <= 3) c->native[p] = h != 0; }
int itksysProcess_GetOption(itksysProcess* c, int o) { return o >= 0 && o < 8 ? c->opt[o] : 0; }
void itksysProcess_SetOption(itksysProcess* c, int o, int v) { if (o >= 0 && o < 8) c->opt[o] = v; }
int itksysProcess_GetState(itksysProcess* c) { return c ? c->state : (int)itksysProcess_State_Error; }
int itksysProcess_GetExitException(itksysProcess* c) { return c->state == itksysProcess_State_Exception ? c->exc : (int)itksysProcess_Exception_None; }
int itksysProcess_GetExitCode(itksysProcess* c) { return c->state == itksysProcess_State_Exited ? c->exit_value << 8 : c->state == itksysProcess_State_Exception ? 11 : 0; }
int itksysProcess_GetExitValue(itksysProcess* c) { return c->state == itksysProcess_State_Exited ? c->exit_value : -1; }
const char* itksysProcess_GetErrorString(itksysProcess* c) { if (!c) return "Process management structure could not be allocated"; return c->state == itksysProcess_State_Error ? "No such file or directory" : nullptr; }
const char* itksysProcess_GetExceptionString(itksysProcess* c) { return c && c->state == itksysProcess_State_Exception ? "Segmentation fault" : nullptr; }
int itksysProcess_GetStateByIndex(itksysProcess* c, int i) { return c && i == 0 ? c->state : (int)itksysProcess_State_Error; }
int itksysProcess_GetExitExceptionByIndex(itksysProcess* c, int) { return itksysProcess_GetExitException(c); }
int itksysProcess_GetExitCodeByIndex(itksysProcess* c, int) { return itksysProcess_GetExitCode(c); }
int itksysProcess_GetExitValueByIndex(itksysProcess* c, int) { return itksysProcess_GetExitValue(c); }
const char* itksysProcess_GetExceptionStringByIndex(itksysProcess* c, int) { return itksysProcess_GetExceptionString(c); }
void itksysProcess_Execute(itksysProcess* c) {
  HostScope h;
  if (!c || c->state == itksysProcess_State_Executing) return;
  Fault* f = event("pipe", "execute");
  J cj = J::arr();
  if (!c->cmds->empty()) for (auto& a : c->cmds->front()) cj.push(a);
  res()["cmd"] = cj; res()["ncmds"] = (long)c->cmds->size(); res()["executed"] = res().num("executed") + 1;
  c->pos = 0; c->closed = false;
  if (c->cmds->empty() || (f && f->act == "errno") || child().str("end") == "error") { c->state = itksysProcess_State_Error; res()["state"] = c->state; return; }
  c->state = itksysProcess_State_Executing;
}
void itksysProcess_Disown(itksysProcess* c) { if (c->opt[itksysProcess_Option_Detach]) c->state = itksysProcess_State_Disowned; }
int itksysProcess_WaitForData(itksysProcess* c, char** data, int* length, double* timeout) {
  HostScope h;
  if (!c || c->state != itksysProcess_State_Executing || c->closed) return itksysProcess_Pipe_None;
  event("pipe", "wait " + std::to_string(c->pos));
  drop(c);
  const auto& chunks = child().at("chunks").a;
  for (;;) {
    if (c->killed || c->pos >= chunks.size()) { c->closed = true; return itksysProcess_Pipe_None; }
    const J& k = chunks[c->pos];
    if (timeout && k.num("ms") > (long)(*timeout * 1000)) { W->simtime_us += (long long)(*timeout > 0 ? *timeout * 1e6 : 0); if (*timeout <= 0) { static int polls; if (++polls > 100) { polls = 0; goto ready; } } *timeout = 0; return itksysProcess_Pipe_Timeout; }
  ready:
    ++c->pos;
    W->simtime_us += k.num("ms") * 1000;
    probe("pipe.chunk");
    std::string d = k.str("data");
    int pipe = k.str("pipe") == "err" ? itksysProcess_Pipe_STDERR : itksysProcess_Pipe_STDOUT;
    { J& g = res()[pipe == itksysProcess_Pipe_STDERR ? "child_err" : "child_out"]; g = g.s + d; }
    if (c->pfile[pipe]) { std::string o; get_file(*c->pfile[pipe], o); put_file(*c->pfile[pipe], o + d); continue; }
    if (c->native[pipe]) continue;
    if (c->shared[pipe]) { (pipe == itksysProcess_Pipe_STDERR ? P().err : P().out) += d; continue; }
    if (c->opt[itksysProcess_Option_MergeOutput]) pipe = itksysProcess_Pipe_STDOUT;
    { SutScope s; c->buf = (char*)arena_alloc_nofault(d.size() ? d.size() : 1); }
    memcpy(c->buf, d.data(), d.size()); c->buflen = d.size();
    if (data) *data = c->buf;
    if (length) *length = (int)d.size();
    return pipe;
  }
}
int itksysProcess_WaitForExit(itksysProcess* c, double*) {
  HostScope h;
  if (!c || c->state != itksysProcess_State_Executing) return 1;
  event("pipe", "waitexit");
  const auto& chunks = child().at("chunks").a; // what the child still prints is thrown away
  for (; c->pos < chunks.size() && !c->killed; ++c->pos) { bool e = chunks[c->pos].str("pipe") == "err"; J& g = res()[e ? "child_err" : "child_out"]; g = g.s + chunks[c->pos].str("data"); }
  drop(c);
  finish(c);
  return 1;
}
void itksysProcess_Interrupt(itksysProcess* c) { itksysProcess_Kill(c); }
void itksysProcess_Kill(itksysProcess* c) { if (c && c->state == itksysProcess_State_Executing) { c->killed = true; } }
void itksysProcess_KillPID(unsigned long) {}
void itksysProcess_ResetStartTime(itksysProcess*) {}
}
static void run_pipe(RunProc& rp) {
  rp_of[P().id] = &rp;
  std::vector<std::string> args = {"tfPipeToXML"};
  for (auto& a : rp.spec->at("args").a) args.push_back(a.s);
  for (auto& a : rp.spec->at("cmd").a) args.push_back(a.s);
  char** argv;
  {
    SutScope s;
    argv = (char**)arena_alloc_nofault((args.size() + 1) * sizeof(char*));
    for (size_t i = 0; i < args.size(); ++i) { argv[i] = (char*)arena_alloc_nofault(args[i].size() + 1); HostScope h; memcpy(argv[i], args[i].c_str(), args[i].size() + 1); }
    argv[args.size()] = 0;
  }
  P().armed = true;
  int r;
  { SutScope s; r = tfPipeToXML_main((int)args.size(), argv); }
  rp.res["ret"] = r; rp.res["returned"] = 1;
  event("ret", std::to_string(r));
  P().armed = false;
  long lv = 0;
  for (auto& o : W->ofds) if (o->proc == P().id && o->open) ++lv;
  rp.res["open_after"] = lv;
}
static struct RegPipe { RegPipe() { add_kind("pipe", run_pipe); } } reg_pipe;
