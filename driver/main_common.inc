#include "common.hh"
#include "Error.hh"
#include "Debug.hh"
#include <boost/shared_ptr.hpp>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
namespace vt {
static std::string s_cur;
static void onSignal(int sig) {
  char buf[512];
  int n = snprintf(buf, sizeof buf, "{\"op\":\"crash\",\"sig\":%d,\"err\":\"signal %d\"}\n", sig, sig);
  ssize_t w = write(1, buf, n); (void) w;
  _exit(70);
}
static void split(const std::string& l, Toks& t) {
  std::istringstream is(l); std::string w; t.clear(); while (is >> w) t.push_back(w);
}
static int loop(std::istream& in, int limit);
int run(int argc, char** argv) {
  int limit = argc > 1 ? atoi(argv[1]) : 20;
  signal(SIGSEGV, onSignal); signal(SIGABRT, onSignal); signal(SIGBUS, onSignal);
  signal(SIGFPE, onSignal); signal(SIGILL, onSignal); signal(SIGALRM, onSignal);
  Error::doThrowExceptions();
  Error::doNotDisplayErrors();
  Error::doNotDisplayWarnings();
  std::ostringstream sink;
  Error::setStream(sink);
  // everything the library prints goes to stderr; events go to the original stdout
  std::streambuf* oldc = std::cout.rdbuf(std::cerr.rdbuf()); (void) oldc;
#ifdef VT_FORK      // each episode in a process of its own: one that dies or leaves things behind does not disturb the others
  std::string l, ep;
  while (std::getline(std::cin, l)) {
    ep += l + "\n";
    if (l.compare(0, 3, "end")) continue;
    fflush(stdout);
    pid_t p = fork();
    if (!p) { std::istringstream is(ep); int rc = loop(is, limit); fflush(stdout); _exit(rc); }
    int st = 0; waitpid(p, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 3) return 3;
    if (WIFSIGNALED(st)) printf("{\"op\":\"crash\",\"sig\":%d,\"err\":\"killed by signal %d\"}\n", WTERMSIG(st), WTERMSIG(st));
    if (!WIFEXITED(st) || WEXITSTATUS(st)) printf("{\"op\":\"end\",\"err\":\"\"}\n");
    ep.clear();
  }
  return 0;
#else
  return loop(std::cin, limit);
#endif
}
static int loop(std::istream& in, int limit) {
  Session* s = 0;
  std::string line; Toks t;
  long idx = 0;
  while (std::getline(in, line)) {
    split(line, t);
    if (t.empty()) continue;
    alarm(limit);
    Obj ev;
    std::string id;
    if (t[0] == "begin") {            // begin <episode> <session kind> args...
      if (s) { delete s; s = 0; }
      idx = 0;
      Toks rest(t.begin() + 2, t.end());
      ev.str_("op", "begin").str_("ep", t[1]);
      std::string err;
      try {
        if (!makers().count(t[2])) { fprintf(stderr, "unknown session %s\n", t[2].c_str()); return 3; }
        s = makers()[t[2]](rest);
        ev.str_("err", "");
        Arr a; for (size_t i = 1; i < rest.size(); ++i) a.add(q(rest[i])); ev.add("a", a.str());
        s->observe(t, ev);
      } catch (Error& e) { ev.str_("err", "E:" + e.getMsg()); }
      catch (std::exception& e) { ev.str_("err", std::string("X:") + e.what()); }
      catch (std::string& e) { ev.str_("err", "S:" + e); }
      catch (...) { ev.str_("err", "?"); }
      std::string o = ev.str() + "\n"; fwrite(o.data(), 1, o.size(), stdout); fflush(stdout);
      continue;
    }
    if (t[0] == "end") {
      std::string err;
      try { delete s; s = 0; } catch (Error& e) { err = "E:" + e.getMsg(); } catch (...) { err = "?"; }
      ev.str_("op", "end").str_("err", err);
      std::string o = ev.str() + "\n"; fwrite(o.data(), 1, o.size(), stdout); fflush(stdout);
      alarm(0);
      continue;
    }
    ++idx;
    ev.str_("op", t[0]);
    { Arr a; for (size_t i = 1; i < t.size(); ++i) a.add(q(t[i])); ev.add("a", a.str()); }
    { Arr a; for (size_t i = 1; i < t.size(); ++i) {
        char* e = 0; long v = strtol(t[i].c_str(), &e, 10); a.add(num(*e ? 0 : v)); } ev.add("n", a.str()); }
    std::string err;
    if (s) {
      try { s->op(t, ev); }
      catch (Error& e) { err = "E:" + (e.getMsg().empty() ? e.getCondition() : e.getMsg()); }
      catch (std::exception& e) { err = std::string("X:") + e.what(); }
      catch (std::string& e) { err = "S:" + e; }
      catch (const char* e) { err = std::string("C:") + e; }
      catch (...) { err = "?"; }
      std::string oerr;
      try { s->observe(t, ev); }
      catch (Error& e) { oerr = "E:" + e.getMsg(); }
      catch (std::exception& e) { oerr = std::string("X:") + e.what(); }
      catch (std::string& e) { oerr = "S:" + e; }
      catch (...) { oerr = "?"; }
      if (!oerr.empty() && err.empty()) err = "observe " + oerr;
    } else err = "no session";
    if (err.size() > 300) err = err.substr(0, 300);
    ev.str_("err", err);
    std::string o = ev.str() + "\n"; fwrite(o.data(), 1, o.size(), stdout); fflush(stdout);
  }
  return 0;
}
}
int main(int argc, char** argv) { return vt::run(argc, argv); }
