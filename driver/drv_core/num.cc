// Session "num": extended numbers.  A number is written k:d and means k * infinity + d (integers) or
// k * infinity + d / 4 (reals); operand kinds: e eint, i int, u unsigned long, l long, f edouble, D double.
#include "common.hh"
#include "Number.hh"
#include <cmath>
#include <limits>
using namespace EUROPA;
namespace {
const long I = 4503599627370495L;
bool real(char k) { return k == 'f' || k == 'D'; }
struct N { long k, d; };
N parse(const std::string& s) { N n; size_t c = s.find(':'); n.k = atol(s.substr(0, c).c_str()); n.d = atol(s.substr(c + 1).c_str()); return n; }
long asL(N n) { return n.k * I + n.d; }
double asD(N n) { return (double)(n.k * I) + n.d / 4.0; }
// finite results far outside the modelled range stay recognisable and small enough for TLC to compute with
long clamp(double d, double m = 5e7) { return (long) std::min(m, std::max(-m, d)); }
void out(vt::Obj& ev, const std::string& p, long v) {   // an integer result
  long k = v > I / 2 ? 1 : v < -I / 2 ? -1 : 0;
  if (v > 2 * I || v < -2 * I) { ev.int_(p + "k", v > 0 ? 2 : -2).int_(p + "d", 0); return; }
  ev.int_(p + "k", k).int_(p + "d", clamp((double)(v - k * I)));
}
void out(vt::Obj& ev, const std::string& p, double v) { // a real result, in quarters
  if (v != v) { ev.int_(p + "k", 9).int_(p + "d", 0); return; }
  long k = v > I / 2 ? 1 : v < -I / 2 ? -1 : 0;
  if (v > 2.0 * I || v < -2.0 * I) { ev.int_(p + "k", v > 0 ? 2 : -2).int_(p + "d", 0); return; }
  double r = (v - (double)(k * I)) * 4;
  ev.int_(p + "k", k).int_(p + "d", clamp(std::floor(r))).bool_(p + "x", r == std::floor(r));
  ev.int_(p + "m", k ? 0 : clamp(std::floor(v * 100000 + .5), 2e9));   // hundred-thousandths, when small
}
void put(vt::Obj& ev, const std::string& p, eint v) { ev.str_(p + "t", "e"); out(ev, p, cast_long(v)); }
void put(vt::Obj& ev, const std::string& p, edouble v) { ev.str_(p + "t", "f"); out(ev, p, cast_double(v)); }

template <class F> void with(char k, N n, F f) {
  switch (k) {
    case 'e': f(eint(asL(n))); break;
    case 'i': f((int) asL(n)); break;
    case 'u': f((unsigned long) asL(n)); break;
    case 'l': f(asL(n)); break;
    case 'f': f(edouble(asD(n))); break;
    case 'D': f(asD(n)); break;
  }
}
template <class A, class B> void cmp(vt::Obj& ev, A a, B b) {
  ev.bool_("lt", a < b).bool_("le", a <= b).bool_("eq", a == b).bool_("ge", a >= b).bool_("gt", a > b).bool_("ne", a != b);
}
#define ARITH \
  if (o == "+") { put(ev, "r", a + b); return; } if (o == "-") { put(ev, "r", a - b); return; } \
  if (o == "*") { put(ev, "r", a * b); return; } if (o == "/") { put(ev, "r", a / b); return; }
void ar(vt::Obj& ev, const std::string& o, eint a, int b) { ARITH }
void ar(vt::Obj& ev, const std::string& o, eint a, unsigned long b) { ARITH }
void ar(vt::Obj& ev, const std::string& o, eint a, long b) { ARITH if (o == "%") put(ev, "r", a % b); }
void ar(vt::Obj& ev, const std::string& o, eint a, eint b) { ARITH if (o == "%") put(ev, "r", a % b); }
void ar(vt::Obj& ev, const std::string& o, long a, eint b) { ARITH if (o == "%") put(ev, "r", a % b); }
void ar(vt::Obj& ev, const std::string& o, eint a, edouble b) { ARITH }
void ar(vt::Obj& ev, const std::string& o, eint a, double b) { ARITH }
void ar(vt::Obj& ev, const std::string& o, edouble a, edouble b) { ARITH }
void ar(vt::Obj& ev, const std::string& o, double a, edouble b) { ARITH }
template <class T> void compound(vt::Obj& ev, const std::string& o, T a, T b) {
  T r = a;
  if (o == "+=") r = (a += b); else if (o == "-=") r = (a -= b); else if (o == "*=") r = (a *= b); else if (o == "/=") r = (a /= b);
  put(ev, "r", a); ev.bool_("same", r == a);
}
template <class T> void unary(vt::Obj& ev, const std::string& o, T a) {
  T old = a, r = a;
  if (o == "neg") r = -a; else if (o == "pos") r = +a;
  else if (o == "inc") r = ++a; else if (o == "dec") r = --a;
  else if (o == "pinc") r = a++; else if (o == "pdec") r = a--;
  else if (o == "not") { ev.bool_("b", !a); return; }
  put(ev, "r", r); put(ev, "a", a); (void) old;
}
class NumS : public vt::Session {
public:
  void op(const vt::Toks& t, vt::Obj& ev) {
    const std::string& o = t[0];
    try {
      if (o == "bin" || o == "cmp" || o == "set") {
        std::string ks = t[1] + t[2]; N x = parse(t[4]), y = parse(t[5]);
        ev.int_("xk", x.k).int_("xd", x.d).int_("yk", y.k).int_("yd", y.d);
        if (o == "bin") {
          const std::string& f = t[3];
          if (ks == "ei") ar(ev, f, eint(asL(x)), (int) asL(y)); else if (ks == "eu") ar(ev, f, eint(asL(x)), (unsigned long) asL(y));
          else if (ks == "el") ar(ev, f, eint(asL(x)), asL(y)); else if (ks == "ee") ar(ev, f, eint(asL(x)), eint(asL(y)));
          else if (ks == "le") ar(ev, f, asL(x), eint(asL(y))); else if (ks == "ef") ar(ev, f, eint(asL(x)), edouble(asD(y)));
          else if (ks == "eD") ar(ev, f, eint(asL(x)), asD(y)); else if (ks == "ff") ar(ev, f, edouble(asD(x)), edouble(asD(y)));
          else if (ks == "Df") ar(ev, f, asD(x), edouble(asD(y))); else ev.bool_("skip", true);
        } else if (o == "set") {
          if (ks == "ee") compound(ev, t[3], eint(asL(x)), eint(asL(y))); else if (ks == "ff") compound(ev, t[3], edouble(asD(x)), edouble(asD(y))); else ev.bool_("skip", true);
        } else {
#define C(L, R, A, B) if (ks == L R) { cmp(ev, A, B); return; }
          eint ex = real(t[1][0]) ? eint(0) : eint(asL(x)), ey = real(t[2][0]) ? eint(0) : eint(asL(y));
          edouble fx = real(t[1][0]) ? edouble(asD(x)) : edouble(0.0), fy = real(t[2][0]) ? edouble(asD(y)) : edouble(0.0);
          C("e", "e", ex, ey) C("e", "i", ex, (int) asL(y)) C("e", "l", ex, asL(y)) C("e", "f", ex, fy) C("e", "D", ex, asD(y))
          C("i", "e", (int) asL(x), ey) C("l", "e", asL(x), ey) C("D", "e", asD(x), ey)
          C("f", "f", fx, fy) C("f", "D", fx, asD(y)) C("D", "f", asD(x), fy) C("f", "i", fx, (int) asL(y)) C("f", "l", fx, asL(y))
          C("i", "f", (int) asL(x), fy) C("l", "f", asL(x), fy)
          ev.bool_("skip", true);
        }
        return;
      }
      N x = parse(t.size() > 3 ? t[3] : "0:0"); char k = t.size() > 1 ? t[1][0] : 0;
      ev.int_("xk", x.k).int_("xd", x.d);
      if (o == "un") { if (k == 'e') unary(ev, t[2], eint(asL(x))); else unary(ev, t[2], edouble(asD(x))); }
      else if (o == "conv") {      // conversions
        const std::string& f = t[2];
        if (k == 'e') {
          eint e(asL(x));
          if (f == "f") put(ev, "r", edouble(e)); else if (f == "l") put(ev, "r", eint(cast_long(e))); else if (f == "i") put(ev, "r", eint(cast_int(e)));
          else if (f == "D") put(ev, "r", edouble(cast_double(e))); else if (f == "b") put(ev, "r", eint(cast_basis(e)));
          else if (f == "s") { std::ostringstream os; os << e; std::istringstream is(os.str()); eint q(7); is >> q; put(ev, "r", q); }
        } else {
          edouble e(asD(x));
          if (f == "e") put(ev, "r", (eint) e); else if (f == "l") put(ev, "r", eint(cast_long(e))); else if (f == "i") put(ev, "r", eint(cast_int(e)));
          else if (f == "D") put(ev, "r", edouble(cast_double(e))); else if (f == "b") put(ev, "r", edouble(cast_basis(e)));
          else if (f == "floor") put(ev, "r", std::floor(e)); else if (f == "ceil") put(ev, "r", std::ceil(e)); else if (f == "abs") put(ev, "r", std::abs(e));
        }
      } else if (o == "lim") {
        put(ev, "a", std::numeric_limits<eint>::infinity()); put(ev, "b", std::numeric_limits<eint>::minus_infinity());
        put(ev, "c", std::numeric_limits<eint>::max()); put(ev, "g", std::numeric_limits<eint>::min());
        put(ev, "h", std::numeric_limits<edouble>::infinity()); put(ev, "j", std::numeric_limits<edouble>::minus_infinity());
      } else if (o == "mm") {      // min and max of reals
        N y = parse(t[4]); ev.int_("yk", y.k).int_("yd", y.d);
        put(ev, "r", std::min(edouble(asD(x)), edouble(asD(y)))); put(ev, "a", std::max(edouble(asD(x)), edouble(asD(y))));
      }
    } catch (std::overflow_error&) { ev.str_("ex", "over"); }
    catch (std::underflow_error&) { ev.str_("ex", "under"); }
    catch (std::range_error&) { ev.str_("ex", "range"); }
  }
};
vt::Session* mk(const vt::Toks&) { return new NumS(); }
vt::Register reg("num", mk);
}
