// Effective real numbers: random terms, asked for bounds with many accuracies, efforts and precisions.
#include "enc.hpp"
#include "prog.hpp"
#include "numeric/reals.hpp"
#include "numeric/real_interface.hpp"
#include "numeric/sequence.hpp"
#include "numeric/accuracy.hpp"
#include "numeric/number.hpp"
VH_MAIN_SUPPORT
using namespace Ariadne; using namespace vh;
namespace vh2 { static Dyadic p2(long k) { Dyadic w(1); if(k<0) { for(long i=0;i<-k;++i) w=hlf(w); return w; } return Dyadic(pow(Integer(2),static_cast<Nat>(k)),0u); } }
using vh2::p2;
static Dyadic dya(Rational const& q) { Integer d=q.denominator(); Nat k=0; while(d!=1) { d=quot(d,Integer(2)); ++k; } return Dyadic(Integer(q.numerator()),k); }
static J bj(DyadicBounds const& b) { return kj("b",str(b.lower_raw()),str(b.upper_raw())); }
static Dyadic trunc_to(Rational const& q, unsigned n) { Integer z=floor(q*Rational(p2(n))); return Dyadic(z,n); }
// the constant node given as a real of one of the available classes; limits of sequences; case selections
static Real leaf(Rng& r, Rational const& q, bool weak) { std::string how;
    bool dy=is_finite(q) && [&]{ Integer d=q.denominator(); while(rem(d,Integer(2))==0) d=quot(d,Integer(2)); return d==1; }();
    switch(weak?r.below(12):r.below(4)) {
        case 0: if(q.denominator()==1) { how="int"; return Real(Integer(q.numerator())); } break;
        case 1: if(dy) { how="dyadic"; return Real(dya(q)); } break;
        case 2: if(dy) { how="double"; return Real(ExactDouble(qd(q))); } break;
        case 3: { Integer d=q.denominator(); Rational h=q*Rational(1000000); if(h.denominator()==1) { how="decimal"; Decimal u(Integer(h.numerator()),6u); return Real(u); } break; }
        case 4: { how="limit-dyadic"; int s=static_cast<int>(r.range(-1,1)); return limit(FastCauchySequence<Dyadic>([q,s,dy](Natural n)->Dyadic { unsigned m=static_cast<unsigned>(n.get_si()); 
                    if(dy) return dya(q)+Dyadic(Integer(s),m); return trunc_to(q,m+1u); })); }
        case 5: { how="limit-real"; int s=static_cast<int>(r.range(-1,1)); return limit(FastCauchySequence<Real>([q,s](Natural n)->Real { unsigned m=static_cast<unsigned>(n.get_si()); return Real(q)+Real(Dyadic(Integer(s),m)); })); }
        case 6: { how="limit-bounds"; return Real(ConvergentSequence<DyadicBounds>([q](Natural n)->DyadicBounds { unsigned m=static_cast<unsigned>(n.get_si()); Dyadic l=trunc_to(q,m); return DyadicBounds(l,l+p2(-static_cast<long>(m))); })); }
        case 7: { how="number"; return Real(EffectiveNumber(Real(q))); }
        case 8: { how="when"; Real x(q); Real a=Real(r.range(-3,3)), b=Real(r.range(-3,3)); // |.| as a case selection: both cases agree where both may apply
                  Rational c(r.range(-3,3)); Real h=Real(q)-Real(c); Real t=when(Case<UpperKleenean,Real>(UpperKleenean(h>=Real(0)),h),Case<UpperKleenean,Real>(UpperKleenean(h<=Real(0)),-h)); 
                  if(q>=c) return t+Real(c); else return -t+Real(c); }
        case 9: { how="choose"; Rational c(q+Rational(r.range(-1,1))); Real t=choose(Case<LowerKleenean,Real>(LowerKleenean(Real(q)>Real(c)-Real(1)),Real(q)),Case<LowerKleenean,Real>(LowerKleenean(Real(q)<Real(c)+Real(1)),Real(q))); return t; }
        case 10: { how="lower-upper"; return max(UpperReal(Real(q)),Real(q)-Real(1)); }
    }
    how="rational"; return Real(q);
}
static bool& weak_() { static bool w=false; return w; }
static std::string chk(ValidatedKleenean k) { return definitely(k)?"T":!possibly(k)?"F":"I"; }
static void ask(Rng& r, Prog const& p, std::vector<Real> const& v) {
    std::vector<J> qs; Real const& x=v.back();
    auto q=[&](const char* k, long n, J b) { qs.push_back(J{J(k),J(n),b}); };
    for(int t=0;t<4;++t) switch(r.below(14)) {
        case 0: q("get-dp",53,obj(x.get(dp))); break;
        case 1: { unsigned pr=static_cast<unsigned>(r.range(20,150)); q("get-mp",pr,obj(x.get(MultiplePrecision(pr)))); break; }
        case 2: { unsigned a=static_cast<unsigned>(r.range(0,120)); q("acc",a,bj(x.compute(Accuracy(operator""_bits(a))).get())); break; }
        case 3: { unsigned a=static_cast<unsigned>(r.range(0,90)); Dyadic e=p2(-static_cast<long>(a)); q("acc",a,bj(x.compute(Accuracy(e)).get())); break; }
        case 4: { unsigned e=static_cast<unsigned>(r.range(0,10)); q("eff",e,bj(x.compute(Effort(e)).get())); break; }
        case 5: { unsigned e=static_cast<unsigned>(r.range(0,10)); q("eff",e,bj(x.compute_get(Effort(e)))); break; }
        case 6: { unsigned e=static_cast<unsigned>(r.range(0,60)); q("eff-dp",e,obj(x.compute_get(Effort(e),dp))); break; }
        case 7: { unsigned e=static_cast<unsigned>(r.range(0,60)), pr=static_cast<unsigned>(r.range(20,150)); q("eff-mp",e,obj(x.compute_get(Effort(e),MultiplePrecision(pr)))); break; }
        case 8: q("bounds",53,obj(FloatDPBounds(x,dp))); q("ball",53,obj(FloatDPBall(x,dp))); break;
        case 9: { unsigned pr=static_cast<unsigned>(r.range(20,150)); q("bounds-mp",pr,obj(FloatMPBounds(x,MultiplePrecision(pr)))); break; }
        case 10: q("lower",0,obj(FloatDPLowerBound(x,dp))); q("upper",0,obj(FloatDPUpperBound(x,dp))); break;
        case 11: { unsigned e=static_cast<unsigned>(r.range(0,10)); q("lower",e,kj("l",str(x.lower().compute_get(Effort(e)).raw()))); q("upper",e,kj("u",str(x.upper().compute_get(Effort(e)).raw()))); break; }
        case 12: { unsigned e=static_cast<unsigned>(r.range(0,10)); q("lower",e,obj(x.lower().compute_get(Effort(e),dp))); q("upper",e,obj(x.upper().compute_get(Effort(e),MultiplePrecision(40)))); q("mag",0,obj(FloatDPUpperBound(mag(x,dp).raw()))); break; }
        default: { ValidatedReal w=x.compute(Accuracy(40_bits)); q("vr",40,bj(w.get())); q("vr-dp",30,obj(w.get(dp))); q("vr-mp",20,obj(w.get(MultiplePrecision(70)))); q("approx",53,obj(FloatDPApproximation(x,dp))); break; }
    }
    Ev("real")("p",p.json())("w",weak_())("q",qs).emit();
    // questions with bounded effort about two nodes, and about a node and a close number
    std::size_t a=r.below(v.size()), b=r.below(v.size()); unsigned e=static_cast<unsigned>(r.range(0,12)); std::vector<J> cs;
    auto c=[&](const char* k, unsigned ee, std::string s) { cs.push_back(J{J(k),J(ee),J(s)}); };
    Real y=v[b]; Prog p2=p; int ib=static_cast<int>(b)+1;
    if(r.chance(1,3)) { Node n; n.op="cst"; n.c=Rational(Dyadic(x.compute_get(Effort(4)).upper_raw()))+Rational(r.range(-2,2))*Rational(vh2::p2(-r.range(4,70))); a=v.size()-1; p2.nd.push_back(n); ib=p2.size(); y=Real(n.c); }
    Real const& xa=v[a];
    for(unsigned ee : {e,9u}) { c("lt",ee,chk((xa<y).check(Effort(ee)))); c("gt",ee,chk((xa>y).check(Effort(ee)))); c("le",ee,chk((xa<=y).check(Effort(ee)))); c("ge",ee,chk((xa>=y).check(Effort(ee))));
        c("lt",ee,chk(lt(xa,y).check(Effort(ee))));
        { ValidatedNegatedSierpinskian s=(xa==y).check(Effort(ee)); c("eq",ee,!possibly(s)?"F":"I"); } { ValidatedSierpinskian s=(xa!=y).check(Effort(ee)); c("ne",ee,definitely(s)?"T":"I"); }
        { ValidatedNegatedSierpinskian s=eq(xa,y).check(Effort(ee)); c("eq",ee,!possibly(s)?"F":"I"); }
        Real d=xa-y; c("gt",ee,chk(sgn(d).check(Effort(ee)))); c("gt",ee,chk(check_sgn(d,Effort(ee)))); }
    Ev("ask")("p",p2.json())("w",weak_())("a",static_cast<int>(a)+1)("b",ib)("c",cs).emit();
    if(r.chance(1,4)) { Rational l=mkcst(r), h=l+Rational(r.range(1,9),r.range(1,1000)); bool g=static_cast<bool>(nondeterministic_greater(x,l,h)); Integer z=round(x);
        Ev("nd")("p",p.json())("l",str(l))("h",str(h))("r",g)("z",str(z)).emit(); }
}
int main(int argc, char** argv) {
    Args A(argc,argv); Rng r(A.seed);
    for(long i=0;i<A.n;++i) {
        // limits and case selections are known only roughly with little effort: they are used in total functions
        bool weak=r.chance(1,3); Prog p; 
        while(true) { p=mkprog(r,{},static_cast<int>(r.range(1,7)),weak?P_LAT|P_PI|P_TRIG:P_ALL,50); bool ok=true; if(weak) for(auto const& n:p.nd) if(n.op=="tan"||n.n<0) ok=false; if(ok) break; }
        weak_()=weak;
        try { std::vector<Real> v=run_prog<Real>(p,std::vector<Real>{},[&](Rational const& q){ return leaf(r,q,weak); });
            ask(r,p,v); }
        catch(std::exception const& e) { Ev("fail")("p",p.json())("r",e.what()).emit(); }
    }
}
