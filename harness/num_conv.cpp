// Raw floating-point numbers: conversions with rounding, exact comparisons, rounding to integers,
// value-preserving conversions and decimal text.
#include "vh.hpp"
#include "numeric/float_approximation.hpp"
#include "numeric/float_bounds.hpp"
#include <iomanip>
using namespace Ariadne; using namespace vh;
VH_MAIN_SUPPORT
static std::string modes() { std::string s; switch(get_builtin_rounding_mode()) { case Ariadne::ROUND_TO_NEAREST: s="near"; break; case Ariadne::ROUND_DOWNWARD: s="down"; break; case Ariadne::ROUND_UPWARD: s="up"; break; case Ariadne::ROUND_TOWARD_ZERO: s="zero"; break; default: s="?"; }
    return s+"/"+std::to_string(static_cast<int>(mpfr_get_default_rounding_mode())); }
template<class F> struct X;
template<> struct X<FloatDP> { static FloatDP f(Rng& r, DoublePrecision pr) { int st=r.chance(1,6)?static_cast<int>(12+r.below(4)):-1; return FloatDP(cast_exact(mkd(r,st)),pr); } static int bits(DoublePrecision) { return 53; } static const char* name() { return "dp"; } };
template<> struct X<FloatMP> { static FloatMP f(Rng& r, MultiplePrecision pr) { FloatMP x(pr); mpfr_set_d(x.get_mpfr(),mkd(r),MPFR_RNDN);
        if(r.chance(1,2)) { FloatMP y(pr); mpfr_set_d(y.get_mpfr(),std::ldexp(mkd(r,2),-40),MPFR_RNDN); mpfr_add(x.get_mpfr(),x.get_mpfr(),y.get_mpfr(),MPFR_RNDN); } return x; }
    static int bits(MultiplePrecision pr) { return static_cast<int>(pr.bits()); } static const char* name() { return "mp"; } };
static int c3(Comparison c) { return c==Comparison::EQUAL?0:c==Comparison::LESS?-1:1; }
static Rational any_q(Rng& r) {  // including numbers beyond the double range and just off representable ones
    int k=static_cast<int>(r.below(10)); Rational q;
    if(k==0) { q=Rational(ExactDouble(mkd(r,13))); q=q*Rational(r.range(1,5),r.range(1,4)); }
    else if(k==1) { q=Rational(ExactDouble(mkd(r,12))); q=q/Rational(r.range(1,7)); }
    else if(k==2) { q=Rational(ExactDouble(mkd(r,15)))+Rational(ExactDouble(mkd(r,12)))/Rational(r.range(1,7)); }
    else if(k<6) { double d=mkd(r,4); double e=std::nextafter(d,1e300); q=(Rational(ExactDouble(d))+Rational(ExactDouble(e)))/2; if(r.chance(2,3)) q=q+Rational(ExactDouble(std::ldexp(r.chance(1,2)?1.0:-1.0,-200))); }
    else q=mkq(r);
    return r.chance(1,2)?q:-q;
}
template<class F, class PR> void run(Rng& r, PR pr, long n) {
    typedef typename F::RoundingModeType RND; static const char* rn[]={"near","down","up"};
    int bits=X<F>::bits(pr); const char* t=X<F>::name();
    for(long i=0;i<n;++i) {
        int rk=static_cast<int>(r.below(3)); RND rnd = rk==0? RND(near) : rk==1? RND(down) : RND(up);
        int kind=static_cast<int>(r.below(20)); std::string before=modes(), res; F x=X<F>::f(r,pr);
        if(kind<7) { // conversion with rounding
            std::string src, a; F w(pr);
            Rational q=any_q(r);
            try {
                switch(r.below(6)) {
                    case 0: src="Rational"; a=str(q); w=F(q,rnd,pr); break;
                    case 1: { src="Dyadic"; Dyadic d=r.chance(1,2)?mkw(r):(Dyadic(ExactDouble(mkd(r,4)))+Dyadic(ExactDouble(std::ldexp(mkd(r,2),-static_cast<int>(r.below(90)))))); if(r.chance(1,8)) d=Dyadic(ExactDouble(mkd(r,13)))*Dyadic(3); if(r.chance(1,8)) d=hlf(Dyadic(ExactDouble(mkd(r,12)))); a=str(d); w=F(d,rnd,pr); break; }
                    case 2: { src="Decimal"; Decimal d(static_cast<double>(r.range(-1000000,1000000))/1000); if(r.chance(1,2)) d=d*Decimal(0.001); if(r.chance(1,4)) d=d*d*d; a=str(Rational(d)); w=F(d,rnd,pr); break; }
                    case 3: { src="Integer"; Integer z(r.range(-1000000000000000000l,1000000000000000000l)); if(r.chance(1,2)) z=z*Integer(r.range(-1000000000l,1000000000l))+Integer(1); if(r.chance(1,4)) z=Integer(r.range(-20,20)); a=str(z); w=F(z,rnd,pr); break; }
                    case 4: { src="FloatMP"; FloatMP y=X<FloatMP>::f(r,MultiplePrecision(static_cast<mpfr_prec_t>(r.range(30,150)))); if(r.chance(1,6)) y=FloatMP(q,MPFR_RNDN,MultiplePrecision(150)); a=str(y); w=F(y,rnd,pr); break; }
                    default: { src="FloatDP"; FloatDP y=X<FloatDP>::f(r,dp); a=str(y); w=F(y,rnd,pr); break; }
                }
                res=str(w);
            } catch(std::exception const&) { res="exc"; }
            Ev("raw")("t",t)("p",bits)("f","conv")("from",src)("rnd",rn[rk])("a",std::vector<std::string>{a})("n",0)("r",res)("m0",before)("m1",modes()).emit();
        } else if(kind<11) { // exact comparison
            std::string a,b; int c=9; const char* f="cmp"; std::vector<bool> ops; F y=r.chance(1,3)?x:X<F>::f(r,pr); Rational q=mkq(r); Dyadic w=mkw(r); if(r.chance(1,3)) { q=Rational(x); w=Dyadic(x); } if(r.chance(1,4)) { q=Rational(x)+Rational(ExactDouble(std::ldexp(1.0,-200))); }
            FloatDP v=X<FloatDP>::f(r,dp); if(r.chance(1,2)) v=FloatDP(cast_exact(x.get_d()),dp); int z=static_cast<int>(r.range(-8,8)); 
            auto O=[&](auto const& u, auto const& k) { ops={bool(u==k),bool(u!=k),bool(u<k),bool(u>k),bool(u<=k),bool(u>=k)}; };
            switch(r.below(9)) {
                case 0: a=str(x); b=str(y); c=c3(cmp(x,y)); O(x,y); break;
                case 1: a=str(x); b=str(q); c=c3(cmp(x,q)); O(x,q); break;
                case 2: a=str(q); b=str(x); c=c3(cmp(q,x)); O(q,x); break;
                case 3: a=str(x); b=std::to_string(z); c=c3(cmp(x,z)); O(x,z); break;
                case 4: a=std::to_string(z); b=str(x); c=c3(cmp(z,x)); O(z,x); break;
                case 5: { double d=v.get_d(); a=str(x); b=str(d); c=c3(cmp(x,ExactDouble(d))); O(x,ExactDouble(d)); break; }
                case 6: { double d=v.get_d(); a=str(d); b=str(x); c=c3(cmp(ExactDouble(d),x)); O(ExactDouble(d),x); break; }
                case 7: a=str(x); b=str(w); O(x,w); break;
                default: a=str(w); b=str(x); O(w,x); break;
            }
            Ev("cmp")("t",t)("p",bits)("f",f)("a",std::vector<std::string>{a,b})("r",c)("ops",J{J(bool(ops[0])),J(bool(ops[1])),J(bool(ops[2])),J(bool(ops[3])),J(bool(ops[4])),J(bool(ops[5]))}).emit();
        } else if(kind<14) { // rounding to integers and casts
            std::string f; if(r.chance(1,2)) x=F(ExactDouble(static_cast<double>(r.range(-64,64))/4),pr);
            try { switch(r.below(5)) { case 0: f="floor"; res=str(floor(x)); break; case 1: f="ceil"; res=str(ceil(x)); break; case 2: f="round"; res=str(round(x)); break;
                     default: f="cast"; res=str(cast_integer(x)); break; } } catch(std::exception const&) { res="exc"; }
            Ev("int")("t",t)("p",bits)("f",f)("a",std::vector<std::string>{str(x)})("r",res).emit();
        } else if(kind<17) { // value-preserving conversions
            std::string f,a; 
            try { switch(r.below(9)) { case 0: f="Dyadic"; a=str(x); res=str(Dyadic(x)); break; case 1: f="Rational"; a=str(x); res=str(Rational(x)); break;
                  case 2: { f="FloatDP(Dyadic)"; Dyadic w=mkw(r,0); a=str(w); res=str(FloatDP(w,dp)); break; }
                  case 3: { f="FloatMP(FloatDP)"; FloatDP v=X<FloatDP>::f(r,dp); a=str(v); res=str(FloatMP(v,MultiplePrecision(64))); break; }
                  case 4: { f="copy"; a=str(x); F y(x); F z=X<F>::f(r,pr); z=y; F u(std::move(y)); F v(pr); v=std::move(z); res=str(u); if(res!=str(v)) res="differ"; break; }
                  case 5: { f="FloatMP(Dyadic)"; Dyadic w=mkw(r,0); a=str(w); res=str(FloatMP(w,MultiplePrecision(static_cast<mpfr_prec_t>(r.range(53,100))))); break; }
                  case 6: { f="neg"; a=str(-Rational(x)); res=str(-x); break; }
                  case 7: { f="twoexp"; int e=static_cast<int>(r.range(-1022,1000)); a="1b"+std::to_string(e); res=str(F(TwoExp(e),pr)); break; }
                  default: { f="shft"; int e=static_cast<int>(r.range(-20,20)); while(std::fabs(std::log2(std::fabs(x.get_d())))>900) x=X<F>::f(r,pr); a=str(Rational(x)*Rational(Dyadic(TwoExp(e)))); int k=static_cast<int>(r.below(4)); res=k==0?str(shft(x,e)):k==1?str(x*TwoExp(e)):k==2?str(x/TwoExp(-e)):str(mul(x,TwoExp(e))); break; }
                } } catch(std::exception const&) { res="exc"; }
            Ev("same")("t",t)("p",bits)("f",f)("a",std::vector<std::string>{a})("r",res).emit();
        } else { // decimal text
            std::string tol; std::string rt="near"; while(x.get_d()==0||std::fabs(std::log2(std::fabs(x.get_d())))>200) x=X<F>::f(r,pr);
            try { std::stringstream ss; int k=static_cast<int>(r.below(4));
                if(k==0) { ss << x; }                                  // prints a value which identifies x: within half a unit
                else { rt=rn[rk]; ss << x.literal(rnd); }
                res=ss.str(); } catch(std::exception const&) { res="exc"; }
            // digits are printed to more than the precision of the number
            FloatMP m(MultiplePrecision(16)); mpfr_set_d(m.get_mpfr(),std::ldexp(std::fabs(x.get_d()),1-bits),MPFR_RNDU); tol=str(m);
            Ev("text")("t",t)("p",bits)("f",rt)("rnd",rt)("a",std::vector<std::string>{str(x)})("r",res)("tol",tol).emit();
        }
    }
}
int main(int argc, char** argv) {
    Args A(argc,argv); Rng r(A.seed);
    run<FloatDP>(r,dp,A.n/2);
    static const int ps[]={2,7,24,53,64,160};
    for(int k=0;k<6;++k) run<FloatMP>(r,MultiplePrecision(static_cast<mpfr_prec_t>(ps[k])),A.n/12);
}
