// Raw floating-point numbers: every directed-rounding operation of FloatDP and FloatMP, together with
// the processor rounding mode seen before and after the call.
#include "vh.hpp"
#include <cfenv>
#include "numeric/rounded_float.hpp"
#include "numeric/float_approximation.hpp"
using namespace Ariadne; using namespace vh;
VH_MAIN_SUPPORT

static const char* mode_name(int m) { switch(m) { case FE_TONEAREST: return "near"; case FE_DOWNWARD: return "down"; case FE_UPWARD: return "up"; case FE_TOWARDZERO: return "zero"; } return "?"; }
static const char* sse_mode() { switch(get_builtin_rounding_mode()) { case Ariadne::ROUND_TO_NEAREST: return "near"; case Ariadne::ROUND_DOWNWARD: return "down"; case Ariadne::ROUND_UPWARD: return "up"; case Ariadne::ROUND_TOWARD_ZERO: return "zero"; default: return "?"; } }
static std::string modes() { return std::string(sse_mode())+"/"+std::to_string(static_cast<int>(mpfr_get_default_rounding_mode())); }
static void set_mode(int k) { BuiltinRoundingModeType m[4]={Ariadne::ROUND_TO_NEAREST,Ariadne::ROUND_DOWNWARD,Ariadne::ROUND_UPWARD,Ariadne::ROUND_TOWARD_ZERO}; set_builtin_rounding_mode(m[k]); }

template<class F> struct Make;
template<> struct Make<FloatDP> { static FloatDP f(Rng& r, DoublePrecision pr, int st) { if(st<0 && r.chance(1,8)) st=static_cast<int>(12+r.below(4)); return FloatDP(cast_exact(mkd(r,st)),pr); } static int bits(DoublePrecision) { return 53; } static const char* name() { return "dp"; } };
template<> struct Make<FloatMP> { static FloatMP f(Rng& r, MultiplePrecision pr, int st) {
        FloatMP x(pr); double d=mkd(r,st); mpfr_set_d(x.get_mpfr(),d,MPFR_RNDN);
        if(r.chance(1,2)) { FloatMP y(pr); mpfr_set_d(y.get_mpfr(),std::ldexp(mkd(r,2),-40),MPFR_RNDN); mpfr_add(x.get_mpfr(),x.get_mpfr(),y.get_mpfr(),MPFR_RNDN); }
        return x; }
    static int bits(MultiplePrecision pr) { return static_cast<int>(pr.bits()); } static const char* name() { return "mp"; } };


// explicitly rounded operations of the raw numbers (d = 0), in-place and mixed-format ones, and operations
// of the class Rounded<F>, which use the rounding direction in force
template<class F, class PR> void run(Rng& r, PR pr, long n) {
    typedef typename F::RoundingModeType RND; typedef Rounded<F> RF;
    static const std::vector<std::string> un={"sqr","rec","sqrt","exp","log","sin","cos","tan","asin","acos","atan","neg","pos","hlf","abs","nul"};
    static const std::vector<std::string> bin={"add","sub","mul","div","add","sub","mul","div","min","max","med","rad"};
    for(long i=0;i<n;++i) {
        int cur=r.chance(3,4)?0:static_cast<int>(r.below(4));
        int rk=static_cast<int>(r.below(3));
        RND rnd = rk==0? RND(near) : rk==1? RND(down) : RND(up); static const char* rn[]={"near","down","up"};
        int kind=static_cast<int>(r.below(12)); std::string f; std::vector<std::string> a; std::string res; int nn=0; int st=-1; if(r.chance(1,3)) st=static_cast<int>(r.below(12));
        F x=Make<F>::f(r,pr,st), y=Make<F>::f(r,pr,r.chance(1,3)?st:-1), z=Make<F>::f(r,pr,-1), w(pr); FloatDP v=Make<FloatDP>::f(r,dp,static_cast<int>(r.below(12)));
        if(r.chance(1,16)) y=x;
        if(r.chance(1,40)) z=-x; 
        int style=static_cast<int>(r.below(5)); // 0-1: f(rnd,x); 2: in place; 3: mixed with double precision; 4: class Rounded
        std::string before, after; 
        auto enter=[&]() { if(style==4) { set_mode(rk==0?0:rk==1?1:2); F::set_rounding_mode(rnd); } else set_mode(cur); before=modes(); };
        try {
            if(kind<5) {
                f=r.pick(un);
                if(f=="exp") { while(std::fabs(x.get_d())>2000) x=Make<F>::f(r,pr,static_cast<int>(r.below(12))); }
                if(f=="log"||f=="sqrt") { x=abs(RND(near),x); if(f=="log"&&x.get_d()==0) x=F(1,pr); }
                if(f=="asin"||f=="acos") { while(std::fabs(x.get_d())>=1) x=Make<F>::f(r,pr,2); }
                if(f=="sin"||f=="cos"||f=="tan") { while(std::fabs(x.get_d())>1e18) x=Make<F>::f(r,pr,static_cast<int>(r.below(12))); }
                if((f=="rec") && x.get_d()==0) x=F(1,pr);
                a={str(x)}; enter();
                if(style==4) { RF X(x), W(x);
                    if(f=="sqr") W=sqr(X); else if(f=="rec") W=rec(X); else if(f=="sqrt") W=sqrt(X); else if(f=="exp") W=exp(X); else if(f=="log") W=log(X);
                    else if(f=="sin") W=sin(X); else if(f=="cos") W=cos(X); else if(f=="tan") W=tan(X); else if(f=="asin") W=asin(X); else if(f=="acos") W=acos(X); else if(f=="atan") W=atan(X);
                    else if(f=="neg") W=r.chance(1,2)?neg(X):-X; else if(f=="pos") W=r.chance(1,2)?pos(X):+X; else if(f=="hlf") W=hlf(X); else if(f=="nul") W=nul(X); else W=abs(X);
                    w=F(W.raw());
                }
                else if(f=="sqr") w=sqr(rnd,x); else if(f=="rec") w=rec(rnd,x); else if(f=="sqrt") w=sqrt(rnd,x); else if(f=="exp") w=exp(rnd,x); else if(f=="log") w=log(rnd,x);
                else if(f=="sin") w=sin(rnd,x); else if(f=="cos") w=cos(rnd,x); else if(f=="tan") w=tan(rnd,x); else if(f=="asin") w=asin(rnd,x); else if(f=="acos") w=acos(rnd,x); else if(f=="atan") w=atan(rnd,x);
                else if(f=="neg") w=neg(rnd,x); else if(f=="pos") w=pos(rnd,x); else if(f=="hlf") w=hlf(rnd,x); else if(f=="nul") w=nul(rnd,x); else w=abs(rnd,x);
            } else if(kind<9) {
                f=r.pick(bin); if((f=="med"||f=="rad")&&style>1) style=0; if((f=="min"||f=="max")&&(style==2||style==3)) style=0;
                if(f=="div"&&y.get_d()==0) y=F(3,pr); if(v.get_d()==0) v=FloatDP(3,dp);
                bool flip=r.chance(1,2);
                if constexpr(Same<F,FloatMP>) { if(style==3) { if(flip&&f=="div"&&x.get_d()==0) x=F(3,pr); a=flip?std::vector<std::string>{str(v),str(x)}:std::vector<std::string>{str(x),str(v)}; } else a={str(x),str(y)}; } else { if(style==3) style=0; a={str(x),str(y)}; } 
                if(f=="rad") { /* (y-x)/2 */ }
                enter();
                if(style==4) { RF X(x),Y(y),W(x); int k=static_cast<int>(r.below(3));
                    if(k==0&&f!="min"&&f!="max") { if(f=="add") X+=Y; else if(f=="sub") X-=Y; else if(f=="mul") X*=Y; else X/=Y; W=X; }
                    else if(k==1) { if(f=="add") W=X+Y; else if(f=="sub") W=X-Y; else if(f=="mul") W=X*Y; else if(f=="div") W=X/Y; else if(f=="min") W=min(X,Y); else W=max(X,Y); }
                    else { if(f=="add") W=add(X,Y); else if(f=="sub") W=sub(X,Y); else if(f=="mul") W=mul(X,Y); else if(f=="div") W=div(X,Y); else if(f=="min") W=min(X,Y); else W=max(X,Y); }
                    w=F(W.raw()); }
                else if(style==3) { if constexpr(Same<F,FloatMP>) {
                    if(flip) { if(f=="add") w=add(rnd,v,x); else if(f=="sub") w=sub(rnd,v,x); else if(f=="mul") w=mul(rnd,v,x); else w=div(rnd,v,x); }
                    else { if(f=="add") w=add(rnd,x,v); else if(f=="sub") w=sub(rnd,x,v); else if(f=="mul") w=mul(rnd,x,v); else w=div(rnd,x,v); } } }
                else if(style==2) { if constexpr(Same<F,FloatMP>) { w=x; if(f=="add") iadd(rnd,w,y); else if(f=="sub") isub(rnd,w,y); else if(f=="mul") imul(rnd,w,y); else idiv(rnd,w,y); }
                    else { if(f=="add") w=add(rnd,x,y); else if(f=="sub") w=sub(rnd,x,y); else if(f=="mul") w=mul(rnd,x,y); else w=div(rnd,x,y); } }
                else if(f=="add") w=add(rnd,x,y); else if(f=="sub") w=sub(rnd,x,y); else if(f=="mul") w=mul(rnd,x,y); else if(f=="div") w=div(rnd,x,y); else if(f=="min") w=min(rnd,x,y); else if(f=="max") w=max(rnd,x,y);
                else if(f=="med") w=med(rnd,x,y); else w=rad(rnd,x,y);
            } else if(kind==9) {
                f="fma"; a={str(x),str(y),str(z)}; enter(); if(style==4) w=F(fma(RF(x),RF(y),RF(z)).raw()); else w=fma(rnd,x,y,z);
            } else if(kind==10) {
                f="pow"; nn=static_cast<int>(r.range(-6,9)); while(std::fabs(std::log2(std::fabs(x.get_d())))>100) x=Make<F>::f(r,pr,-1);
                if(nn<0&&x.get_d()==0) x=F(2,pr);
                if(style==3&&nn<0) nn=-nn;
                a={str(x)}; enter(); if(style==4) w=F(pow(RF(x),Int(nn)).raw()); else if(style==3) w=pow(rnd,x,Nat(nn)); else w=pow(rnd,x,Int(nn));
            } else if(r.chance(1,4)) { f="pi"; a={}; style=0; enter(); w=F::pi(rnd,pr);
            } else if(kind==11) { // correctly rounded: precisions of the arguments differ
                if constexpr(Same<F,FloatMP>) { MultiplePrecision p2(static_cast<mpfr_prec_t>(r.range(2,120))); y=Make<F>::f(r,p2,-1); style=0; if(y.get_d()==0) y=F(3,p2); f=r.pick(std::vector<std::string>{"add","sub","mul","div"}); a={str(x),str(y)}; enter();
                    if(f=="add") w=add(rnd,x,y); else if(f=="sub") w=sub(rnd,x,y); else if(f=="mul") w=mul(rnd,x,y); else w=div(rnd,x,y); }
                else { f="add"; style=0; a={str(x),str(y)}; enter(); w=add(rnd,x,y); }
            }
            after=modes(); set_mode(0); F::set_rounding_to_nearest(); res=str(w);
        } catch(std::exception const& e) { after=modes(); set_mode(0); F::set_rounding_to_nearest(); res="exc"; }
        Ev("raw")("t",Make<F>::name())("p",Make<F>::bits(w.precision()))("f",f)("rnd",rn[rk])("a",a)("n",nn)("r",res)("m0",before)("m1",after)("style",style).emit();
    }
}
int main(int argc, char** argv) {
    Args A(argc,argv); Rng r(A.seed);
    run<FloatDP>(r,dp,A.n/2);
    static const int ps[]={2,3,5,12,24,53,64,113,200};
    for(int k=0;k<9;++k) run<FloatMP>(r,MultiplePrecision(static_cast<mpfr_prec_t>(ps[k])),A.n/18);
}
