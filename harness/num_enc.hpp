// Validated and approximate numbers: every operation offered by each pair of number classes, with the
// arguments and the result as pieces of information about real numbers.
#include "enc.hpp"
#ifndef VH_NUM_ENC_HPP
#define VH_NUM_ENC_HPP
using namespace Ariadne; using namespace vh;

template<class X, class Y> bool div_ok(X const&, Y const&) { return true; }

enum { AS=1, MU=2, DI=4, MM=8, CA=16, CM=32, ALL=63 };   // groups of operations to try
template<int G, class X, class Y> void binary(Rng& r, X const& x, Y const& y, int gap, bool zero_y, int ulp=1) {
    Js a={obj(x),obj(y)};
    // one arithmetic operation and one comparison, chosen among those that the classes offer
    static const int NA=16;
    for(int t=0;t<2;++t) switch(int k=static_cast<int>(t==0?r.below(NA):NA+r.below(9)); k) {
        case 0: case 1: if constexpr((G&AS)!=0) if constexpr(requires { obj(un(x)+un(y)); }) rec_op("add",a,[&]{ return obj(un(x)+un(y)); },0,ulp); break;
        case 2: case 3: if constexpr((G&AS)!=0) if constexpr(requires { obj(un(x)-un(y)); }) rec_op("sub",a,[&]{ return obj(un(x)-un(y)); },0,ulp); break;
        case 4: case 5: if constexpr((G&MU)!=0) if constexpr(requires { obj(un(x)*un(y)); }) rec_op("mul",a,[&]{ return obj(un(x)*un(y)); },0,ulp); break;
        case 6: case 7: if(!zero_y) { if constexpr((G&DI)!=0) if constexpr(requires { obj(un(x)/un(y)); }) rec_op("div",a,[&]{ return obj(un(x)/un(y)); },0,ulp); } break;
        case 8: if constexpr((G&AS)!=0) if constexpr(requires { obj(add(un(x),un(y))); }) rec_op("add",a,[&]{ return obj(add(un(x),un(y))); },0,ulp); break;
        case 9: if constexpr((G&AS)!=0) if constexpr(requires { obj(sub(un(x),un(y))); }) rec_op("sub",a,[&]{ return obj(sub(un(x),un(y))); },0,ulp); break;
        case 10: if constexpr((G&MU)!=0) if constexpr(requires { obj(mul(un(x),un(y))); }) rec_op("mul",a,[&]{ return obj(mul(un(x),un(y))); },0,ulp); break;
        case 11: if(!zero_y) { if constexpr((G&DI)!=0) if constexpr(requires { obj(div(un(x),un(y))); }) rec_op("div",a,[&]{ return obj(div(un(x),un(y))); },0,ulp); } break;
        case 12: if constexpr((G&MM)!=0) if constexpr(requires { obj(max(un(x),un(y))); }) rec_op("max",a,[&]{ return obj(max(un(x),un(y))); },0,ulp); break;
        case 13: if constexpr((G&MM)!=0) if constexpr(requires { obj(min(un(x),un(y))); }) rec_op("min",a,[&]{ return obj(min(un(x),un(y))); },0,ulp); break;
        case 14: switch(r.below(2)) { 
            case 0: if constexpr((G&CA)!=0&&(G&AS)!=0) if constexpr(requires(X z) { { z+=un(y) } -> std::same_as<X&>; }) rec_op("add",a,[&]{ X z(x); z+=un(y); return obj(z); },0,ulp); break;
            default: if constexpr((G&CA)!=0&&(G&AS)!=0) if constexpr(requires(X z) { { z-=un(y) } -> std::same_as<X&>; }) rec_op("sub",a,[&]{ X z(x); z-=un(y); return obj(z); },0,ulp); break; } break;
        case 15: switch(r.below(2)) {
            case 0: if constexpr((G&CA)!=0&&(G&MU)!=0) if constexpr(requires(X z) { { z*=un(y) } -> std::same_as<X&>; }) rec_op("mul",a,[&]{ X z(x); z*=un(y); return obj(z); },0,ulp); break;
            default: if(!zero_y) { if constexpr((G&CA)!=0&&(G&DI)!=0) if constexpr(requires(X z) { { z/=un(y) } -> std::same_as<X&>; }) rec_op("div",a,[&]{ X z(x); z/=un(y); return obj(z); },0,ulp); } break; } break;
        case NA: case NA+6: if constexpr((G&CM)!=0) if constexpr(requires { lstr(un(x)<un(y)); }) rec_cmp("lt",a,[&]{ return lstr(un(x)<un(y)); },gap); break;
        case NA+1: case NA+7: if constexpr((G&CM)!=0) if constexpr(requires { lstr(un(x)>un(y)); }) rec_cmp("gt",a,[&]{ return lstr(un(x)>un(y)); },gap); break;
        case NA+2: if constexpr((G&CM)!=0) if constexpr(requires { lstr(un(x)<=un(y)); }) rec_cmp("le",a,[&]{ return lstr(un(x)<=un(y)); },gap); break;
        case NA+3: if constexpr((G&CM)!=0) if constexpr(requires { lstr(un(x)>=un(y)); }) rec_cmp("ge",a,[&]{ return lstr(un(x)>=un(y)); },gap); break;
        case NA+4: if constexpr((G&CM)!=0) if constexpr(requires { lstr(un(x)==un(y)); }) rec_cmp("eq",a,[&]{ return lstr(un(x)==un(y)); },gap); break;
        case NA+5: if constexpr((G&CM)!=0) if constexpr(requires { lstr(un(x)!=un(y)); }) rec_cmp("ne",a,[&]{ return lstr(un(x)!=un(y)); },gap); break;
        case NA+8: if constexpr((G&CM)!=0) if constexpr(requires { lstr(lt(x,y)); }) rec_cmp("lt",a,[&]{ return lstr(lt(x,y)); },gap);
                   if constexpr((G&CM)!=0) if constexpr(requires { lstr(eq(x,y)); }) rec_cmp("eq",a,[&]{ return lstr(eq(x,y)); },gap); break;
    }
}
// information-order relations
template<class X> void relations(Rng& r, X const& x, X const& y) {
    if constexpr(requires { bool(refines(x,y)); }) rec_bool("refines",{obj(x),obj(y)},refines(x,y));
    if constexpr(requires { bool(same(x,y)); }) rec_bool("same",{obj(x),obj(y)},same(x,y));
    if constexpr(requires { bool(consistent(x,y)); }) rec_bool("consistent",{obj(x),obj(y)},consistent(x,y));
    if constexpr(requires { bool(inconsistent(x,y)); }) rec_bool("inconsistent",{obj(x),obj(y)},inconsistent(x,y));
    if constexpr(requires { obj(coarsening(x,y)); }) rec_op("hull",{obj(x),obj(y)},[&]{ return obj(coarsening(x,y)); });
    if constexpr(requires { consistent(x,y); obj(refinement(x,y)); }) { if(consistent(x,y)) rec_op("meet",{obj(x),obj(y)},[&]{ return obj(refinement(x,y)); }); }
    else if constexpr(requires { obj(refinement(x,y)); }) rec_op("meet",{obj(x),obj(y)},[&]{ return obj(refinement(x,y)); });
}
template<class X> constexpr bool one_sided=false; template<class F> constexpr bool one_sided<Positive<LowerBound<F>>> =true; template<class F> constexpr bool one_sided<Positive<UpperBound<F>>> =true; template<class F> constexpr bool one_sided<Error<F>> =true;
// lo,hi: double approximations of the set of arguments, used only to stay inside the domain of the function
template<class X> void unary(Rng& r, X const& x, double lo, double hi) {
    Js a={obj(x)};
    switch(r.below(22)) {
        case 0: if constexpr(requires { obj(neg(x)); }) rec_op("neg",a,[&]{ return obj(neg(x)); }); break;
        case 1: if constexpr(requires { obj(-x); }) rec_op("neg",a,[&]{ return obj(-x); }); break;
        case 2: if constexpr(requires { obj(+x); }) rec_op("pos",a,[&]{ return obj(+x); }); break;
        case 3: if constexpr(requires { obj(hlf(x)); }) rec_op("hlf",a,[&]{ return obj(hlf(x)); }); break;
        case 4: case 5: if constexpr(requires { obj(sqr(x)); }) rec_op("sqr",a,[&]{ return obj(sqr(x)); }); break;
        case 6: case 7: if(!(lo==0&&hi==0)) { if constexpr(requires { obj(rec(x)); }) rec_op("rec",a,[&]{ return obj(rec(x)); }); } break;
        case 8: if constexpr(requires { obj(abs(x)); }) rec_op("abs",a,[&]{ return obj(abs(x)); }); break;
        case 9: if constexpr(requires { obj(mag(x)); }) rec_op("abs",a,[&]{ return obj(mag(x)); }); 
                if constexpr(requires { obj(mig(x)); }) rec_op("abs",a,[&]{ return obj(mig(x)); }); break;
        case 10: if(lo>=0) { if constexpr(requires { obj(sqrt(x)); }) rec_op("sqrt",a,[&]{ return obj(sqrt(x)); },0,2); } break;
        case 11: if(hi<650||!(hi<INFINITY)) { if(lo>-1500&&lo<1500&&hi>-1500) { if constexpr(requires { obj(exp(x)); }) rec_op("exp",a,[&]{ return obj(exp(x)); },0,2); } } break;
        case 12: if(lo>0) { if constexpr(requires { obj(log(x)); }) rec_op("log",a,[&]{ return obj(log(x)); },0,2); } break;
        case 13: case 14: if(std::fabs(lo)<1e6&&std::fabs(hi)<1e6) { if constexpr(requires { obj(sin(x)); }) rec_op("sin",a,[&]{ return obj(sin(x)); },0,4); } break;
        case 15: case 16: if(std::fabs(lo)<1e6&&std::fabs(hi)<1e6) { if constexpr(requires { obj(cos(x)); }) rec_op("cos",a,[&]{ return obj(cos(x)); },0,4); } break;
        case 17: if(std::fabs(lo)<1e3&&std::fabs(hi)<1e3 && std::round(lo/3.14159265358979323)==std::round(hi/3.14159265358979323) && std::fabs(std::cos(lo))>0.2 && std::fabs(std::cos(hi))>0.2 && fmt_bits()>=12) { if constexpr(requires { obj(tan(x)); }) rec_op("tan",a,[&]{ return obj(tan(x)); },0,6); } break;
        case 18: if constexpr(requires { obj(atan(x)); }) rec_op("atan",a,[&]{ return obj(atan(x)); },0,2); break;
        case 19: if(lo>-0.999&&hi<0.999) { if constexpr(requires { obj(asin(x)); }) rec_op("asin",a,[&]{ return obj(asin(x)); },0,2); if constexpr(requires { obj(acos(x)); }) rec_op("acos",a,[&]{ return obj(acos(x)); },0,2); } break;
        case 20: { int n=static_cast<int>(r.range(-5,7)); if(n<0&&lo<=0&&hi>=0) n=-n; if constexpr(one_sided<X>) n=std::abs(n); if(std::fabs(lo)>1e20||std::fabs(hi)>1e20||(lo!=0&&std::fabs(lo)<1e-20)||(hi!=0&&std::fabs(hi)<1e-20)) break;
                 if(r.chance(1,2)||n<0) { if constexpr(requires { obj(pow(x,Int(n))); }) rec_op("pow",a,[&]{ return obj(pow(x,Int(n))); },n,6); }
                 else { if constexpr(requires { obj(pow(x,Nat(n))); }) rec_op("pow",a,[&]{ return obj(pow(x,Nat(n))); },n,6); } break; }
        case 21: if constexpr(requires { obj(nul(x)); }) rec_op("nul",a,[&]{ return obj(nul(x)); }); break;
    }
}
template<class X> struct Lim { static constexpr bool none=true; };
template<RawF X> struct Lim<X> { static double lo(X const& x) { return x.get_d(); } static double hi(X const& x) { return x.get_d(); } };
template<class F> struct Lim<Bounds<F>> { static double lo(Bounds<F> const& x) { return x.lower_raw().get_d(); } static double hi(Bounds<F> const& x) { return x.upper_raw().get_d(); } };
template<class F> struct Lim<Positive<Bounds<F>>> : Lim<Bounds<F>> { };
template<class F, class FE> struct Lim<Ball<F,FE>> { static double lo(Ball<F,FE> const& x) { return x.value_raw().get_d()-x.error_raw().get_d(); } static double hi(Ball<F,FE> const& x) { return x.value_raw().get_d()+x.error_raw().get_d(); } };
template<class F> struct Lim<LowerBound<F>> { static double lo(LowerBound<F> const& x) { return x.raw().get_d(); } static double hi(LowerBound<F> const& x) { return INFINITY; } };
template<class F> struct Lim<UpperBound<F>> { static double lo(UpperBound<F> const& x) { return -700; } static double hi(UpperBound<F> const& x) { return x.raw().get_d(); } };
template<class F> struct Lim<Positive<LowerBound<F>>> { static double lo(LowerBound<F> const& x) { return x.raw().get_d(); } static double hi(LowerBound<F> const& x) { return INFINITY; } };
template<class F> struct Lim<Positive<UpperBound<F>>> { static double lo(UpperBound<F> const& x) { return x.raw().get_d()==0?0:1e-9; } static double hi(UpperBound<F> const& x) { return x.raw().get_d(); } };
template<class F> struct Lim<Error<F>> { static double lo(Error<F> const& x) { return x.raw().get_d()==0?0:1e-9; } static double hi(Error<F> const& x) { return x.raw().get_d(); } };
template<class F> struct Lim<Approximation<F>> { static double lo(Approximation<F> const& x) { return x.raw().get_d(); } static double hi(Approximation<F> const& x) { return x.raw().get_d(); } };
template<class X> void un_(Rng& r, X const& x) { unary(r,x,Lim<X>::lo(x),Lim<X>::hi(x)); }
template<int G=ALL, class X, class Y> void bin_(Rng& r, X const& x, Y const& y, int gap=0, int ulp=1) {
    bool z=false; if constexpr(!requires { Lim<Y>::none; }) z=(Lim<Y>::lo(y)==0&&Lim<Y>::hi(y)==0); 
    if constexpr(Same<Y,Integer>||Same<Y,Rational>||Same<Y,Dyadic>||Same<Y,int>||Same<Y,unsigned>||Same<Y,Decimal>) z=(y==0);
    binary<G>(r,x,y,gap,z,ulp); }
template<class F> void setfmt(typename F::PrecisionType pr) { if constexpr(Same<F,FloatDP>) { fmt_name()="dp"; fmt_bits()=53; } else { fmt_name()="mp"; fmt_bits()=static_cast<int>(pr.bits()); } }

// ---- the argument of a binary operation may share an endpoint with the other one -------------------------
template<class F> Bounds<F> related(Rng& r, Bounds<F> const& x, typename F::PrecisionType pr) {
    switch(r.below(10)) {
        case 0: return x;
        case 1: { F l=x.upper_raw(), u=mkf<F>(r,pr); if(l>u) return Bounds<F>(l,l); return Bounds<F>(l,u); }
        case 2: { F l=fin(nextup(x.upper_raw(),1)); return Bounds<F>(l,l); }
        case 3: { F u=x.lower_raw(), l=mkf<F>(r,pr); if(l>u) return Bounds<F>(u,u); return Bounds<F>(l,u); }
        case 4: { F u=fin(nextup(x.lower_raw(),-1)); return Bounds<F>(u,u); }
        case 5: return neg(x);
        default: return mkb<F>(r,pr,r.chance(1,3)?static_cast<int>(r.below(12)):-1); } }

template<class F> void run_bounds(Rng& r, typename F::PrecisionType pr, long n) {
    setfmt<F>(pr); typedef Bounds<F> B;
    for(long i=0;i<n;++i) {
        int st=r.chance(1,3)?static_cast<int>(r.below(12)):-1;
        B x=mkb<F>(r,pr,st), y=related<F>(r,x,pr); F v=mkf<F>(r,pr,st); 
        if(r.chance(1,30)) { F inf=F::inf(pr); switch(r.below(3)) { case 0: x=B(x.lower_raw(),inf); break; case 1: x=B(-inf,x.upper_raw()); break; default: x=B(-inf,inf); } }
        switch(r.below(14)) {
            case 0: case 1: case 2: case 3: un_(r,x); break;
            case 4: case 5: case 6: bin_(r,x,y); break;
            case 7: bin_(r,x,v); break;
            case 8: bin_(r,v,x); break;
            case 9: un_(r,v); bin_(r,v,r.chance(1,5)?v:mkf<F>(r,pr)); break;
            case 10: relations(r,x,y); rec_bool("models",{obj(x),obj(v)},models(x,v)); rec_bool("models",{obj(x),obj(x.lower_raw())},models(x,x.lower_raw()));
                     { Dyadic w(mkw(r)); rec_bool("models",{obj(x),obj(w)},models(x,w)); rec_bool("same",{obj(x),obj(w)},same(x,w)); } break;
            case 11: { if(is_inf(x.lower_raw())||is_inf(x.upper_raw())) break;
                     Ev("op")("t",fmt_name())("p",fmt_bits())("f","valerr")("a",std::vector<J>{obj(x)})("n",0)("r",kj("c",str(x.value()),str(x.error().raw())))("u",2)("ty","").emit();
                     rec_op("pos",{obj(x)},[&]{ return obj(x.lower()); }); rec_op("pos",{obj(x)},[&]{ return obj(x.upper()); });
                     B p=mkb<F>(r,pr); Error<F> e(absf(mkf<F>(r,pr))); rec_op("pm",{obj(x),obj(e)},[&]{ return obj(x.pm(e)); });
                     if(r.chance(1,2)) rec_op("round",{obj(x)},[&]{ return obj(round(x)); });
                     
                     rec_op("fma",{obj(x),obj(y),obj(p)},[&]{ return obj(fma(x,y,p)); },0,2);
                     break; }
            case 12: { Positive<B> px(abs(x)), py(abs(y)); un_(r,px); bin_(r,px,py); if(r.chance(1,4)) { bin_(r,px,x); bin_(r,x,px); } break; }
            case 13: { if(is_inf(x.lower_raw())||is_inf(x.upper_raw())) break; // conversions between precisions, text
                     if constexpr(Same<F,FloatMP>) { MultiplePrecision q(static_cast<mpfr_prec_t>(r.range(2,130))); int b=fmt_bits(); fmt_bits()=static_cast<int>(q.bits()); rec_op("pos",{obj(x)},[&]{ return obj(B(x,q)); }); fmt_bits()=b; }
                     else { MultiplePrecision q(static_cast<mpfr_prec_t>(r.range(2,130))); fmt_name()="mp"; fmt_bits()=static_cast<int>(q.bits()); rec_op("pos",{obj(x)},[&]{ return obj(Bounds<FloatMP>(x,q)); }); setfmt<F>(pr); }
                     Rational a=mkq(r), b=mkq(r); if(a>b) std::swap(a,b); Dyadic c=mkw(r), d=mkw(r); if(c>d) std::swap(c,d);
                     rec_op("hull",{obj(a),obj(b)},[&]{ return obj(B(a,b,pr)); }); rec_op("hull",{obj(c),obj(d)},[&]{ return obj(B(c,d,pr)); });
                     rec_op("pos",{obj(a)},[&]{ return obj(B(a,pr)); }); rec_op("pos",{obj(c)},[&]{ return obj(B(c,pr)); });
                     if(std::fabs(x.lower_raw().get_d())<1e15&&std::fabs(x.upper_raw().get_d())<1e15&&std::fabs(x.lower_raw().get_d())+std::fabs(x.upper_raw().get_d())>1e-15) { std::stringstream ss; ss<<x; std::string s=ss.str(); auto k=s.find(':'), b0=s.find_first_of("[{"); if(s.size()>2&&k!=std::string::npos&&b0!=std::string::npos)
                        Ev("text")("t",fmt_name())("p",fmt_bits())("f","bounds")("a",std::vector<J>{obj(x)})("l",s.substr(0,b0)+s.substr(b0+1,k-b0-1))("u",s.substr(0,b0)+s.substr(k+1,s.size()-k-2)).emit(); }
                     break; }
        }
    }
}
template<class F, class FE> void run_ball(Rng& r, typename F::PrecisionType pr, typename FE::PrecisionType pre, long n) {
    setfmt<F>(pr); typedef Ball<F,FE> C; if constexpr(Same<FE,FloatDP>) fmt_bits()=std::min(fmt_bits(),53); else fmt_bits()=std::min<int>(fmt_bits(),static_cast<int>(pre.bits()));
    for(long i=0;i<n;++i) {
        int st=r.chance(1,3)?static_cast<int>(r.below(12)):-1;
        C x=mkball<F,FE>(r,pr,pre,st), y=r.chance(1,10)?x:mkball<F,FE>(r,pr,pre,r.chance(1,3)?st:-1); F v=mkf<F>(r,pr,st), w=mkf<F>(r,pr,-1);
        switch(r.below(12)) {
            case 0: case 1: case 2: case 3: un_(r,x); break;
            case 4: case 5: case 6: bin_(r,x,y,1,4); break;
            case 7: if(r.chance(1,2)) bin_(r,x,v,1,4); else bin_(r,v,x,1,4); break;
            case 8: relations(r,x,y); break;
            case 9: { if constexpr(Same<F,FE>) rec_op("pos",{obj(x)},[&]{ return obj(Bounds<F>(x)); },0,2); rec_op("pos",{obj(x)},[&]{ return obj(x.lower()); },0,2); rec_op("pos",{obj(x)},[&]{ return obj(x.upper()); },0,2);
                    Bounds<F> b=mkb<F>(r,pr,st); rec_op("pos",{obj(b)},[&]{ return obj(C(b,pre)); },0,3);
                    if constexpr(Same<F,FE>) { Ev("op")("t",fmt_name())("p",fmt_bits())("f","valerr")("a",std::vector<J>{obj(b)})("n",0)("r",kj("c",str(b.value()),str(b.error().raw())))("u",2)("ty","").emit(); }
                     if constexpr(DefaultConstructible<typename FE::PrecisionType>||Same<F,FE>) rec_op("pos",{obj(b)},[&]{ return obj(C(b)); },0,3);
                    Error<FE> e(mke<FE>(r,pre,1.0)); break; }
            case 10: { Rational q=mkq(r); Dyadic d=mkw(r); Integer z(r.range(-1000000,1000000)*r.range(1,1000000)); rec_op("pos",{obj(q)},[&]{ return obj(C(q,pr,pre)); },0,3); rec_op("pos",{obj(d)},[&]{ return obj(C(d,pr,pre)); },0,3); rec_op("pos",{obj(z)},[&]{ return obj(C(z,pr,pre)); },0,3);
                     rec_op("pos",{obj(q)},[&]{ return obj(C(q,pr)); },0,3); rec_op("pos",{obj(d)},[&]{ return obj(C(d,pr)); },0,3); 
                     if constexpr(Same<F,FloatMP>) { MultiplePrecision q2(static_cast<mpfr_prec_t>(r.range(2,130))); int b=fmt_bits(); fmt_bits()=std::min(b,static_cast<int>(q2.bits())); rec_op("pos",{obj(x)},[&]{ return obj(C(x,q2)); },0,4); fmt_bits()=b; }
                     break; }
            case 11: { // operations on exact values with a ball as result
                     switch(r.below(4)) { case 0: rec_op("add",{obj(v),obj(w)},[&]{ return obj(add(v,w,pre)); },0,3); break; case 1: rec_op("sub",{obj(v),obj(w)},[&]{ return obj(sub(v,w,pre)); },0,3); break;
                        case 2: rec_op("mul",{obj(v),obj(w)},[&]{ return obj(mul(v,w,pre)); },0,3); break; default: if(w!=0) rec_op("div",{obj(v),obj(w)},[&]{ return obj(div(v,w,pre)); },0,3); } break; }
        }
    }
}
template<class F> void run_dir(Rng& r, typename F::PrecisionType pr, long n) {
    setfmt<F>(pr); typedef LowerBound<F> L; typedef UpperBound<F> U; typedef Positive<L> PL; typedef Positive<U> PU; typedef Error<F> E; typedef Approximation<F> A; typedef Bounds<F> B; typedef Positive<B> PB; typedef Positive<F> PF; typedef Positive<A> PA;
    for(long i=0;i<n;++i) {
        int st=r.chance(1,3)?static_cast<int>(r.below(12)):-1;
        F v=mkf<F>(r,pr,st), w=r.chance(1,10)?v:r.chance(1,10)?fin(nextup(v,1)):mkf<F>(r,pr,st); L l(v), l2(w); U u(v), u2(w); B b=mkb<F>(r,pr,st);
        F pv=absf(v), pw=absf(w); PL pl(pv), pl2(pw); PU pu(pv), pu2(pw); E e(pv), e2(pw); A a(v), a2(w); PB pb(abs(b)); PF pf(pv), pf2(pw); PA pa(pv), pa2(pw); unsigned m=static_cast<unsigned>(r.range(1,(1l<<std::min(fmt_bits(),5))-1));
        switch(r.below(21)) {
            case 0: un_(r,l); break; case 1: un_(r,u); break; case 2: un_(r,pl); un_(r,pu); break; case 3: un_(r,e); break; case 4: un_(r,a); un_(r,a2); break;
            case 5: bin_(r,l,l2); bin_(r,l,u2); break; case 6: bin_(r,u,u2); bin_(r,u,l2); break;
            case 7: bin_(r,pl,pl2); bin_(r,pl,pu2); break; case 8: bin_(r,pu,pu2); bin_(r,pu,pl2); break;
            case 9: bin_(r,e,e2); bin_(r,e,pu2); bin_(r,pu,e2); break; case 10: bin_(r,e,pb); bin_(r,pb,e); bin_(r,e,pf2); bin_(r,pf,e2); break;
            case 11: bin_(r,e,pl2); bin_(r,v,e2); bin_<AS|MU|DI>(r,e,m); bin_<AS|MU|DI>(r,m,e); break;
            case 12: bin_(r,l,pb); bin_(r,pb,l); bin_(r,u,pb); bin_(r,pb,u); break;
            case 13: bin_(r,l,pf2); bin_(r,pf,l2); bin_(r,u,pf2); bin_(r,pf,u2); break;
            case 14: bin_(r,pf,pl2); bin_(r,pl,pf2); bin_(r,pf,pu2); bin_(r,pu,pf2); break;
            case 15: bin_(r,pl,pb); bin_(r,pb,pl); bin_(r,pu,pb); bin_(r,pb,pu); bin_<AS|MU|DI>(r,pu,m); bin_<AS|MU|DI>(r,pl,m); break;
            case 16: bin_(r,a,a2); bin_(r,a,a2); bin_(r,pa,pa2); un_(r,static_cast<A const&>(pa)); break;
            case 17: relations(r,l,l2); relations(r,u,u2); relations(r,e,e2); break;
            case 18: bin_(r,pf,pf2); bin_<AS|CM>(r,l,b); bin_<AS|CM>(r,b,l); bin_<AS|CM>(r,u,b); bin_<AS|CM>(r,b,u); bin_(r,pl,l2); bin_(r,u,pu2); break;
            case 19: { Rational q=mkq(r); Dyadic d=mkw(r); rec_op("pos",{obj(q)},[&]{ return obj(L(q,pr)); }); rec_op("pos",{obj(q)},[&]{ return obj(U(q,pr)); }); rec_op("pos",{obj(d)},[&]{ return obj(L(d,pr)); }); rec_op("pos",{obj(d)},[&]{ return obj(U(d,pr)); });
                     rec_op("pos",{obj(q)},[&]{ return obj(A(q,pr)); },0,2); rec_op("pos",{obj(d)},[&]{ return obj(A(d,pr)); },0,2);
                     rec_op("pos",{obj(b)},[&]{ return obj(L(b)); }); rec_op("pos",{obj(b)},[&]{ return obj(U(b)); }); rec_op("pos",{obj(b)},[&]{ return obj(A(b)); },0,2);
                     rec_op("plusminus",{obj(e)},[&]{ return obj(pm(e)); });
                     if constexpr(Same<F,FloatMP>) { MultiplePrecision q2(static_cast<mpfr_prec_t>(r.range(2,130))); int bb=fmt_bits(); fmt_bits()=static_cast<int>(q2.bits()); rec_op("pos",{obj(l)},[&]{ return obj(L(l,q2)); }); rec_op("pos",{obj(u)},[&]{ return obj(U(u,q2)); }); fmt_bits()=bb; }
                     break; }
            case 20: if(std::fabs(v.get_d())<1e15&&std::fabs(v.get_d())>1e-15) { std::stringstream s1,s2,s3; s1<<l; s2<<u; s3<<e; 
                     Ev("text")("t",fmt_name())("p",fmt_bits())("f","lower")("a",std::vector<J>{obj(l)})("l",s1.str())("u","").emit();
                     Ev("text")("t",fmt_name())("p",fmt_bits())("f","upper")("a",std::vector<J>{obj(u)})("l","")("u",s2.str()).emit();
                     Ev("text")("t",fmt_name())("p",fmt_bits())("f","error")("a",std::vector<J>{obj(e)})("l","")("u",s3.str()).emit(); } break;
        }
    }
}
// mixed operations of a concrete number with an exact number
template<class F, int G=ALL, class X> void mixed(Rng& r, X const& x, int gap) {
    switch(r.below(5)) {
        case 0: { Integer y(r.range(-1000,1000)*(r.chance(1,3)?1000000000l:1l)); if(r.chance(1,4)) y=y*y*y; if(r.chance(1,2)) bin_<G>(r,x,y,gap,3); else bin_<G>(r,y,x,gap,3); break; }
        case 1: { Dyadic y=mkw(r); if(r.chance(1,2)) bin_<G>(r,x,y,gap,3); else bin_<G>(r,y,x,gap,3); break; }
        case 2: { Rational y=mkq(r); if(r.chance(1,2)) bin_<G>(r,x,y,gap,3); else bin_<G>(r,y,x,gap,3); break; }
        case 3: { Decimal y(ExactDouble(static_cast<double>(r.range(-1000,1000)))); y=y*Decimal(0.01_dec); if(r.chance(1,2)) bin_<G>(r,x,y,gap,3); else bin_<G>(r,y,x,gap,3); break; }
        default: { int y=static_cast<int>(r.range(-100,100))*(r.chance(1,4)&&fmt_bits()>30?1000003:1); if(fmt_bits()<7) y=y%4; if(r.chance(1,2)) bin_<G>(r,x,y,gap,3); else bin_<G>(r,y,x,gap,3); break; }
    }
}
template<class F> void run_mixed(Rng& r, typename F::PrecisionType pr, long n) {
    setfmt<F>(pr);
    for(long i=0;i<n;++i) { int st=r.chance(1,2)?static_cast<int>(r.below(12)):-1;
        switch(r.below(6)) {
            case 0: case 1: mixed<F>(r,mkb<F>(r,pr,st),1); break;
            case 2: mixed<F>(r,mkf<F>(r,pr,st),1); break;
            case 3: mixed<F>(r,mkball<F,F>(r,pr,pr,st),1); break;
            case 4: mixed<F>(r,Approximation<F>(mkf<F>(r,pr,st)),1); break;
            default: if(r.chance(1,2)) mixed<F,AS|CM>(r,LowerBound<F>(mkf<F>(r,pr,st)),1); else mixed<F,AS|CM>(r,UpperBound<F>(mkf<F>(r,pr,st)),1); break; } } }
#endif
