// Numbers that carry finite information: how each class is logged, how arguments are chosen, and generic
// "apply every operation that the two classes offer" recorders.
#ifndef VH_ENC_HPP
#define VH_ENC_HPP
#include "vh.hpp"
#include "numeric/float_bounds.hpp"
#include "numeric/float_ball.hpp"
#include "numeric/float_lower_bound.hpp"
#include "numeric/float_upper_bound.hpp"
#include "numeric/float_error.hpp"
#include "numeric/float_approximation.hpp"
#include "numeric/real.hpp"
#include "numeric/decimal.hpp"
#include "numeric/complex.hpp"
#include "numeric/floats.hpp"
namespace vh {
using namespace Ariadne;
// ---- kinds --------------------------------------------------------------------------------------------
inline J kj(const char* k, std::string a) { return J{J(k),J(a)}; }
inline J kj(const char* k, std::string a, std::string b) { return J{J(k),J(a),J(b)}; }
template<class F> concept RawF = Same<F,FloatDP> || Same<F,FloatMP>;
template<RawF F> J obj(F const& x) { return kj("e",str(x)); }
template<RawF F> J obj(Positive<F> const& x) { return kj("e",str(static_cast<F const&>(x))); }
template<class F> J obj(Bounds<F> const& x) { return kj("b",str(x.lower_raw()),str(x.upper_raw())); }
template<class F> J obj(Positive<Bounds<F>> const& x) { return kj("b",str(x.lower_raw()),str(x.upper_raw())); }
template<class F, class FE> J obj(Ball<F,FE> const& x) { return kj("c",str(x.value_raw()),str(x.error_raw())); }
template<class F, class FE> J obj(Positive<Ball<F,FE>> const& x) { return kj("c",str(x.value_raw()),str(x.error_raw())); }
template<class F> J obj(LowerBound<F> const& x) { return kj("l",str(x.raw())); }
template<class F> J obj(UpperBound<F> const& x) { return kj("u",str(x.raw())); }
template<class F> J obj(Positive<LowerBound<F>> const& x) { return kj("q",str(x.raw())); }
template<class F> J obj(Positive<UpperBound<F>> const& x) { return kj("p",str(x.raw())); }
template<class F> J obj(Error<F> const& x) { return kj("p",str(x.raw())); }
template<class F> J obj(Approximation<F> const& x) { return kj("a",str(x.raw())); }
template<class F> J obj(Positive<Approximation<F>> const& x) { return kj("a",str(x.raw())); }
inline J obj(Integer const& x) { return kj("e",str(x)); }
inline J obj(Dyadic const& x) { return kj("e",str(x)); }
inline J obj(Rational const& x) { return kj("e",str(x)); }
inline J obj(Decimal const& x) { return kj("e",str(Rational(x))); }
inline J obj(int x) { return kj("e",std::to_string(x)); }
inline J obj(unsigned x) { return kj("e",std::to_string(x)); }
inline J obj(ExactDouble const& x) { return kj("e",str(x.get_d())); }
inline J obj(TwoExp const& x) { return kj("e",str(Dyadic(x))); }
// a generic number or real is logged by what it is known to denote
template<class Y> struct Known { Y y; J info; };
template<class Y> J obj(Known<Y> const& k) { return k.info; }
template<class T> T const& un(T const& t) { return t; }
template<class Y> Y const& un(Known<Y> const& k) { return k.y; }
// ---- logical results ------------------------------------------------------------------------------------
inline std::string lstr(bool b) { return b?"T":"F"; }
template<class L> std::string lstr(L const& l) {
    if constexpr(Same<L,ApproximateKleenean>) return "A";
    else if constexpr(Same<L,Boolean>) return static_cast<bool>(l)?"T":"F";
    else return definitely(l)?"T":!possibly(l)?"F":"I"; }
// ---- argument choice --------------------------------------------------------------------------------------
template<class F> F mkf(Rng& r, typename F::PrecisionType pr, int st=-1) {
    if(st<0 && r.chance(1,24)) st=static_cast<int>(12+r.below(4));
    if constexpr(Same<F,FloatDP>) return FloatDP(cast_exact(mkd(r,st)),pr);
    else { FloatMP x(pr); double d=mkd(r,st); mpfr_set_d(x.get_mpfr(),d,MPFR_RNDN);
        if(r.chance(1,2)) { FloatMP y(pr); mpfr_set_d(y.get_mpfr(),std::ldexp(mkd(r,2),-40),MPFR_RNDN); mpfr_add(x.get_mpfr(),x.get_mpfr(),y.get_mpfr(),MPFR_RNDN); }
        return x; } }
template<class F> F nextup(F x, int k) {
    for(int i=0;i<std::abs(k);++i) { if constexpr(Same<F,FloatDP>) x=FloatDP(cast_exact(std::nextafter(x.get_d(),k>0?INFINITY:-INFINITY)),dp); else if(x==0) { mpfr_set_d(x.get_mpfr(),k>0?0x1p-1074:-0x1p-1074,MPFR_RNDN); } else { if(k>0) mpfr_nextabove(x.get_mpfr()); else mpfr_nextbelow(x.get_mpfr()); } }
    return x; }
template<class F> F fin(F x) { if(is_inf(x)||is_nan(x)) return F(1,x.precision()); return x; }
// an interval of one of many shapes
template<class F> Bounds<F> mkb(Rng& r, typename F::PrecisionType pr, int st=-1) {
    F l=mkf<F>(r,pr,st), u=l; 
    switch(r.below(12)) {
        case 0: break;
        case 1: u=fin(nextup(l,1)); break;
        case 2: u=fin(nextup(l,static_cast<int>(r.below(4)))); break;
        case 3: u=mkf<F>(r,pr,st); break;
        case 4: u=-l; break;
        case 5: l=F(0,pr); break;                                    // [0,u] or [u,0]
        case 6: u=add(near,l,mkf<F>(r,pr,11)); break;
        case 7: u=mul(near,l,F(ExactDouble(1.0+std::ldexp(r.unit(),-static_cast<int>(r.below(40)))),near,pr)); break;
        case 8: { double c=static_cast<double>(r.range(-9,9))*1.5707963267948966; double w=std::ldexp(r.unit(),static_cast<int>(r.range(-50,3))); l=F(ExactDouble(c-w),near,pr); u=F(ExactDouble(c+(r.chance(1,2)?w:std::ldexp(r.unit(),static_cast<int>(r.range(-50,3))))),near,pr); break; }
        case 9: u=mkf<F>(r,pr,1); l=mkf<F>(r,pr,1); break;
        case 10: u=mkf<F>(r,pr,0); l=mkf<F>(r,pr,0); break;
        default: u=mkf<F>(r,pr,-1); break;
    }
    if(l>u) std::swap(l,u);
    return Bounds<F>(l,u);
}
template<class F> F absf(F x) { return x<0? F(-x) : x; }
template<class FE> FE mke(Rng& r, typename FE::PrecisionType pre, double v) {
    switch(r.below(6)) {
        case 0: return FE(0,pre);
        case 1: { FE e(ExactDouble(std::fabs(v)*std::ldexp(r.unit(),-static_cast<int>(r.below(60)))),near,pre); return e; }
        case 2: return absf(mkf<FE>(r,pre,4));
        case 3: return FE(ExactDouble(std::fabs(v)),near,pre);
        case 4: return absf(mkf<FE>(r,pre,1));
        default: return FE(ExactDouble(std::ldexp(r.unit()+0.5,-static_cast<int>(r.below(80)))),near,pre);
    }
}
template<class F, class FE> Ball<F,FE> mkball(Rng& r, typename F::PrecisionType pr, typename FE::PrecisionType pre, int st=-1) {
    F v=mkf<F>(r,pr,st); FE e=mke<FE>(r,pre,v.get_d()); return Ball<F,FE>(v,e); }

// ---- recording ----------------------------------------------------------------------------------------------
inline int& fmt_bits() { static int b=53; return b; }      // bits of the format in which the result is expected
inline std::string& fmt_name() { static std::string s="dp"; return s; }
inline std::string& cur_types() { static std::string s; return s; }
typedef std::vector<J> Js;
typedef std::function<J()> Jfn;
inline void rec_op(const char* f, Js const& a, Jfn const& fn, int n=0, int ulp=1) {
    J res;
    try { res=fn(); } catch(std::exception const& e) { res=J{J("exc"),J(std::string(e.what()).substr(0,120))}; }
    Ev("op")("t",fmt_name())("p",fmt_bits())("f",f)("a",a)("n",n)("r",res)("u",ulp)("ty",cur_types()).emit();
}
inline void rec_cmp(const char* f, Js const& a, std::function<std::string()> const& fn, int gap) {
    std::string res; try { res=fn(); } catch(std::exception const& e) { res="exc"; }
    Ev("cmp")("t",fmt_name())("p",fmt_bits())("f",f)("a",a)("r",res)("gap",gap)("ty",cur_types()).emit();
}
inline void rec_bool(const char* f, Js const& a, bool b) { Ev("rel")("t",fmt_name())("p",fmt_bits())("f",f)("a",a)("r",bool(b))("ty",cur_types()).emit(); }

template<class X> constexpr bool is_bounds=false; template<class F> constexpr bool is_bounds<Bounds<F>> =true; template<class F> constexpr bool is_bounds<Positive<Bounds<F>>> =true;

} // namespace vh
#endif
