// Intervals, boxes and unions of intervals: predicates, set operations, measures, rounding of derived quantities
#include "vh.hpp"
#include "numeric/numeric.hpp"
#include "algebra/algebra.hpp"
#include "algebra/vector.hpp"
#include "function/function.hpp"
#include "function/taylor_model.hpp"
#include "geometry/interval.hpp"
#include "geometry/point.hpp"
#include "geometry/box.hpp"
#include "geometry/box.tpl.hpp"
#include "geometry/union_of_intervals.hpp"
#include "geometry/measurable_set.hpp"
using namespace Ariadne;
VH_MAIN_SUPPORT
using namespace vh;
template<class U> struct RawT { typedef std::decay_t<decltype(std::declval<U>().raw())> Type; };
template<> struct RawT<Dyadic> { typedef FloatDP Type; }; template<> struct RawT<Rational> { typedef FloatDP Type; };
template<class U> using RawType=typename RawT<U>::Type;
template<class X> J nj(X const& x) {            // lower and upper information about a number
    if constexpr(requires { x.lower_raw(); }) return J{J(str(x.lower_raw())),J(str(x.upper_raw()))};
    else if constexpr(requires { x.get_mpq(); }) return J{J(str(x)),J(str(x))};
    else if constexpr(Same<X,Dyadic>||BaseOf<Dyadic,X>) return J{J(str(static_cast<Dyadic const&>(x))),J(str(static_cast<Dyadic const&>(x)))};
    else if constexpr(requires { x.raw(); }) return J{J(str(x.raw())),J(str(x.raw()))};
    else if constexpr(requires { x.value_raw(); }) { return J{J(str(sub(down,x.value_raw(),x.error_raw()))),J(str(add(up,x.value_raw(),x.error_raw())))}; }
    else return J{J(str(x)),J(str(x))}; }
// what a number says: an upper bound, a lower bound, both or nothing
template<class X> const char* dir() {
    if constexpr(requires(X x) { x.lower_raw(); }) return "b";
    else if constexpr(Same<X,FloatDPUpperBound>||Same<X,FloatMPUpperBound>||Same<X,Positive<FloatDPUpperBound>>||Same<X,Positive<FloatMPUpperBound>>||Same<X,FloatDPError>||Same<X,FloatMPError>) return "u";
    else if constexpr(Same<X,FloatDPLowerBound>||Same<X,FloatMPLowerBound>||Same<X,Positive<FloatDPLowerBound>>||Same<X,Positive<FloatMPLowerBound>>) return "l";
    else if constexpr(Same<X,FloatDPApproximation>||Same<X,FloatMPApproximation>||Same<X,Positive<FloatDPApproximation>>||Same<X,Positive<FloatMPApproximation>>) return "a";
    else return "e"; }
template<class U> const char* kind() { return dir<U>(); }
template<class U> J ij(Interval<U> const& i) { if constexpr(requires { i.lower_bound().raw(); }) return J{J(str(i.lower_bound().raw())),J(str(i.upper_bound().raw()))}; else return J{J(str(i.lower_bound())),J(str(i.upper_bound()))}; }
template<class U> J bj(Interval<U> const& i) { return J(std::vector<J>{ij(i)}); }
template<class U> J bj(Box<Interval<U>> const& b) { std::vector<J> v; for(SizeType i=0;i<b.dimension();++i) v.push_back(ij(b[i])); return J(v); }
template<class X> J pj(Point<X> const& p) { std::vector<J> v; for(SizeType i=0;i<p.dimension();++i) v.push_back(nj(p[i])); return J(v); }
template<class L> std::string ls(L const& l) {
    if constexpr(Same<L,bool>||Same<L,Boolean>) return static_cast<bool>(l)?"T":"F";
    else if constexpr(Same<L,ApproximateKleenean>) return decide(l)?"at":"af";
    else if constexpr(requires { possibly(l); }) return definitely(l)?"T":!possibly(l)?"F":"I";
    else return definitely(l)?"T":"I"; }
// ---- values --------------------------------------------------------------------------------------------
static Rational lat(Rng& r, int st) { switch(st) { case 0: return Rational(r.range(-3,3)); case 1: return Rational(r.range(-8,8))/4; case 2: return Rational(ExactDouble(mkd(r,static_cast<int>(r.below(12))))); case 3: return Rational(r.range(-30,30))/10; default: return Rational(ExactDouble(mkd(r))); } }
template<class U> Interval<U> mki(Rational l, Rational u) {
    typedef decltype(-declval<U>()) L;
    if constexpr(Same<U,Dyadic>) return Interval<Dyadic>(Dyadic(FloatDP(l,near,dp)),Dyadic(FloatDP(u,near,dp)));
    else if constexpr(Same<U,Rational>) return Interval<Rational>(l,u);
    else { typedef RawType<U> F; typename F::PrecisionType pr=[]{ if constexpr(Same<F,FloatDP>) return dp; else return MultiplePrecision(72); }();
        F fl(l,near,pr), fu(u,near,pr); return Interval<U>(L(fl),U(fu)); } }
template<class U> Interval<U> emp() { if constexpr(Same<U,Dyadic>) return Interval<Dyadic>(Dyadic::inf(Sign::POSITIVE),Dyadic::inf(Sign::NEGATIVE)); else if constexpr(Same<U,Rational>) return Interval<Rational>(Rational::inf(Sign::POSITIVE),Rational::inf(Sign::NEGATIVE)); else { typedef RawType<U> F; typedef decltype(-declval<U>()) L; typename F::PrecisionType pr=[]{ if constexpr(Same<F,FloatDP>) return dp; else return MultiplePrecision(72); }(); return Interval<U>(L(F::inf(Sign::POSITIVE,pr)),U(F::inf(Sign::NEGATIVE,pr))); } }
// unbounded sides
template<class U> Interval<U> unb(Interval<U> i, int k) { Interval<U> e=emp<U>(); typedef decltype(-declval<U>()) L; if(k&1) i.set_lower_bound(L(-e.lower_bound().raw())); if(k&2) i.set_upper_bound(U(-e.upper_bound().raw())); return i; }
struct Pair2 { Rational l,u; };
static Pair2 mkp(Rng& r, int st) { Rational a=lat(r,st), b=lat(r,st); if(r.chance(1,6)) b=a; if(a>b) std::swap(a,b); return {a,b}; }
template<class U> Interval<U> rndi(Rng& r, int st, bool ub=true) { Pair2 p=mkp(r,st); Interval<U> i=mki<U>(p.l,p.u); if constexpr(requires { i.upper_bound().raw(); }) if(ub && r.chance(1,16)) i=unb(i,static_cast<int>(1+r.below(3))); return i; }
// endpoints taken from another interval, so that coincidences are common
template<class U, class U2> Interval<U> near1(Rng& r, int st, Interval<U2> const& o) {
    Interval<U> i=rndi<U>(r,st); if constexpr(Same<U,U2>) { if(r.chance(1,4)) i.set_lower_bound(o.lower_bound()); if(r.chance(1,4)) i.set_upper_bound(o.upper_bound()); if constexpr(requires { i.lower_bound().raw(); }) { if(i.lower_bound().raw()>i.upper_bound().raw()) i=o; } else if(i.lower_bound()>i.upper_bound()) i=o; } return i; }
#define PRED(f) { Ev("pred")("f",#f)("k1",k1)("k2",k2)("a",bj(a))("b",bj(b))("r",ls(f(a,b))).emit(); }
template<class A, class B> void preds(A const& a, B const& b, const char* k1, const char* k2) {
    if constexpr(requires { subset(a,b); }) PRED(subset)
    if constexpr(requires { superset(a,b); }) PRED(superset)
    if constexpr(requires { disjoint(a,b); }) PRED(disjoint)
    if constexpr(requires { intersect(a,b); }) PRED(intersect)
    if constexpr(requires { separated(a,b); }) PRED(separated)
    if constexpr(requires { overlap(a,b); }) PRED(overlap)
    if constexpr(requires { inside(a,b); }) PRED(inside)
    if constexpr(requires { covers(a,b); }) PRED(covers)
    if constexpr(Same<A,B>) { if constexpr(requires { equal(a,b); }) PRED(equal)
        if constexpr(requires { a==b; }) Ev("pred")("f","eq")("k1",k1)("k2",k2)("a",bj(a))("b",bj(b))("r",ls(a==b)).emit();
        if constexpr(requires { a!=b; }) Ev("pred")("f","ne")("k1",k1)("k2",k2)("a",bj(a))("b",bj(b))("r",ls(a!=b)).emit(); } }
template<class A, class B> void mpreds(A const& a, B const& b, const char* k1, const char* k2) { // member functions of boxes
    auto e=[&](const char* f, auto const& r) { Ev("pred")("f",f)("k1",k1)("k2",k2)("a",bj(a))("b",bj(b))("r",ls(r)).emit(); };
    if constexpr(requires { a.subset(b); }) e("subset",a.subset(b)); if constexpr(requires { a.superset(b); }) e("superset",a.superset(b)); if constexpr(requires { a.disjoint(b); }) e("disjoint",a.disjoint(b));
    if constexpr(requires { a.intersects(b); }) e("intersect",a.intersects(b)); if constexpr(requires { a.separated(b); }) e("separated",a.separated(b)); if constexpr(requires { a.overlaps(b); }) e("overlap",a.overlaps(b));
    if constexpr(requires { a.inside(b); }) e("inside",a.inside(b)); if constexpr(requires { a.covers(b); }) e("covers",a.covers(b)); }
template<class A> void upreds(A const& a, const char* k) {
    auto e=[&](const char* f, auto const& r) { Ev("pred")("f",f)("k1",k)("k2",k)("a",bj(a))("b",bj(a))("r",ls(r)).emit(); };
    e("empty",is_empty(a)); e("empty",a.is_empty()); if constexpr(requires { a[0].upper_bound().raw(); } || requires { a.upper_bound().raw(); }) { e("bounded",is_bounded(a)); e("bounded",a.is_bounded()); }
    if constexpr(requires { a.is_singleton(); }) { e("singleton",a.is_singleton()); e("singleton",is_singleton(a)); } }
template<class A, class B> void setops(A const& a, B const& b, const char* k1, const char* k2) {
    if constexpr(requires { intersection(a,b); }) Ev("set")("f","inter")("a",bj(a))("b",bj(b))("r",bj(intersection(a,b))).emit();
    if constexpr(requires { hull(a,b); }) Ev("set")("f","hull")("a",bj(a))("b",bj(b))("r",bj(hull(a,b))).emit(); }
template<class X> void num(const char* f, J const& a, const char* k, X const& x) { Ev("num")("f",f)("k",k)("a",a)("d",dir<X>())("r",nj(x)).emit(); }
template<class U> void derived(Rng& r, Interval<U> const& i) {
    const char* k=kind<U>(); J ja=bj(i);
    num("centre",ja,k,i.centre()); num("midpoint",ja,k,i.midpoint()); num("width",ja,k,i.width()); num("width",ja,k,width(i));
    Ev("rad")("k",k)("a",ja)("m",nj(i.midpoint()))("d",dir<decltype(i.radius())>())("r",nj(i.radius())).emit();
    if constexpr(requires { split(i); }) { auto p=split(i); J m=bj(p.first); if constexpr(requires { split(i,SplitPart::MIDDLE); }) { m=bj(split(i,SplitPart::MIDDLE)); Ev("split")("a",ja)("l",bj(split(i,SplitPart::LOWER)))("u",bj(split(i,SplitPart::UPPER)))("m",m).emit(); } Ev("split2")("a",ja)("l",bj(p.first))("u",bj(p.second)).emit(); } }
template<class U> void points(Rng& r, int st, Interval<U> const& i) {
    const char* k=kind<U>(); J ja=bj(i);
    auto c=[&](auto const& x, const char* kx) { if constexpr(requires { contains(i,x); }) Ev("pred")("f","contains")("k1",k)("k2",kx)("a",ja)("b",J(std::vector<J>{nj(x)}))("r",ls(contains(i,x))).emit(); if constexpr(requires { element(x,i); }) Ev("pred")("f","contains")("k1",k)("k2",kx)("a",ja)("b",J(std::vector<J>{nj(x)}))("r",ls(element(x,i))).emit();
         typedef std::decay_t<decltype(x)> X; constexpr bool hx=Same<X,FloatDP>||Same<X,FloatMP>||(Same<X,U>&&(Same<U,Dyadic>||Same<U,Rational>)); if constexpr(hx && requires { hull(i,x); }) Ev("set")("f","hull")("a",ja)("b",J(std::vector<J>{nj(x)}))("r",bj(hull(i,x))).emit(); if constexpr(hx && requires { hull(x,i); }) Ev("set")("f","hull")("a",J(std::vector<J>{nj(x)}))("b",ja)("r",bj(hull(x,i))).emit(); };
    Rational q=lat(r,st); FloatDP x(q,near,dp); if(r.chance(1,3)) { if constexpr(requires { i.upper_bound().raw(); } && Same<RawType<U>,FloatDP>) { if(r.chance(1,2)) x=i.lower_bound().raw(); else x=i.upper_bound().raw(); } }
    if constexpr(Same<U,Rational>) c(q,"e"); else if constexpr(Same<U,Dyadic>) c(Dyadic(x),"e");
    else if constexpr(Same<RawType<U>,FloatDP>) { c(x,"e"); if(!is_inf(x)) { FloatDPBounds b(x,add(near,x,FloatDP(abs(lat(r,1)*lat(r,1)),near,dp))); c(b,"b"); c(FloatDPApproximation(x),"a"); c(Dyadic(x),"e"); } }
    else { FloatMP y(q,near,MultiplePrecision(72)); c(y,"e"); c(FloatMPBounds(y,add(near,y,FloatMP(abs(lat(r,1)*lat(r,1)),near,MultiplePrecision(72)))),"b"); } }
template<class U1, class U2> void ivl2(Rng& r) {
    int st=static_cast<int>(r.below(5)); Interval<U2> b=rndi<U2>(r,st); Interval<U1> a=near1<U1>(r,st,b); if(r.chance(1,12)) { if(r.chance(1,2)) { a=emp<U1>(); b=mki<U2>(-1,2); } else { b=emp<U2>(); a=mki<U1>(-1,2); } }
    preds(a,b,kind<U1>(),kind<U2>()); setops(a,b,kind<U1>(),kind<U2>()); }
template<class U> void ivl1(Rng& r) {
    int st=static_cast<int>(r.below(5)); Interval<U> a=rndi<U>(r,st,false); derived(r,a); a=rndi<U>(r,st); if(r.chance(1,12)) a=emp<U>(); upreds(a,kind<U>()); points(r,st,rndi<U>(r,st)); }
// ---- boxes -------------------------------------------------------------------------------------------------
template<class U> Box<Interval<U>> rndb(Rng& r, int st, SizeType n, bool ub=true) { Box<Interval<U>> b(n,mki<U>(0,0)); for(SizeType i=0;i<n;++i) b[i]=rndi<U>(r,st,ub&&r.chance(1,2)); return b; }
template<class U1, class U2> void box2(Rng& r) {
    int st=static_cast<int>(r.below(5)); SizeType n=1+r.below(3); auto b=rndb<U2>(r,st,n); auto a=rndb<U1>(r,st,n); if(r.chance(1,2)) for(SizeType i=0;i<n;++i) a[i]=near1<U1>(r,st,b[i]);
    if constexpr(Same<U1,U2>) { if(r.chance(1,6)) { a=b; SizeType j=r.below(n); a[j]=near1<U1>(r,st,b[j]); } }
    if(r.chance(1,2)) preds(a,b,kind<U1>(),kind<U2>()); else mpreds(a,b,kind<U1>(),kind<U2>());
    setops(a,b,kind<U1>(),kind<U2>());
    if constexpr(Same<U1,U2>) { Ev("str")("f","prod")("a",J(std::vector<J>{bj(a),bj(b)}))("ix",J(std::vector<J>{}))("r",bj(product(a,b))).emit(); Ev("str")("f","prod")("a",J(std::vector<J>{bj(a),bj(b),bj(a)}))("ix",J(std::vector<J>{}))("r",bj(r.chance(1,2)?product(a,b,a):join(a,b,a))).emit(); Ev("str")("f","prod")("a",J(std::vector<J>{bj(a),bj(b[0])}))("ix",J(std::vector<J>{}))("r",bj(product(a,b[0]))).emit(); Ev("str")("f","prod")("a",J(std::vector<J>{bj(a),bj(b[0]),bj(b)}))("ix",J(std::vector<J>{}))("r",bj(r.chance(1,2)?product(a,b[0],b):join(a,b[0],b))).emit(); Ev("str")("f","prod")("a",J(std::vector<J>{bj(b[0]),bj(a)}))("ix",J(std::vector<J>{}))("r",bj(Box<Interval<U1>>::_product(b[0],a))).emit(); } }
template<class U> void box1(Rng& r) {
    int st=static_cast<int>(r.below(4)); SizeType n=1+r.below(4); auto a=rndb<U>(r,st,n,false); const char* k=kind<U>(); J ja=bj(a); typedef Interval<U> I;
    upreds(a,k); { Box<I> e(n,emp<U>()); upreds(e,k); auto u=a; u[r.below(n)]=rndi<U>(r,st); upreds(u,k); u[r.below(n)]=emp<U>(); Ev("pred")("f","empty")("k1",k)("k2",k)("a",bj(u))("b",bj(u))("r",ls(u.is_empty())).emit(); }
    num("measure",ja,k,a.measure()); num("measure",ja,k,a.volume()); num("semi",ja,k,a.semiperimeter()); num("bradius",ja,k,a.radius());
    { auto w=a.widths(), q=a.radii(); auto c=a.centre(), m=a.midpoint(); for(SizeType i=0;i<n;++i) { num("width",bj(a[i]),k,w[i]); num("bradius",bj(a[i]),k,q[i]); num("centre",bj(a[i]),k,c[i]); num("midpoint",bj(a[i]),k,m[i]); } }
    { auto s=a.split(); Ev("bsplit")("a",ja)("j",-1)("l",bj(s.first))("u",bj(s.second)).emit(); Ev("bsplit")("a",ja)("j",-1)("l",bj(a.split(SplitPart::LOWER)))("u",bj(split(a,SplitPart::UPPER))).emit(); SizeType j=r.below(n); auto t=a.split(j); Ev("bsplit")("a",ja)("j",static_cast<long>(j))("l",bj(t.first))("u",bj(t.second)).emit(); Ev("bsplit")("a",ja)("j",static_cast<long>(j))("l",bj(split(a,j,SplitPart::LOWER)))("u",bj(a.split(j,SplitPart::UPPER))).emit(); }
    { std::vector<J> jx; SizeType m=1+r.below(4); Array<SizeType> ix(m); for(SizeType i=0;i<m;++i) { ix[i]=r.below(n); jx.push_back(J(static_cast<long>(ix[i]))); } Ev("str")("f","proj")("a",J(std::vector<J>{ja}))("ix",J(jx))("r",bj(project(a,ix))).emit(); SizeType lo=r.below(n), hi=lo+r.below(n-lo+1); Ev("str")("f","range")("a",J(std::vector<J>{ja}))("ix",J{J(static_cast<long>(lo)),J(static_cast<long>(hi))})("r",bj(r.chance(1,2)?project(a,Range(lo,hi)):a[Range(lo,hi)])).emit(); SizeType d=r.below(n); Ev("str")("f","remove")("a",J(std::vector<J>{ja}))("ix",J(std::vector<J>{J(static_cast<long>(d))}))("r",bj(remove(a,d))).emit(); }
    Ev("str")("f","prod")("a",J(std::vector<J>{ja}))("ix",J(std::vector<J>{}))("r",bj(a.bounding_box())).emit();
    { std::vector<J> lo,up; auto l=a.lower_bounds(), u=a.upper_bounds(); for(SizeType i=0;i<n;++i) { lo.push_back(J(str(l[i].raw()))); up.push_back(J(str(u[i].raw()))); } Ev("corners")("a",ja)("l",J(lo))("u",J(up)).emit(); }
    if constexpr(Same<U,FloatDP>) { auto vs=a.vertices(); std::vector<J> jv; for(auto const& v: vs) { std::vector<J> w; for(SizeType i=0;i<n;++i) w.push_back(J(str(v[i]))); jv.push_back(J(w)); } Ev("vertices")("a",ja)("r",J(jv)).emit();
        Point<FloatDP> p(n,[&](SizeType i){ return r.chance(1,4)?a[i].lower_bound():r.chance(1,3)?a[i].upper_bound():FloatDP(lat(r,st),near,dp); }); Ev("pred")("f","contains")("k1",k)("k2","e")("a",ja)("b",pj(p))("r",ls(r.chance(1,2)?contains(a,p):a.contains(p))).emit(); Ev("pred")("f","contains")("k1",k)("k2","e")("a",ja)("b",pj(p))("r",ls(element(static_cast<Vector<FloatDP> const&>(p),a))).emit(); Ev("set")("f","hull")("a",ja)("b",pj(p))("r",bj(r.chance(1,2)?hull(a,p):hull(p,a))).emit(); } }
// ---- interval arithmetic, widening, domains ------------------------------------------------------------------
template<class F> void arith(Rng& r) {
    typedef Interval<UpperBound<F>> UI; int st=static_cast<int>(r.below(5)); auto sane=[&](UI i) { return i; };
    UI a=rndi<UpperBound<F>>(r,st,false), b=rndi<UpperBound<F>>(r,st,false); std::string w; auto e=[&](const char* f, J const& as, long n, auto const& res) { Ev("arith")("f",f)("a",as)("n",n)("r",ij(res)).emit(); };
    auto U1=[&](const char* f, auto op) { e(f,J(std::vector<J>{ij(a)}),0,op(a)); }; auto U2=[&](const char* f, auto op) { e(f,J(std::vector<J>{ij(a),ij(b)}),0,op(a,b)); };
    switch(r.below(30)) { case 0: U1("neg",[](auto x){ return neg(x); }); break; case 1: U1("pos",[](auto x){ return pos(x); }); break; case 2: U1("sqr",[](auto x){ return sqr(x); }); break; case 3: U1("hlf",[](auto x){ return hlf(x); }); break; case 4: U1("rec",[](auto x){ return rec(x); }); break;
        case 5: U1("abs",[](auto x){ return abs(x); }); break; case 6: U2("add",[](auto x,auto y){ return add(x,y); }); break; case 7: U2("sub",[](auto x,auto y){ return sub(x,y); }); break; case 8: U2("mul",[](auto x,auto y){ return mul(x,y); }); break; case 9: U2("div",[](auto x,auto y){ return div(x,y); }); break;
        case 10: U2("max",[](auto x,auto y){ return max(x,y); }); break; case 11: U2("min",[](auto x,auto y){ return min(x,y); }); break; case 12: { long n=r.range(-4,6); e("pow",J(std::vector<J>{ij(a)}),n,pow(a,static_cast<Int>(n))); break; } case 13: { long n=r.range(0,6); e("pow",J(std::vector<J>{ij(a)}),n,pow(a,static_cast<Nat>(n))); break; }
        case 14: U1("isqrt",[](auto x){ return sqrt(x); }); break; case 15: U1("ilog",[](auto x){ return log(x); }); break; case 16: if(abs(cast_singleton(a)).upper_raw()<100) U1("exp",[](auto x){ return exp(x); }); break; case 17: U1("sin",[](auto x){ return sin(x); }); break; case 18: U1("cos",[](auto x){ return cos(x); }); break;
        case 19: if(mag(a).raw()<1.5_x) U1("tan",[](auto x){ return tan(x); }); break; case 20: U1("atan",[](auto x){ return atan(x); }); break; case 21: U2("add",[](auto x,auto y){ return x+y; }); break; case 22: U2("sub",[](auto x,auto y){ return x-y; }); break; case 23: U2("mul",[](auto x,auto y){ return x*y; }); break; case 24: U2("div",[](auto x,auto y){ return x/y; }); break;
        case 25: { F c=b.lower_bound().raw(); J as(std::vector<J>{ij(a),J{J(str(c)),J(str(c))}}); e("add",as,0,a+c); e("mul",as,0,a*c); J sa(std::vector<J>{J{J(str(c)),J(str(c))},ij(a)}); e("add",sa,0,c+a); e("mul",sa,0,c*a); break; }
        case 26: { Ev("mag")("a",ij(a))("r",str(mag(a).raw()))("m",str(mig(a).raw())).emit(); break; }
        case 27: { Ev("icmp")("a",ij(a))("b",ij(b))("lt",ls(lt(a,b)))("eq",ls(eq(a,b)))("lo",ls(a<b))("gt",ls(a>b)).emit(); break; }
        case 28: { auto rf=refinement(a,b); Ev("refn")("a",ij(a))("b",ij(b))("r",ij(rf))("rs",refines(a,b))("sm",same(a,b)).emit(); break; }
        default: { auto s=cast_singleton(a); auto m=make_interval(s); Ev("same")("a",ij(a))("r",J(std::vector<J>{nj(s),ij(m)})).emit(); auto f=factory(a).create(ValidatedNumber(cast_singleton(b))); e("pos",J(std::vector<J>{ij(b)}),0,f); } } }
static void domains(Rng& r) {
    int st=static_cast<int>(r.below(4)); FloatDPUpperInterval a=rndi<FloatDPUpperBound>(r,st,false); FloatDPExactInterval x=rndi<FloatDP>(r,st,false); auto e=[&](const char* f, J a, J b, J c) { Ev("wide")("f",f)("a",a)("e",b)("r",c).emit(); };
    e("widen",bj(a),J("0"),bj(widen(a))); e("widen",bj(x),J("0"),bj(widen(x))); double w=std::ldexp(r.unit(),-static_cast<int>(r.below(60))); FloatDP fw(ExactDouble(w),dp); e("widene",bj(a),J(str(w)),bj(widen(a,FloatDPUpperBound(fw)))); if(mag(a).raw()<ExactDouble(1e30)) { e("dom",bj(a),J("0"),bj(widen_domain(a))); e("approx",bj(a),J("0"),bj(approximate_domain(a))); }
    FloatDPLowerInterval l=rndi<FloatDPLowerBound>(r,st,false); e("narrow",bj(l),J("0"),bj(narrow(l))); e("narrow",bj(x),J("0"),bj(narrow(x))); e("narrowe",bj(l),J(str(w)),bj(narrow(l,FloatDPUpperBound(fw))));
    SizeType n=1+r.below(3); auto ub=rndb<FloatDPUpperBound>(r,st,n,false); auto xb=rndb<FloatDP>(r,st,n,false); auto lb=rndb<FloatDPLowerBound>(r,st,n,false);
    e("widen",bj(ub),J("0"),bj(widen(ub))); e("widene",bj(ub),J(str(w)),bj(widen(ub,FloatDPUpperBound(fw)))); e("widene",bj(xb),J(str(w)),bj(widen(xb,fw))); { bool sm=true; for(SizeType i=0;i<n;++i) sm=sm&&mag(ub[i]).raw()<ExactDouble(1e30); if(sm) e("dom",bj(ub),J("0"),bj(widen_domain(ub))); } e("narrow",bj(lb),J("0"),bj(narrow(lb))); e("narrowe",bj(lb),J(str(w)),bj(narrow(lb,FloatDPUpperBound(fw))));
    Dyadic tl=mkw(r,1), tu=tl+abs(mkw(r,1)); e("exact",J(std::vector<J>{J{J(str(tl)),J(str(tu))}}),J("0"),bj(to_time_bounds(tl,tu)));
    { long p=r.range(-50,50), q=p+r.range(0,60); static const char* op="[(", *md=":,;", *cl="])"; std::ostringstream ss; ss<<op[r.below(2)]<<p<<md[r.below(3)]<<q<<cl[r.below(2)]; std::istringstream is(ss.str()); FloatDPExactInterval y(FloatDP(0,dp),FloatDP(0,dp)); is>>y; e("exact",J(std::vector<J>{J{J(std::to_string(p)),J(std::to_string(q))}}),J("0"),bj(y)); e("exact",J(std::vector<J>{J{J(std::to_string(p)),J(std::to_string(q))},J{J("-1"),J("2")}}),J("0"),bj(make_box(ss.str()+"x[-1,2]"))); }
    // conversions between kinds of interval keep or weaken the information
    e("exact",bj(x),J("0"),bj(FloatDPUpperInterval(x))); e("exact",bj(x),J("0"),bj(FloatDPLowerInterval(x))); e("exact",bj(a),J("0"),bj(cast_exact(a))); e("exact",bj(x),J("0"),bj(FloatDPApproximateInterval(x))); e("exact",bj(x),J("0"),bj(DyadicInterval(x))); e("exact",bj(xb),J("0"),bj(UpperBoxType(xb)));
    { Rational q1=lat(r,3), q2=q1+abs(lat(r,3)); RationalInterval qi(q1,q2); e("outer",J(std::vector<J>{ij(qi)}),J("0"),bj(FloatDPUpperInterval(qi,dp))); } 
    // images of boxes under a function
    { auto bx=rndb<FloatDPUpperBound>(r,static_cast<int>(r.below(2)),2,false); EffectiveVectorMultivariateFunction id=EffectiveVectorMultivariateFunction::identity(2); auto f=id[0]*id[1]-id[1]; ValidatedVectorMultivariateFunction h=ValidatedVectorMultivariateFunction(EffectiveVectorMultivariateFunction({f,id[0]+id[1]})); bool em=r.chance(1,8); if(em) bx[r.below(2)]=FloatDPUpperInterval::empty_interval(); auto im=r.chance(1,2)?image(bx,h):apply(h,bx); auto i0=r.chance(1,2)?image(bx,h[0]):apply(h[0],bx); Ev("image")("a",bj(bx))("em",em)("r",bj(im))("r0",ij(i0)).emit(); } }
// ---- unions of intervals ---------------------------------------------------------------------------------------
template<class U> J lj(UnionOfIntervals<U> const& s) { std::vector<J> v; for(auto const& i: s) v.push_back(ij(i)); return J(v); }
template<class U> J lj(List<Interval<U>> const& s) { std::vector<J> v; for(auto const& i: s) v.push_back(ij(i)); return J(v); }
template<class U> void unions(Rng& r) {
    int m=static_cast<int>(r.range(4,24)); auto mkl=[&](SizeType k) { List<Interval<U>> l; for(SizeType i=0;i<k;++i) { long a=r.range(-m,m-1), b=a+r.range(1,r.chance(1,2)?3:m); l.append(mki<U>(Rational(a)/4,Rational(b)/4)); } return l; };
    auto la=mkl(1+r.below(5)), lb=mkl(1+r.below(5)); if(r.chance(1,3)) { lb=la; lb.append(mkl(1)[0]); } UnionOfIntervals<U> a(la), b(lb); auto ms=[&](UnionOfIntervals<U> const& s) { if constexpr(!Same<U,Dyadic>) { if(s.size()==0) return J{J("0"),J("0")}; } return nj(s.measure()); };
    Ev("union")("f","make")("a",lj(la))("b",lj(la))("r",lj(a))("m",ms(a))("bb",a.size()?ij(a.bounding_box()):J(std::vector<J>{})).emit();
    auto c=intersection(a,b); Ev("union")("f","inter")("a",lj(la))("b",lj(lb))("r",lj(c))("m",ms(c))("bb",c.size()?ij(c.bounding_box()):J(std::vector<J>{})).emit();
    auto d=join(a,b); Ev("union")("f","join")("a",lj(la))("b",lj(lb))("r",lj(d))("m",ms(d))("bb",ij(d.bounding_box())).emit();
    Ev("upred")("f","subset")("a",lj(la))("b",lj(lb))("r",subset(a,b)).emit(); Ev("upred")("f","intersect")("a",lj(la))("b",lj(lb))("r",intersect(a,b)).emit();
    FloatDPExactInterval bs=mki<FloatDP>(Rational(r.range(-m,0))/4,Rational(r.range(1,m))/4); J jb(std::vector<J>{ij(bs)}); Ev("upred")("f","overlaps")("a",lj(la))("b",jb)("r",a.overlaps(bs)).emit(); Ev("upred")("f","covers")("a",lj(la))("b",jb)("r",a.covers(bs)).emit(); Ev("upred")("f","subset")("a",lj(la))("b",jb)("r",a.inside(bs)).emit(); Ev("upred")("f","nooverlap")("a",lj(la))("b",jb)("r",a.separated(bs)).emit();
    auto g=intersection(a,bs); Ev("union")("f","inter")("a",lj(la))("b",jb)("r",lj(g))("m",ms(g))("bb",g.size()?ij(g.bounding_box()):J(std::vector<J>{})).emit();
    if constexpr(Same<U,Dyadic>) { UnionOfIntervals<FloatDP> x(la,dp); Ev("union")("f","make")("a",lj(la))("b",lj(la))("r",lj(x))("m",nj(x.measure()))("bb",ij(x.bounding_box())).emit();
        Dyadic e=abs(mkw(r,1)); LowerMeasurableSetModel<UnionOfIntervals<Dyadic>,Dyadic> p(a,e), q(b,e); auto mm=[&](const char* f, auto const& s, Dyadic er, J jb2) { Ev("lms")("f",f)("a",lj(la))("b",jb2)("e",str(er))("m",nj(measure(s))).emit(); }; mm("make",p,e,lj(la)); mm("join",join(p,q),e+e,lj(lb)); mm("inter1",intersection(p,bs),e,jb); } }
int main(int ac, char** av) {
    Args a(ac,av); Rng r(a.seed); std::cerr.setstate(std::ios::failbit);
    typedef FloatDP F; typedef FloatDPUpperBound FU; typedef FloatDPLowerBound FL; typedef FloatDPApproximation FA; typedef FloatMP M; typedef FloatMPUpperBound MU; typedef FloatMPLowerBound ML;
    while(count()<a.n) {
        try { switch(r.below(34)) {
            case 0: case 1: ivl2<F,F>(r); break; case 2: ivl2<F,FU>(r); break; case 3: ivl2<FU,F>(r); break; case 4: ivl2<FU,FU>(r); break; case 5: ivl2<FL,F>(r); break; case 6: ivl2<F,FL>(r); break; case 7: ivl2<FU,FL>(r); ivl2<FL,FU>(r); break; case 8: ivl2<FA,FA>(r); ivl2<FL,FL>(r); break;
            case 9: ivl2<Dyadic,Dyadic>(r); break; case 10: ivl2<Rational,Rational>(r); break; case 11: ivl2<M,M>(r); break; case 12: ivl2<MU,M>(r); ivl2<M,MU>(r); break;
            case 13: ivl1<F>(r); break; case 14: ivl1<FU>(r); break; case 15: ivl1<FA>(r); ivl1<FL>(r); break; case 16: ivl1<Dyadic>(r); ivl1<Rational>(r); break; case 17: ivl1<M>(r); ivl1<MU>(r); break;
            case 18: case 19: box2<F,F>(r); break; case 20: box2<FU,F>(r); break; case 21: box2<F,FU>(r); box2<FL,F>(r); break; case 22: box2<FU,FU>(r); box2<FA,FA>(r); box2<F,FL>(r); break;
            case 23: case 24: box1<F>(r); break; case 25: box1<FU>(r); break; case 26: box1<FA>(r); box1<FL>(r); break;
            case 27: case 28: arith<F>(r); arith<F>(r); arith<F>(r); break; case 29: arith<M>(r); arith<M>(r); break; case 30: case 31: domains(r); break; case 32: unions<Dyadic>(r); break; default: unions<F>(r); } }
        catch(std::exception const& e) { Ev("fail")("f","main")("what",e.what()).emit(); } }
    return 0; }
