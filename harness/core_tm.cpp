// Taylor models: every operation on models recorded with arguments, sample points and result
#include "vh.hpp"
#include "numeric/numeric.hpp"
#include "algebra/algebra.hpp"
#include "algebra/vector.hpp"
#include "algebra/covector.hpp"
#include "algebra/matrix.hpp"
#include "algebra/multi_index.hpp"
#include "algebra/expansion.hpp"
#include "algebra/expansion.tpl.hpp"
#include "algebra/differential.hpp"
#include "geometry/interval.hpp"
#include "geometry/box.hpp"
#include "function/domain.hpp"
#include "function/scaling.hpp"
#include "algebra/sweeper.hpp"
#include "function/taylor_model.hpp"
using namespace Ariadne;
VH_MAIN_SUPPORT
using namespace vh;
typedef std::vector<long> Ix;
typedef FloatDPUpperInterval UI;
template<class X> constexpr bool is_ui=Same<X,UI>;
template<class X> J cf(X const& x) {
    if constexpr(requires { x.lower_bound().raw(); }) return J{J(str(x.lower_bound().raw())),J(str(x.upper_bound().raw()))};
    else if constexpr(requires { x.lower_raw(); }) return J{J(str(x.lower_raw())),J(str(x.upper_raw()))};
    else if constexpr(requires { x.raw(); }) return J{J(str(x.raw())),J(str(x.raw()))};
    else return J{J(str(x)),J(str(x))}; }
template<class M> struct Tr { typedef typename M::NumericType X; typedef typename M::RawFloatType F; typedef typename M::CoefficientType C; };
template<class M> const char* tn() { if constexpr(Same<M,ValidatedTaylorModelDP>) return "d"; else if constexpr(Same<M,ValidatedTaylorModelMP>) return "m"; else if constexpr(Same<M,ValidatedIntervalTaylorModelDP>) return "i"; else return "a"; }
template<class M> constexpr bool APP=Same<M,ApproximateTaylorModelDP>;
template<class M> auto prec() { if constexpr(Same<typename M::RawFloatType,FloatMP>) return MultiplePrecision(96); else return dp; }
static Ix ix(MultiIndexData const& a) { Ix r; for(SizeType i=0;i<a.size();++i) r.push_back(static_cast<long>(a[i])); return r; }
template<class M> J mj(M const& m) { std::vector<J> v; for(auto it=m.expansion().begin();it!=m.expansion().end();++it) v.push_back(J{J(ix(it->index())),cf(it->coefficient())}); Obj o; if constexpr(APP<M>) o.add("e",J("0")); else o.add("e",J(str(m.error().raw()))); o.add("n",J(static_cast<long>(m.argument_size()))); o.add("p",J(v)); return o.j(); }
// ---- sweepers ---------------------------------------------------------------------------------------------------
template<class F> struct Swp { Sweeper<F> s; J j; bool light=false; };
template<class F> Swp<F> mkswp(Rng& r, int st=-1) {
    auto pr=[]{ if constexpr(Same<F,FloatMP>) return MultiplePrecision(96); else return dp; }();
    int te=static_cast<int>(r.chance(1,2)?r.range(4,16):r.range(4,60)); double t=std::ldexp(1.0,-te); bool li=te<=18; F ft(ExactDouble(t),near,pr); DegreeType d=static_cast<DegreeType>(r.range(0,5));
    if(st<0) st=static_cast<int>(r.below(8));
    switch(st) {
        case 0: return {Sweeper<F>(ThresholdSweeper<F>(pr,ft)),J{J("thr"),J(str(t))},li};
        case 1: return {Sweeper<F>(RelativeThresholdSweeper<F>(pr,ft)),J{J("rel"),J(str(t))},li};
        case 2: return {Sweeper<F>(GradedSweeper<F>(pr,d)),J{J("grd"),J(static_cast<long>(d))},true};
        case 3: return {Sweeper<F>(GradedThresholdSweeper<F>(pr,d,ft)),J{J("gthr"),J(static_cast<long>(d)),J(str(t))},true};
        case 4: return {Sweeper<F>(AffineSweeper<F>(pr)),J{J("aff")},true};
        default: return {Sweeper<F>(TrivialSweeper<F>(pr)),J{J("triv")}}; } }
// ---- arguments -----------------------------------------------------------------------------------------------------
static double mkc(Rng& r) { switch(r.below(6)) { case 0: return static_cast<double>(r.range(-4,4)); case 1: return static_cast<double>(r.range(-16,16))/8; case 2: return std::ldexp(r.unit()*2-1,-static_cast<int>(r.below(30))); case 3: return static_cast<double>(r.range(-30,30))/10; default: return r.unit()*2-1; } }
template<class M> typename M::CoefficientType mkcoef(Rng& r) { typedef typename M::CoefficientType C; typedef typename M::RawFloatType F; auto pr=prec<M>(); double c=mkc(r); F f(ExactDouble(c),near,pr);
    if constexpr(Same<F,FloatMP>) { if(r.chance(1,2)) f=add(near,f,F(ExactDouble(std::ldexp(r.unit(),-45)),near,pr)); }
    if constexpr(is_ui<C>) { F w(ExactDouble(r.chance(1,2)?0.0:std::ldexp(r.unit(),-static_cast<int>(r.below(20)))),near,pr); return UI(sub(down,f,w),add(up,f,w)); } else return C(f); }
template<class M> M mkm(Rng& r, SizeType n, Sweeper<typename M::RawFloatType> const& s) { typedef typename M::CoefficientType C; typedef typename M::RawFloatType F; auto pr=prec<M>();
    Expansion<MultiIndex,C> e(n,C(0,pr)); std::vector<Ix> seen; long k=r.range(0,5), dmax=r.range(1,4);
    for(long i=0;i<k;++i) { MultiIndex a(n); Ix v(n,0); for(long d=r.range(0,dmax);d>0;--d) { SizeType j=r.below(n); a[j]+=1; v[j]+=1; } bool dup=false; for(auto& w:seen) dup=dup||w==v; if(dup) continue; seen.push_back(v); e.append(a,mkcoef<M>(r)); }
    e.sort(ReverseLexicographicIndexLess());
    F er(ExactDouble(r.chance(1,2)?0.0:std::ldexp(r.unit(),-static_cast<int>(r.below(40)))),near,pr);
    if constexpr(APP<M>) return M(e,typename M::ErrorType(pr),s); else { typedef typename M::ErrorType E; return M(e,E(er),s); } }
template<class M> typename M::NumericType mkx(Rng& r, double lo, double hi) { typedef typename M::NumericType X; typedef typename M::RawFloatType F; auto pr=prec<M>(); double c=r.chance(1,3)?static_cast<double>(r.range(-8,8))/4:mkc(r); if(c<lo||c>hi) c=lo+(hi-lo)*r.unit(); double w=r.chance(1,2)?0:std::ldexp(r.unit(),-static_cast<int>(r.range(3,45))); double l=std::max(lo,c-w), u=std::min(hi,c+w);
    F fl(ExactDouble(l),near,pr), fu(ExactDouble(u),near,pr); if constexpr(is_ui<X>) return UI(fl,fu); else if constexpr(APP<M>) return X(fl); else return X(fl,fu); }
// sample points: vertices, the centre, random points
static J pts(Rng& r, SizeType n) { std::vector<J> v; if(n==0) { v.push_back(J(std::vector<J>())); return J(v); }
    std::size_t nv=std::size_t(1)<<n; for(std::size_t i=0;i<nv;++i) { if(nv>4&&!r.chance(1,2)) continue; std::vector<J> p; for(SizeType j=0;j<n;++j) p.push_back(J((i>>j)&1?"1":"-1")); v.push_back(J(p)); }
    { std::vector<J> p; for(SizeType j=0;j<n;++j) p.push_back(J("0")); v.push_back(J(p)); }
    for(int i=0;i<2;++i) { std::vector<J> p; for(SizeType j=0;j<n;++j) p.push_back(J(str(Rational(r.range(-16,16),16)))); v.push_back(J(p)); }
    return J(v); }
static std::string why(std::exception const& e) { std::string s=e.what(); return s.substr(0,80); }
// record an operation: result by a thunk, so that a refusal is recorded as well
template<class M, class T> bool rec1(Rng& r, const char* f, Swp<typename M::RawFloatType> const& s, std::vector<J> const& ms, J const& c, long k, SizeType rn, T const& thunk, M* out=nullptr) {
    Ev e("op"); e("f",f)("t",tn<M>())("s",s.j)("m",J(ms))("c",c)("k",k)("x",pts(r,rn));
    try { M res=thunk(); e("st","ok")("r",mj(res)); if(out) *out=res; e.emit(); return true; } catch(std::exception const& ex) { Obj o; o.add("e",J("0")); o.add("n",J(0)); o.add("p",J(std::vector<J>())); e("st",why(ex))("r",o.j()); e.emit(); return false; } }
template<class M> double mnorm(M const& m) { double t=0; for(auto it=m.expansion().begin();it!=m.expansion().end();++it) { if constexpr(is_ui<typename M::CoefficientType>) t+=std::max(std::fabs(it->coefficient().lower_bound().raw().get_d()),std::fabs(it->coefficient().upper_bound().raw().get_d())); else t+=std::fabs(it->coefficient().raw().get_d()); } if constexpr(!APP<M>) t+=m.error().raw().get_d(); return t; }
template<class M> void ops(Rng& r) {
    typedef typename M::RawFloatType F; typedef typename M::NumericType X; auto pr=prec<M>(); auto s=mkswp<F>(r); SizeType n=static_cast<SizeType>(r.range(1,3)); std::vector<M> pool; for(int i=0;i<3;++i) pool.push_back(mkm<M>(r,n,s.s)); pool.push_back(M::coordinate(n,r.below(n),s.s));
    for(int step=0;step<6;++step) {
        M a=r.pick(pool), b=r.pick(pool), z=a; J ja=mj(a), jb=mj(b); bool keep=false; X c=mkx<M>(r,-4,4); J jc=cf(c); J nc{J("0"),J("0")};
        auto un=[&](const char* f, auto th) { keep=rec1<M>(r,f,s,{ja},nc,0,n,th,&z); };
        auto bi=[&](const char* f, auto th) { keep=rec1<M>(r,f,s,{ja,jb},nc,0,n,th,&z); };
        auto sc=[&](const char* f, auto th) { keep=rec1<M>(r,f,s,{ja},jc,0,n,th,&z); };
        Rational q=Rational(r.range(-40,40),r.range(1,12)); J jq{J(str(q)),J(str(q))};
        double na=mnorm(a); bool ea=(s.light&&a.number_of_terms()<=12)||(n==1&&a.number_of_terms()<=2&&a.degree()<=2)||a.number_of_terms()<=1;
        switch(r.below(36)) {
            case 0: case 1: bi("add",[&]{ return a+b; }); break;
            case 2: bi("sub",[&]{ return a-b; }); break;
            case 3: case 4: bi("mul",[&]{ return a*b; }); break;
            case 5: { M t=a; switch(r.below(3)) { case 0: bi("add",[&]{ t+=b; return t; }); break; case 1: bi("sub",[&]{ t-=b; return t; }); break; default: bi("mul",[&]{ t*=b; return t; }); } break; }
            case 6: un("sqr",[&]{ return sqr(a); }); break;
            case 7: un("sqr",[&]{ return a*a; }); break;
            case 8: { int k=static_cast<int>(r.range(0,5)); keep=rec1<M>(r,"pow",s,{ja},nc,k,n,[&]{ return pow(a,k); },&z); break; }
            case 9: sc("addc",[&]{ return r.chance(1,2)?M(a+c):M(c+a); }); break;
            case 10: switch(r.below(2)) { case 0: sc("subc",[&]{ return a-c; }); break; default: sc("csub",[&]{ return c-a; }); } break;
            case 11: sc("mulc",[&]{ return r.chance(1,2)?M(a*c):M(c*a); }); break;
            case 12: { M t=a; switch(r.below(3)) { case 0: sc("addc",[&]{ t+=c; return t; }); break; case 1: sc("subc",[&]{ t-=c; return t; }); break; default: sc("mulc",[&]{ t*=c; return t; }); } break; }
            case 13: { X d=mkx<M>(r,0.25,4); J jd=cf(d); bool ng=r.chance(1,2); if(ng) { d=-d; jd=cf(d); } M t=a; keep=rec1<M>(r,"divc",s,{ja},jd,0,n,[&]{ if(r.chance(1,2)) { t/=d; return t; } return M(a/d); },&z); break; }
            case 14: un("neg",[&]{ return -a; }); break;
            case 15: un("pos",[&]{ return +a; }); break;
            case 16: if constexpr(!is_ui<X>) { typedef typename M::GenericNumericType Y; keep=rec1<M>(r,r.chance(1,1)?"addc":"",s,{ja},jq,0,n,[&]{ return a+Y(q); },&z); if(q!=0) rec1<M>(r,"mulc",s,{ja},jq,0,n,[&]{ return a*Y(q); }); rec1<M>(r,"csub",s,{ja},jq,0,n,[&]{ return Y(q)-a; }); if(q!=0) rec1<M>(r,"divc",s,{ja},jq,0,n,[&]{ return a/Y(q); }); } break;
            case 17: un("abs",[&]{ return abs(a); }); break;
            case 18: bi("max",[&]{ return max(a,b); }); break;
            case 19: bi("min",[&]{ return min(a,b); }); break;
            case 20: if constexpr(!APP<M>) { if(r.chance(1,2)) sc("maxc",[&]{ return r.chance(1,2)?M(max(a,c)):M(max(c,a)); }); else sc("minc",[&]{ return r.chance(1,2)?M(min(a,c)):M(min(c,a)); }); } break;
            case 21: case 22: if(ea&&na<3) un("exp",[&]{ return exp(a); }); break;
            case 23: if(ea&&na<6) un("sin",[&]{ return sin(a); }); break;
            case 24: if(ea&&na<6) un("cos",[&]{ return cos(a); }); break;
            case 25: { // an argument bounded away from zero
                M p=a; if(ea&&na<8) { int sh=static_cast<int>(std::ceil(na*1.3))+1; p=a+X(sh,pr); ja=mj(p); double rr=r.unit();
                    if(rr<0.3) un("rec",[&]{ return rec(p); }); else if(rr<0.5) un("sqrt",[&]{ return sqrt(p); }); else if(rr<0.7) un("log",[&]{ return log(p); }); else if(rr<0.8) { M g=-p; ja=mj(g); un("rec",[&]{ return rec(g); }); } else keep=rec1<M>(r,"div",s,{jb,ja},nc,0,n,[&]{ return b/p; },&z); } break; }
            case 26: { M p=a; if(ea&&na<8) { int sh=static_cast<int>(std::ceil(na*1.3))+1; p=a+X(sh,pr); ja=mj(p); double rr=r.unit(); if(rr<0.3) keep=rec1<M>(r,"cdiv",s,{ja},jc,0,n,[&]{ return c/p; },&z); else if(rr<0.6) { int k=static_cast<int>(r.range(-3,-1)); keep=rec1<M>(r,"pow",s,{ja},nc,k,n,[&]{ return pow(p,k); },&z); } else { int k=static_cast<int>(r.range(1,3)); (void)k; un("log",[&]{ return log(p); }); } } break; }
            case 27: if(ea&&na<1.2) un("tan",[&]{ return tan(a); }); break;
            case 28: break;
            case 29: { auto s2=mkswp<F>(r); M t=a; keep=rec1<M>(r,"sweep",s2,{ja},nc,0,n,[&]{ M u=a; u.sweep(s2.s); return u; }); if(r.chance(1,4)) { M u=a; u.set_sweeper(s2.s); rec1<M>(r,"sweep",s2,{ja},nc,0,n,[&]{ if(r.chance(1,2)) u.simplify(); else u.sweep(); return u; }); } keep=false; break; }
            case 30: { long k=static_cast<long>(r.below(n)); keep=rec1<M>(r,"anti",s,{ja},nc,k,n,[&]{ return antiderivative(a,static_cast<SizeType>(k)); },&z); break; }
            case 31: { long k=static_cast<long>(r.below(n)); keep=false; rec1<M>(r,"der",s,{ja},nc,k,n,[&]{ return derivative(a,static_cast<SizeType>(k)); }); break; }
            case 32: { long k=static_cast<long>(r.below(n)); int h=static_cast<int>(r.below(3)); const char* nm=h==0?"splitl":h==1?"splitu":"splitm"; keep=rec1<M>(r,nm,s,{ja},nc,k,n,[&]{ return split(a,static_cast<SizeType>(k),h==0?SplitPart::LOWER:h==1?SplitPart::UPPER:SplitPart::MIDDLE); },&z); break; }
            case 33: { long k1=r.range(0,2), k3=r.range(0,1); rec1<M>(r,"embed",s,{ja},nc,k1,n+static_cast<SizeType>(k1+k3),[&]{ return embed(static_cast<SizeType>(k1),a,static_cast<SizeType>(k3)); }); break; }
            case 34: { bool sc=r.chance(1,3); double l=sc?std::ldexp(static_cast<double>(r.range(-64,64)),-static_cast<int>(r.below(12))):mkc(r), u=r.chance(1,8)?l:l+std::ldexp(sc?static_cast<double>(r.range(1,64)):1+r.unit(),-static_cast<int>(r.below(6))); IntervalDomainType d{FloatDP(ExactDouble(l),dp),FloatDP(ExactDouble(u),dp)}; J jd{J(str(l)),J(str(u))}; if(sc) { long j=static_cast<long>(r.below(n)); rec1<M>(r,"scaling",s,{ja},jd,j,n,[&]{ return M::scaling(n,static_cast<SizeType>(j),d,s.s); }); } else rec1<M>(r,l==u?"unscale0":"unscale",s,{ja},jd,0,n,[&]{ return r.chance(1,2)?unscale(a,d):compose(Unscaling(d),a); }); break; }
            default: { switch(r.below(6)) { case 0: sc("const",[&]{ return r.chance(1,2)?M::constant(n,c,s.s):a.create_constant(c); }); break; case 1: { long j=static_cast<long>(r.below(n)); keep=rec1<M>(r,"coord",s,{ja},nc,j,n,[&]{ return r.chance(1,2)?M::coordinate(n,static_cast<SizeType>(j),s.s):a.create_coordinate(static_cast<SizeType>(j)); },&z); break; } case 2: un("nul",[&]{ return r.chance(1,2)?a.create_zero():nul(a); }); break; case 3: { M t=a; sc("const",[&]{ t=c; return t; }); break; } case 4: if constexpr(!APP<M>) { auto e=typename M::ErrorType(F(ExactDouble(std::ldexp(r.unit(),-3)),near,pr)); J je{J(str(e.raw())),J(str(e.raw()))}; rec1<M>(r,"ball",s,{ja},je,0,n,[&]{ return r.chance(1,2)?M::ball(n,e,s.s):a.create_ball(e); }); } break; default: { M t=a; un("pos",[&]{ t.cleanup(); return t; }); } } }
        }
        if(keep&&mnorm(z)<20&&z.number_of_nonzeros()<25&&z.degree()<12) pool.push_back(z); } }
template<class M> void structural(Rng& r) {
    typedef typename M::RawFloatType F; typedef typename M::NumericType X; auto pr=prec<M>(); auto s=mkswp<F>(r); SizeType n=static_cast<SizeType>(r.range(1,3)); M a=mkm<M>(r,n,s.s), b=mkm<M>(r,n,s.s); J ja=mj(a), nc{J("0"),J("0")};
    if(r.chance(1,2)) { a=a*b+M::coordinate(n,0,s.s); ja=mj(a); }
    switch(r.below(9)) {
        case 0: { // evaluate on a box inside the domain
            typedef typename M::ValidatedNumericType V; std::vector<J> bx; Vector<V> v(n,V(0,pr)); for(SizeType i=0;i<n;++i) { X x=mkx<M>(r,-1,1); if constexpr(is_ui<X>) v[i]=V(x.lower_bound().raw(),x.upper_bound().raw()); else if constexpr(APP<M>) v[i]=V(x.raw()); else v[i]=x; bx.push_back(cf(v[i])); }
            if constexpr(!APP<M>) { auto y=evaluate(a,v); Ev("eval")("t",tn<M>())("m",ja)("b",J(bx))("r",cf(y)).emit(); }
            else { Vector<X> w(n,X(0,pr)); for(SizeType i=0;i<n;++i) w[i]=X(v[i].lower_raw()); std::vector<J> bw; for(SizeType i=0;i<n;++i) bw.push_back(cf(w[i])); auto y=evaluate(a,w); Ev("eval")("t","a")("m",ja)("b",J(bw))("r",cf(y)).emit(); }
            break; }
        case 1: { long k=static_cast<long>(r.below(n)); X c=mkx<M>(r,-1,1); rec1<M>(r,"part",s,{ja},cf(c),k,n-1,[&]{ return partial_evaluate(a,static_cast<SizeType>(k),c); }); break; }
        case 2: case 3: { // composition with models that map into the unit box
            SizeType m=static_cast<SizeType>(r.range(1,2)); Vector<M> g(n,M(m,s.s)); std::vector<J> ms{ja}; for(SizeType i=0;i<n;++i) { M t=mkm<M>(r,m,s.s); double nt=mnorm(t); if(nt>1) { X sc(Dyadic(ExactDouble(std::ldexp(1.0,-static_cast<int>(std::ceil(std::log2(nt)))))),pr); t=t*sc; } if(mnorm(t)>1.0) return; g[i]=t; ms.push_back(mj(t)); }
            rec1<M>(r,"comp",s,ms,nc,0,m,[&]{ return r.chance(1,2)?compose(a,g):evaluate(a,g); }); break; }
        case 4: if constexpr(!APP<M>) { // range, norm, comparisons
            auto rg=a.range(); auto cd=a.codomain(); Ev("range")("t",tn<M>())("m",ja)("x",pts(r,n))("r",cf(rg))("cd",cf(cd))("norm",str(a.norm().raw()))("rad",str(a.radius().raw()))("avg",cf(a.average())).emit(); int c=static_cast<int>(r.range(-3,3)); Ev("cmp")("m",ja)("x",pts(r,n))("c",std::to_string(c))("lt",definitely(a<c))("gt",definitely(a>c)).emit(); } break;
        case 5: if constexpr(!APP<M>) { // refinement
            M a2=a; { M d=mkm<M>(r,n,s.s); double k=r.chance(1,2)?std::ldexp(1.0,-static_cast<int>(r.below(12))):0; X sc(Dyadic(ExactDouble(k)),pr); a2=a+d*sc; if(r.chance(1,2)) a2.set_error(typename M::ErrorType(F(ExactDouble(std::ldexp(r.unit(),-static_cast<int>(r.below(14)))),near,pr))); if(r.chance(1,2)) a.set_error(typename M::ErrorType(F(ExactDouble(std::ldexp(r.unit(),-static_cast<int>(r.below(14)))),near,pr))); } if(r.chance(1,4)) { M t=a; if(!a.expansion().empty()) { a2=a; a2.sweep(mkswp<F>(r,0).s); } }
            ja=mj(a); std::string st="ok"; J jr=ja; try { jr=mj(refinement(a,a2)); } catch(std::exception const& e) { st=why(e); }
            bool rf=refines(a,a2), ic=inconsistent(a,a2), cn=false; if constexpr(!is_ui<X>) cn=consistent(a,a2); Ev("refine")("t",tn<M>())("m",J{ja,mj(a2)})("x",pts(r,n))("st",st)("r",jr)("rf",rf)("ic",ic)("cn",cn)("hc",!is_ui<X>).emit(); } break;
        case 6: if constexpr(!APP<M>) { rec1<M>(r,"emberr",s,{ja},nc,0,n,[&]{ return embed_error(a); }); if(n>1) { std::vector<SizeType> d; for(SizeType i=0;i<n;++i) if(r.chance(1,2)) d.push_back(i); if(d.empty()||d.size()==n) { d.clear(); d.push_back(r.below(n)); } Array<SizeType> ds(d.size()); std::vector<J> jd; for(SizeType i=0;i<d.size();++i) { ds[i]=d[i]; jd.push_back(J(static_cast<long>(d[i]))); } M t=discard_variables(a,ds); Ev("discard")("m",ja)("d",J(jd))("x",pts(r,n))("r",mj(t)).emit(); } } break;
        case 7: if constexpr(!APP<M> && !is_ui<X>) { // gradient of the polynomial
            std::vector<J> bx; Vector<X> v(n,X(0,pr)); for(SizeType i=0;i<n;++i) { v[i]=mkx<M>(r,-1,1); bx.push_back(cf(v[i])); } a.clobber(); auto g=gradient(a,v); std::vector<J> jg; for(SizeType i=0;i<n;++i) jg.push_back(cf(g[i])); Ev("grad")("t",tn<M>())("m",mj(a))("b",J(bx))("r",J(jg)).emit(); } break;
        default: if constexpr(!APP<M>) { // vectors of models
            Vector<M> cs=M::coordinates(n,s.s); for(SizeType i=0;i<n;++i) rec1<M>(r,"coord",s,{ja},nc,static_cast<long>(i),n,[&]{ return cs[i]; }); Vector<X> xs(n,X(0,pr)); for(SizeType i=0;i<n;++i) xs[i]=mkx<M>(r,-4,4); Vector<M> ks=M::constants(n,xs,s.s); for(SizeType i=0;i<n;++i) rec1<M>(r,"const",s,{ja},cf(xs[i]),0,n,[&]{ return ks[i]; }); } break;
    } }
int main(int ac, char** av) {
    Args a(ac,av); Rng r(a.seed); std::cerr.setstate(std::ios::failbit);
    { // known finding: the functions common to 0+/-1/2 and x/2+/-1/2
        typedef ValidatedTaylorModelDP M; TrivialSweeper<FloatDP> sw(double_precision); M x=M::coordinate(1,0,sw), e=M::unit_ball(1,sw); M a=e/2, b=x/2+e/2; M c=refinement(a,b);
        FloatDP lo(3e-16_pr,dp), up(1,dp); M sc=M::scaling(1,0,IntervalDomainType(lo,up),sw); Ev("scalingK")("id","[3e-16,1]")("d",J{J(str(lo)),J(str(up))})("r",mj(sc)).emit();
        Ev("refineK")("id","ball/2 with x/2+ball/2")("m",J{mj(a),mj(b)})("x",J{J{J("0")},J{J("1/2")},J{J("-1")}})("r",mj(c)).emit(); }
    while(count()<a.n) {
        try { switch(r.below(16)) {
            case 0: case 1: case 2: case 3: ops<ValidatedTaylorModelDP>(r); break; case 4: case 5: ops<ValidatedTaylorModelMP>(r); break; case 6: case 7: ops<ValidatedIntervalTaylorModelDP>(r); break; case 8: ops<ApproximateTaylorModelDP>(r); break;
            case 9: case 10: case 11: case 12: structural<ValidatedTaylorModelDP>(r); break; case 13: structural<ValidatedTaylorModelMP>(r); break; case 14: structural<ValidatedIntervalTaylorModelDP>(r); break; default: structural<ApproximateTaylorModelDP>(r); } }
        catch(std::exception const& e) { Ev("fail")("f","main")("what",e.what()).emit(); } }
    return 0; }
