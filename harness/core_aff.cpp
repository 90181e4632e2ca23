// Affine functions and affine models: arithmetic, construction, composition, evaluation, ranges
#include "vh.hpp"
#include <optional>
#include "prog.hpp"
#include "numeric/numeric.hpp"
#include "algebra/algebra.hpp"
#include "algebra/vector.hpp"
#include "algebra/covector.hpp"
#include "algebra/matrix.hpp"
#include "algebra/expansion.inl.hpp"
#include "function/function.hpp"
#include "function/formula.hpp"
#include "function/taylor_model.hpp"
#include "function/affine.hpp"
#include "function/affine_model.hpp"
#include "function/taylor_function.hpp"
#include "function/affine_model.tpl.hpp"
#include "geometry/interval.hpp"
#include "geometry/box.hpp"
#include "symbolic/variable.hpp"
#include "symbolic/space.hpp"
namespace Ariadne { class Variables2d; struct Projection2d; }
using namespace Ariadne;
VH_MAIN_SUPPORT
using namespace vh;
typedef std::vector<long> Ix;
static MultiplePrecision mp96(96);
template<class F> auto prc() { if constexpr(Same<F,FloatMP>) return mp96; else return dp; }
template<class X> J cf(X const& x) { if constexpr(requires { x.lower_bound().raw(); }) return J{J(str(x.lower_bound().raw())),J(str(x.upper_bound().raw()))}; else if constexpr(requires { x.lower_raw(); }) return J{J(str(x.lower_raw())),J(str(x.upper_raw()))}; else if constexpr(requires { x.raw(); }) return J{J(str(x.raw())),J(str(x.raw()))}; else return J{J(str(x)),J(str(x))}; }
static double mkc(Rng& r) { switch(r.below(6)) { case 0: return static_cast<double>(r.range(-4,4)); case 1: return static_cast<double>(r.range(-16,16))/8; case 2: return std::ldexp(r.unit()*2-1,-static_cast<int>(r.below(30))); case 3: return static_cast<double>(r.range(-30,30))/10; default: return r.unit()*2-1; } }
template<class F> F mkr(Rng& r) { F f(ExactDouble(mkc(r)),near,prc<F>()); if constexpr(Same<F,FloatMP>) if(r.chance(1,2)) f=add(near,f,F(ExactDouble(std::ldexp(r.unit(),-45)),near,prc<F>())); return f; }
static double mkwd(Rng& r) { return r.chance(1,2)?0.0:std::ldexp(r.unit(),-static_cast<int>(r.range(0,52))); }
template<class X> X mkx(Rng& r) { typedef typename X::RawType F; F c=mkr<F>(r); if constexpr(requires(X x) { x.lower_raw(); }) { F w(ExactDouble(mkwd(r)),near,prc<F>()); return X(sub(down,c,w),add(up,c,w)); } else return X(c); }
template<class M> constexpr bool APP=Same<typename M::Paradigm,ApproximateTag>;
template<class M> struct RF { typedef std::decay_t<decltype(std::declval<M>().value().raw())> F; };
template<class M> const char* tn() { return APP<M>?"a":Same<typename RF<M>::F,FloatMP>?"m":"d"; }
static Ix unit(SizeType n, SizeType j) { Ix v(n,0); if(j<n) v[j]=1; return v; }
template<class M> J mj(M const& m) { SizeType n=m.argument_size(); std::vector<J> v; for(SizeType j=0;j<n;++j) v.push_back(J{J(unit(n,j)),cf(m.gradient(j))}); v.push_back(J{J(unit(n,n)),cf(m.value())}); Obj o; if constexpr(requires { m.error(); }) o.add("e",J(str(m.error().raw()))); else o.add("e",J("0")); o.add("n",J(static_cast<long>(n))); o.add("p",J(v)); return o.j(); }
static J pts(Rng& r, SizeType n) { std::vector<J> v; std::size_t nv=std::size_t(1)<<n; for(std::size_t i=0;i<nv;++i) { if(nv>4&&!r.chance(1,2)) continue; std::vector<J> p; for(SizeType j=0;j<n;++j) p.push_back(J((i>>j)&1?"1":"-1")); v.push_back(J(p)); }
    { std::vector<J> p; for(SizeType j=0;j<n;++j) p.push_back(J("0")); v.push_back(J(p)); }
    for(int i=0;i<2;++i) { std::vector<J> p; for(SizeType j=0;j<n;++j) p.push_back(J(str(Rational(r.range(-16,16),16)))); v.push_back(J(p)); } return J(v); }
template<class M> M mkm(Rng& r, SizeType n) { typedef typename RF<M>::F F; typedef typename M::CoefficientType C; Covector<C> g(n,C(0,prc<F>())); for(SizeType j=0;j<n;++j) if(!r.chance(1,4)) g[j]=C(mkr<F>(r)); C c(mkr<F>(r));
    if constexpr(APP<M>) return M(c,g); else { typedef typename M::ErrorType E; return M(c,g,E(F(ExactDouble(mkwd(r)),near,prc<F>()))); } }
static J Z() { return J{J("0"),J("0")}; }
template<class M> void emit(Rng& r, const char* f, std::vector<J> const& ms, J const& c, long k, M const& res) { Ev("aop")("f",f)("t",tn<M>())("m",J(ms))("c",c)("k",k)("x",pts(r,res.argument_size()))("r",mj(res)).emit(); }
template<class M> void ops(Rng& r) { typedef typename RF<M>::F F; typedef typename M::NumericType X; SizeType n=static_cast<SizeType>(r.range(1,3)); auto pr=prc<F>(); std::vector<M> pool{mkm<M>(r,n),mkm<M>(r,n),mkm<M>(r,n)};
    { SizeType j=r.below(n); M v=M::coordinate(n,j,pr); emit(r,"coord",{mj(v)},Z(),static_cast<long>(j),v); pool.push_back(v); X c=mkx<X>(r); typename M::CoefficientType cc(mkr<F>(r)); M k=M::constant(n,cc); emit(r,"const",{mj(k)},cf(cc),0,k); M z=pool[0].create_zero(); emit(r,"const",{mj(z)},Z(),0,z); M w=pool[1]; w=cc; emit(r,"const",{mj(w)},cf(cc),0,w); M y(n,cc); emit(r,"const",{mj(y)},cf(cc),0,y); M o(n,pr); emit(r,"const",{mj(o)},Z(),0,o); }
    for(int s=0;s<6;++s) { M a=pool[r.below(pool.size())], b=pool[r.below(pool.size())]; X c=mkx<X>(r); 
        switch(r.below(8)) { case 0: case 1: { M x=a; bool ip=r.chance(1,3); if(ip) x+=b; else x=a+b; emit(r,"add",{mj(a),mj(b)},Z(),0,x); pool.push_back(x); break; }
            case 2: case 3: { M x=a*b; emit(r,"mul",{mj(a),mj(b)},Z(),0,x); pool.push_back(x); break; }
            case 4: { M x=-a; emit(r,"neg",{mj(a)},Z(),0,x); break; }
            case 5: { M x=a; switch(r.below(3)) { case 0: x=a+c; break; case 1: x=c+a; break; default: x+=c; } emit(r,"addc",{mj(a)},cf(c),0,x); pool.push_back(x); break; }
            case 6: { if(r.chance(1,2)) { M x=a; if(r.chance(1,2)) x-=c; else x=a-c; emit(r,"subc",{mj(a)},cf(c),0,x); } else { M x=c-a; emit(r,"csub",{mj(a)},cf(c),0,x); } break; }
            default: { M x=a; switch(r.below(3)) { case 0: x=a*c; break; case 1: x=c*a; break; default: x*=c; } emit(r,"mulc",{mj(a)},cf(c),0,x); pool.push_back(x); } } }
    // ranges and evaluation
    { M a=pool[r.below(pool.size())]; auto g=a.range(); Ev("arange")("t",tn<M>())("m",mj(a))("x",pts(r,n))("r",J{J(str(g.lower_bound().raw())),J(str(g.upper_bound().raw()))}).emit();
      Vector<X> x(n,X(0,pr)); std::vector<J> b; for(SizeType j=0;j<n;++j) { x[j]=mkx<X>(r); b.push_back(cf(x[j])); } X y=a.evaluate(x); Ev("aeval")("t",tn<M>())("m",mj(a))("b",J(b))("r",cf(y)).emit(); }
    // scalings
    { std::vector<DI> d; auto ex=[&]{ double l=mkc(r),u=mkc(r); if(r.chance(1,4)) { l*=3; u/=7; } if(l>u) std::swap(l,u); if(l==u) u=l+1; return DI{l,u}; }; for(SizeType j=0;j<n;++j) d.push_back(ex()); std::vector<IntervalDomainType> l; for(auto& q:d) l.push_back(IntervalDomainType(ExactDouble(q.l),ExactDouble(q.u)));
      SizeType j=r.below(n); auto dj=[&](SizeType i){ return J{J(str(d[i].l)),J(str(d[i].u))}; };
      M m=M::scaling(n,j,l[j],pr); emit(r,"scaling",{mj(m)},dj(j),static_cast<long>(j),m);
      BoxDomainType bx(n,l[0]); for(SizeType i=0;i<n;++i) bx[i]=l[i]; auto ms=M::scalings(bx,pr); for(SizeType i=0;i<n;++i) emit(r,"scaling",{mj(ms[i])},dj(i),static_cast<long>(i),ms[i]); } }
// from affine functions with interval coefficients and from Taylor models
template<class F> void conv(Rng& r) { typedef AffineModel<ValidatedTag,F> M; typedef Bounds<F> X; auto pr=prc<F>(); SizeType n=static_cast<SizeType>(r.range(1,3)); Covector<X> g(n,X(0,pr)); for(SizeType j=0;j<n;++j) g[j]=mkx<X>(r); Affine<X> a(g,mkx<X>(r)); 
    { M m= r.chance(1,2)?M(a):affine_model(a); emit(r,"sweep",{mj(a)},Z(),0,m); }
    { typedef TaylorModel<ValidatedTag,F> T; Expansion<MultiIndex,F> e(n,F(0,pr)); std::vector<Ix> seen; for(long i=r.range(0,6);i>0;--i) { MultiIndex x(n); Ix v(n,0); for(long d=r.range(0,3);d>0;--d) { SizeType j=r.below(n); x[j]+=1; v[j]+=1; } bool dup=false; for(auto& w:seen) dup=dup||w==v; if(dup) continue; seen.push_back(v); e.append(x,mkr<F>(r)); }
      e.sort(ReverseLexicographicIndexLess()); T t(e,Error<F>(F(ExactDouble(mkwd(r)),near,pr)),Sweeper<F>(TrivialSweeper<F>(pr))); std::vector<J> v; for(auto it=t.begin();it!=t.end();++it) { Ix q; for(SizeType i=0;i<n;++i) q.push_back(static_cast<long>(it->index()[i])); v.push_back(J{J(q),cf(it->coefficient())}); } Obj o; o.add("e",J(str(t.error().raw()))); o.add("n",J(static_cast<long>(n))); o.add("p",J(v));
      M m=[&]{ switch(r.below(3)) { case 0: return M(t); case 1: return affine_model(t); default: return affine_models(Vector<T>(1u,t))[0]; } }(); emit(r,"sweep",{o.j()},Z(),0,m); } }
// composition of functions with models, and models of functions on boxes
static EffectiveScalarMultivariateFunction fn(Prog const& p, SizeType n) { typedef Formula<EffectiveNumber> FM; std::vector<FM> v; for(SizeType j=0;j<n;++j) v.push_back(FM::coordinate(Nat(j))); return EffectiveScalarMultivariateFunction(EuclideanDomain(n),run_prog<FM>(p,v,[](Rational const& q){return FM::constant(EffectiveNumber(q));}).back()); }
static Prog sub(Prog const& p, int i) { Prog q=p; q.nd.resize(static_cast<std::size_t>(i)); return q; }
template<class M> void comp(Rng& r) { typedef typename RF<M>::F F; typedef typename M::Paradigm P; SizeType n=static_cast<SizeType>(r.range(1,3)), k=static_cast<SizeType>(r.range(1,2)); Vector<M> g(k,mkm<M>(r,n)); std::vector<DI> box; std::vector<J> gj; bool cst=r.chance(1,6);
    for(SizeType i=0;i<k;++i) { M m=mkm<M>(r,n); if(cst) { typename M::CoefficientType c=m.value(); m=c; } else if(r.chance(1,2)) { m=m*mkx<typename M::NumericType>(r); } g[i]=m; auto q=m.range(); box.push_back(DI{q.lower_bound().raw().get_d()-1e-9,q.upper_bound().raw().get_d()+1e-9}); gj.push_back(mj(m)); }
    Prog p=mkprog(r,box,static_cast<int>(r.range(1,5)),P_SMOOTH); int a=p.size(), b=r.chance(1,2)?p.size():p.size()-1; SizeType nn=k;
    if(r.chance(1,2)) { ScalarMultivariateFunction<P> f(fn(p,nn)); M h=compose(f,g); Ev("acomp")("t",tn<M>())("p",p.json())("c",a)("m",J(gj))("x",pts(r,n))("r",mj(h)).emit(); }
    else { VectorMultivariateFunction<EffectiveTag> ef({fn(sub(p,a),nn),fn(sub(p,b),nn)}); VectorMultivariateFunction<P> f(ef); Vector<M> h=compose(f,g); Ev("acomp")("t",tn<M>())("p",p.json())("c",a)("m",J(gj))("x",pts(r,n))("r",mj(h[0])).emit(); Ev("acomp")("t",tn<M>())("p",p.json())("c",b)("m",J(gj))("x",pts(r,n))("r",mj(h[1])).emit(); } (void)sizeof(F); }
static void ofun(Rng& r) { typedef AffineModel<ValidatedTag,FloatDP> M; SizeType n=static_cast<SizeType>(r.range(1,2)); std::vector<DI> d; for(SizeType j=0;j<n;++j) { double c=static_cast<double>(r.range(-16,16))/8, w=static_cast<double>(r.range(1,8))/8; d.push_back(DI{c-w,c+w}); } Prog p=mkprog(r,d,static_cast<int>(r.range(1,5)),P_SMOOTH); for(auto& o:p.nd) if(o.op=="tan") return; std::vector<IntervalDomainType> l; for(auto& q:d) l.push_back(IntervalDomainType(ExactDouble(q.l),ExactDouble(q.u))); BoxDomainType bx(n,l[0]); for(SizeType i=0;i<n;++i) bx[i]=l[i];
    EffectiveScalarMultivariateFunction f=fn(p,n); ValidatedScalarMultivariateFunction vf(f); std::optional<M> mo; try { mo=affine_model(bx,vf,dp); } catch(std::exception const&) { for(auto& o:p.nd) if(o.op=="div"||o.op=="rec"||o.op=="log"||o.op=="sqrt"||(o.op=="pow"&&o.n<0)) return; throw; } M m=*mo; std::vector<J> dj; for(auto& q:d) dj.push_back(J{J(str(q.l)),J(str(q.u))}); Ev("aof")("t","d")("p",p.json())("d",J(dj))("x",pts(r,n))("r",mj(m)).emit(); }
// ---- affine functions ---------------------------------------------------------------------------------------------------
template<class X> const char* xn() { if constexpr(requires(X x) { x.lower_raw(); }) return "b"; else if constexpr(Same<X,Rational>) return "q"; else return "a"; }
template<class X> auto withp(auto const& f) { if constexpr(Same<X,Rational>) return f(); else return f(prc<typename X::RawType>()); }
template<class X> X mky(Rng& r) { if constexpr(Same<X,Rational>) return mkcst(r); else return mkx<X>(r); }
template<class X> J aj(Affine<X> const& a) { return mj(a); }
template<class X> void aemit(Rng& r, const char* f, std::vector<J> const& ms, J const& c, long k, Affine<X> const& res) { Ev("fop")("f",f)("t",xn<X>())("m",J(ms))("c",c)("k",k)("x",pts(r,res.argument_size()))("r",mj(res)).emit(); }
template<class X> void aff(Rng& r) { typedef Affine<X> A; SizeType n=static_cast<SizeType>(r.range(1,3)); auto zero=withp<X>([](auto... p){return X(0,p...);}); auto mk=[&]{ Covector<X> g(n,zero); for(SizeType j=0;j<n;++j) g[j]=mky<X>(r); return A(g,mky<X>(r)); }; std::vector<A> pool{mk(),mk(),mk()};
    { SizeType j=r.below(n); A v=withp<X>([&](auto... p){ switch(r.below(4)) { case 0: return A::coordinate(n,j,p...); case 1: return A::variable(n,j,p...); case 2: return A(A::coordinates(n,p...)[j]); default: return A(A::variables(n,p...)[j]); } }); aemit<X>(r,"coord",{mj(v)},Z(),static_cast<long>(j),v); pool.push_back(v); X c=mky<X>(r); A k=A::constant(n,c); aemit<X>(r,"const",{mj(k)},cf(c),0,k); A w=pool[0]; w=c; aemit<X>(r,"const",{mj(w)},cf(c),0,w); }
    for(int s=0;s<5;++s) { A a=pool[r.below(pool.size())], b=pool[r.below(pool.size())], x=a; X c=mky<X>(r);
        switch(r.below(9)) { case 0: x=a+b; aemit<X>(r,"add",{mj(a),mj(b)},Z(),0,x); break; case 1: x=a-b; aemit<X>(r,"sub",{mj(a),mj(b)},Z(),0,x); break; case 2: x=-a; aemit<X>(r,"neg",{mj(a)},Z(),0,x); break; 
            case 3: x= r.chance(1,2)?a+c:c+a; aemit<X>(r,"addc",{mj(a)},cf(c),0,x); break; case 4: x=a-c; aemit<X>(r,"subc",{mj(a)},cf(c),0,x); break; case 5: x=c-a; aemit<X>(r,"csub",{mj(a)},cf(c),0,x); break; 
            case 6: if constexpr(!Same<X,Rational>) { Rational q=mkcst(r); if(r.chance(1,2)) { X y(q,c.precision()); if(q==0) break; x=a/y; aemit<X>(r,"divc",{mj(a)},cf(y),0,x); break; } } [[fallthrough]];
            case 7: x=r.chance(1,2)?a*c:c*a; aemit<X>(r,"mulc",{mj(a)},cf(c),0,x); break; default: { SizeType j=r.below(n); X d=r.chance(1,2)?a.derivative(j):derivative(a,static_cast<Nat>(j)); Ev("fder")("t",xn<X>())("m",mj(a))("k",static_cast<long>(j))("r",cf(d)).emit(); continue; } }
        pool.push_back(x); if(pool.size()>6) pool.erase(pool.begin()); }
    { A a=pool[r.below(pool.size())]; Vector<X> x(n,zero); std::vector<J> b; for(SizeType j=0;j<n;++j) { x[j]=mky<X>(r); b.push_back(cf(x[j])); } X y=a.evaluate(x); Ev("feval")("t",xn<X>())("m",mj(a))("b",J(b))("r",cf(y)).emit(); } }
int main(int argc, char** argv) { Args A(argc,argv); Rng r(A.seed);
    for(long k=0;count()<A.n&&k<A.n*20;++k) { try { switch(r.below(16)) { case 0: ops<AffineModel<ApproximateTag,FloatDP>>(r); break; case 1: ops<AffineModel<ApproximateTag,FloatMP>>(r); break; case 2: case 3: ops<AffineModel<ValidatedTag,FloatDP>>(r); break; case 4: ops<AffineModel<ValidatedTag,FloatMP>>(r); break;
        case 5: case 6: conv<FloatDP>(r); break; case 7: conv<FloatMP>(r); break; case 8: case 9: comp<AffineModel<ValidatedTag,FloatDP>>(r); break; case 10: comp<AffineModel<ApproximateTag,FloatDP>>(r); break; case 11: comp<AffineModel<ValidatedTag,FloatMP>>(r); break; case 12: ofun(r); break; case 13: aff<FloatDPBounds>(r); break; case 14: aff<FloatMPBounds>(r); break; default: if(r.chance(1,2)) aff<FloatDPApproximation>(r); else aff<Rational>(r); } }
      catch(std::exception const& e) { Ev("fail")("what",std::string(e.what()).substr(0,200)).emit(); } }
    return 0; }
