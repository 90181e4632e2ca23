// Automatic differentiation: differentials, univariate and fixed-degree differentials, graded series, power series
#include "vh.hpp"
#include "numeric/numeric.hpp"
#include "algebra/algebra.hpp"
#include "algebra/vector.hpp"
#include "algebra/covector.hpp"
#include "algebra/matrix.hpp"
#include "algebra/multi_index.hpp"
#include "algebra/expansion.hpp"
#include "algebra/expansion.tpl.hpp"
#include "algebra/differential.hpp"
#include "algebra/univariate_differential.hpp"
#include "algebra/fixed_differential.hpp"
#include "algebra/fixed_univariate_differential.hpp"
#include "algebra/graded.hpp"
#include "algebra/series.hpp"
using namespace Ariadne;
#include "prog.hpp"
// products of graded series of plain numbers ask whether the numbers are compatible
namespace Ariadne { template<class F> inline Bool compatible(Bounds<F> const&, Bounds<F> const&) { return true; } template<class F> inline Bool compatible(Approximation<F> const&, Approximation<F> const&) { return true; } }
VH_MAIN_SUPPORT
using namespace vh;
typedef std::vector<long> Ix;
template<class X> J cf(X const& x) { if constexpr(requires { x.lower_raw(); }) return J{J(str(x.lower_raw())),J(str(x.upper_raw()))}; else return J{J(str(x.raw())),J(str(x.raw()))}; }
static Ix ix(MultiIndexData const& a) { Ix r; for(SizeType i=0;i<a.size();++i) r.push_back(static_cast<long>(a[i])); return r; }
template<class E> J ej(E const& e) { std::vector<J> v; for(auto it=e.begin();it!=e.end();++it) v.push_back(J{J(ix(it->index())),cf(it->coefficient())}); return J(v); }
template<class X> auto prec() { if constexpr(Same<typename X::PrecisionType,MultiplePrecision>) return MultiplePrecision(96); else return dp; }
template<class X> X enclose(Rng& r, Rational const& q, double w) {
    auto pr=prec<X>();
    if constexpr(requires(X x) { x.lower_raw(); }) { typedef std::decay_t<decltype(std::declval<X>().lower_raw())> F; F l(q,down,pr), u(q,up,pr); if(w>0) { F e(ExactDouble(w*r.unit()),near,pr); l=sub(down,l,e); if(r.chance(2,3)) u=add(up,u,e); } return X(l,u); }
    else return X(q,pr); }
template<class X> const char* tn() { if constexpr(Same<X,FloatDPBounds>) return "db"; else if constexpr(Same<X,FloatMPBounds>) return "mb"; else if constexpr(Same<X,FloatDPApproximation>) return "da"; else return "ma"; }
template<class X> constexpr bool validated=requires(X x) { x.lower_raw(); };
static J qs(std::vector<Rational> const& v) { std::vector<J> r; for(auto& q:v) r.push_back(J(str(q))); return J(r); }
// a point, and directions along which the Taylor coefficients are compared
static std::vector<Rational> mkpt(Rng& r, int n, std::vector<DI>& box) { std::vector<Rational> q; box.clear(); for(int i=0;i<n;++i) { Rational c; switch(r.below(4)) { case 0: c=Rational(r.range(-3,3)); break; case 1: c=Rational(r.range(-24,24),8); break; case 2: c=Rational(ExactDouble(r.unit()*4-2)); break; default: c=Rational(r.range(1,12),4); } q.push_back(c); double d=qd(c); box.push_back(DI{d-1e-3,d+1e-3}); } return q; }
static J dirs(Rng& r, int n) { std::vector<J> v; { std::vector<J> d; for(int i=0;i<n;++i) d.push_back(J(std::to_string(r.range(1,5)*(r.chance(1,2)?1:-1)))); v.push_back(J(d)); } { std::vector<J> d; long k=static_cast<long>(r.below(static_cast<std::uint64_t>(n))); for(int i=0;i<n;++i) d.push_back(J(i==k?"1":r.chance(1,3)?"2":"0")); v.push_back(J(d)); } return J(v); }
// coefficients (as a list of terms) of any differential class
template<class X> J terms(Differential<X> const& d) { return ej(d.expansion()); }
template<class X> J terms(UnivariateDifferential<X> const& d) { std::vector<J> v; for(SizeType i=0;i<=d.degree();++i) v.push_back(J{J(Ix{static_cast<long>(i)}),cf(d[i])}); return J(v); }
template<class X> J terms(FirstDifferential<X> const& d) { std::vector<J> v; std::size_t n=d.argument_size(); v.push_back(J{J(Ix(n,0)),cf(d.value())}); for(std::size_t i=0;i<n;++i) { Ix a(n,0); a[i]=1; v.push_back(J{J(a),cf(d.gradient()[i])}); } return J(v); }
template<class X> J terms(SecondDifferential<X> const& d) { std::vector<J> v; std::size_t n=d.argument_size(); v.push_back(J{J(Ix(n,0)),cf(d.value())}); for(std::size_t i=0;i<n;++i) { Ix a(n,0); a[i]=1; v.push_back(J{J(a),cf(d.gradient()[i])}); } auto H=d.hessian(); for(std::size_t i=0;i<n;++i) for(std::size_t j=i;j<n;++j) { Ix a(n,0); a[i]+=1; a[j]+=1; v.push_back(J{J(a),cf(i==j?X(hlf(H[i][j])):X(H[i][j]))}); } return J(v); }
template<class X> J terms(UnivariateFirstDifferential<X> const& d) { return J{J{J(Ix{0}),cf(d.value())},J{J(Ix{1}),cf(d.gradient())}}; }
template<class X> J terms(UnivariateSecondDifferential<X> const& d) { return J{J{J(Ix{0}),cf(d.value())},J{J(Ix{1}),cf(d.gradient())},J{J(Ix{2}),cf(X(hlf(d.hessian())))}}; }
template<class X> J terms(Graded<X> const& d) { std::vector<J> v; for(SizeType i=0;i<d.size();++i) v.push_back(J{J(Ix{static_cast<long>(i)}),cf(d[i])}); return J(v); }
static const int FL=P_DIV|P_ELEM|P_TRIG;
// ---- programs -------------------------------------------------------------------------------------------------
template<class X> void emit(const char* cls, Rng& r, Prog const& p, std::vector<Rational> const& q, int n, int deg, bool wide, J const& t) {
    Ev("prog")("c",cls)("t",tn<X>())("p",p.json())("x",qs(q))("n",n)("deg",deg)("w",wide)("d",dirs(r,n))("r",t).emit(); }
// extra checks that come with the sparse class
template<class X> void prog_multi(Rng& r) {
    int n=static_cast<int>(r.range(1,3)), deg=static_cast<int>(r.range(0,n==1?7:n==2?5:4)); std::vector<DI> box; auto q=mkpt(r,n,box); bool wide=validated<X>&&r.chance(1,3); double w=wide?std::ldexp(1.0,-static_cast<int>(r.range(12,40))):0;
    Prog p=mkprog(r,box,static_cast<int>(r.range(1,6)),FL|(r.chance(1,2)?P_INV:0)|(r.chance(1,4)?P_LAT:0),40,0.5);
    for(auto& nd:p.nd) if(nd.op=="asin"||nd.op=="acos") return;
    // min, max and abs are only differentiable away from ties
    for(int i=0;i<p.size();++i) { auto& nd=p.nd[static_cast<std::size_t>(i)]; auto rg=[&](int k) { return p.rg[static_cast<std::size_t>(k-1)]; }; if(nd.op=="abs"&&rg(nd.a).has0(0.05)) return; if((nd.op=="max"||nd.op=="min")&&!(rg(nd.a).u+0.05<rg(nd.b).l||rg(nd.b).u+0.05<rg(nd.a).l)) return; }
    SizeType as=static_cast<SizeType>(n); DegreeType dg=static_cast<DegreeType>(deg); typedef Differential<X> D;
    Vector<X> x(as,X(0,prec<X>())); for(int i=0;i<n;++i) x[static_cast<SizeType>(i)]=enclose<X>(r,q[static_cast<std::size_t>(i)],w);
    std::vector<D> vs; Vector<D> dv=D::variables(dg,x); bool viavec=r.chance(1,2); for(SizeType i=0;i<as;++i) vs.push_back(viavec?D(dv[i]):D::variable(as,dg,x[i],i));
    auto cst=[&](Rational const& c) { return r.chance(1,2)?D::constant(as,dg,X(c,prec<X>())):D(vs[0].create_constant(X(c,prec<X>()))); };
    auto v=run_prog<D>(p,vs,cst); D f=v.back();
    bool ok=f.argument_size()==as&&f.degree()==dg;
    Ev("prog")("c","sparse")("t",tn<X>())("p",p.json())("x",qs(q))("n",n)("deg",ok?deg:-1)("w",wide)("d",dirs(r,n))("r",terms(f)).emit();
    // accessors
    if(deg>=1) { std::vector<J> g; auto G=f.gradient(); for(SizeType i=0;i<as;++i) g.push_back(J{cf(G[i]),cf(f.gradient(i)),cf(static_cast<D const&>(f)[i])}); std::vector<J> h; if(deg>=2) { auto H=f.hessian(); for(SizeType i=0;i<as;++i) for(SizeType j=0;j<as;++j) h.push_back(cf(H[i][j])); } Ev("acc")("n",n)("deg",deg)("r",terms(f))("v",cf(f.value()))("g",J(g))("h",J(h))("app",!validated<X>).emit(); }
    // scalars, in-place forms, aliasing, differing degrees
    { Rational c=mkcst(r); if(c==0) c=2; X xc(c,prec<X>()); D g=v[r.below(v.size())]; auto ev=[&](const char* nm, D const& res) { Ev("alg")("f",nm)("t",tn<X>())("n",n)("w",wide)("a",terms(f))("b",terms(g))("da",static_cast<long>(f.degree()))("db",static_cast<long>(g.degree()))("c",str(c))("r",terms(res))("dr",static_cast<long>(res.degree())).emit(); };
      if(r.chance(1,2)) { DegreeType d2=static_cast<DegreeType>(r.range(0,deg)); g.set_degree(d2); ev("second",g); }
      ev("addc",f+xc); ev("subc",f-xc); ev("csub",xc-f); ev("mulc",f*xc); ev("divc",f/xc); { D t=f; t+=xc; ev("addc",t); t=f; t*=xc; ev("mulc",t); t=f; t-=xc; ev("subc",t); t=f; t/=xc; ev("divc",t); }
      ev("add",f+g); ev("sub",f-g); ev("mul",f*g); { D t=f; t+=g; ev("add",t); t=f; t-=g; ev("sub",t); t=f; t*=g; ev("mul",t); t=g; t+=t; ev("dblb",t); t=f; t*=t; ev("sqr",t); t=f; t-=t; ev("zero",t); ev("zero",D(t*f)); { D s=exp(t); ev("one",s); s=cos(D(t*f)); ev("one",s); s=exp(D(as,dg,X(0,prec<X>()))); ev("one",s); } }
      { D t=f; t=xc; ev("const",t); t.set_value(X(0,prec<X>())); ev("zero",t); t=f; t.set_value(xc); ev("setv",t); if(deg>0) { t=f; t.set_gradient(as-1u,xc); ev("setg",t); } t.clear(); ev("zero",t); }
      SizeType k=r.below(as); ev(("der"+std::to_string(k)).c_str(),derivative(f,k)); ev(("anti"+std::to_string(k)).c_str(),antiderivative(f,k)); }
    (void)ok; }
template<class X> void prog_uni(Rng& r) {
    int deg=static_cast<int>(r.range(0,8)); std::vector<DI> box; auto q=mkpt(r,1,box); bool wide=validated<X>&&r.chance(1,3); double w=wide?std::ldexp(1.0,-static_cast<int>(r.range(12,40))):0;
    Prog p=mkprog(r,box,static_cast<int>(r.range(1,6)),FL,40,0.5); DegreeType dg=static_cast<DegreeType>(deg); typedef UnivariateDifferential<X> D; X x=enclose<X>(r,q[0],w);
    auto cst=[&](Rational const& c) { return D::constant(dg,X(c,prec<X>())); };
    auto v=run_prog<D,false>(p,{D::variable(dg,x)},cst); D f=v.back(); emit<X>("uni",r,p,q,1,static_cast<int>(f.degree())==deg?deg:-1,wide,terms(f));
    Rational c=mkcst(r); if(c==0) c=2; X xc(c,prec<X>()); D g=v[r.below(v.size())];
    auto ev=[&](const char* nm, D const& res) { Ev("alg")("f",nm)("t",tn<X>())("n",1)("w",wide)("a",terms(f))("b",terms(g))("da",static_cast<long>(f.degree()))("db",static_cast<long>(g.degree()))("c",str(c))("r",terms(res))("dr",static_cast<long>(res.degree())).emit(); };
    ev("addc",f+xc); ev("mulc",f*xc); ev("subc",f-xc); ev("csub",xc-f); ev("divc",f/xc); ev("add",f+g); ev("sub",f-g); ev("mul",f*g); ev("der0",derivative(f)); ev("anti0",antiderivative(f)); ev("anti0c",antiderivative(f,xc));
    if(deg>=2) Ev("acc")("n",1)("deg",deg)("r",terms(f))("v",cf(f.value()))("g",J{J{cf(f.gradient()),cf(f.gradient()),cf(f.gradient())}})("h",J{cf(X(f.hessian()))})("app",!validated<X>).emit(); }
template<class X> void prog_fixed(Rng& r) {
    int n=1; std::vector<DI> box; auto q=mkpt(r,n,box); bool wide=validated<X>&&r.chance(1,3); double w=wide?std::ldexp(1.0,-static_cast<int>(r.range(12,40))):0;
    Prog p=mkprog(r,box,static_cast<int>(r.range(1,6)),FL,40,0.5); SizeType as=static_cast<SizeType>(n);
    Vector<X> x(as,X(0,prec<X>())); for(int i=0;i<n;++i) x[static_cast<SizeType>(i)]=enclose<X>(r,q[static_cast<std::size_t>(i)],w);
    if(n==1) {
        { typedef UnivariateSecondDifferential<X> D; auto v=run_prog<D,false>(p,{D::variable(x[0])},[&](Rational const& c) { return D::constant(X(c,prec<X>())); }); emit<X>("usecond",r,p,q,1,2,wide,terms(v.back())); } } }
// Graded: every node is extended one degree at a time
template<class X> void prog_graded(Rng& r) {
    int deg=static_cast<int>(r.range(1,7)); std::vector<DI> box; auto q=mkpt(r,1,box); Prog p=mkprog(r,box,static_cast<int>(r.range(1,6)),FL,40,0.5); typedef Graded<X> G;
    for(auto& nd:p.nd) if(nd.op=="tan"||nd.op=="hlf"||nd.op=="pos") return;      // incremental form not provided
    for(std::size_t i=0;i<p.nd.size();++i) if(p.nd[i].op=="pow") { if(p.rg[static_cast<std::size_t>(p.nd[i].a-1)].has0(0.05)) return; }
    bool wide=validated<X>&&r.chance(1,4); double w=wide?std::ldexp(1.0,-30):0; X x=enclose<X>(r,q[0],w); std::vector<G> v(p.nd.size()); X z(0,prec<X>()), one(1,prec<X>());
    for(int d=0;d<=deg;++d) for(std::size_t i=0;i<p.nd.size();++i) { auto& nd=p.nd[i]; std::size_t a=static_cast<std::size_t>(nd.a>0?nd.a-1:0), b=static_cast<std::size_t>(nd.b>0?nd.b-1:0); std::string const& o=nd.op; G& t=v[i];
        if(o=="cst") t.append(d==0?X(nd.c,prec<X>()):z); else if(o=="var") t.append(d==0?x:d==1?one:z);
        else if(o=="add") t=add(v[a],v[b]); else if(o=="sub") t=sub(v[a],v[b]); else if(o=="mul") t=mul(v[a],v[b]); else if(o=="div") t=div(v[a],v[b]); else if(o=="neg") t=neg(v[a]); else if(o=="sqr") t=sqr(v[a]); else if(o=="rec") t=rec(v[a]); else if(o=="pow") compute(t,Pow(),v[a],nd.n);
        else if(o=="sqrt") t=sqrt(v[a]); else if(o=="exp") t=exp(v[a]); else if(o=="log") t=log(v[a]); else if(o=="sin") t=sin(v[a]); else if(o=="cos") t=cos(v[a]); else return; }
    emit<X>("graded",r,p,q,1,deg,wide,terms(v.back())); }
// power series of one operator
template<class X> void ser(Rng& r) {
    static const char* ops[]={"rec","sqr","sqrt","exp","log","sin","cos","tan","atan","neg"}; int k=static_cast<int>(r.below(10)); std::string o=ops[k]; Rational c= (k==2||k==4) ? Rational(r.range(1,60),8) : k==7 ? Rational(r.range(-9,9),8) : k==3 ? Rational(r.range(-24,24),8) : Rational(r.range(-24,24),8); if(k==0&&c==0) c=1; 
    int deg=static_cast<int>(r.range(0,9)); X x(c,prec<X>()); DegreeType d=static_cast<DegreeType>(deg);
    auto mk=[&]() -> Series<X> { switch(k) { case 0: return Series<X>(Rec(),x); case 1: return Series<X>(Sqr(),x); case 2: return Series<X>(Sqrt(),x); case 3: return Series<X>(Exp(),x); case 4: return Series<X>(Log(),x); case 5: return Series<X>(Sin(),x); case 6: return Series<X>(Cos(),x); case 7: return Series<X>(Tan(),x); case 8: return Series<X>(Atan(),x); default: return Series<X>(Neg(),x); } };
    Series<X> s=mk(); std::vector<J> t; if(r.chance(1,2)) for(DegreeType i=0;i<=d;++i) t.push_back(J{J(Ix{static_cast<long>(i)}),cf(s[i])}); else { auto const& l=s.coefficients(d); for(DegreeType i=0;i<=d;++i) t.push_back(J{J(Ix{static_cast<long>(i)}),cf(l[i])}); }
    Prog p; p.nv=1; Node a; a.op="var"; a.a=1; Node b; b.op=o; b.a=1; p.nd={a,b}; emit<X>("series",r,p,{c},1,deg,false,J(t));
    if constexpr(Same<X,FloatDPBounds>||Same<X,FloatDPApproximation>) if(k!=0&&k!=1&&k!=9) { auto af=[&]() -> AnalyticFunction { switch(k) { case 2: return AnalyticFunction(Sqrt()); case 3: return AnalyticFunction(Exp()); case 4: return AnalyticFunction(Log()); case 5: return AnalyticFunction(Sin()); case 6: return AnalyticFunction(Cos()); case 7: return AnalyticFunction(Tan()); default: return AnalyticFunction(Atan()); } }(); auto s2=af.series(x); std::vector<J> t2; for(DegreeType i=0;i<=d;++i) t2.push_back(J{J(Ix{static_cast<long>(i)}),cf(s2[i])}); emit<X>("series",r,p,{c},1,deg,false,J(t2)); } }
// composition of differentials: f after g
static Prog chain(Prog const& f, std::vector<Prog> const& g) { Prog h; h.nv=g[0].nv; std::vector<int> out; for(auto const& p:g) { int off=h.size(); for(auto nd:p.nd) { if(nd.op!="var") { if(nd.a) nd.a+=off; if(nd.b) nd.b+=off; } h.nd.push_back(nd); } out.push_back(h.size()); }
    int off=h.size(); for(auto nd:f.nd) { if(nd.op=="var") { int s=out[static_cast<std::size_t>(nd.a-1)]; nd.op="pos"; nd.a=s; h.nd.push_back(nd); continue; } if(nd.a) nd.a+=off; if(nd.b) nd.b+=off; h.nd.push_back(nd); } return h; }
template<class X> void comp(Rng& r) {
    int n=static_cast<int>(r.range(1,3)), m=static_cast<int>(r.range(1,2)), deg=static_cast<int>(r.range(0,4)); std::vector<DI> box; auto q=mkpt(r,n,box); typedef Differential<X> D; SizeType as=static_cast<SizeType>(n); DegreeType dg=static_cast<DegreeType>(deg), df=static_cast<DegreeType>(r.chance(1,3)?r.range(0,5):deg);
    Vector<X> x(as,X(0,prec<X>())); for(int i=0;i<n;++i) x[static_cast<SizeType>(i)]=enclose<X>(r,q[static_cast<std::size_t>(i)],0); std::vector<D> vs; for(SizeType i=0;i<as;++i) vs.push_back(D::variable(as,dg,x[i],i));
    std::vector<Prog> g; std::vector<DI> mid; Vector<D> y(static_cast<SizeType>(m),vs[0]); for(int i=0;i<m;++i) { g.push_back(mkprog(r,box,static_cast<int>(r.range(1,3)),FL,4,0.5)); mid.push_back(g.back().rg.back()); auto v=run_prog<D>(g.back(),vs,[&](Rational const& c) { return D::constant(as,dg,X(c,prec<X>())); }); y[static_cast<SizeType>(i)]=v.back(); }
    Prog f=mkprog(r,mid,static_cast<int>(r.range(1,4)),FL,40,1); SizeType ms=static_cast<SizeType>(m); Vector<D> fv=D::variables(df,y.value()); std::vector<D> fs; for(SizeType i=0;i<ms;++i) fs.push_back(fv[i]); auto w=run_prog<D>(f,fs,[&](Rational const& c) { return D::constant(ms,df,X(c,prec<X>())); });
    int dr=std::min(static_cast<int>(df),deg); D h=compose(w.back(),y); emit<X>("compose",r,chain(f,g),q,n,static_cast<int>(h.degree())==dr?dr:-1,false,terms(h));
    { Vector<D> ww(2,w.back()); ww[1]=fs[0]; Vector<D> hh=compose(ww,y); emit<X>("compose",r,chain(f,g),q,n,static_cast<int>(hh[0].degree())==dr?dr:-1,false,terms(D(hh[0]))); Matrix<X> Jm=hh.jacobian(); std::vector<J> g0; for(SizeType j=0;j<as;++j) g0.push_back(J{cf(Jm[0][j]),cf(Jm[0][j]),cf(Jm[0][j])}); Ev("acc")("n",n)("deg",1)("r",terms(D(hh[0])))("v",cf(hh.value()[0]))("g",J(g0))("h",J(std::vector<J>()))("app",!validated<X>).emit(); }
    if(m==1) { typedef UnivariateDifferential<X> U; auto wu=run_prog<U,false>(f,{U::variable(df,y[0].value())},[&](Rational const& c) { return U::constant(df,X(c,prec<X>())); }); D h2=compose(wu.back(),static_cast<D const&>(y[0])); emit<X>("compose",r,chain(f,g),q,n,static_cast<int>(h2.degree())==dr?dr:-1,false,terms(h2));
        if(n==1) { auto yu=run_prog<U,false>(g[0],{U::variable(dg,x[0])},[&](Rational const& c) { return U::constant(dg,X(c,prec<X>())); }); U h3=compose(wu.back(),yu.back()); emit<X>("compose",r,chain(f,g),q,1,static_cast<int>(h3.degree())==dr?dr:-1,false,terms(h3)); emit<X>("compose",r,g[0],q,1,deg,false,terms(yu.back())); } }
    { Covector<X> gr(as,X(0,prec<X>())); std::vector<J> gl; for(SizeType i=0;i<as;++i) { Rational c=mkcst(r); gr[i]=X(c,prec<X>()); gl.push_back(J(str(c))); } D a=D::affine(as,dg,x[0],gr); Ev("aff")("n",n)("deg",(long)dg)("t",tn<X>())("v",str(q[0]))("g",J(gl))("r",terms(a)).emit();
      Matrix<X> G(as,as,X(0,prec<X>())); std::vector<std::vector<J>> gm(as); for(SizeType i=0;i<as;++i) for(SizeType j=0;j<as;++j) { Rational c=mkcst(r); G[i][j]=X(c,prec<X>()); gm[i].push_back(J(str(c))); } Vector<D> av=D::affine(dg,x,G); for(SizeType i=0;i<as;++i) Ev("aff")("n",n)("deg",(long)dg)("t",tn<X>())("v",str(q[i]))("g",J(gm[i]))("r",terms(D(av[i]))).emit(); } }
// flow, Lie derivative and implicit functions of polynomial data
typedef std::vector<std::pair<Ix,Rational>> QP;
static J qj(QP const& p) { std::vector<J> v; for(auto const& t:p) v.push_back(J{J(t.first),J(str(t.second))}); return J(v); }
template<class X> Differential<X> mkpol(Rng& r, SizeType as, DegreeType dg, QP& q, int nt) { q.clear(); Expansion<MultiIndex,X> e(as,X(0,prec<X>())); for(int i=0;i<nt;++i) { Ix a(as,0); int d=static_cast<int>(r.range(0,std::min<int>(dg,3))); for(int k=0;k<d;++k) a[r.below(as)]+=1; bool dup=false; for(auto& t:q) if(t.first==a) dup=true; if(dup) continue; Rational c(r.range(-8,8),4); if(c==0) c=1; q.push_back({a,c}); MultiIndex m(as); for(SizeType j=0;j<as;++j) m[j]=static_cast<DegreeType>(a[j]); e.append(m,X(c,prec<X>())); } return Differential<X>(e,dg); }
template<class X> void flows(Rng& r) {
    typedef Differential<X> D; int n=static_cast<int>(r.range(1,2)), kind=static_cast<int>(r.below(4)), m= kind>=2 ? static_cast<int>(r.range(1,2)) : 0; int extra=(kind&1)+m; SizeType as=static_cast<SizeType>(n+extra); DegreeType dg=static_cast<DegreeType>(r.range(1,as>2?2:3)); X z(0,prec<X>());
    // f is given by its expansion about the point (x0[,t0][,a0])
    std::vector<QP> qf(static_cast<std::size_t>(n)); Vector<D> f(static_cast<SizeType>(n),D(as,dg,z)); for(int i=0;i<n;++i) f[static_cast<SizeType>(i)]=mkpol<X>(r,as,dg,qf[static_cast<std::size_t>(i)],static_cast<int>(r.range(1,4)));
    std::vector<Rational> x0; Vector<X> vx(static_cast<SizeType>(n),z); for(int i=0;i<n;++i) { x0.push_back(Rational(r.range(-6,6),2)); vx[static_cast<SizeType>(i)]=X(x0.back(),prec<X>()); } Rational t0(r.range(-4,4),2); Vector<X> va(static_cast<SizeType>(m),z); for(int i=0;i<m;++i) va[static_cast<SizeType>(i)]=X(Rational(r.range(-4,4),4),prec<X>());
    Vector<D> phi = kind==0 ? flow(f,vx) : kind==1 ? flow(f,vx,X(t0,prec<X>())) : kind==2 ? flow(f,vx,va) : flow(f,vx,X(t0,prec<X>()),va);
    std::vector<J> jf,jr; for(auto& p:qf) jf.push_back(qj(p)); for(SizeType i=0;i<phi.size();++i) jr.push_back(terms(D(phi[i])));
    Ev("flow")("t",tn<X>())("n",n)("tm",(kind&1)?1:0)("m",m)("deg",static_cast<long>(dg))("f",J(jf))("x0",qs(x0))("r",J(jr)).emit(); }
template<class X> void impl(Rng& r) {
    typedef Differential<X> D; int m=static_cast<int>(r.range(1,2)), l=static_cast<int>(r.range(1,2)), n=m+l; SizeType as=static_cast<SizeType>(n); DegreeType dg=static_cast<DegreeType>(r.range(1,3)); X z(0,prec<X>());
    std::vector<QP> qf(static_cast<std::size_t>(m)); Vector<D> f(static_cast<SizeType>(m),D(as,dg,z));
    for(int i=0;i<m;++i) { QP& q=qf[static_cast<std::size_t>(i)]; D p=mkpol<X>(r,as,dg,q,static_cast<int>(r.range(1,4))); // no constant term, dominant dependence on y_i
        for(auto it=q.begin();it!=q.end();) { if(std::count(it->first.begin(),it->first.end(),0)==n) it=q.erase(it); else ++it; } p.set_value(z); Ix a(static_cast<std::size_t>(n),0); a[static_cast<std::size_t>(l+i)]=1; bool f0=false; for(auto& t:q) if(t.first==a) { t.second=Rational(5); f0=true; } if(!f0) q.push_back({a,Rational(5)}); p.set_gradient(static_cast<SizeType>(l+i),X(5,prec<X>())); f[static_cast<SizeType>(i)]=p; }
    Vector<X> y0(static_cast<SizeType>(m),z); std::vector<Rational> qy; for(int i=0;i<m;++i) { qy.push_back(Rational(r.range(-4,4),2)); y0[static_cast<SizeType>(i)]=X(qy.back(),prec<X>()); }
    Vector<D> h=solve(f,y0); std::vector<J> jf,jr; for(auto& p:qf) jf.push_back(qj(p)); for(SizeType i=0;i<h.size();++i) jr.push_back(terms(D(h[i])));
    Ev("impl")("t",tn<X>())("m",m)("l",l)("deg",static_cast<long>(dg))("f",J(jf))("y0",qs(qy))("r",J(jr)).emit();
    { Vector<D> g(as,D(as,dg,z)); std::vector<QP> qg(as); std::vector<J> jg,jl; for(SizeType i=0;i<as;++i) { g[i]=mkpol<X>(r,as,dg,qg[i],3); jg.push_back(qj(qg[i])); } Vector<D> L=lie_derivative(f,g); for(SizeType i=0;i<L.size();++i) jl.push_back(terms(D(L[i]))); Ev("lie")("t",tn<X>())("n",n)("deg",static_cast<long>(dg))("f",J(jf))("g",J(jg))("r",J(jl)).emit(); } }
template<class X> void all(Rng& r) { switch(r.below(12)) { case 0: case 1: case 2: prog_multi<X>(r); break; case 3: case 4: prog_uni<X>(r); break; case 5: case 6: prog_fixed<X>(r); break; case 7: prog_graded<X>(r); break; case 8: ser<X>(r); break; case 9: comp<X>(r); break; case 10: flows<X>(r); break; default: impl<X>(r); } }
int main(int argc, char** argv) {
    Args A(argc,argv); Rng r(A.seed);
    while(count()<A.n) { try { switch(r.below(4)) { case 0: case 1: all<FloatDPBounds>(r); break; case 2: all<FloatDPApproximation>(r); break; default: all<FloatMPBounds>(r); } } catch(std::exception const& e) { Ev("fail")("why",e.what()).emit(); } }
    return 0;
}
