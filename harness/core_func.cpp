// Generic functions: constructors, arithmetic, composition, joins, embedding, components, differentiation
#include "enc.hpp"
#include <optional>
#include <set>
#include "prog.hpp"
#include "algebra/algebra.hpp"
#include "algebra/vector.hpp"
#include "algebra/covector.hpp"
#include "algebra/matrix.hpp"
#include "algebra/differential.hpp"
#include "algebra/algebra_wrapper.hpp"
#include "function/formula.hpp"
#include "function/function.hpp"
#include "function/taylor_model.hpp"
#include "geometry/interval.hpp"
#include "geometry/box.hpp"
#include "symbolic/constant.hpp"
#include "symbolic/variable.hpp"
#include "symbolic/expression.hpp"
#include "symbolic/assignment.hpp"
#include "symbolic/space.hpp"
using namespace Ariadne;
VH_MAIN_SUPPORT
using namespace vh;
typedef std::vector<Rational> Pt; typedef std::vector<DI> Bx;
typedef RealExpression RE;
template<class P> constexpr bool isE=Same<P,EffectiveTag>; template<class P> constexpr bool isV=Same<P,ValidatedTag>; template<class P> constexpr bool isA=Same<P,ApproximateTag>;
template<class A> constexpr bool uni=Same<A,Real>;
static const char* pname(EffectiveTag) { return "E"; } static const char* pname(ValidatedTag) { return "V"; } static const char* pname(ApproximateTag) { return "A"; }
template<class P> static Number<P> num(Rational const& q) { return Number<P>(EffectiveNumber(q)); }
static Bx mkbox(Rng& r, std::size_t n) { Bx b; for(std::size_t i=0;i<n;++i) { double c=static_cast<double>(r.range(-24,24))/8, w=static_cast<double>(r.range(0,8))/16; b.push_back(DI{c-w,c+w}); } return b; }
static Pt mkpt(Rng& r, Bx const& bx) { Pt x; for(auto const& b:bx) { int k=static_cast<int>(r.below(4)); Rational l(ExactDouble(b.l)), u(ExactDouble(b.u)); x.push_back(k==0?l:k==1?u:Rational(l+(u-l)*Rational(r.range(0,16),16))); } return x; }
static J ptj(Pt const& x) { std::vector<J> v; for(auto const& q:x) v.push_back(J(str(q))); return J(v); }
// ---- a set-up: a program, and the functions which are known for some of its nodes ------------------------------------------
template<class P,class A> struct Sit { typedef ScalarFunction<P,A> SF; typedef VectorFunction<P,A> VF; typedef Formula<Number<P>> FM;
    Bx box; Prog p; std::map<int,SF> given; std::set<int> opq; std::map<int,std::vector<int>> dep; bool lat=false; RealSpace spc; std::vector<RealVariable> vs; 
    std::size_t n() const { return box.size(); } };
template<class P,class A> struct VObj { std::vector<int> c; VectorFunction<P,A> f; bool noder=false; };
template<class P,class A> static Sit<P,A> mksit(Rng& r, Bx const& b, int len, int flags) { Sit<P,A> s; s.box=b; s.p=mkprog(r,b,len,flags); List<RealVariable> l; for(std::size_t i=0;i<b.size();++i) { s.vs.push_back(RealVariable("x"+std::to_string(i))); l.append(s.vs.back()); } s.spc=RealSpace(l); return s; }
template<class P,class A> static std::set<int> under(Sit<P,A> const& s, int i) { std::set<int> v; std::vector<int> t{i}; while(!t.empty()) { int k=t.back(); t.pop_back(); if(!v.insert(k).second) continue; auto d=s.dep.find(k); if(d!=s.dep.end()) for(int q:d->second) t.push_back(q); Node const& n=s.p.nd[static_cast<std::size_t>(k-1)]; if(n.op=="cst"||n.op=="var"||n.op=="pi") continue; if(n.a) t.push_back(n.a); if(n.b) t.push_back(n.b); } return v; }
template<class P,class A> static bool smooth(Sit<P,A> const& s, int i) { for(int k:under(s,i)) { auto& o=s.p.nd[static_cast<std::size_t>(k-1)].op; if(o=="abs"||o=="max"||o=="min") return false; } return true; }
template<class P,class A> static bool dif(Sit<P,A> const& s, int i) { for(int k:under(s,i)) { auto& o=s.p.nd[static_cast<std::size_t>(k-1)].op; if(o=="asin"||o=="acos"||o=="atan") return false; } return true; }
template<class P,class A> static bool anygiven(Sit<P,A> const& s, int i) { for(int k:under(s,i)) if(s.given.count(k)) return true; return false; }
template<class P,class A> static bool canopq(Sit<P,A> const& s, int i) { for(int k:under(s,i)) if(s.opq.count(k)) return false; return true; }
static Prog sub(Prog const& p, int i) { Prog q=p; q.nd.resize(static_cast<std::size_t>(i)); return q; }
template<class P,class A> static int app(Sit<P,A>& s, const char* o, int a, int b) { DI x=s.p.rg[static_cast<std::size_t>(a-1)], y= b? s.p.rg[static_cast<std::size_t>(b-1)] : x, g{0,0}; std::string op=o; Node n; n.op=op; n.a=a; n.b=b;
    if(op=="add") g=DI{x.l+y.l,x.u+y.u}; else if(op=="sub") g=DI{x.l-y.u,x.u-y.l}; else if(op=="mul") g=di4(x.l*y.l,x.l*y.u,x.u*y.l,x.u*y.u); else if(op=="div") { if(y.has0(0.1)) throw std::range_error("div"); g=di4(x.l/y.l,x.l/y.u,x.u/y.l,x.u/y.u); } else if(op=="neg") g=DI{-x.u,-x.l}; else g=x;
    if(!(g.mag()<1e4)) throw std::range_error("big"); double e=1e-12*(1+g.mag()); g.l-=e; g.u+=e; s.p.nd.push_back(n); s.p.rg.push_back(g); return s.p.size(); }
template<class P,class A> static int appc(Sit<P,A>& s, Rational const& c) { Node n; n.op="cst"; n.c=c; s.p.nd.push_back(n); s.p.rg.push_back(DI{qd(c),qd(c)}); return s.p.size(); }
template<class P,class A> static std::vector<RE> exprs(Sit<P,A> const& s, int i) { std::vector<RE> v; for(auto const& x:s.vs) v.push_back(RE(x)); return run_prog<RE>(sub(s.p,i),v,[](Rational const& q){return RE(Real(q));}); }
template<class P,class A> static std::vector<typename Sit<P,A>::FM> forms(Sit<P,A> const& s, int i) { typedef typename Sit<P,A>::FM FM; std::vector<FM> v; for(std::size_t k=0;k<s.n();++k) v.push_back(FM::coordinate(Nat(k))); 
    return run_prog<FM>(sub(s.p,i),v,[](Rational const& q){return FM::constant(num<P>(q));}); }
template<class P,class A> static ScalarFunction<P,A> byform(Rng& r, Sit<P,A> const& s, int i) { typedef ScalarFunction<P,A> SF; 
    if(isE<P> && r.chance(1,2)) { if constexpr(!isE<P>) return ScalarFunction<P,A>(0); else if constexpr(uni<A>) { RE e=exprs(s,i)[static_cast<std::size_t>(i-1)]; return r.chance(1,2)?SF(s.vs[0],e):SF(make_function(s.vs[0],e)); } else { RE e=exprs(s,i)[static_cast<std::size_t>(i-1)]; return r.chance(1,2)?SF(s.spc,e):SF(make_function(s.spc,e)); } }
    if constexpr(isE<P>) { auto f=forms(s,i); if constexpr(uni<A>) return SF(RealDomain(),f[static_cast<std::size_t>(i-1)]); else return SF(EuclideanDomain(s.n()),f[static_cast<std::size_t>(i-1)]); }
    else { Sit<EffectiveTag,A> e; e.box=s.box; e.p=s.p; e.vs=s.vs; e.spc=s.spc; return SF(byform(r,e,i)); } }
template<class P,class A> static ScalarFunction<P,A> leaf(Rng& r, Sit<P,A> const& s, int j) { typedef ScalarFunction<P,A> SF; SizeType k=static_cast<SizeType>(j-1);
    if constexpr(uni<A>) { switch(r.below(4)) { case 0: return SF::coordinate(); case 1: return SF::coordinate(RealDomain()); case 2: return SF::identity(); default: return SF::identity(RealDomain()); } }
    else { SizeType n=s.n(); switch(r.below(8)) { case 0: return SF::coordinate(n,k); case 1: return SF::coordinate(EuclideanDomain(n),k); case 2: return VectorFunction<P,A>::identity(n).get(k); case 3: { const auto v=VectorFunction<P,A>::identity(EuclideanDomain(n)); return v[k]; } case 4: return SF::coordinates(n)[k]; case 5: return SF::coordinates(EuclideanDomain(n))[k]; case 6: return SF::zero(n).create_coordinate(k); default: { auto v=VectorFunction<P,A>::identity(n); return SF(v[k]); } } } }
template<class P,class A> static ScalarFunction<P,A> cfun(Rng& r, Sit<P,A> const& s, Rational const& q) { typedef ScalarFunction<P,A> SF; Number<P> c=num<P>(q);
    if constexpr(uni<A>) { if(q==0&&r.chance(1,2)) return r.chance(1,2)?SF::zero():SF::zero(RealDomain()); switch(r.below(4)) { case 0: return SF::constant(c); case 1: return SF::constant(RealDomain(),c); case 2: return SF::coordinate().create_constant(c); default: { SF f=SF::coordinate(); f=c; return f; } } }
    else { SizeType n=s.n(); if(q==0&&r.chance(1,2)) { switch(r.below(4)) { case 0: return SF::zero(n); case 1: return SF::zero(EuclideanDomain(n)); case 2: return SF(EuclideanDomain(n)); default: return SF::coordinate(n,0).create_zero(); } } switch(r.below(4)) { case 0: return SF::constant(n,c); case 1: return SF::constant(EuclideanDomain(n),c); case 2: return SF::coordinate(n,0).create_constant(c); default: { SF f=SF::coordinate(n,0); f=c; return f; } } } }
template<class P,class A> static ScalarFunction<P,A> bld(Rng& r, Sit<P,A>& s, int i) { typedef ScalarFunction<P,A> SF; 
    auto it=s.given.find(i); if(it!=s.given.end()) return it->second;
    Node n=s.p.nd[static_cast<std::size_t>(i-1)]; std::string const& o=n.op; 
    if(o=="var") return leaf(r,s,n.a); if(o=="cst") return cfun(r,s,n.c);
    if(o=="asin"||o=="acos"||o=="pi"||(!anygiven(s,i)&&r.chance(1,4))) { if(!anygiven(s,i)) return byform(r,s,i); throw std::range_error("asin"); }
    auto C=[&](int k){ return s.p.nd[static_cast<std::size_t>(k-1)].op=="cst"&&!s.given.count(k)&&r.chance(1,2); }; auto Q=[&](int k){ return num<P>(s.p.nd[static_cast<std::size_t>(k-1)].c); };
    if(n.b) {
        if(o!="max"&&o!="min") {
          if(C(n.b)) { SF a=bld(r,s,n.a); Number<P> c=Q(n.b); if(r.chance(1,3)) { if(o=="add") a+=c; else if(o=="sub") a-=c; else if(o=="mul") a*=c; else a/=c; return a; } if(o=="add") return a+c; if(o=="sub") return a-c; if(o=="mul") return a*c; return a/c; }
          if(C(n.a)) { SF b=bld(r,s,n.b); Number<P> c=Q(n.a); if(o=="add") return c+b; if(o=="sub") return c-b; if(o=="mul") return c*b; return c/b; }
        } else if(C(n.b)) { SF a=bld(r,s,n.a); Number<P> c=Q(n.b); return o=="max"?max(a,c):min(a,c); } else if(C(n.a)) { SF b=bld(r,s,n.b); Number<P> c=Q(n.a); return o=="max"?max(c,b):min(c,b); }
        SF a=bld(r,s,n.a), b=bld(r,s,n.b);
        if(o!="max"&&o!="min"&&r.chance(1,4)) { if(o=="add") a+=b; else if(o=="sub") a-=b; else if(o=="mul") a*=b; else a/=b; return a; }
        if(o=="add") return a+b; if(o=="sub") return a-b; if(o=="mul") return a*b; if(o=="div") return a/b; if(o=="max") return max(a,b); return min(a,b); }
    SF a=bld(r,s,n.a);
    if(o=="neg") return -a; if(o=="pos") return +a; if(o=="sqr") return sqr(a); if(o=="rec") return rec(a); if(o=="hlf") return hlf(a); if(o=="pow") return pow(a,n.n); if(o=="sqrt") return sqrt(a); if(o=="exp") return exp(a); if(o=="log") return log(a); if(o=="sin") return sin(a); if(o=="cos") return cos(a); if(o=="tan") return tan(a); if(o=="atan") return atan(a); if(o=="abs") return abs(a);
    throw std::logic_error(o); }
template<class P,class A> static int anynode(Rng& r, Sit<P,A> const& s) { return r.chance(1,2)? s.p.size()-static_cast<int>(r.below(static_cast<std::uint64_t>(std::min(3,s.p.size())))) : 1+static_cast<int>(r.below(static_cast<std::uint64_t>(s.p.size()))); }
template<class P,class A> static VectorFunction<P,A> vbyform(Sit<P,A> const& s, std::vector<int> const& c) { typedef VectorFunction<P,A> VF; 
    if constexpr(isE<P>) { int m=*std::max_element(c.begin(),c.end()); auto f=forms(s,m); Vector<Formula<EffectiveNumber>> v(c.size(),f[0]); for(std::size_t k=0;k<c.size();++k) v[k]=f[static_cast<std::size_t>(c[k]-1)]; if constexpr(uni<A>) return VF(RealDomain(),v); else return VF(EuclideanDomain(s.n()),v); }
    else { Sit<EffectiveTag,A> e; e.box=s.box; e.p=s.p; e.vs=s.vs; e.spc=s.spc; return VF(vbyform(e,c)); } }
template<class P,class A> static VectorFunction<P,A> vbyexpr(Rng& r, Sit<P,A> const& s, std::vector<int> const& c) { typedef VectorFunction<P,A> VF; 
    if constexpr(isE<P>) { int m=*std::max_element(c.begin(),c.end()); auto f=exprs(s,m); Vector<RE> v(c.size(),f[0]); for(std::size_t k=0;k<c.size();++k) v[k]=f[static_cast<std::size_t>(c[k]-1)]; if constexpr(uni<A>) return r.chance(1,2)?VF(s.vs[0],v):VF(make_function(s.vs[0],v)); else return r.chance(1,2)?VF(s.spc,v):VF(make_function(s.spc,v)); }
    else return vbyform(s,c); }
static void fail(const char* f, std::string const& w) { Ev("fail")("f",f)("what",w.substr(0,200)).emit(); }
template<class P,class A> static VObj<P,A> vec(Rng& r, Sit<P,A>& s, std::vector<int> c) { typedef ScalarFunction<P,A> SF; typedef VectorFunction<P,A> VF; VObj<P,A> v; v.c=c; bool g=false; for(int k:c) g=g||anygiven(s,k);
    auto L=[&]{ List<SF> l; for(int k:c) l.append(bld(r,s,k)); return l; };
    switch(r.below(g?6:8)) {
        case 0: v.f=VF(L()); return v;
        case 1: { auto l=L(); v.f=VF(Vector<SF>(l)); return v; }
        case 2: if(c.size()==2) { SF a=bld(r,s,c[0]), b=bld(r,s,c[1]); v.f=VF({a,b}); return v; } v.f=VF(L()); return v;
        case 3: { VF z=[&]{ if constexpr(uni<A>) return r.chance(1,2)?VF::zeros(c.size()):VF(c.size(),RealDomain()); else return r.chance(1,3)?VF::zeros(c.size(),s.n()):r.chance(1,2)?VF::zeros(c.size(),EuclideanDomain(s.n())):VF(c.size(),s.n()); }(); 
                  for(std::size_t k=0;k<c.size();++k) { SF f=bld(r,s,c[k]); if(r.chance(1,2)) z.set(k,f); else z[k]=f; } v.f=z; return v; }
        case 4: if constexpr(!uni<A>) if(c.size()>=2) { std::size_t m=1+r.below(c.size()-1); std::vector<int> c1(c.begin(),c.begin()+static_cast<long>(m)), c2(c.begin()+static_cast<long>(m),c.end()); bool s1=m==1&&r.chance(2,3), s2=c2.size()==1&&r.chance(2,3);
                  if(s1&&s2) { SF a=bld(r,s,c1[0]); v.f=join(a,bld(r,s,c2[0])); } else if(s1) { SF a=bld(r,s,c1[0]); auto b=vec(r,s,c2); v.f=join(a,b.f); v.noder=b.noder; } else if(s2) { auto a=vec(r,s,c1); v.f=join(a.f,bld(r,s,c2[0])); v.noder=a.noder; } else { auto a=vec(r,s,c1), b=vec(r,s,c2); v.f=join(a.f,b.f); v.noder=isV<P>; } return v; }
                v.f=VF(L()); return v;
        case 5: { std::size_t m=c.size(); bool same=true; for(int k:c) same=same&&k==c[0]; if(same) { v.f=VF(m,bld(r,s,c[0])); return v; } v.f=VF(L()); return v; }
        case 6: v.f=vbyform(s,c); return v;
        default: v.f=vbyexpr(r,s,c); return v; } }
template<class P,class A> static VObj<P,A> vgen(Rng& r, Sit<P,A>& s, std::size_t m, int depth);
// compose with a new outer function; the nodes of its components are added to the program
template<class P,class A> static VObj<P,A> comp(Rng& r, Sit<P,A>& s, int depth) { VObj<P,A> res; 
    bool gs=r.chance(1,2), fs=r.chance(1,2); std::vector<int> gc; std::optional<ScalarFunction<P,A>> g1; std::optional<VObj<P,A>> gv;
    if(gs) { gc.push_back(anynode(r,s)); g1=bld(r,s,gc[0]); } else { gv=vgen(r,s,1+r.below(3),depth-1); gc=gv->c; }
    Bx b; for(int k:gc) b.push_back(s.p.rg[static_cast<std::size_t>(k-1)]);
    auto go=[&](auto t) { typedef decltype(t) T; auto fsit=mksit<P,T>(r,b,static_cast<int>(r.range(1,4)),s.lat?P_ALL:P_SMOOTH|P_INV); std::vector<int> fc; std::optional<ScalarFunction<P,T>> f1; std::optional<VObj<P,T>> fv; 
        if(fs) { fc.push_back(fsit.p.size()); f1=bld(r,fsit,fc[0]); } else { std::size_t m=1+r.below(3); std::vector<int> c; for(std::size_t k=0;k<m;++k) c.push_back(anynode(r,fsit)); fv=vec(r,fsit,c); fc=c; }
        std::vector<int> mp; for(std::size_t k=0;k<fsit.p.nd.size();++k) { Node nd=fsit.p.nd[k]; if(nd.op=="var") { mp.push_back(gc[static_cast<std::size_t>(nd.a-1)]); continue; } if(nd.op!="cst"&&nd.op!="pi") { if(nd.a) nd.a=mp[static_cast<std::size_t>(nd.a-1)]; if(nd.b) nd.b=mp[static_cast<std::size_t>(nd.b-1)]; } s.p.nd.push_back(nd); s.p.rg.push_back(fsit.p.rg[k]); mp.push_back(s.p.size()); }
        auto root=[&](int k){ int q=app(s,"pos",mp[static_cast<std::size_t>(k-1)],0); s.dep[q]=gc; return q; };
        bool noder=false; if(fv) noder=noder||fv->noder; if(gv) noder=noder||false;
        if(fs) { int q=root(fc[0]); ScalarFunction<P,A> h=[&]{ if constexpr(uni<T>) return compose(*f1,*g1); else return compose(*f1,gv->f); }(); s.given[q]=h; res.c.push_back(q); res.f=VectorFunction<P,A>(List<ScalarFunction<P,A>>(1u,h)); if(isA<P>) s.opq.insert(q); }
        else { VectorFunction<P,A> h=[&]{ if constexpr(uni<T>) return compose(fv->f,*g1); else return compose(fv->f,gv->f); }(); for(std::size_t k=0;k<fc.size();++k) { int q=root(fc[k]); s.given[q]=h.get(k); res.c.push_back(q); if(isA<P>||noder) s.opq.insert(q); } res.f=h; }
        res.noder=noder||isA<P>; };
    if(gs) go(Real(0)); else { if constexpr(true) { struct X{}; go(RealVector(1u,Real(0))); } }
    return res; }
template<class P,class A> static VObj<P,A> vgen(Rng& r, Sit<P,A>& s, std::size_t m, int depth) { typedef ScalarFunction<P,A> SF; typedef VectorFunction<P,A> VF; typedef Number<P> Y; VObj<P,A> v;
    auto cc=[&]{ std::vector<int> c; int one=anynode(r,s); bool same=r.chance(1,10); for(std::size_t k=0;k<m;++k) c.push_back(same?one:anynode(r,s)); return c; };
    auto cv=[&](std::vector<int>& cs){ Vector<Y> w(m,num<P>(Rational(0))); for(std::size_t k=0;k<m;++k) { Rational q=mkcst(r); w[k]=num<P>(q); cs.push_back(appc(s,q)); } return w; };
    auto nodes=[&](const char* o, std::vector<int> const& a, std::vector<int> const& b) { std::vector<int> c; for(std::size_t k=0;k<a.size();++k) c.push_back(app(s,o,a[k],b.empty()?0:b[b.size()==1?0:k])); return c; };
    if(depth<=0) return vec(r,s,cc());
    switch(r.below(14)) {
        case 0: { auto w=cv(v.c); if constexpr(uni<A>) v.f=r.chance(1,2)?VF::constant(w):VF::constant(RealDomain(),w); else v.f=r.chance(1,3)?VF::constant(s.n(),w):r.chance(1,2)?VF::constant(EuclideanDomain(s.n()),w):VF::zeros(m,s.n()).create_constant(w); return v; }
        case 1: if constexpr(!uni<A>) { v.f=r.chance(1,2)?VF::identity(s.n()):VF::identity(EuclideanDomain(s.n())); for(std::size_t k=0;k<s.n();++k) v.c.push_back(static_cast<int>(k)+1); return v; } return vec(r,s,cc());
        case 2: case 3: return comp(r,s,depth);
        case 4: if constexpr(!isA<P>) { auto a=vgen(r,s,m,depth-1); auto b=vgen(r,s,a.c.size(),0); v.c=nodes("add",a.c,b.c); v.f=a.f+b.f; return v; } return vec(r,s,cc());
        case 5: if constexpr(!isA<P>&&!uni<A>) { auto a=vgen(r,s,m,depth-1); auto b=vgen(r,s,a.c.size(),0); v.c=nodes("sub",a.c,b.c); v.f=a.f-b.f; return v; } return vec(r,s,cc());
        case 6: if constexpr(!isA<P>) { auto a=vgen(r,s,m,depth-1); int q=anynode(r,s); SF f=bld(r,s,q); v.c=nodes("mul",a.c,{q}); if constexpr(!uni<A>) { if(r.chance(1,2)) v.f=f*a.f; else v.f=a.f*f; } else v.f=a.f*f; return v; } return vec(r,s,cc());
        case 7: if constexpr(!isA<P>&&!uni<A>) { auto a=vgen(r,s,m,depth-1); int q=anynode(r,s); if(s.p.rg[static_cast<std::size_t>(q-1)].has0(0.1)) return a; SF f=bld(r,s,q); v.c=nodes("div",a.c,{q}); v.f=a.f/f; return v; } return vec(r,s,cc());
        case 8: if constexpr(isE<P>&&!uni<A>) { auto a=vgen(r,s,m,depth-1); bool ng=r.chance(1,2); v.c=nodes(ng?"neg":"pos",a.c,{}); v.f=ng?-a.f:+a.f; return v; } return vec(r,s,cc());
        case 9: if constexpr(isE<P>&&!uni<A>) { auto a=vgen(r,s,m,depth-1); m=a.c.size(); std::vector<int> cs; auto w=cv(cs); switch(r.below(4)) { case 0: v.c=nodes("add",a.c,cs); v.f=a.f+w; break; case 1: v.c=nodes("add",cs,a.c); v.f=w+a.f; break; case 2: v.c=nodes("sub",a.c,cs); v.f=a.f-w; break; default: v.c=nodes("sub",cs,a.c); v.f=w-a.f; break; } return v; } return vec(r,s,cc());
        case 10: if constexpr(isE<P>&&!uni<A>) { auto a=vgen(r,s,m,depth-1); Rational q=mkcst(r); if(q==0) q=Rational(2); int k=appc(s,q); Y c=num<P>(q); switch(r.below(3)) { case 0: v.c=nodes("mul",a.c,{k}); v.f=c*a.f; break; case 1: v.c=nodes("mul",a.c,{k}); v.f=a.f*c; break; default: if(s.p.rg[static_cast<std::size_t>(k-1)].has0(0.1)) return a; v.c=nodes("div",a.c,{k}); v.f=a.f/c; break; } return v; } return vec(r,s,cc());
        case 11: if constexpr(isE<P>&&!uni<A>) { int q=anynode(r,s); SF f=bld(r,s,q); Vector<Y> w(m,num<P>(Rational(0))); for(std::size_t k=0;k<m;++k) { bool one=r.chance(1,2); if(one) w[k]=num<P>(Rational(1)); v.c.push_back(one?q:appc(s,Rational(0))); } v.f=f*w; return v; } return vec(r,s,cc());
        case 12: if constexpr(!uni<A>) { auto a=vgen(r,s,m,depth-1); auto b=vgen(r,s,1+r.below(2),0); v.c=a.c; v.c.insert(v.c.end(),b.c.begin(),b.c.end()); v.f=join(a.f,b.f); v.noder=isV<P>||a.noder||b.noder; return v; } return vec(r,s,cc());
        default: return vec(r,s,cc()); } }
// ---- events -----------------------------------------------------------------------------------------------------------------
template<class X> static Vector<X> args(Pt const& x, X const& z) { Vector<X> v(x.size(),z); for(std::size_t i=0;i<x.size();++i) v[i]=[&]{ if constexpr(requires { z.precision(); }) return X(x[i],z.precision()); else return X(x[i]); }(); return v; }
static J ob(Real const& x) { return obj(FloatDPBounds(x,dp)); }
static J ob(ValidatedNumber const& x) { return obj(FloatDPBounds(x,dp)); }
static J ob(EffectiveNumber const& x) { return obj(FloatDPBounds(ValidatedNumber(x),dp)); }
static J ob(ApproximateNumber const& x) { return obj(FloatDPApproximation(x,dp)); }
template<class T> static J ob(T const& x) { return obj(x); }
template<class T> static J vob(Vector<T> const& x) { std::vector<J> v; for(SizeType i=0;i<x.size();++i) v.push_back(ob(x[i])); return J(v); }
template<class F> J row(const char* t, F const& f) { try { return J{J(t),f()}; } catch(std::exception const& e) { return J{J(std::string("exc ")+t),J(std::vector<J>{}),J(std::string(e.what()).substr(0,150))}; } }
static MultiplePrecision mp100(100);
template<class P,class A,class R> static std::vector<J> rows(Rng& r, Function<P,R(A)> const& f, Pt const& x) { std::vector<J> v;
    auto go=[&](const char* t, auto z) { typedef decltype(z) X; v.push_back(row(t,[&]{ auto xs=args<X>(x,z); 
        if constexpr(uni<A>) { if constexpr(uni<R>) return J{ob(r.chance(1,2)?f(xs[0]):evaluate(f,xs[0]))}; else return vob(Vector<X>(f(xs[0]))); } else { if constexpr(uni<R>) return J{ob(r.chance(1,2)?f(xs):evaluate(f,xs))}; else return vob(Vector<X>(f(xs))); } })); };
    go("da",FloatDPApproximation(0,dp)); if(r.chance(1,3)) go("ma",FloatMPApproximation(0,mp100)); if constexpr(!isA<P>) { go("db",FloatDPBounds(0,dp)); if(r.chance(1,3)) go("mb",FloatMPBounds(0,mp100)); } 
    if constexpr(isE<P>) if(r.chance(1,3)) go("re",Real(0));
    if(r.chance(1,3)) { if constexpr(isE<P>) go("en",EffectiveNumber(0)); else if constexpr(isV<P>) go("vn",ValidatedNumber(0)); else go("an",ApproximateNumber(0)); }
    return v; }
template<class P,class A,class R> static void val(Rng& r, const char* t, Sit<P,A> const& s, std::vector<int> const& c, Function<P,R(A)> const& f, Pt const* xs=nullptr, Pt const* xe=nullptr) { Pt x= xs?*xs:mkpt(r,s.box); 
    Ev("val")("t",t)("P",pname(P()))("p",s.p.json())("c",c)("x",ptj(xe?*xe:x))("n",static_cast<long>(x.size()))("as",static_cast<long>(SizeType(f.argument_size())))("rs",static_cast<long>(SizeType(f.result_size())))("r",J(rows(r,f,x))).emit(); }
// partial derivatives
template<class P,class A,class R> static J jac(Rng& r, Function<P,R(A)> const& f, Pt const& x) { std::vector<J> v;
    auto go=[&](const char* t, auto z) { typedef decltype(z) X; v.push_back(row(t,[&]{ auto xs=args<X>(x,z); std::vector<J> w;
        if constexpr(uni<A>) { if constexpr(uni<R>) w.push_back(J{ob(r.chance(1,2)?f.slope(xs[0]):slope(f,xs[0]))}); else { auto g=r.chance(1,2)?f.tangent(xs[0]):tangent(f,xs[0]); for(SizeType i=0;i<g.size();++i) w.push_back(J{ob(g[i])}); } }
        else { if constexpr(uni<R>) { auto g=r.chance(1,2)?f.gradient(xs):gradient(f,xs); std::vector<J> u; for(SizeType j=0;j<g.size();++j) u.push_back(ob(g[j])); w.push_back(J(u)); } 
               else { auto g=r.chance(1,2)?f.jacobian(xs):jacobian(f,xs); for(SizeType i=0;i<g.row_size();++i) { std::vector<J> u; for(SizeType j=0;j<g.column_size();++j) u.push_back(ob(g.at(i,j))); w.push_back(J(u)); } } }
        return J(w); })); };
    go("da",FloatDPApproximation(0,dp)); if constexpr(!isA<P>) { go("db",FloatDPBounds(0,dp)); if(r.chance(1,3)) go("mb",FloatMPBounds(0,mp100)); } else if(r.chance(1,3)) go("ma",FloatMPApproximation(0,mp100));
    return J(v); }
template<class P,class A,class R> static void grad(Rng& r, Sit<P,A> const& s, std::vector<int> const& c, Function<P,R(A)> const& f) { Pt x=mkpt(r,s.box); Ev("jac")("P",pname(P()))("p",s.p.json())("c",c)("x",ptj(x))("r",jac(r,f,x)).emit(); }
template<class P,class A,class R> static void der(Rng& r, Sit<P,A> const& s, std::vector<int> const& c, Function<P,R(A)> const& f) { Pt x=mkpt(r,s.box); std::size_t k=r.below(s.n()), l=r.below(s.n()); 
    auto D=[&](auto const& h, std::size_t j) { if constexpr(uni<A>) { return r.chance(1,2)?derivative(h):h.derivative(IndexZero()); } else return r.chance(1,2)?derivative(h,j):h.derivative(j); };
    Function<P,R(A)> d=D(f,k); bool two=r.chance(1,3); if(two) d=D(d,l);
    Ev("der")("P",pname(P()))("p",s.p.json())("c",c)("x",ptj(x))("k",static_cast<long>(k)+1)("l",two?static_cast<long>(l)+1:0)("n",static_cast<long>(x.size()))("as",static_cast<long>(SizeType(d.argument_size())))("rs",static_cast<long>(SizeType(d.result_size())))("r",J(rows(r,d,x))).emit(); }
template<class P> static void hess(Rng& r, Sit<P,RealVector> const& s, int c, ScalarMultivariateFunction<P> const& f) { Pt x=mkpt(r,s.box); 
    auto one=[&](auto z) { typedef decltype(z) X; auto xs=args<X>(x,z); auto h=hessian(f,xs); std::vector<J> v; for(SizeType i=0;i<h.row_size();++i) { std::vector<J> u; for(SizeType j=0;j<h.column_size();++j) u.push_back(ob(h.at(i,j))); v.push_back(J(u)); } return J(v); };
    J h; if constexpr(isA<P>) h=one(FloatDPApproximation(0,dp)); else h=one(FloatDPBounds(0,dp)); Ev("hess")("P",pname(P()))("p",s.p.json())("c",c)("x",ptj(x))("h",h).emit(); }
// interval images
template<class P> static void rng(Rng& r, Sit<P,RealVector> const& s, std::vector<int> const& c, int c0, VectorMultivariateFunction<P> const& f0, ScalarMultivariateFunction<P> const& g0, bool sm) { if constexpr(!isA<P>) { ValidatedVectorMultivariateFunction f(f0); ValidatedScalarMultivariateFunction g(g0);
    Vector<UpperIntervalType> x(s.n(),UpperIntervalType(0,0)); for(std::size_t i=0;i<s.n();++i) { double m=(s.box[i].l+s.box[i].u)/2, w=(s.box[i].u-s.box[i].l)/2; int z=static_cast<int>(r.below(3)); double k= z==0?1:z==1?0.25:std::ldexp(1.0,-30); x[i]=UpperIntervalType(FloatDP(ExactDouble(m-w*k),dp),FloatDP(ExactDouble(m+w*k),dp)); }
    auto iv=[](UpperIntervalType const& i){ return J{J("b"),J(str(i.lower_bound().raw())),J(str(i.upper_bound().raw()))}; };
    std::vector<J> pts; for(int k=0;k<3;++k) { Pt p; for(std::size_t i=0;i<s.n();++i) { Rational l(x[i].lower_bound().raw()), u(x[i].upper_bound().raw()); int z=static_cast<int>(r.below(3)); p.push_back(z==0?l:z==1?u:Rational(l+(u-l)*Rational(r.range(0,8),8))); } pts.push_back(ptj(p)); }
    auto y=evaluate_range(f,x); auto y0=evaluate_range(g,x); std::vector<J> v, jj, j0; for(SizeType i=0;i<y.size();++i) v.push_back(iv(y[i])); 
    if(sm) { auto jm=jacobian_range(f,x); for(SizeType i=0;i<jm.row_size();++i) { std::vector<J> u; for(SizeType j=0;j<jm.column_size();++j) u.push_back(iv(jm.at(i,j))); jj.push_back(J(u)); } auto gr=gradient_range(g,x); for(SizeType j=0;j<gr.size();++j) j0.push_back(iv(gr[j])); }
    Ev("rng")("P",pname(P()))("p",s.p.json())("c",c)("c0",c0)("x",pts)("r",v)("r0",iv(y0))("j",jj)("j0",j0).emit(); } }
template<class P,class A> static void runA(Rng& r) { typedef ScalarFunction<P,A> SF; typedef VectorFunction<P,A> VF;
    bool lat=r.chance(1,5); Bx b=mkbox(r,uni<A>?1:static_cast<std::size_t>(r.range(1,3))); auto s=mksit<P,A>(r,b,static_cast<int>(r.range(1,6)),lat?P_ALL:P_SMOOTH|P_INV); s.lat=lat;
    try {
        if(r.chance(1,3)) comp(r,s,1);
        int i=anynode(r,s); SF f=bld(r,s,i);
        val(r,"s",s,{i},f); if(smooth(s,i)) { if(dif(s,i)&&r.chance(1,2)) grad(r,s,{i},f); if(canopq(s,i)&&r.chance(1,2)) der(r,s,{i},f); if constexpr(!uni<A>) if(dif(s,i)&&r.chance(1,4)) hess(r,s,i,f); }
        auto v=vgen(r,s,1+r.below(3),2); val(r,"v",s,v.c,v.f); bool sm=true, op=!v.noder, df=true; for(int k:v.c) { sm=sm&&smooth(s,k); df=df&&dif(s,k); op=op&&canopq(s,k); } 
        if(sm&&df&&r.chance(1,2)) grad(r,s,v.c,v.f); if(sm&&op&&r.chance(1,2)) der(r,s,v.c,v.f);
        { std::size_t k=r.below(v.c.size()); const VF& cf=v.f; VF nf=v.f; SF e= r.chance(1,3)?SF(nf[k]):r.chance(1,2)?SF(cf[k]):v.f.get(k); val(r,"get",s,{v.c[k]},e); }
        // changing a copy leaves the original as it was
        if(r.chance(1,2)) { VF g=v.f; std::size_t k=r.below(v.c.size()); int j=anynode(r,s); SF h=bld(r,s,j); auto c2=v.c; bool ok=true; try { if(r.chance(1,2)) g.set(k,h); else g[k]=h; c2[k]=j; } catch(std::runtime_error const&) { ok=false; } val(r,"old",s,v.c,v.f); if(ok) val(r,"set",s,c2,g); }
        if constexpr(!uni<A>) {
            if(r.chance(1,3)) rng<P>(r,s,v.c,i,v.f,f,sm&&df&&smooth(s,i)&&dif(s,i));
            if constexpr(isE<P>) {
                if(smooth(s,i)&&canopq(s,i)&&r.chance(1,3)) { auto d=derivatives(f); Pt x=mkpt(r,s.box); Ev("ders")("p",s.p.json())("c",i)("x",ptj(x))("as",static_cast<long>(d.argument_size()))("r",J(rows(r,d,x))).emit(); }
                if(r.chance(1,3)) { std::vector<int> c; for(std::size_t k=0;k<s.n();++k) c.push_back(anynode(r,s)); auto fv=vec(r,s,c); Pt x=mkpt(r,s.box); 
                    if(smooth(s,i)&&canopq(s,i)&&r.chance(1,2)) { auto d=lie_derivative(f,fv.f); Ev("lie")("p",s.p.json())("g",std::vector<int>{i})("c",c)("x",ptj(x))("r",J(rows(r,d,x))).emit(); }
                    else if(sm&&op) { auto d=lie_derivative(v.f,fv.f); Ev("lie")("p",s.p.json())("g",v.c)("c",c)("x",ptj(x))("r",J(rows(r,d,x))).emit(); } }
                if(r.chance(1,4)) { SizeType a=r.below(3), c=r.below(3); Pt x=mkpt(r,s.box), xx; for(SizeType k=0;k<a;++k) xx.push_back(mkcst(r)); for(auto q:x) xx.push_back(q); for(SizeType k=0;k<c;++k) xx.push_back(mkcst(r)); if(r.chance(1,2)) { auto h=embed(a,f,c); val(r,"embed",s,{i},h,&xx,&x); } else { auto h=embed(a,v.f,c); val(r,"embed",s,v.c,h,&xx,&x); } }
            }
            // different sizes do not fit together
            if(r.chance(1,6)) { SF w=SF::coordinate(s.n()+1,0); bool t1=false,t2=false; try { auto z=join(f,w); } catch(std::exception const&) { t1=true; } try { auto z=f+w; } catch(std::exception const&) { t2=true; } Ev("bad")("j",t1||isV<P>)("a",t2).emit(); } }
    } catch(std::range_error const&) { } catch(std::exception const& e) { fail(pname(P()),e.what()); } }
template<class P> static void run(Rng& r) { if(r.chance(1,3)) runA<P,Real>(r); else runA<P,RealVector>(r); }
int main(int argc, char** argv) { Args A(argc,argv); Rng r(A.seed);
    for(long k=0;count()<A.n&&k<A.n*20;++k) { switch(r.below(5)) { case 0: case 1: run<EffectiveTag>(r); break; case 2: case 3: run<ValidatedTag>(r); break; default: run<ApproximateTag>(r); } }
    return 0; }
