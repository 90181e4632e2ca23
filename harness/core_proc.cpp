// Procedures: evaluation, gradients, second derivatives, and reduction of boxes by propagating constraints backwards
#include "enc.hpp"
#include "prog.hpp"
#include "algebra/algebra.hpp"
#include "algebra/vector.hpp"
#include "algebra/covector.hpp"
#include "algebra/differential.hpp"
#include "algebra/expansion.hpp"
#include "algebra/expansion.inl.hpp"
#include "algebra/expansion.tpl.hpp"
#include "function/formula.hpp"
#include "function/function.hpp"
#include "function/taylor_model.hpp"
#include "function/procedure.hpp"
#include "function/procedure.tpl.hpp"
#include "geometry/interval.hpp"
#include "geometry/box.hpp"
#include "symbolic/variable.hpp"
#include "symbolic/space.hpp"
namespace Ariadne { Void simple_hull_reduce(UpperBoxType& dom, const ValidatedProcedure& f, IntervalDomainType codom); Void simple_hull_reduce(UpperBoxType& dom, const Vector<ValidatedProcedure>& f, BoxDomainType codom); }
using namespace Ariadne;
VH_MAIN_SUPPORT
using namespace vh;
#include "constr.hpp"
static ApproximateNumber const* dummy=nullptr;
template<class Y> Procedure<Y> mkproc(Rng& r, Prog const& p, Formula<Y> const& f) { SizeType n=static_cast<SizeType>(p.nv); switch(r.below(3)) { case 0: return Procedure<Y>(n,f); case 1: return Procedure<Y>(ScalarMultivariateFunction<Paradigm<Y>>(EuclideanDomain(n),f)); default: return make_procedure(ScalarMultivariateFunction<Paradigm<Y>>(EuclideanDomain(n),f)); } }
template<class X> Vector<X> args(Pt const& x, X const& z) { Vector<X> v(x.size(),z); for(std::size_t i=0;i<x.size();++i) v[i]=X(x[i],z.precision()); return v; }
template<class F> J row(const char* t, F const& f) { try { return J{J(t),f()}; } catch(std::exception const& e) { return J{J(std::string("exc ")+t),J(std::vector<J>{}),J(std::string(e.what()).substr(0,150))}; } }
template<class T> J vob(Vector<T> const& x) { std::vector<J> v; for(SizeType i=0;i<x.size();++i) v.push_back(obj(x[i])); return J(v); }
static MultiplePrecision mp100(100);
template<class Y> void ev(Rng& r) { std::size_t n=1+r.below(3); Bx b=mkbox(r,n); Prog p=mkprog(r,b,static_cast<int>(r.range(1,8)),P_SMOOTH|P_INV|(r.chance(1,2)?P_LAT:0)); auto f=forms<Y>(r,p); Pt x=mkpt(r,b); typedef Paradigm<Y> P; constexpr bool A=Same<P,ApproximateTag>; const char* pn=A?"A":"V";
    if(r.chance(2,3)) { auto q=mkproc<Y>(r,p,f.back()); std::vector<J> rs; 
        if constexpr(A) rs.push_back(row("da",[&]{ return J{obj(evaluate(q,args(x,FloatDPApproximation(0,dp))))}; })); else { rs.push_back(row("db",[&]{ return J{obj(evaluate(q,args(x,FloatDPBounds(0,dp))))}; })); if(r.chance(1,2)) rs.push_back(row("mb",[&]{ return J{obj(evaluate(q,args(x,FloatMPBounds(0,mp100))))}; })); }
        Ev("val")("t","proc")("P",pn)("p",p.json())("c",std::vector<int>{p.size()})("x",ptj(x))("n",static_cast<long>(n))("as",static_cast<long>(q.argument_size()))("rs",1)("r",J(rs)).emit();
        if(!hasop(p,{"abs","max","min"})) { std::vector<J> w; w.push_back(row(A?"da":"db",[&]{ std::vector<J> u; if constexpr(A) { auto g=gradient(q,args(x,FloatDPApproximation(0,dp))); for(SizeType j=0;j<g.size();++j) u.push_back(obj(g[j])); } else { auto g=gradient(q,args(x,FloatDPBounds(0,dp))); for(SizeType j=0;j<g.size();++j) u.push_back(obj(g[j])); } return J{J(u)}; }));
            Ev("jac")("P",pn)("p",p.json())("c",std::vector<int>{p.size()})("x",ptj(x))("r",J(w)).emit();
            if(!hasop(p,{"asin","acos","atan"})) { Pt d; for(std::size_t i=0;i<n;++i) d.push_back(Rational(r.range(-4,4),2)); J h; if constexpr(A) h=obj(hessian(q,args(x,FloatDPApproximation(0,dp)),args(d,FloatDPApproximation(0,dp)))); else h=obj(hessian(q,args(x,FloatDPBounds(0,dp)),args(d,FloatDPBounds(0,dp)))); Ev("pdd")("P",pn)("p",p.json())("x",ptj(x))("d",ptj(d))("h",h).emit(); } } }
    else { std::size_t m=1+r.below(3); std::vector<int> c; Vector<Formula<Y>> fs(m,f[0]); for(std::size_t k=0;k<m;++k) { c.push_back(p.size()-static_cast<int>(r.below(static_cast<std::uint64_t>(p.size())))); fs[k]=f[static_cast<std::size_t>(c[k]-1)]; }
        Vector<Procedure<Y>> q=[&]{ if(m==1&&r.chance(1,2)) return Vector<Procedure<Y>>(Procedure<Y>(n,fs[0])); if(r.chance(1,2)) return Vector<Procedure<Y>>(n,fs); return Vector<Procedure<Y>>(VectorMultivariateFunction<P>(EuclideanDomain(n),fs)); }();
        auto go=[&](auto const& z) { typedef std::decay_t<decltype(z)> X; List<X> t(q.temporaries_size(),z); execute(t,q,args(x,z)); Vector<X> v(q.result_size(),z); for(SizeType i=0;i<v.size();++i) v[i]=t[q._results[i]]; return vob(v); };
        std::vector<J> rs; if constexpr(A) rs.push_back(row("da",[&]{ return go(FloatDPApproximation(0,dp)); })); else rs.push_back(row("db",[&]{ return go(FloatDPBounds(0,dp)); }));
        Ev("val")("t","vproc")("P",pn)("p",p.json())("c",c)("x",ptj(x))("n",static_cast<long>(n))("as",static_cast<long>(q.argument_size()))("rs",static_cast<long>(q.result_size()))("r",J(rs)).emit(); } (void)dummy; }
// a polynomial given by its expansion
static void poly(Rng& r) { std::size_t n=1+r.below(3); Expansion<MultiIndex,ValidatedNumber> e(n,ValidatedNumber(0)); std::vector<std::vector<int>> seen; std::vector<Rational> cf; for(long k=r.range(1,6);k>0;--k) { MultiIndex a(n); std::vector<int> ix(n,0); for(long d=r.range(0,4);d>0;--d) { std::size_t j=r.below(n); a[j]+=1; ix[j]+=1; } bool dup=false; for(auto& s:seen) dup=dup||s==ix; if(dup) continue; seen.push_back(ix); long cc=r.range(-16,16); cf.push_back(Rational(cc,8)); e.append(a,ValidatedNumber(Dyadic(Integer(cc),3u))); }
    e.sort(ReverseLexicographicIndexLess()); Bx b=mkbox(r,n); Pt x=mkpt(r,b); Prog p; p.nv=static_cast<int>(n); auto put=[&](const char* o,int a,int bb,int k){ Node nd; nd.op=o; nd.a=a; nd.b=bb; nd.n=k; p.nd.push_back(nd); return p.size(); }; for(std::size_t i=0;i<n;++i) put("var",static_cast<int>(i)+1,0,0); auto cst=[&](Rational q){ Node nd; nd.op="cst"; nd.c=q; p.nd.push_back(nd); return p.size(); };
    int s=cst(Rational(0)); for(std::size_t q0=0;q0<seen.size();++q0) { int t=cst(cf[q0]); for(std::size_t i=0;i<n;++i) { int k=seen[q0][i]; if(k) { int q=put("pow",static_cast<int>(i)+1,0,k); t=put("mul",t,q,0); } } s=put("add",s,t,0); }
    ValidatedProcedure q(e); std::vector<J> rs; rs.push_back(row("db",[&]{ return J{obj(evaluate(q,args(x,FloatDPBounds(0,dp))))}; }));
    Ev("val")("t","poly")("P","V")("p",p.json())("c",std::vector<int>{s})("x",ptj(x))("n",static_cast<long>(n))("as",static_cast<long>(q.argument_size()))("rs",1)("r",J(rs)).emit(); }
// backward propagation: all points which satisfy the constraints have to stay
static void red(Rng& r) { std::size_t n=1+r.below(3); Bx b=mkbox(r,n); Prog p=mkprog(r,b,static_cast<int>(r.range(1,5)),P_SMOOTH|P_INV|P_LAT); if(hasop(p,{"sqrt"})&&hasop(p,{"tan","asin","acos"})) return; auto f=forms<ValidatedNumber>(r,p);
    std::vector<Pt> xs; for(int i=0;i<5;++i) xs.push_back(mkpt(r,b)); std::size_t m=r.chance(2,3)?1:2; std::vector<int> c; for(std::size_t k=0;k<m;++k) c.push_back(k==0?p.size():p.size()-static_cast<int>(r.below(static_cast<std::uint64_t>(p.size())))); std::vector<DI> cd; Pt x0=xs[0]; bool off=r.chance(1,6);
    for(std::size_t k=0;k<m;++k) { double y=evald(p,c[k],x0); if(!(std::fabs(y)<1e6)) return; double e=std::ldexp(1.0,-static_cast<int>(r.range(0,40))); if(off) y+=4*e; double l=r.chance(1,5)?-1.0/0.0:y-e*(r.chance(1,2)?1:1e-6)-1e-9, u=r.chance(1,5)?1.0/0.0:y+e*(r.chance(1,2)?1:1e-6)+1e-9; cd.push_back(DI{l,u}); }
    UpperBoxType dom(n,UpperIntervalType(FloatDPUpperInterval(FloatDP(0,dp),FloatDP(0,dp)))); for(std::size_t i=0;i<n;++i) dom[i]=UpperIntervalType(FloatDP(ExactDouble(b[i].l),dp),FloatDP(ExactDouble(b[i].u),dp));
    auto iv=[&](DI const& d){ return IntervalDomainType(FloatDP(ExactDouble(d.l),dp),FloatDP(ExactDouble(d.u),dp)); };
    std::string st="ok"; try { for(int k=r.chance(1,3)?2:1;k>0;--k) { bool emp=false; for(std::size_t i=0;i<n;++i) emp=emp||decide(dom[i].lower_bound().raw()>dom[i].upper_bound().raw()); if(emp) break;
      if(m==1&&r.chance(1,2)) { ValidatedProcedure q=mkproc<ValidatedNumber>(r,p,f.back()); simple_hull_reduce(dom,q,iv(cd[0])); }
      else { Vector<Formula<ValidatedNumber>> fs(m,f[0]); for(std::size_t k2=0;k2<m;++k2) fs[k2]=f[static_cast<std::size_t>(c[k2]-1)]; Vector<ValidatedProcedure> q=(m==1&&r.chance(1,2))?Vector<ValidatedProcedure>(ValidatedProcedure(n,fs[0])):Vector<ValidatedProcedure>(n,fs); BoxDomainType bx(m,iv(cd[0])); for(std::size_t k2=0;k2<m;++k2) bx[k2]=iv(cd[k2]); simple_hull_reduce(dom,q,bx); } } } catch(std::exception const& e) { st=std::string(e.what()).substr(0,150); }
    std::vector<J> rb,db,cb,xj; for(std::size_t i=0;i<n;++i) { rb.push_back(J{J(str(dom[i].lower_bound().raw())),J(str(dom[i].upper_bound().raw()))}); db.push_back(ivj(b[i].l,b[i].u)); } for(auto const& d:cd) cb.push_back(ivj(d.l,d.u)); for(auto const& x:xs) xj.push_back(ptj(x));
    Ev("hull")("p",p.json())("c",c)("d",J(db))("cd",J(cb))("x",J(xj))("st",st)("r",J(rb)).emit(); }
int main(int argc, char** argv) { Args A(argc,argv); Rng r(A.seed); bool E=A.mode!="red", R=A.mode!="eval";
    for(long k=0;count()<A.n&&k<A.n*20;++k) { try { switch(r.below(10)) { case 0: if(E) ev<ApproximateNumber>(r); break; case 1: case 2: case 3: if(E) ev<ValidatedNumber>(r); break; case 4: if(E) poly(r); break; default: if(R) red(r); } }
      catch(std::exception const& e) { Ev("fail")("what",std::string(e.what()).substr(0,200)).emit(); } }
    return 0; }
