// Multi-indices, expansions and polynomials: histories and algebra
#include "vh.hpp"
#include "numeric/numeric.hpp"
#include "algebra/algebra.hpp"
#include "algebra/vector.hpp"
#include "algebra/covector.hpp"
#include "algebra/multi_index.hpp"
#include "algebra/expansion.hpp"
#include "algebra/expansion.tpl.hpp"
#include "algebra/evaluate.tpl.hpp"
#include "geometry/interval.hpp"
#include "function/polynomial.hpp"
#include "function/chebyshev_polynomial.hpp"
#include "enc.hpp"
VH_MAIN_SUPPORT
using namespace vh;
typedef std::vector<long> Ix;
static Ix ix(MultiIndexData const& a) { Ix r; for(SizeType i=0;i<a.size();++i) r.push_back(static_cast<long>(a[i])); return r; }
static Ix ix(UniIndex const& a) { return Ix{static_cast<long>(a.degree())}; }
template<class I> I ui(Ix const& v) { if constexpr(Same<I,UniIndex>) return UniIndex(static_cast<DegreeType>(v[0])); else { MultiIndex a(v.size()); for(SizeType i=0;i<v.size();++i) a[i]=static_cast<DegreeType>(v[i]); return a; } }
static Ix mkix(Rng& r, int n, int d) { Ix v; for(int i=0;i<n;++i) v.push_back(r.chance(1,3)?0:r.range(0,d)); return v; }
struct Rq { std::string l,u; };
template<class X> J cf(X const& x) { if constexpr(Same<X,FloatDPUpperInterval>) return J{J(str(x.lower_bound().raw())),J(str(x.upper_bound().raw()))}; else if constexpr(requires { x.lower_raw(); }) return J{J(str(x.lower_raw())),J(str(x.upper_raw()))}; else if constexpr(requires { x.raw(); }) return J{J(str(x.raw())),J(str(x.raw()))}; else if constexpr(RawF<X>) return J{J(str(x)),J(str(x))}; else if constexpr(Same<X,Dyadic>) return J{J(str(x)),J(str(x))}; else return J{J(str(cast_exact(x))),J(str(cast_exact(x)))}; }
template<class E> J ej(E const& e) { std::vector<J> v; for(auto it=e.begin();it!=e.end();++it) { v.push_back(J{J(ix(it->index())),cf(it->coefficient())}); } return J(v); }

// ---- multi-indices --------------------------------------------------------------------------------------
static void mindex(Rng& r) {
    int n=static_cast<int>(r.range(1,5)), m=static_cast<int>(r.range(1,4)); Ix va=mkix(r,n,m), vb=r.chance(1,5)?va:mkix(r,n,m); if(r.chance(1,3)) { vb=va; std::size_t i=r.below(vb.size()),j=r.below(vb.size()); std::swap(vb[i],vb[j]); }
    MultiIndex a=ui<MultiIndex>(va), b=ui<MultiIndex>(vb); int k=static_cast<int>(r.below(4));
    auto ev=[&](const char* f, J const& res) { Ev("mi")("f",f)("a",va)("b",vb)("k",k)("r",res).emit(); };
    { MultiIndex c=a; ++c; ev("next",J(ix(c))); } ev("add",J(ix(a+b))); ev("mul",J(ix(a*static_cast<DegreeType>(k)))); ev("deg",J(Ix{static_cast<long>(a.degree())}));
    ev("lt_graded",J(static_cast<bool>(graded_less(a,b)))); ev("lt_lex",J(static_cast<bool>(lexicographic_less(a,b)))); ev("lt_rlex",J(static_cast<bool>(reverse_lexicographic_less(a,b)))); ev("eq",J(a==b)); ev("ne",J(a!=b));
    ev("sub",J(ix((a+b)-b))); { MultiIndex c(a); c=b; MultiIndex d=c; d[0]+=1; ev("copy",J(ix(c))); } ev("unit",J(ix(MultiIndex::unit(static_cast<SizeType>(n),static_cast<SizeType>(k%n))))); }
// ---- histories of expansions ------------------------------------------------------------------------------
template<class E, class F> void hist(Rng& r, E e, const char* ty, int n, int len, F mkc) {
    typedef typename E::IndexType I; 
    int d=static_cast<int>(r.range(1,3));
    Ev("hist")("f","new")("t",ty)("n",n)("r",ej(e)).emit();
    auto ev=[&](const char* f, Ix a, J c, J res) { Ev("hist")("f",f)("t",ty)("n",n)("a",a)("c",c)("q",res)("r",ej(e)).emit(); };
    constexpr bool sorted=requires { e.check(); e.insert(I(e.argument_size()),e.zero_coefficient()); };
    for(int s=0;s<len;++s) { Ix a=mkix(r,n,d); I ai=ui<I>(a); auto c=mkc(r); E& x=e;
        if(e.size()>12) { x.clear(); ev("clear",a,J(""),J(0)); continue; }
        switch(r.below(sorted?9u:15u)) {
            case 0: case 1: x.set(ai,c); ev("set",a,cf(c),J(0)); break;
            case 2: x.at(ai)=c; ev("set",a,cf(c),J(0)); break;
            case 3: { E const& y=e; auto g=y.get(ai); ev("get",a,J(""),cf(g)); break; }
            case 4: { E y=e; x=y; if constexpr(!sorted) y.append(ai,c); else y.set(ai,c); ev("copy",a,J(""),J(0)); break; }
            case 5: if constexpr(sorted) { bool ok=true; try { x.insert(ai,c); } catch(std::runtime_error const&) { ok=false; } ev("insert",a,cf(c),J(ok)); } else { x[ai]=c; ev("set",a,cf(c),J(0)); } break;
            case 6: x.remove_zeros(); ev("nozero",a,J(""),J(0)); break;
            case 7: if(e.size()>0) { auto p=e.begin(); long k=static_cast<long>(r.below(e.size())); for(long i=0;i<k;++i) ++p; x.erase(p); ev("erase",Ix{k},J(""),J(0)); } break;
            case 8: { E y(e); E z(std::move(y)); x=std::move(z); ev("copy",a,J(""),J(0)); break; }
            case 9: if constexpr(!sorted) { x.append(ai,c); ev("append",a,cf(c),J(0)); } break;
            case 10: if constexpr(!sorted) { x.prepend(ai,c); ev("prepend",a,cf(c),J(0)); } break;
            case 11: if constexpr(!sorted) { x.graded_sort(); ev("gsort",a,J(""),J(0)); } break;
            case 12: if constexpr(!sorted) { x.reverse_lexicographic_sort(); ev("rsort",a,J(""),J(0)); } break;
            case 13: if constexpr(!sorted) { if constexpr(requires { x.zero_coefficient()+x.zero_coefficient(); }) { x.reverse_lexicographic_sort(); ev("rsort",a,J(""),J(0)); if constexpr(requires(typename E::CoefficientType t) { t+=t; }) { x.combine_terms(); ev("combine",a,J(""),J(0)); } } } break;
            default: if constexpr(!sorted) { long k=static_cast<long>(r.below(e.size()+1)); auto p=e.begin(); for(long i=0;i<k;++i) ++p; x.insert(p,ai,c); Ix b=a; b.push_back(k); ev("insertat",b,cf(c),J(0)); } break;
        } } }
// ---- polynomials ------------------------------------------------------------------------------------------
typedef std::vector<std::pair<Ix,Rational>> QP;      // the exact polynomial inside
static J qj(QP const& p) { std::vector<J> v; for(auto const& t:p) v.push_back(J{J(t.first),J(str(t.second))}); return J(v); }
static Rational mkc(Rng& r) { switch(r.below(4)) { case 0: return Rational(r.range(-3,3)); case 1: return Rational(r.range(-40,40),16); case 2: return Rational(ExactDouble(mkd(r,2))); default: return Rational(r.range(-9,9)); } }
template<class X> auto prec() { if constexpr(Same<typename X::PrecisionType,MultiplePrecision>) return MultiplePrecision(80); else return dp; }
template<class X> X enclose(Rng& r, Rational const& q, bool wide) {
    auto pr=prec<X>();
    if constexpr(requires(X x) { x.lower_raw(); }) { typedef std::decay_t<decltype(std::declval<X>().lower_raw())> F; F l(q,down,pr), u(q,up,pr); if(wide) { F w(ExactDouble(std::ldexp(r.unit(),-static_cast<int>(r.below(8)))),near,pr); l=sub(down,l,w); if(r.chance(2,3)) u=add(up,u,w); } return X(l,u); }
    else return X(q,pr); }
template<class I, class X> Polynomial<I,X> mkp(Rng& r, int n, QP& q, int d, int nt, bool wide) {
    X z=enclose<X>(r,Rational(0),false); typename Polynomial<I,X>::ArgumentSizeType as=[&]{ if constexpr(Same<I,UniIndex>) return SizeOne(); else return static_cast<SizeType>(n); }(); Polynomial<I,X> p(as,z); q.clear();
    for(int i=0;i<nt;++i) { Ix a=mkix(r,n,d); bool dup=false; for(auto& t:q) if(t.first==a) dup=true; if(dup) continue; Rational c=mkc(r); if(c==0&&!r.chance(1,5)) c=1; q.push_back({a,c}); p[ui<I>(a)]=enclose<X>(r,c,wide&&r.chance(1,2)); }
    return p; }
template<class I, class X> void poly(Rng& r, const char* ty) {
    int n=Same<I,UniIndex>?1:static_cast<int>(r.range(1,3)); bool wide=requires(X x) { x.lower_raw(); } && r.chance(1,3);
    int d=static_cast<int>(r.range(1,3)); QP qa,qb; auto p=mkp<I,X>(r,n,qa,d,static_cast<int>(r.range(0,6)),wide), q=mkp<I,X>(r,n,qb,d,static_cast<int>(r.range(0,5)),wide);
    Rational c=mkc(r); bool wc=wide&&r.chance(1,2); X xc=enclose<X>(r,c,wc); 
    auto ev=[&](const char* f, int k, J const& res, std::vector<J> const& extra=std::vector<J>()) { Ev("poly")("f",f)("t",ty)("n",n)("w",wide)("a",qj(qa))("b",qj(qb))("c",J(str(c)))("k",k)("x",J(extra))("r",res).emit(); };
    typedef Polynomial<I,X> P;
    ev("add",0,ej(P(p+q))); ev("sub",0,ej(P(p-q))); ev("mul",0,ej(P(p*q))); ev("neg",0,ej(P(-p))); ev("pos",0,ej(P(+p)));
    ev("addc",0,ej(P(p+xc))); ev("subc",0,ej(P(p-xc))); ev("mulc",0,ej(P(p*xc))); ev("cadd",0,ej(P(xc+p))); ev("csub",0,ej(P(xc-p))); ev("cmul",0,ej(P(xc*p)));
    if(c!=0&&!wc) { ev("divc",0,ej(P(p/xc))); }
    { P t=p; t+=q; ev("add",0,ej(t)); t=p; t-=q; ev("sub",0,ej(t)); t=p; t*=q; ev("mul",0,ej(t)); t=p; t+=xc; ev("addc",0,ej(t)); t=p; t*=xc; ev("mulc",0,ej(t)); t=p; t-=xc; ev("subc",0,ej(t)); }
    { P t=p; t=xc; ev("const",0,ej(t)); t=P(q); ev("second",0,ej(t)); }
    { P t=p; t+=t; ev("dbl",0,ej(t)); t=p; t*=t; ev("sqr",0,ej(t)); t=p; t-=t; ev("zero",0,ej(t)); }
    ev("degree",0,J(static_cast<long>(p.degree()))); ev("value",0,cf(p.value()));
    for(int t=0;t<2;++t) { int k=static_cast<int>(r.below(static_cast<std::uint64_t>(n))); P s=p; 
        if constexpr(Same<I,UniIndex>) s.differentiate(IndexZero()); else s=derivative(p,static_cast<SizeType>(k)); ev("der",k,ej(s)); P s2=s; s2+=q; ev("derplus",k,ej(s2));
        { Ix a=mkix(r,n,2); if(r.chance(1,3)) a=Ix(static_cast<std::size_t>(n),0); P const& cs=s; ev("derget",k,cf(cs[ui<I>(a)]),{J(a)}); }
        P u=p; if constexpr(Same<I,UniIndex>) u.antidifferentiate(IndexZero()); else u=antiderivative(p,static_cast<SizeType>(k)); ev("anti",k,ej(u)); }
    { int k=static_cast<int>(r.below(5)); P s=truncate(p,static_cast<DegreeType>(k)); ev("trunc",k,ej(s)); }
    { P s=p; s.cleanup(); ev("pos",0,ej(s)); }
    if constexpr(Same<I,MultiIndex>&&Same<X,FloatDPBounds>) { Expansion<MultiIndex,FloatDPUpperInterval> s(p.expansion()); ev("pos",0,ej(s)); Expansion<MultiIndex,FloatDPApproximation> t(p.expansion()); Ev("poly")("f","pos")("t","mda")("n",n)("w",wide)("a",qj(qa))("b",qj(qb))("c",J(str(c)))("k",0)("x",J(std::vector<J>()))("r",ej(t)).emit(); }
    { Ix a=mkix(r,n,2); P const& s=p; ev("get",0,cf(s[ui<I>(a)]),{J(a)}); }
    // evaluation
    for(int t=0;t<2;++t) { std::vector<Rational> qs; std::vector<J> xs; std::vector<X> xv; for(int i=0;i<n;++i) { qs.push_back(t==0?Rational(r.range(-2,2)):mkc(r)); xs.push_back(J(str(qs.back()))); xv.push_back(enclose<X>(r,qs.back(),wide&&r.chance(1,3))); }
        if constexpr(Same<I,UniIndex>) { X y=evaluate(p,xv[0]); ev("eval",0,cf(y),xs); } else { Vector<X> v(static_cast<SizeType>(n),xv[0]); for(int i=0;i<n;++i) v[static_cast<SizeType>(i)]=xv[static_cast<std::size_t>(i)]; X y=evaluate(p,v); ev("eval",0,cf(y),xs);
            X y2=p.expansion().size()==0?y:power_evaluate(p.expansion(),v); ev("eval",0,cf(y2),xs); 
            if(n>1) { int k=static_cast<int>(r.below(static_cast<std::uint64_t>(n))); P s=partial_evaluate(p,static_cast<SizeType>(k),xv[static_cast<std::size_t>(k)]); ev("peval",k,ej(s),{xs[static_cast<std::size_t>(k)]}); }
            int before=static_cast<int>(r.below(3)), after=static_cast<int>(r.below(3)); ev("embed",before,ej(embed(static_cast<SizeType>(before),p.expansion(),static_cast<SizeType>(after))),{J(after)}); } }
    // composition
    { int m=static_cast<int>(r.range(1,2)); std::vector<QP> gs(static_cast<std::size_t>(n)); std::vector<MultivariatePolynomial<X>> gp; std::vector<J> js; 
      for(int i=0;i<n;++i) { gp.push_back(mkp<MultiIndex,X>(r,m,gs[static_cast<std::size_t>(i)],1,static_cast<int>(r.range(0,3)),false)); js.push_back(qj(gs[static_cast<std::size_t>(i)])); }
      if(p.degree()<=5) { if constexpr(Same<I,UniIndex>) { MultivariatePolynomial<X> s=compose(p,gp[0]); ev("comp",m,ej(s),js); }
        else { Vector<MultivariatePolynomial<X>> g(static_cast<SizeType>(n),gp[0]); for(int i=0;i<n;++i) g[static_cast<SizeType>(i)]=gp[static_cast<std::size_t>(i)]; MultivariatePolynomial<X> s=compose(p,g); ev("comp",m,ej(s),js); } } }
    { bool eq=definitely(p==q), ne=definitely(p!=q); if(!wide) ev("eq",0,J{J(eq),J(ne)}); if(r.chance(1,2)) { P s=p; auto t=(s==p); if(!wide) { qb=qa; ev("eq",0,J{J(static_cast<bool>(definitely(t))),J(false)}); } } }
}
// ---- Chebyshev polynomials -----------------------------------------------------------------------------------
template<class X> void cheb(Rng& r) {
    typedef UnivariateChebyshevPolynomial<X> C; auto pr=prec<X>();
    auto mk=[&](std::vector<Rational>& q) { int d=static_cast<int>(r.range(0,6)); q.clear(); std::vector<X> v; for(int i=0;i<=d;++i) { q.push_back(mkc(r)); v.push_back(X(q.back(),pr)); } return C(static_cast<DegreeType>(d),[&](DegreeType k) { return v[k]; }); };
    std::vector<Rational> qa,qb; C a=mk(qa), b=mk(qb); Rational c=mkc(r); X xc(c,pr);
    auto ev=[&](const char* f, C const& s, std::vector<Rational> const& qa2, std::vector<Rational> const& qb2) { for(int t=0;t<2;++t) { Rational x=mkc(r); X y=s(X(x,pr)); std::vector<J> va,vb; for(auto& z:qa2) va.push_back(J(str(z))); for(auto& z:qb2) vb.push_back(J(str(z)));
        Ev("cheb")("f",f)("a",J(va))("b",J(vb))("c",J(str(c)))("x",J(str(x)))("r",J(str(y.raw()))).emit(); } };
    ev("pos",a,qa,qb); ev("add",a+b,qa,qb); ev("sub",a-b,qa,qb); ev("mul",a*b,qa,qb); ev("neg",-a,qa,qb); ev("addc",a+xc,qa,qb); ev("mulc",a*xc,qa,qb); ev("sqr",sqr(a),qa,qb);
    int k=static_cast<int>(r.below(7)); std::vector<Rational> e(static_cast<std::size_t>(k)+1,Rational(0)); e.back()=1; ev("pos",C::basis(static_cast<SizeType>(k),pr),e,qb);
    std::vector<Rational> e0{c}; ev("pos",C::constant(xc),e0,qb); std::vector<Rational> e1{Rational(0),Rational(1)}; ev("pos",C::coordinate(pr),e1,qb); ev("mul",C::coordinate(pr)*a,e1,qa); ev("add",C::basis(static_cast<SizeType>(k),pr)+b,e,qb);
}
int main(int argc, char** argv) {
    Args A(argc,argv); Rng r(A.seed);
    auto mf=[](Rng& g) { return FloatDP(cast_exact(g.chance(1,4)?0.0:static_cast<double>(g.range(-9,9))),dp); };
    auto mb=[](Rng& g) { double v=g.chance(1,4)?0.0:static_cast<double>(g.range(-9,9)); return FloatDPApproximation(v,dp); };
    while(count()<A.n) { try { switch(r.below(8)) {
        case 0: for(int i=0;i<6;++i) mindex(r); break;
        case 1: { int n=static_cast<int>(r.range(1,3)); hist(r,Expansion<MultiIndex,FloatDP>(static_cast<SizeType>(n),FloatDP(0,dp)),"plain",n,40,mf); break; }
        case 2: { int n=static_cast<int>(r.range(1,3)); hist(r,Expansion<MultiIndex,FloatDPApproximation>(static_cast<SizeType>(n),FloatDPApproximation(0,dp)),"plain",n,40,mb); break; }
        case 3: { int n=static_cast<int>(r.range(1,3)); if(r.chance(1,2)) hist(r,SortedExpansion<MultiIndex,FloatDP,GradedIndexLess>(static_cast<SizeType>(n),FloatDP(0,dp)),"graded",n,40,mf);
                  else hist(r,SortedExpansion<MultiIndex,FloatDP,ReverseLexicographicIndexLess>(static_cast<SizeType>(n),FloatDP(0,dp)),"rlex",n,40,mf); break; }
        case 4: poly<MultiIndex,FloatDPBounds>(r,"mdb"); break;
        case 5: if(r.chance(1,2)) poly<MultiIndex,FloatDPApproximation>(r,"mda"); else poly<MultiIndex,FloatMPBounds>(r,"mmb"); break;
        case 6: poly<UniIndex,FloatDPBounds>(r,"udb"); break;
        case 7: if(r.chance(1,2)) cheb<FloatDPApproximation>(r); else cheb<FloatMPApproximation>(r); break;
    } } catch(std::exception const& e) { Ev("fail")("why",e.what()).emit(); } }
    return 0;
}
