// Vectors, covectors, matrices, views, norms, decompositions, inverses and solutions of linear systems
#include "vh.hpp"
#include "numeric/numeric.hpp"
#include "algebra/algebra.hpp"
#include "algebra/vector.hpp"
#include "algebra/covector.hpp"
#include "algebra/matrix.hpp"
#include "algebra/matrix.tpl.hpp"
#include "algebra/diagonal_matrix.hpp"
#include "algebra/symmetric_matrix.hpp"
#include "geometry/interval.hpp"
using namespace Ariadne;
VH_MAIN_SUPPORT
using namespace vh;
typedef FloatDPUpperInterval UI;
template<class X> J cf(X const& x) {
    if constexpr(Same<X,UI>) return J{J(str(x.lower_bound().raw())),J(str(x.upper_bound().raw()))};
    else if constexpr(requires { x.lower_raw(); }) return J{J(str(x.lower_raw())),J(str(x.upper_raw()))};
    else if constexpr(requires { x.raw(); }) return J{J(str(x.raw())),J(str(x.raw()))};
    else return J{J(str(x)),J(str(x))}; }
template<class X> const char* tn() { if constexpr(Same<X,FloatDPBounds>) return "db"; else if constexpr(Same<X,FloatMPBounds>) return "mb"; else if constexpr(Same<X,FloatDPApproximation>) return "da"; else if constexpr(Same<X,FloatMPApproximation>) return "ma"; else if constexpr(Same<X,Rational>) return "q"; else if constexpr(Same<X,UI>) return "ui"; else return "f"; }
template<class X> X mk(Rational const& l, Rational const& u) {
    if constexpr(Same<X,Rational>) return l;
    else if constexpr(Same<X,UI>) return UI(FloatDPLowerBound(FloatDP(l,down,dp)),FloatDPUpperBound(FloatDP(u,up,dp)));
    else if constexpr(Same<X,FloatMPBounds>) return X(FloatMP(l,down,MultiplePrecision(96)),FloatMP(u,up,MultiplePrecision(96)));
    else if constexpr(Same<X,FloatDPBounds>) return X(FloatDP(l,down,dp),FloatDP(u,up,dp));
    else if constexpr(Same<X,FloatDP>) return FloatDP(l,near,dp);
    else if constexpr(Same<X,FloatDPApproximation>) return X(l,dp); else return X(l,MultiplePrecision(96)); }
static Rational cst(Rng& r, int kind) { switch(kind) { case 0: return Rational(r.range(-4,4)); case 1: return Rational(r.range(-3,3)); case 2: return Rational(r.range(-40,40))/Rational(r.range(1,9)); case 3: return Rational(r.range(-64,64))/32; default: return Rational(static_cast<long>(r.below(2000001))-1000000)/Rational(static_cast<long>(r.below(1000)+1)); } }
template<class X> Matrix<X> mat(Rng& r, SizeType m, SizeType n, int kind, double w) {
    Matrix<X> A(m,n,mk<X>(0,0));
    for(SizeType i=0;i<m;++i) for(SizeType j=0;j<n;++j) { Rational q=cst(r,kind); Rational e= w>0 ? Rational(ExactDouble(w*r.unit())) : Rational(0); A.at(i,j)=mk<X>(q-(r.chance(1,4)?Rational(0):e),q+(r.chance(1,4)?Rational(0):e)); }
    return A; }
template<class X> Vector<X> vec(Rng& r, SizeType m, int kind, double w) { Matrix<X> A=mat<X>(r,m,1,kind,w); Vector<X> v(m,A.at(0,0)); for(SizeType i=0;i<m;++i) v[i]=A.at(i,0); return v; }
template<class X> Covector<X> cov(Rng& r, SizeType m, int kind, double w) { Matrix<X> A=mat<X>(r,m,1,kind,w); Covector<X> v(m,A.at(0,0)); for(SizeType i=0;i<m;++i) v[i]=A.at(i,0); return v; }
template<class M> J mj(M const& A) { std::vector<std::vector<J>> v; for(SizeType i=0;i<A.row_size();++i) { std::vector<J> w; for(SizeType j=0;j<A.column_size();++j) w.push_back(cf(A.at(i,j))); v.push_back(w); } return J(v); }
template<class X> J mj(Vector<X> const& v) { std::vector<std::vector<J>> r; for(SizeType i=0;i<v.size();++i) r.push_back({cf(v[i])}); return J(r); }
template<class X> J mj(Covector<X> const& v) { std::vector<J> r; for(SizeType i=0;i<v.size();++i) r.push_back(cf(v[i])); return J(std::vector<std::vector<J>>{r}); }
template<class X> J sj(X const& x) { return J(std::vector<std::vector<J>>{{cf(x)}}); }
static const J NOM=J(std::vector<std::vector<J>>{});
static J rg(Range const& a) { return J{J((long)a.start()),J((long)a.stop())}; }
template<class X> void op(const char* f, J const& a, J const& b, J const& x, J const& r) { Ev("mat")("f",f)("t",tn<X>())("a",a)("b",b)("x",x)("r",r).emit(); }
#define TRY(F,...) try { __VA_ARGS__; } catch(std::exception const& e) { Ev("fail")("f",F)("t",tn<X>())("what",e.what()).emit(); }
template<class X> void arith(Rng& r) {
    SizeType m=r.range(1,4), n=r.range(1,4), k=r.range(1,4); int kd=(int)r.below(5); constexpr bool val=Same<X,FloatDPBounds>||Same<X,FloatMPBounds>||Same<X,UI>; double w=val?std::ldexp(1.0,-(int)r.below(3)*15):0; if(r.chance(1,2)) w=0;
    Matrix<X> A=mat<X>(r,m,n,kd,w), B=mat<X>(r,m,n,kd,w), C=mat<X>(r,n,k,kd,w); Vector<X> v=vec<X>(r,n,kd,w), v2=vec<X>(r,n,kd,w); Covector<X> u=cov<X>(r,m,kd,w), u2=cov<X>(r,m,kd,w);
    X s=mk<X>(cst(r,kd),0); { Rational q=cst(r,kd); s=mk<X>(q,q); } X d=mk<X>(r.chance(1,2)?Rational(2):Rational(3)/7,r.chance(1,2)?Rational(2):Rational(9)/4); { Rational q=cst(r,2); if(q==0) q=1; d=mk<X>(q,q); }
    J Aj=mj(A),Bj=mj(B),Cj=mj(C),vj=mj(v),uj=mj(u);
    switch(r.below(7)) {
    case 0:
        TRY("add", op<X>("add",Aj,Bj,NOM,mj(A+B)); op<X>("sub",Aj,Bj,NOM,mj(A-B)); op<X>("neg",Aj,NOM,NOM,mj(-A)); op<X>("pos",Aj,NOM,NOM,mj(+A)); op<X>("scl",Aj,NOM,sj(s),mj(s*A)); op<X>("scl",Aj,NOM,sj(s),mj(A*s)); op<X>("div",Aj,NOM,sj(d),mj(A/d)))
        TRY("addeq", { Matrix<X> T=A; T+=B; op<X>("add",Aj,Bj,NOM,mj(T)); } { Matrix<X> T=A; T-=B; op<X>("sub",Aj,Bj,NOM,mj(T)); } { Matrix<X> T=A; T*=s; op<X>("scl",Aj,NOM,sj(s),mj(T)); } { Matrix<X> T=A; T/=d; op<X>("div",Aj,NOM,sj(d),mj(T)); } { Matrix<X> T=A; T+=T; op<X>("add",Aj,Aj,NOM,mj(T)); })
        break;
    case 1:
        TRY("mul", op<X>("mul",Aj,Cj,NOM,mj(A*C)); op<X>("mul",Aj,vj,NOM,mj(Vector<X>(A*v))); op<X>("mul",uj,Aj,NOM,mj(Covector<X>(u*A))); op<X>("mul",mj(transpose(v2)),vj,NOM,sj(X(transpose(v2)*v))); op<X>("mul",mj(transpose(v2)),vj,NOM,sj(X(dot(v2,v)))))
        TRY("tr", Matrix<X> T=transpose(A); op<X>("tr",Aj,NOM,NOM,mj(T)); op<X>("mult",Aj,Bj,NOM,mj(Matrix<X>(A*transpose(B)))); op<X>("tmul",Aj,Bj,NOM,mj(Matrix<X>(transpose(A)*B))); Vector<X> y=transpose(u2); op<X>("tmul",Aj,mj(y),NOM,mj(Vector<X>(transpose(A)*y))))
        break;
    case 2:
        TRY("vec", op<X>("add",vj,mj(v2),NOM,mj(Vector<X>(v+v2))); op<X>("sub",vj,mj(v2),NOM,mj(Vector<X>(v-v2))); op<X>("neg",vj,NOM,NOM,mj(Vector<X>(-v))); op<X>("scl",vj,NOM,sj(s),mj(Vector<X>(s*v))); op<X>("scl",vj,NOM,sj(s),mj(Vector<X>(v*s))); op<X>("div",vj,NOM,sj(d),mj(Vector<X>(v/d)));
            { Vector<X> t=v; t+=v2; op<X>("add",vj,mj(v2),NOM,mj(t)); } { Vector<X> t=v; t-=v2; op<X>("sub",vj,mj(v2),NOM,mj(t)); } { Vector<X> t=v; t*=s; op<X>("scl",vj,NOM,sj(s),mj(t)); } { Vector<X> t=v; t/=d; op<X>("div",vj,NOM,sj(d),mj(t)); })
        TRY("cov", op<X>("add",uj,mj(u2),NOM,mj(Covector<X>(u+u2))); op<X>("sub",uj,mj(u2),NOM,mj(Covector<X>(u-u2))); op<X>("neg",uj,NOM,NOM,mj(Covector<X>(-u))); op<X>("scl",uj,NOM,sj(s),mj(Covector<X>(s*u))); op<X>("scl",uj,NOM,sj(s),mj(Covector<X>(u*s))); op<X>("div",uj,NOM,sj(d),mj(Covector<X>(u/d)));
            { Covector<X> t=u; t+=u2; op<X>("add",uj,mj(u2),NOM,mj(t)); } { Covector<X> t=u; t-=u2; op<X>("sub",uj,mj(u2),NOM,mj(t)); } { Covector<X> t=u; t*=s; op<X>("scl",uj,NOM,sj(s),mj(t)); } { Covector<X> t=u; t/=d; op<X>("div",uj,NOM,sj(d),mj(t)); })
        break;
    case 3: {
        Matrix<X> D=mat<X>(r,(SizeType)r.range(1,3),n,kd,w), F=mat<X>(r,m,(SizeType)r.range(1,3),kd,w); Covector<X> un=cov<X>(r,n,kd,w); Vector<X> vm=vec<X>(r,m,kd,w), vk=vec<X>(r,k,kd,w);
        TRY("join", op<X>("join",Aj,mj(D),NOM,mj(join(A,D))); op<X>("cojoin",Aj,mj(F),NOM,mj(cojoin(A,F))); op<X>("join",Aj,mj(un),NOM,mj(join(A,un))); op<X>("join",mj(un),Aj,NOM,mj(join(un,A))); op<X>("cojoin",Aj,mj(vm),NOM,mj(cojoin(A,vm))); op<X>("cojoin",mj(vm),Aj,NOM,mj(cojoin(vm,A)));
            op<X>("join",vj,mj(vk),NOM,mj(join(v,vk))); op<X>("join",vj,sj(s),NOM,mj(join(v,s))); op<X>("join",sj(s),vj,NOM,mj(join(s,v))); op<X>("cojoin",uj,mj(un),NOM,mj(cojoin(u,un))); op<X>("cojoin",uj,sj(s),NOM,mj(cojoin(u,s))); op<X>("cojoin",sj(s),uj,NOM,mj(cojoin(s,u)));
            op<X>("join",mj(join(v,vk)),mj(v2),NOM,mj(join(v,vk,v2))))
        break; }
    case 4: {
        SizeType i0=r.below(m), i1=r.range((long)i0+1,(long)m), j0=r.below(n), j1=r.range((long)j0+1,(long)n); Range ir(i0,i1), jr(j0,j1); J x=J{J((long)i0),J((long)i1),J((long)j0),J((long)j1)};
        TRY("project", op<X>("proj",Aj,NOM,x,mj(Matrix<X>(project(A,ir,jr)))); Matrix<X> const& cA=A; op<X>("proj",Aj,NOM,x,mj(Matrix<X>(cA[ir][jr]))); op<X>("proj",Aj,NOM,x,mj(Matrix<X>(A[ir][jr])));
            Vector<X> c(column(A,j0)); op<X>("proj",Aj,NOM,J{J(0l),J((long)m),J((long)j0),J((long)j0+1)},mj(c)); Covector<X> q(row(A,i0)); op<X>("proj",Aj,NOM,J{J((long)i0),J((long)i0+1),J(0l),J((long)n)},mj(q));
            Vector<X> pv=project(v,jr); op<X>("proj",vj,NOM,J{J((long)j0),J((long)j1),J(0l),J(1l)},mj(pv)); Vector<X> pv2=v[jr]; op<X>("proj",vj,NOM,J{J((long)j0),J((long)j1),J(0l),J(1l)},mj(pv2)); Covector<X> pu(project(u,ir)); op<X>("proj",uj,NOM,J{J(0l),J(1l),J((long)i0),J((long)i1)},mj(pu)))
        // writing through views
        TRY("assign", { Matrix<X> T=A; Matrix<X> S=mat<X>(r,i1-i0,j1-j0,kd,w); project(T,ir,jr)=S; op<X>("put",Aj,mj(S),x,mj(T)); } { Matrix<X> T=A; Matrix<X> S=mat<X>(r,i1-i0,j1-j0,kd,w); T[ir][jr]=S; op<X>("put",Aj,mj(S),x,mj(T)); }
            { Matrix<X> T=A; T[i0][j0]=s; op<X>("put",Aj,sj(s),J{J((long)i0),J((long)i0+1),J((long)j0),J((long)j0+1)},mj(T)); } { Matrix<X> T=A; T.set(i0,j0,s); op<X>("put",Aj,sj(s),J{J((long)i0),J((long)i0+1),J((long)j0),J((long)j0+1)},mj(T)); })
        TRY("copy", Matrix<X> T=A; Matrix<X> S(T); S.at(i0,j0)=s; op<X>("pos",Aj,NOM,NOM,mj(T)); Vector<X> t=v; Vector<X> q=t; q[j0]=s; op<X>("pos",vj,NOM,NOM,mj(t)))
        break; }
    case 5: {
        Matrix<X> S=mat<X>(r,n,n,kd,w); Vector<X> dv=vec<X>(r,n,kd,w); Vector<X> dw=vec<X>(r,n,0,0); for(SizeType i=0;i<n;++i) if(r.chance(1,1)) { Rational q=cst(r,2); if(q==0) q=3; dw[i]=mk<X>(q,q); }
        if constexpr(!Same<X,UI>&&!Same<X,FloatDP>) { TRY("diag", DiagonalMatrix<X> D(dv), E(dw); J Dj=mj(Matrix<X>(D)), Ej=mj(Matrix<X>(E)), Sj=mj(S);
            op<X>("dadd",mj(dv),mj(dw),NOM,mj(Matrix<X>(D+E))); op<X>("dsub",mj(dv),mj(dw),NOM,mj(Matrix<X>(D-E))); op<X>("dmul",mj(dv),mj(dw),NOM,mj(Matrix<X>(D*E))); op<X>("ddiv",mj(dv),mj(dw),NOM,mj(Matrix<X>(D/E))); op<X>("neg",Dj,NOM,NOM,mj(Matrix<X>(-D))); op<X>("scl",Dj,NOM,sj(s),mj(Matrix<X>(s*D))); op<X>("scl",Dj,NOM,sj(s),mj(Matrix<X>(D*s)));
            op<X>("drec",mj(dw),NOM,NOM,mj(Matrix<X>(inverse(E)))); op<X>("add",Sj,Dj,NOM,mj(Matrix<X>(S+D))); op<X>("add",Dj,Sj,NOM,mj(Matrix<X>(D+S))); op<X>("sub",Sj,Dj,NOM,mj(Matrix<X>(S-D))); op<X>("sub",Dj,Sj,NOM,mj(Matrix<X>(D-S)));
            op<X>("mul",Sj,Dj,NOM,mj(Matrix<X>(S*D))); op<X>("mul",Dj,Sj,NOM,mj(Matrix<X>(D*S))); op<X>("mul",Dj,vj,NOM,mj(Vector<X>(D*v))); op<X>("ediv",vj,mj(dw),NOM,mj(Vector<X>(v/E))); op<X>("mult",Dj,Sj,NOM,mj(Matrix<X>(D*transpose(S))))) }
        break; }
    default: {
        TRY("norm", if constexpr(!Same<X,UI>) { op<X>("norm",Aj,NOM,NOM,sj(norm(A))); op<X>("vnorm",vj,NOM,NOM,sj(norm(v))); if constexpr(!Same<X,Rational>) op<X>("two",vj,NOM,NOM,sj(two_norm(v))); }
            if constexpr(Same<X,FloatDPBounds>) { op<X>("sup",Aj,NOM,NOM,sj(sup_norm(A))); Matrix<X> S=mat<X>(r,n,n,kd,w); op<X>("logn",mj(S),NOM,NOM,sj(log_norm(S))); op<X>("vsup",vj,NOM,NOM,sj(sup_norm(v))); }
            if constexpr(Same<X,FloatDPApproximation>||Same<X,FloatMPApproximation>) op<X>("rown",Aj,NOM,NOM,mj(row_norms(A)));
            Matrix<X> I=Matrix<X>::identity(n,A.zero_element()); op<X>("ident",mj(I),NOM,NOM,mj(I)); Matrix<X> Z=Matrix<X>::zero(m,n,A.zero_element()); op<X>("scl",Aj,NOM,sj(mk<X>(0,0)),mj(Z));
            if constexpr(Same<X,Rational>) { Matrix<X> T=A; if(r.chance(1,2)) T.at(r.below(m),r.below(n))=s; op<X>("eq",Aj,mj(T),J((bool)(A==T)),NOM); op<X>("eq",Aj,Bj,J((bool)(A==B)),NOM); op<X>("eq",vj,mj(v2),J((bool)(v==v2)),NOM); op<X>("ne",vj,mj(v2),J((bool)(v!=v2)),NOM); op<X>("eq",vj,vj,J((bool)(v==Vector<X>(v))),NOM); }
            if constexpr(Same<X,FloatDPBounds>||Same<X,FloatMPBounds>) { auto M=midpoint(A); op<X>("mid",Aj,NOM,NOM,mj(M)); }
            if constexpr(Same<X,UI>) { op<X>("pos",Aj,NOM,NOM,mj(cast_singleton(A))); op<X>("mid",Aj,NOM,NOM,mj(midpoint(A))); }
            if constexpr(Same<X,FloatDPApproximation>) op<X>("pos",Aj,NOM,NOM,mj(cast_exact(A))); )
        if constexpr(Same<X,FloatDPBounds>||Same<X,FloatMPBounds>) TRY("pivot", PivotMatrix P(m); std::vector<J> pl; for(SizeType i=0;i<m;++i) { P.pivot(i)=r.range((long)i,(long)m-1); pl.push_back(J((long)P.pivot(i))); } op<X>("piv",Aj,NOM,J(pl),mj(Matrix<X>(P*A))))
        // operands of different sizes are refused
        { const char* f=""; bool ref=false; try { switch(r.below(6)) { case 0: { f="add"; Matrix<X> S=mat<X>(r,m+1,n,kd,w); (void)(A+S); break; } case 1: { f="sub"; Matrix<X> S=mat<X>(r,m,n+1,kd,w); (void)(A-S); break; } case 2: { f="mul"; Matrix<X> S=mat<X>(r,n+1,k,kd,w); (void)(A*S); break; } case 3: { f="mulv"; Vector<X> vv=vec<X>(r,n+1,kd,w); (void)Vector<X>(A*vv); break; } case 4: { f="dot"; Vector<X> vv=vec<X>(r,n+1,kd,w); (void)dot(v,vv); break; } default: { f="vadd"; Vector<X> vv=vec<X>(r,n+1,kd,w); (void)Vector<X>(v+vv); } } } catch(std::exception const&) { ref=true; }
          Ev("size")("f",f)("ref",ref).emit(); }
        } } }
// ---- solving --------------------------------------------------------------------------------------------------
template<class X> std::vector<std::vector<Rational>> sample(Rng& r, Matrix<X> const& A) {
    std::vector<std::vector<Rational>> s; int how=(int)r.below(3);
    for(SizeType i=0;i<A.row_size();++i) { std::vector<Rational> w; for(SizeType j=0;j<A.column_size();++j) { Rational l,u; X const& a=A.at(i,j);
        if constexpr(Same<X,Rational>) { l=a; u=a; } else if constexpr(Same<X,UI>) { l=Rational(Dyadic(a.lower_bound().raw())); u=Rational(Dyadic(a.upper_bound().raw())); } else if constexpr(requires { a.lower_raw(); }) { l=Rational(Dyadic(a.lower_raw())); u=Rational(Dyadic(a.upper_raw())); } else { l=Rational(Dyadic(a.raw())); u=l; }
        w.push_back(how==0||r.chance(1,4)?(l+u)/2:r.chance(1,2)?l:u); } s.push_back(w); } return s; }
static J sm(std::vector<std::vector<Rational>> const& s) { std::vector<std::vector<J>> v; for(auto& w:s) { std::vector<J> x; for(auto& q:w) x.push_back(J(str(q))); v.push_back(x); } return J(v); }
template<class X> J sms(Rng& r, Matrix<X> const& A, int k) { std::vector<J> v; for(int i=0;i<k;++i) v.push_back(sm(sample(r,A))); return J(v); }
template<class X> Matrix<X> square(Rng& r, SizeType n, double w) { int kd=(int)r.below(4); Matrix<X> A=mat<X>(r,n,n,kd,w); if(r.chance(1,3)) for(SizeType i=0;i<n;++i) A.at(i,i)=A.at(i,i)+mk<X>(5,5);
    if(n>1&&r.chance(1,6)) { SizeType a=r.below(n),b=(a+1)%n; for(SizeType j=0;j<n;++j) A.at(a,j)=A.at(b,j); } // singular
    if(r.chance(1,4)) A.at(0,0)=mk<X>(0,0); return A; }
template<class F> J refusable(F const& f, bool& ref) { ref=false; try { return f(); } catch(std::exception const&) { ref=true; return NOM; } }
template<class X> void solving(Rng& r) {
    constexpr bool val=Same<X,FloatDPBounds>||Same<X,FloatMPBounds>||Same<X,UI>; double w=val&&r.chance(1,2)?std::ldexp(1.0,-(int)r.range(2,30)):0;
    SizeType n=r.range(1,4), k=r.range(1,2); Matrix<X> A=square<X>(r,n,w), B=mat<X>(r,n,k,(int)r.below(4),w); Vector<X> b=vec<X>(r,n,(int)r.below(4),w); Matrix<X> bm(n,1,b[0]); for(SizeType i=0;i<n;++i) bm.at(i,0)=b[i];
    J S=sms(r,A,3), SB=sms(r,B,3), Sb=sms(r,bm,3); bool ref; std::vector<J> one; for(int i=0;i<3;++i) { std::vector<std::vector<J>> I(n,std::vector<J>(n,J("0"))); for(SizeType j=0;j<n;++j) I[j][j]=J("1"); one.push_back(J(I)); }
    auto em=[&](const char* f, J const& SS, J const& R) { Ev("solve")("f",f)("t",tn<X>())("w",w>0)("a",mj(A))("s",S)("b",SS)("ref",ref)("r",R).emit(); };
    { J R=refusable([&]{ return mj(Matrix<X>(inverse(A))); },ref); em("inverse",J(one),R); }
    if constexpr(!Same<X,UI>) { J R=refusable([&]{ return mj(Matrix<X>(solve(A,B))); },ref); em("solve",SB,R); }
    { J R=refusable([&]{ return mj(Vector<X>(solve(A,b))); },ref); em("solvev",Sb,R); }
    if constexpr(Same<X,FloatDPBounds>||Same<X,FloatMPBounds>) {
        { J R=refusable([&]{ return mj(lu_inverse(A)); },ref); em("lu_inverse",J(one),R); } { J R=refusable([&]{ return mj(gs_inverse(A)); },ref); em("gs_inverse",J(one),R); }
        { J R=refusable([&]{ return mj(lu_solve(A,B)); },ref); em("lu_solve",SB,R); } { J R=refusable([&]{ return mj(gs_solve(A,B)); },ref); em("gs_solve",SB,R); }
        { J R=refusable([&]{ return mj(lu_solve(A,b)); },ref); em("lu_solvev",Sb,R); } { J R=refusable([&]{ return mj(gs_solve(A,b)); },ref); em("gs_solvev",Sb,R); }
        { Vector<X> x=vec<X>(r,n,0,0); for(SizeType i=0;i<n;++i) { long c=r.range(-4,4), e=r.range(0,6); x[i]=mk<X>(c-e,c+e); } Vector<X> y=x; J R=refusable([&]{ gs_step(A,b,y); return mj(y); },ref); Ev("gstep")("t",tn<X>())("s",S)("b",Sb)("x",mj(x))("ref",ref)("r",R).emit(); }
        if(r.chance(1,3)) { J R=refusable([&]{ auto D=triangular_decomposition(A); PivotMatrix P=std::get<0>(D); std::vector<J> pl; for(SizeType i=0;i<n;++i) pl.push_back(J((long)P.pivot(i))); return J{J(pl),mj(std::get<1>(D)),mj(std::get<2>(D))}; },ref); Ev("plu")("t",tn<X>())("w",w>0)("a",mj(A))("ref",ref)("r",R).emit(); }
        if(r.chance(1,3)) { J R=refusable([&]{ auto D=orthogonal_decomposition(A); return J{mj(std::get<0>(D)),mj(std::get<1>(D))}; },ref); Ev("orth")("t",tn<X>())("w",w>0)("a",mj(A))("ref",ref)("r",R).emit(); }
        if(r.chance(1,3)) { J R=refusable([&]{ auto D=gram_schmidt_orthogonalisation(A); return J{mj(std::get<0>(D)),mj(std::get<1>(D))}; },ref); Ev("gram")("t",tn<X>())("w",w>0)("a",mj(A))("ref",ref)("r",R).emit(); }
    }
    if constexpr(Same<X,FloatDPApproximation>||Same<X,FloatMPApproximation>) if(r.chance(1,3)) { J R=refusable([&]{ auto D=orthogonal_decomposition(A,true); PivotMatrix P=std::get<2>(D); std::vector<J> pl; for(SizeType i=0;i<n;++i) pl.push_back(J((long)P.pivot(i))); return J{J(pl),mj(std::get<0>(D)),mj(std::get<1>(D))}; },ref); Ev("qr")("t",tn<X>())("w",false)("a",mj(A))("ref",ref)("r",R).emit(); }
}
int main(int ac, char** av) {
    Args a(ac,av); Rng r(a.seed); std::cerr.setstate(std::ios::failbit);
    while(count()<a.n) {
        try { switch(r.below(16)) {
            case 0: case 1: arith<Rational>(r); break; case 2: case 3: arith<FloatDPBounds>(r); break; case 4: arith<FloatMPBounds>(r); break; case 5: arith<FloatDPApproximation>(r); break; case 6: arith<FloatMPApproximation>(r); break; case 7: arith<UI>(r); break;
            case 8: case 9: solving<Rational>(r); break; case 10: case 11: solving<FloatDPBounds>(r); break; case 12: solving<FloatMPBounds>(r); break; case 13: solving<FloatDPApproximation>(r); break; case 14: solving<FloatMPApproximation>(r); break; default: solving<UI>(r); } }
        catch(std::exception const& e) { Ev("fail")("f","main")("t","")("what",e.what()).emit(); } }
    return 0; }
