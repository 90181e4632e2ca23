// Symbolic expressions, formulae and procedures: transformations, evaluation and structural questions
#include "enc.hpp"
#include <optional>
#include "prog.hpp"
#include "algebra/algebra.hpp"
#include "algebra/vector.hpp"
#include "algebra/covector.hpp"
#include "algebra/differential.hpp"
#include "algebra/algebra_wrapper.hpp"
#include "function/formula.hpp"
#include "function/function.hpp"
#include "function/procedure.hpp"
#include "function/procedure.tpl.hpp"
#include "symbolic/constant.hpp"
#include "symbolic/variable.hpp"
#include "symbolic/expression.hpp"
#include "symbolic/assignment.hpp"
#include "symbolic/space.hpp"
#include "symbolic/valuation.hpp"
#include "symbolic/templates.tpl.hpp"
#include "symbolic/expression.tpl.hpp"
namespace Ariadne { Formula<Real> make_formula(const EffectiveScalarMultivariateFunction& f); 
  inline Vector<FloatDPBounds> vh_eval_vec(Vector<Procedure<ValidatedNumber>> const& p, Vector<FloatDPBounds> const& x) { List<FloatDPBounds> t(p._instructions.size(),x.zero_element()); _execute(t,p._instructions,p._constants,x); return Vector<FloatDPBounds>(p.result_size(),[&](SizeType i){return t[p._results[i]];}); } }
using namespace Ariadne;
VH_MAIN_SUPPORT
using namespace vh;
typedef RealExpression RE; typedef Expression<Kleenean> KE; typedef Expression<RealVector> VE; typedef Formula<EffectiveNumber> FE; typedef Expression<Integer> ZE; typedef Expression<Boolean> BE;
typedef std::vector<Rational> Pt; typedef std::vector<std::string> Names;
static Real pow2(long n) { return Real(pow(Rational(2),static_cast<Int>(n))); }
static J cst(FloatMPBounds const& b) { return J{J("ci"),J(str(b.lower_raw())),J(str(b.upper_raw()))}; }
static J cst(Real const& x) { return cst(FloatMPBounds(x,MultiplePrecision(256))); }
static J cst(EffectiveNumber const& x) { return cst(FloatMPBounds(ValidatedNumber(x),MultiplePrecision(256))); }
static J cst(ValidatedNumber const& x) { return cst(FloatMPBounds(x,MultiplePrecision(256))); }
static long idx(Names const& ns, Identifier const& n) { for(std::size_t i=0;i<ns.size();++i) if(ns[i]==n) return static_cast<long>(i)+1; throw std::runtime_error("unknown variable "+n); }
// ---- dumping to programs; share=false: postorder of the tree --------------------------------------------------
struct Dump { Names ns; bool share=true, named=false; std::vector<J> nd; std::map<const void*,long> seen; 
    long put(J j) { nd.push_back(j); if(nd.size()>3000) throw std::runtime_error("expression too large"); return static_cast<long>(nd.size()); }
    long expr(RE const& e) { const void* p=e.node_raw_ptr(); if(share) { auto it=seen.find(p); if(it!=seen.end()) return it->second; }
        long r; auto c=e.op().code(); std::string o=name(c);
        if(c==OperatorCode::CNST) { J k=cst(e.val()); r=put(share&&!named?k:J{J("cn"),k,J(std::string(std::get<Constant<Real>>(e.node_ref()).name()))}); } else if(c==OperatorCode::VAR) r=put(J{J("var"),J(idx(ns,e.var()))});
        else if(c==OperatorCode::NUL) r=put(J{J("cst"),J("0")});
        else if(c==OperatorCode::GET) { auto const& s=std::get<IndexExpressionNode<RealVector>>(e.node_ref()); r=comp(s._vec,s._ind); }
        else if(c==OperatorCode::POW) { long a=expr(e.arg()); r=put(J{J(o),J(a),J(static_cast<long>(e.num()))}); }
        else if(std::holds_alternative<BinaryExpressionNode<Real>>(e.node_ref())) { long a=expr(e.arg1()), b=expr(e.arg2()); r=put(J{J(o),J(a),J(b)}); }
        else { long a=expr(e.arg()); r=put(J{J(o),J(a)}); }
        seen[p]=r; return r; }
    long comp(VE const& v, SizeType i) { return v.node_ref().accept([&](auto const& n)->long { typedef std::decay_t<decltype(n)> N;
        if constexpr(Same<N,Constant<RealVector>>) return put(cst(n[i]));
        else if constexpr(Same<N,Variable<RealVector>>) return put(J{J("var"),J(idx(ns,n[i].name()))});
        else if constexpr(Same<N,Vector<RE>>) return expr(n[i]);
        else if constexpr(Same<N,UnaryExpressionNode<RealVector>>) { long a=comp(n._arg,i); return put(J{J(name(n._op.code())),J(a)}); }
        else if constexpr(Same<N,BinaryExpressionNode<RealVector>>) { long a=comp(n._arg1,i), b=comp(n._arg2,i); return put(J{J(name(n._op.code())),J(a),J(b)}); }
        else if constexpr(Same<N,Symbolic<OperatorVariant<Mul>,RE,VE>>) { long a=expr(n._arg1), b=comp(n._arg2,i); return put(J{J(name(n._op.code())),J(a),J(b)}); }
        else { long a=comp(n._arg1,i), b=expr(n._arg2); return put(J{J(name(n._op.code())),J(a),J(b)}); } }); }
    template<class Y> long form(Formula<Y> const& e) { const void* p=e.node_ptr(); if(share) { auto it=seen.find(p); if(it!=seen.end()) return it->second; }
        long r=e.node_ref().accept([&](auto const& n)->long { typedef std::decay_t<decltype(n)> N;
          if constexpr(requires { n._val; }) return put(cst(n._val)); else if constexpr(requires { n._ind; }) return put(J{J("var"),J(static_cast<long>(Nat(n._ind)+1))});
          else { std::string o=name(n._op.code());
            if constexpr(requires { n._num; }) { long a=form(n._arg); return put(J{J(o),J(a),J(static_cast<long>(n._num))}); }
            else if constexpr(requires { n._cnst; }) { long a=put(cst(n._cnst)), b=form(n._arg); return put(J{J(o),J(a),J(b)}); }
            else if constexpr(requires { n._arg2; }) { long a=form(n._arg1), b=form(n._arg2); return put(J{J(o),J(a),J(b)}); }
            else { long a=form(n._arg); if(n._op.code()==OperatorCode::NUL) return put(J{J("cst"),J("0")}); return put(J{J(o),J(a)}); } } });
        seen[p]=r; return r; }
};
template<class T> J dump(T const& e, Names const& ns, bool share=true) { Dump d; d.ns=ns; d.share=share; long r; if constexpr(Same<T,RE>) r=d.expr(e); else r=d.form(e); if(r!=static_cast<long>(d.nd.size())) d.put(J{J("pos"),J(r)}); return J(d.nd); }
template<class Y> J dump_proc(List<Y> const& cs, List<ProcedureInstruction> const& ins, SizeType res) { std::vector<J> nd; std::vector<long> at; auto put=[&](J j){ nd.push_back(j); return static_cast<long>(nd.size()); };
    for(SizeType k=0;k<=res;++k) { at.push_back(ins[k].accept([&](auto const& n)->long { typedef std::decay_t<decltype(n)> N;
        if constexpr(Same<N,ConstantProcedureInstruction>) return put(cst(cs[n._val])); else if constexpr(Same<N,IndexProcedureInstruction>) return put(J{J("var"),J(static_cast<long>(n._ind+1))});
        else { std::string o=name(n._op.code()); if constexpr(Same<N,GradedProcedureInstruction>) return put(J{J(o),J(at[n._arg]),J(static_cast<long>(n._num))});
          else if constexpr(Same<N,ScalarProcedureInstruction>) { long a=put(cst(cs[n._arg1])); return put(J{J(o),J(a),J(at[n._arg2])}); }
          else if constexpr(Same<N,BinaryProcedureInstruction>) return put(J{J(o),J(at[n._arg1]),J(at[n._arg2])}); else return put(J{J(o),J(at[n._arg])}); } })); }
    if(at.back()!=static_cast<long>(nd.size())) put(J{J("pos"),J(at.back())}); return J(nd); }
// ---- a random situation ----------------------------------------------------------------------------------------
struct Sit { Prog p; Names ns; std::vector<DI> box; std::vector<RealVariable> vs; RealSpace spc; std::vector<long> perm; };   // perm[k] = program variable (0-based) at place k of the space
static void wrap(Prog& p, Rng& r) { auto put=[&](Node n, DI g){ p.nd.push_back(n); p.rg.push_back(g); return p.size(); };
    auto U=[&](const char* o, int a, DI g, int n=0){ Node x; x.op=o; x.a=a; x.n=n; return put(x,g); }; auto B=[&](const char* o, int a, int b, DI g){ Node x; x.op=o; x.a=a; x.b=b; return put(x,g); };
    auto C=[&](long c){ Node x; x.op="cst"; x.c=Rational(c); return put(x,DI{double(c),double(c)}); };
    int a=1+static_cast<int>(r.below(static_cast<std::uint64_t>(p.size()))); if(r.chance(1,2)) a=p.size(); DI g=p.rg[static_cast<std::size_t>(a-1)]; DI ng{-g.u,-g.l}; int w;
    switch(r.below(24)) {
        case 0: w=U("neg",U("neg",a,ng),g); break;
        case 1: w=r.chance(1,2)?B("mul",a,C(1),g):B("mul",C(1),a,g); break;
        case 2: w=r.chance(1,2)?B("add",a,C(0),g):B("add",C(0),a,g); break;
        case 3: w=r.chance(1,2)?B("mul",a,C(0),DI{0,0}):B("mul",C(0),a,DI{0,0}); break;
        case 4: w=r.chance(1,2)?B("sub",a,C(0),g):B("sub",C(0),a,ng); break;
        case 5: w=U("pos",a,g); break;
        case 6: w=B("div",a,C(1),g); break;
        case 7: w=U("pow",a,g,1); break;
        case 8: w=U("pow",a,DI{1,1},0); break;
        case 9: w=B("sub",a,a,DI{0,0}); break;
        case 10: if(g.has0(0.1)) return; w=r.chance(1,2)?B("div",a,a,DI{1,1}):U("rec",U("rec",a,DI{1/g.u,1/g.l}),g); break;
        case 11: if(g.mag()>7||(g.l<0.05&&g.u>-0.05)) return; w=U("sqrt",U("sqr",a,DI{0,g.mag()*g.mag()}),DI{0,g.mag()}); break;
        case 12: if(g.l<0.1) return; w=U("sqr",U("sqrt",a,DI{std::sqrt(g.l),std::sqrt(g.u)}),g); break;
        case 13: if(g.l<0.1) return; w=U("exp",U("log",a,DI{std::log(g.l),std::log(g.u)}),g); break;
        case 14: if(g.u>3.5||g.l<-8) return; w=U("log",U("exp",a,DI{std::exp(g.l),std::exp(g.u)}),g); break;
        case 15: if(g.mag()>10) return; w=U("tan",U("atan",a,DI{std::atan(g.l),std::atan(g.u)}),g); break;
        case 16: { double k=std::round((g.l+g.u)/2/3.14159265), m=k*3.14159265; if(g.l<m-1.3||g.u>m+1.3) return; w=U("atan",U("tan",a,DI{std::tan(g.l-m),std::tan(g.u-m)}),DI{g.l-m-1e-6,g.u-m+1e-6}); break; }
        case 17: { if(g.has0(0.1)) return; DI h{1/g.u,1/g.l}; w=r.chance(1,2)?U("pow",a,h,-1):B("div",C(1),a,h); break; }
        case 18: { if(g.mag()>7) return; DI h{g.has0()?0:std::min(g.l*g.l,g.u*g.u),g.mag()*g.mag()}; w=U("pow",a,h,2); break; }
        case 19: w=U("hlf",a,DI{g.l/2,g.u/2}); break;
        case 20: w=B("div",C(0),[&]{ Node x; x.op="cst"; x.c=Rational(3,7); return put(x,DI{0.42,0.43}); }(),DI{0,0}); break;
        case 21: { Node x; x.op="cst"; long k=r.range(20,140); x.c=pow(Rational(2),static_cast<Int>(-k)); if(r.chance(1,2)) x.c=Rational(1)+x.c; int c=put(x,DI{0,1}); DI h{std::min(g.l,0.0),std::max(g.u,0.0)}; h.l-=1e-5; h.u+=1e-5; w=B("mul",a,c,DI{h.l*1.01,h.u*1.01}); 
             if(r.chance(1,2)&&k<60) { Node y; y.op="cst"; y.c=pow(Rational(2),static_cast<Int>(k)); int d=put(y,DI{0,std::ldexp(1.0,int(k))}); if(qd(x.c)<0.5) w=B("mul",w,d,g); } break; }    // constants next to 0 and 1
        case 22: { int s=B("sub",a,a,DI{0,0}); w=r.chance(1,2)?B("add",s,a,g):B("mul",a,U("exp",s,DI{1,1}),g); break; }
        default: { Node x; x.op="cst"; x.c=mkcst(r); double c=qd(x.c); int k=put(x,DI{c,c}); DI h{g.l-c,g.u-c}; w=B("sub",a,k,h); break; }
    }
    // keep the rest of the program in the value
    DI h=p.rg[static_cast<std::size_t>(w-1)]; if(r.chance(1,2)&&a!=p.size()) { DI y=p.rg[0]; B("add",w,1,DI{h.l+y.l,h.u+y.u}); }
}
static Sit mksit(Rng& r, int flags=P_ALL, int nmax=3) { Sit s; std::size_t n=static_cast<std::size_t>(r.range(1,nmax)); static const Names pool={"x","y","z","x0","x1","x10","X","a","b","_t","u","v[0]","xy"};
    while(s.ns.size()<n) { std::string c=r.pick(pool); bool d=false; for(auto& q:s.ns) d=d||q==c; if(!d) s.ns.push_back(c); }
    for(std::size_t i=0;i<n;++i) { double c=static_cast<double>(r.range(-24,24))/8, w=static_cast<double>(r.range(0,8))/16; s.box.push_back(DI{c-w,c+w}); s.vs.push_back(RealVariable(s.ns[i])); s.perm.push_back(static_cast<long>(i)); }
    for(std::size_t i=0;i+1<n;++i) std::swap(s.perm[i],s.perm[i+r.below(n-i)]);
    List<RealVariable> l; for(long k:s.perm) l.append(s.vs[static_cast<std::size_t>(k)]); s.spc=RealSpace(l);
    s.p=mkprog(r,s.box,static_cast<int>(r.range(1,8)),flags); if(r.chance(2,3)) wrap(s.p,r); if(r.chance(1,4)) wrap(s.p,r); return s; }
static Pt mkpt(Rng& r, Sit const& s) { Pt x; for(auto const& b:s.box) { int k=static_cast<int>(r.below(4)); Rational l(ExactDouble(b.l)), u(ExactDouble(b.u)); x.push_back(k==0?l:k==1?u:Rational(l+(u-l)*Rational(r.range(0,16),16))); } return x; }
static J ptj(Pt const& x) { std::vector<J> v; for(auto const& q:x) v.push_back(J(str(q))); return J(v); }
static J ptsj(Rng& r, Sit const& s, int k=2) { std::vector<J> v; for(int i=0;i<k;++i) v.push_back(ptj(mkpt(r,s))); return J(v); }
static Real rc(Rng& r, Rational const& q) { if(r.chance(1,8)) { return Real(q+1)-Real(1); } return Real(q); }
// the expression of node i; some of the shared subexpressions are built again
static RE build(Rng& r, Prog const& p, Sit const& s, int i, std::vector<std::optional<RE>>& memo, unsigned again, int depth=0) {
    auto& m=memo[static_cast<std::size_t>(i-1)]; if(m && !(depth<7&&r.chance(again,4))) return *m;
    Node const& n=p.nd[static_cast<std::size_t>(i-1)]; std::string const& o=n.op; auto A=[&](int k){ return build(r,p,s,k,memo,again,depth+1); }; std::optional<RE> e;
    if(o=="cst") { Real c=rc(r,n.c); e = r.chance(1,6) ? RE(RealConstant("c",c)) : RE(c); }
    else if(o=="pi") e=RE(Real(pi)); else if(o=="var") e=RE(s.vs[static_cast<std::size_t>(n.a-1)]);
    else if(o=="add") { RE a=A(n.a), b=A(n.b); if(r.chance(1,4)) { a+=b; e=a; } else e=r.chance(1,4)?add(a,b):a+b; } else if(o=="sub") { RE a=A(n.a), b=A(n.b); if(r.chance(1,4)) { a-=b; e=a; } else e=r.chance(1,4)?sub(a,b):a-b; }
    else if(o=="mul") { RE a=A(n.a), b=A(n.b); if(r.chance(1,4)) { a*=b; e=a; } else e=r.chance(1,4)?mul(a,b):a*b; } else if(o=="div") { RE a=A(n.a), b=A(n.b); if(r.chance(1,4)) { a/=b; e=a; } else e=r.chance(1,4)?div(a,b):a/b; }
    else if(o=="neg") e=r.chance(1,2)?neg(A(n.a)):-A(n.a); else if(o=="pos") e=r.chance(1,2)?pos(A(n.a)):+A(n.a); else if(o=="sqr") e=sqr(A(n.a)); else if(o=="rec") e=rec(A(n.a)); else if(o=="hlf") e=hlf(A(n.a)); else if(o=="pow") e=pow(A(n.a),n.n);
    else if(o=="sqrt") e=sqrt(A(n.a)); else if(o=="exp") e=exp(A(n.a)); else if(o=="log") e=log(A(n.a)); else if(o=="sin") e=sin(A(n.a)); else if(o=="cos") e=cos(A(n.a)); else if(o=="tan") e=tan(A(n.a)); else if(o=="atan") e=atan(A(n.a)); else if(o=="asin") e=asin(A(n.a)); else if(o=="acos") e=acos(A(n.a));
    else if(o=="abs") e=abs(A(n.a)); else if(o=="max") { RE a=A(n.a); e=max(a,A(n.b)); } else if(o=="min") { RE a=A(n.a); e=min(a,A(n.b)); } else throw std::logic_error(o);
    m=*e; return *e; }
static RE mk(Rng& r, Prog const& p, Sit const& s, int i=0, unsigned again=1) { std::vector<std::optional<RE>> memo(p.nd.size()); return build(r,p,s,i?i:p.size(),memo,again); }
static std::vector<J> NOS;
// q denotes p at the points, after replacing variables (k, program) from the last to the first
static void tr(Rng& r, const char* f, J const& p, J const& q, J const& x, std::vector<J> const& sub=NOS) { Ev("tr")("f",f)("p",p)("q",q)("x",x)("s",sub).emit(); }
static Names spcnames(Sit const& s) { Names v; for(long k:s.perm) v.push_back(s.ns[static_cast<std::size_t>(k)]); return v; }
// program over the space's order of the variables
static Prog reorder(Sit const& s) { Prog p=s.p; for(auto& n:p.nd) if(n.op=="var") { for(std::size_t k=0;k<s.perm.size();++k) if(s.perm[k]==n.a-1) { n.a=static_cast<int>(k)+1; break; } } return p; }
static Pt reorder(Sit const& s, Pt const& x) { Pt y; for(long k:s.perm) y.push_back(x[static_cast<std::size_t>(k)]); return y; }
static J rptsj(Rng& r, Sit const& s, int k=2) { std::vector<J> v; for(int i=0;i<k;++i) v.push_back(ptj(reorder(s,mkpt(r,s)))); return J(v); }
static bool smooth(Prog const& p) { for(auto& n:p.nd) if(n.op=="abs"||n.op=="max"||n.op=="min") return false; return true; }
static std::set<Variable<Real>> vset(Rng& r, Sit const& s, std::vector<long>& ks) { std::set<Variable<Real>> v; for(std::size_t i=0;i<s.vs.size();++i) if(r.chance(1,2)) { v.insert(s.vs[i]); ks.push_back(static_cast<long>(i)+1); } return v; }
static void ev_transform(Rng& r) { Sit s=mksit(r); RE e=mk(r,s.p,s,0,static_cast<unsigned>(r.below(3))); J p=s.p.json(), x=ptsj(r,s); 
    auto T=[&](const char* f, RE const& q, std::vector<J> const& sub=NOS){ tr(r,f,p,dump(q,s.ns),x,sub); };
    switch(r.below(9)) {
        case 0: T("build",e); break;
        case 1: case 2: T("simplify",simplify(e)); break;
        case 3: { RE q=e; eliminate_common_subexpressions(q); T("cse",q); Ev("cnt")("t",dump(q,s.ns,false))("g",[&]{ Dump d; d.ns=s.ns; d.named=true; d.expr(q); return J(d.nd); }())("n",J(static_cast<long>(count_nodes(q))))("d",J(static_cast<long>(count_distinct_nodes(q))))("q",J(static_cast<long>(count_distinct_node_pointers(q))))("cse",true).emit(); break; }
        case 4: { int k=1+static_cast<int>(r.below(static_cast<std::uint64_t>(s.p.size()))); Vector<RE> v({e,mk(r,s.p,s,k),e}); eliminate_common_subexpressions(v); T("vcse",v[0]); Prog p2=s.p; p2.nd.resize(static_cast<std::size_t>(k)); tr(r,"vcse",p2.json(),dump(v[1],s.ns),x); break; }
        case 5: { std::vector<J> sub; std::size_t i=r.below(s.ns.size()); Pt c=mkpt(r,s); Prog k; Node n; n.op="cst"; n.c=c[i]; k.nd.push_back(n); sub.push_back(J{J(static_cast<long>(i)+1),k.json()}); T("subc",substitute(e,s.vs[i],Real(c[i])),sub); break; }
        case 6: { std::size_t i=r.below(s.ns.size()); // replace by an expression whose value lies in the box of the variable: c + w*sin(..)
              Prog k=mkprog(r,s.box,3,P_TRIG); RE se=mk(r,k,s); double c=(s.box[i].l+s.box[i].u)/2, w=(s.box[i].u-s.box[i].l)/2; auto put=[&](Node n){ k.nd.push_back(n); return k.size(); }; int a=k.size(); Node n1; n1.op="sin"; n1.a=a; int b=put(n1); Node n2; n2.op="cst"; n2.c=Rational(ExactDouble(w)); int d=put(n2); Node n3; n3.op="mul"; n3.a=b; n3.b=d; int m=put(n3); Node n4; n4.op="cst"; n4.c=Rational(ExactDouble(c)); int g=put(n4); Node n5; n5.op="add"; n5.a=m; n5.b=g; put(n5);
              RE t=sin(se)*Real(Rational(ExactDouble(w)))+Real(Rational(ExactDouble(c))); T("sube",substitute(e,s.vs[i],t),{J{J(static_cast<long>(i)+1),k.json()}}); break; }
        case 7: { // a list of assignments, applied one after the other
              List<Assignment<RealVariable,RE>> l; std::vector<J> sub; for(std::size_t i=0;i<s.ns.size();++i) if(r.chance(2,3)) { std::size_t j=r.below(s.ns.size()); double c=(s.box[i].l+s.box[i].u)/2, w=(s.box[i].u-s.box[i].l)/2; Prog k; auto put=[&](Node n){ k.nd.push_back(n); return k.size(); }; Node n0; n0.op="var"; n0.a=static_cast<int>(j)+1; int a=put(n0); Node n1; n1.op="sin"; n1.a=a; int b=put(n1); Node n2; n2.op="cst"; n2.c=Rational(ExactDouble(w)); int d=put(n2); Node n3; n3.op="mul"; n3.a=b; n3.b=d; int m=put(n3); Node n4; n4.op="cst"; n4.c=Rational(ExactDouble(c)); int g=put(n4); Node n5; n5.op="add"; n5.a=m; n5.b=g; put(n5);
                  l.append(Assignment<RealVariable,RE>(s.vs[i],sin(RE(s.vs[j]))*Real(n2.c)+Real(n4.c))); sub.push_back(J{J(static_cast<long>(i)+1),k.json()}); }
              RE q=substitute(e,l); T("subl",q,sub); Vector<RE> v({e}); T("subl",substitute(v,l)[0],sub); if(l.size()) { Sit s2=s; FE f=make_formula(e,l,s.spc); tr(r,"aux",p,dump(f,spcnames(s)),J(std::vector<J>())); 
                  // formula over the space: points in the space's order
                  Prog rp=reorder(s); std::vector<J> rsub; for(SizeType t=0;t<l.size();++t) { long at=0; for(std::size_t k2=0;k2<s.perm.size();++k2) if(s.vs[static_cast<std::size_t>(s.perm[k2])]==l[t].lhs) at=static_cast<long>(k2)+1; rsub.push_back(J{J(at),dump(l[t].rhs,spcnames(s))}); } tr(r,"aux",rp.json(),dump(f,spcnames(s)),rptsj(r,s),rsub); } break; }
        default: { if(s.ns.size()<1) break; RE q=simplify(e); RE q2=simplify(q); T("simplify2",q2); Ev("idem")("a",dump(q,s.ns,false))("b",dump(q2,s.ns,false)).emit(); break; }
    } }
static void ev_derivative(Rng& r) { Sit s=mksit(r,P_ALL&~P_LAT); RE e=mk(r,s.p,s); std::size_t k=r.below(s.ns.size()); J p=s.p.json(), x=ptsj(r,s); if(!smooth(s.p)) return;
    RE d=derivative(e,s.vs[k]); auto D=[&](const char* f, J const& q, J const& pp, J const& xx, long kk){ Ev("der")("f",f)("p",pp)("q",q)("x",xx)("k",kk).emit(); };
    switch(r.below(4)) { case 0: D("expr",dump(d,s.ns),p,x,static_cast<long>(k)+1); break; case 1: D("simp",dump(simplify(d),s.ns),p,x,static_cast<long>(k)+1); break; 
        default: { FE f=make_formula(e,s.spc); SizeType at=s.spc.index(s.vs[k]); FE df=derivative(f,at); if(r.chance(1,2)) df=simplify(df); D("form",dump(df,spcnames(s)),reorder(s).json(),rptsj(r,s),static_cast<long>(at)+1); } } }
static void ev_formula(Rng& r) { Sit s=mksit(r); RE e=mk(r,s.p,s); Prog rp=reorder(s); J p=rp.json(), x=rptsj(r,s); Names ns=spcnames(s);
    FE f = r.chance(1,2) ? make_formula(e,s.spc) : r.chance(1,2) ? make_formula(e,s.spc.indices_from_names()) : make_formula(e,s.spc.variables());
    auto T=[&](const char* n, J const& q, std::vector<J> const& sub=NOS){ tr(r,n,p,q,x,sub); };
    switch(r.below(8)) {
        case 0: T("formula",dump(f,ns)); break;
        case 1: T("fsimplify",dump(simplify(f),ns)); break;
        case 2: { Nat i=static_cast<Nat>(r.below(s.ns.size())); Pt c=reorder(s,mkpt(r,s)); Prog k; Node n; n.op="cst"; n.c=c[i]; k.nd.push_back(n); T("fsub",dump(substitute(f,i,FE::constant(EffectiveNumber(Real(c[i])))),ns),{J{J(static_cast<long>(i)+1),k.json()}}); break; }
        case 3: { Procedure<ValidatedNumber> pr(ValidatedScalarMultivariateFunction(make_function(s.spc,e))); T("proc",dump_proc(pr._constants,pr._instructions,pr._instructions.size()-1)); break; }
        case 4: { Vector<RE> v({e,mk(r,s.p,s,1+static_cast<int>(r.below(static_cast<std::uint64_t>(s.p.size()))))}); Vector<Procedure<ValidatedNumber>> pr(ValidatedVectorMultivariateFunction(make_function(s.spc,v))); T("vproc",dump_proc(pr._constants,pr._instructions,pr._results[0])); break; }
        case 5: { EffectiveScalarMultivariateFunction g=make_function(s.spc,e); RE q=make_expression(g,s.spc); T("func-expr",dump(q,ns)); break; }
        case 6: { Formula<Real> g=make_formula(make_function(s.spc,e)); T("func-form",dump(g,ns)); break; }
        default: { Vector<FE> v=simplify(Vector<FE>({f,f})); T("fvsimp",dump(v[1],ns)); bool id=identical(f,simplify(f)); Ev("same")("a",dump(f,ns,false))("b",dump(simplify(f),ns,false))("r",id)("x",x).emit(); break; }
    } }
template<class X> J res(X const& x) { return obj(x); }
static void ev_eval(Rng& r) { Sit s=mksit(r); RE e=mk(r,s.p,s); Pt x=mkpt(r,s); Pt y=reorder(s,x); std::vector<J> rs; auto add=[&](const char* n, J j){ rs.push_back(J{J(n),j}); }; SizeType n=y.size();
    std::function<bool(Rational const&)> dy=[](Rational const& q){ Integer d=q.get_den(); return true; };
    Vector<FloatDPBounds> xb(n,[&](SizeType i){return FloatDPBounds(y[i],dp);}); Vector<FloatMPBounds> xm(n,[&](SizeType i){return FloatMPBounds(y[i],MultiplePrecision(96));}); Vector<FloatDPApproximation> xa(n,[&](SizeType i){return FloatDPApproximation(xb[i]);}); Vector<FloatMPApproximation> xma(n,[&](SizeType i){return FloatMPApproximation(xm[i]);});
    Valuation<Real> val; for(SizeType i=0;i<n;++i) val.insert(s.spc[i],Real(y[i])); val.insert(RealVariable("unused"),Real(3));
    for(int t=0;t<3;++t) switch(r.below(9)) {
        case 0: add("val",obj(FloatDPBounds(evaluate(e,val),dp))); break;
        case 1: { auto f=make_function(s.spc,e); add("dpb",obj(f(xb))); break; }
        case 2: { auto f=make_function(s.spc,e); add("mpb",obj(f(xm))); break; }
        case 3: { auto f=make_function(s.spc,e); add("dpa",obj(f(xa))); add("mpa",obj(f(xma))); break; }
        case 4: { auto f=make_function(s.spc,e); Vector<Real> xr(n,[&](SizeType i){return Real(y[i]);}); add("real",obj(FloatDPBounds(f(xr),dp))); break; }
        case 5: { Procedure<ValidatedNumber> pr(ValidatedScalarMultivariateFunction(make_function(s.spc,e))); add("proc",obj(evaluate(pr,xb))); break; }
        case 6: { Procedure<ApproximateNumber> pr(ApproximateScalarMultivariateFunction(make_function(s.spc,e))); add("aproc",obj(evaluate(pr,xa))); break; }
        case 7: { Vector<RE> v({RE(Real(1)),e}); Vector<Procedure<ValidatedNumber>> pr(ValidatedVectorMultivariateFunction(make_function(s.spc,v))); add("vproc",obj(vh_eval_vec(pr,xb)[1])); auto f=make_function(s.spc,v); add("vdpb",obj(f(xb)[1])); break; }
        default: if(n==1) { auto f=make_function(s.vs[0],e); add("udpb",obj(f(xb[0]))); add("udpa",obj(f(xa[0]))); } else { Map<Identifier,Real> m=val.values(); add("map",obj(FloatDPBounds(evaluate(e,m),dp))); } break;
    }
    Ev("val")("p",s.p.json())("x",ptj(x))("r",rs).emit();
    if(smooth(s.p)&&r.chance(1,3)) { Procedure<ValidatedNumber> pr(ValidatedScalarMultivariateFunction(make_function(s.spc,e))); Procedure<ApproximateNumber> pa(ApproximateScalarMultivariateFunction(make_function(s.spc,e))); bool inv=false; for(auto& q:s.p.nd) inv=inv||q.op=="asin"||q.op=="acos"||q.op=="hlf"; if(inv) return;
        std::vector<J> g, ga; auto gr=gradient(pr,xb); auto gra=gradient(pa,xa); for(SizeType i=0;i<n;++i) { g.push_back(obj(gr[i])); ga.push_back(obj(gra[i])); } Ev("grad")("p",reorder(s).json())("x",ptj(y))("g",g)("a",ga).emit();
        std::vector<J> dir; Vector<FloatDPBounds> sb(n,FloatDPBounds(0,dp)); for(SizeType i=0;i<n;++i) { long c=r.range(-2,2); dir.push_back(J(std::to_string(c))); sb[i]=FloatDPBounds(c,dp); } 
        bool tr2=false; for(auto& q:s.p.nd) tr2=tr2||q.op=="atan"||q.op=="tan"; if(!tr2) { auto h=hessian(pr,xb,sb); Ev("hess")("p",reorder(s).json())("x",ptj(y))("d",dir)("h",obj(h)).emit(); } } }
static void ev_query(Rng& r) { Sit s=mksit(r,r.chance(2,3)?P_DIV:P_ALL); // mostly few elementary functions, so that the answers vary
    RE e=mk(r,s.p,s); std::vector<long> ks; auto vs=vset(r,s,ks); Set<RealVariable> S(vs.begin(),vs.end()); std::vector<long> args; for(auto& a:e.arguments()) args.push_back(idx(s.ns,a.name())); std::vector<long> args2; for(auto& a:arguments(e)) args2.push_back(idx(s.ns,a));
    Vector<RE> ve({e,mk(r,s.p,s,1+static_cast<int>(r.below(static_cast<std::uint64_t>(s.p.size()))))}); std::string addv="skip"; if(smooth(s.p)) addv=is_additive_in(ve,S)?"T":"F"; bool add1=!ks.empty()&&is_additive_in(e,*vs.begin()); long k1=ks.empty()?0:idx(s.ns,vs.begin()->name());
    bool vc=is_constant_in(ve,S), va=is_affine_in(ve,S), vp=is_polynomial_in(ve,S);
    Ev q("qry"); q("p",dump(e,s.ns))("p2",dump(ve[1],s.ns))("k",ks)("con",is_constant_in(e,S))("aff",is_affine_in(e,S))("pol",is_polynomial_in(e,S))("vcon",vc)("vaff",va)("vpol",vp)("addv",addv)("add1",add1)("k1",k1)("args",args)("args2",args2)("n",static_cast<long>(s.ns.size()))("x",ptsj(r,s,2))("d",ptj([&]{ Pt d; for(std::size_t i=0;i<s.ns.size();++i) { Rational w(ExactDouble((s.box[i].u-s.box[i].l)/8)); d.push_back(w); } return d; }())); 
    std::vector<J> bx; for(auto& b:s.box) bx.push_back(J{J(str(b.l)),J(str(b.u))}); q("box",bx).emit(); }
// is_additive_in differentiates, which is refused for abs, max and min
static std::string addv(std::function<bool()> f) { try { return f()?"T":"F"; } catch(std::runtime_error const& e) { if(std::string(e.what()).find("non-smooth")!=std::string::npos) return "F"; throw; } }
static void ev_fquery(Rng& r) { Sit s=mksit(r,r.chance(2,3)?P_DIV:P_ALL); RE e=mk(r,s.p,s); FE f=make_formula(e,s.spc); FE g=make_formula(mk(r,s.p,s,1+static_cast<int>(r.below(static_cast<std::uint64_t>(s.p.size())))),s.spc); Set<Nat> S; std::vector<long> ks; for(std::size_t i=0;i<s.ns.size();++i) if(r.chance(1,2)) { S.insert(static_cast<Nat>(i)); ks.push_back(static_cast<long>(i)+1); } Vector<FE> v({f,g});
    std::vector<J> bx; for(long k:s.perm) bx.push_back(J{J(str(s.box[static_cast<std::size_t>(k)].l)),J(str(s.box[static_cast<std::size_t>(k)].u))});
    Ev("fqry")("p",dump(f,spcnames(s)))("p2",dump(g,spcnames(s)))("k",ks)("vaff",is_affine_in(v,S))("addv",addv([&]{ return is_additive_in(v,S); }))("x",rptsj(r,s,2))("box",bx).emit(); }
static void ev_order(Rng& r) { Sit s=mksit(r); Prog p2=s.p; // three related expressions
    std::vector<RE> e; e.push_back(mk(r,s.p,s)); if(p2.size()>2&&r.chance(1,2)) { Node& n=p2.nd[static_cast<std::size_t>(p2.nv)+r.below(static_cast<std::uint64_t>(p2.size()-p2.nv))]; if(n.op=="cst") n.c=n.c+Rational(r.range(0,1)); else if(n.op=="add") n.op="sub"; else if(n.op=="pow") n.n+=1; else if(n.b) std::swap(n.a,n.b); } e.push_back(mk(r,p2,s)); if(r.chance(1,2)) e.push_back(mk(r,s.p,s)); else { Sit t=mksit(r); t.ns=s.ns; t.vs=s.vs; t.box=s.box; t.p=mkprog(r,s.box,static_cast<int>(r.range(1,4)),P_ALL); e.push_back(mk(r,t.p,t)); }
    std::vector<J> t, b, id; for(auto& q:e) t.push_back(dump(q,s.ns,false)); for(auto& q:e) { std::vector<J> row, irow; for(auto& w:e) { row.push_back(J(bool(before(q,w)))); irow.push_back(J(bool(identical(q,w)))); } b.push_back(J(row)); id.push_back(J(irow)); }
    Ev("ord")("t",t)("b",b)("id",id)("x",ptsj(r,s,1)).emit();
    Ev("cnt")("t",dump(e[0],s.ns,false))("g",[&]{ Dump d; d.ns=s.ns; d.named=true; d.expr(e[0]); return J(d.nd); }())("n",J(static_cast<long>(count_nodes(e[0]))))("d",J(static_cast<long>(count_distinct_nodes(e[0]))))("q",J(static_cast<long>(count_distinct_node_pointers(e[0]))))("cse",false).emit();
    { auto k=[&]()->std::string { try { switch(e[0].kind()) { case OperatorKind::NULLARY: return "nullary"; case OperatorKind::VARIABLE: return "variable"; case OperatorKind::UNARY: return "unary"; case OperatorKind::BINARY: return "binary"; case OperatorKind::GRADED: return "graded"; default: return "other"; } } catch(std::exception const&) { return "exc"; } }(); auto c=e[0].op().code(); Ev("kin")("o",c==OperatorCode::CNST?std::string("cnst"):c==OperatorCode::VAR?std::string("var"):std::string(name(c)))("k",k).emit(); }
    Rational c=mkcst(r); if(r.chance(1,3)) c=Rational(r.range(0,1)); Rational d=r.chance(1,2)?c:mkcst(r); if(r.chance(1,3)) d=c+pow(Rational(2),static_cast<Int>(-r.range(20,140))); 
    Ev("isc")("c",str(c))("d",str(d))("r",is_constant(RE(Real(c)),Real(d)))("v",is_variable(RE(s.vs[0]),s.vs[0]))("w",is_variable(RE(s.vs[0]),RealVariable("other")))("cv",is_constant(RE(s.vs[0]),Real(d)))("vc",is_variable(RE(Real(c)),s.vs[0])).emit(); }
// ---- vector expressions ------------------------------------------------------------------------------------------
static void ev_vector(Rng& r) { Sit s=mksit(r,P_SMOOTH,2); SizeType n=static_cast<SizeType>(r.range(1,3)); RealVectorVariable w("w",n); Prog p=s.p; std::size_t n0=s.ns.size(); Names ns=s.ns; std::vector<DI> box=s.box;
    // the components of w are further variables
    for(SizeType i=0;i<n;++i) { ns.push_back(w[i].name()); DI b{static_cast<double>(r.range(1,8))/4,0}; b.u=b.l+0.25; if(r.chance(1,2)) b=DI{-b.u,-b.l}; box.push_back(b); Node x; x.op="var"; x.a=static_cast<int>(n0+i)+1; p.nd.push_back(x); p.rg.push_back(b); }
    struct V { VE e; std::vector<int> c; bool w; }; std::vector<V> vs; auto put=[&](Node x){ p.nd.push_back(x); p.rg.push_back(DI{-9,9}); return p.size(); };
    { std::vector<int> c; for(SizeType i=0;i<n;++i) c.push_back(p.size()-static_cast<int>(n)+static_cast<int>(i)+1); vs.push_back(V{VE(w),c,true}); }
    std::vector<std::optional<RE>> memo(p.nd.size()); Sit s2=s; for(SizeType i=0;i<n;++i) s2.vs.push_back(w[i]); auto sc=[&](int i){ memo.assign(p.nd.size(),std::nullopt); return build(r,s.p,s2,i,memo,1); };
    { Vector<RE> x(n); std::vector<int> c; for(SizeType i=0;i<n;++i) { int k=1+static_cast<int>(r.below(static_cast<std::uint64_t>(s.p.size()))); x[i]=sc(k); c.push_back(k); } vs.push_back(V{VE(x),c,false}); }
    { Vector<Real> x(n); std::vector<int> c; for(SizeType i=0;i<n;++i) { Node y; y.op="cst"; y.c=mkcst(r); x[i]=Real(y.c); c.push_back(put(y)); } vs.push_back(V{VE(x),c,false}); }
    for(long t=r.range(1,4);t>0;--t) { V const a=vs[r.below(vs.size())], b=vs[r.below(vs.size())]; std::vector<int> c; int k=1+static_cast<int>(r.below(static_cast<std::uint64_t>(s.p.size()))); auto un=[&](const char* o){ for(int i:a.c) { Node x; x.op=o; x.a=i; c.push_back(put(x)); } }; auto bi=[&](const char* o){ for(std::size_t i=0;i<a.c.size();++i) { Node x; x.op=o; x.a=a.c[i]; x.b=b.c[i]; c.push_back(put(x)); } }; auto sl=[&](const char* o, bool left){ for(int i:a.c) { Node x; x.op=o; x.a=left?k:i; x.b=left?i:k; c.push_back(put(x)); } };
        switch(r.below(7)) { case 0: un("neg"); vs.push_back(V{neg(a.e),c,a.w}); break; case 1: un("pos"); vs.push_back(V{pos(a.e),c,a.w}); break; case 2: bi("add"); vs.push_back(V{r.chance(1,2)?add(a.e,b.e):a.e+b.e,c,a.w||b.w}); break; case 3: bi("sub"); vs.push_back(V{r.chance(1,2)?sub(a.e,b.e):a.e-b.e,c,a.w||b.w}); break; case 4: sl("mul",true); vs.push_back(V{mul(sc(k),a.e),c,a.w}); break; case 5: sl("mul",false); vs.push_back(V{mul(a.e,sc(k)),c,a.w}); break; default: { Node y; y.op="cst"; y.c=Rational(r.range(1,5),r.range(1,3)); k=put(y); sl("div",false); vs.push_back(V{div(a.e,RE(Real(y.c))),c,a.w}); break; } } }
    V const& v=vs.back(); SizeType i=r.below(n); int node=v.c[i]; RE e=v.e.get(i); RE q=e; Prog pp=p; pp.nd.resize(static_cast<std::size_t>(node)); if(r.chance(1,2)) { Node x; x.op="mul"; x.a=node; x.b=1; pp.nd.push_back(x); q=v.e[i]*RE(s.vs[0]); }
    std::vector<J> xs; Pt x0; for(int t=0;t<2;++t) { Pt x; for(auto const& b:box) x.push_back(Rational(ExactDouble(b.l))+(Rational(ExactDouble(b.u))-Rational(ExactDouble(b.l)))*Rational(r.range(0,8),8)); xs.push_back(ptj(x)); x0=x; }
    J P=pp.json(), X=J(xs); if(v.e.size()!=n) Ev("fail")("what","size of a vector expression").emit();
    switch(r.below(7)) {
        case 0: tr(r,"vget",P,dump(q,ns),X); break;
        case 1: tr(r,"vsimp",P,dump(simplify(q),ns),X); break;
        case 2: { RE t=q; eliminate_common_subexpressions(t); tr(r,"vgcse",P,dump(t,ns),X); break; }
        case 3: { if(v.w) break; Valuation<Real> val; for(std::size_t k=0;k<ns.size();++k) val.insert(RealVariable(ns[k]),Real(x0[k])); Real y=[&]{ try { return evaluate(q,val); } catch(std::exception const&) { throw; } }(); Ev("val")("p",P)("x",ptj(x0))("r",std::vector<J>{J{J("vval"),obj(FloatDPBounds(y,dp))}}).emit(); break; }
        case 4: { std::size_t k=r.below(ns.size()); RE d=derivative(q,RealVariable(ns[k])); Ev("der")("f","vget")("p",P)("q",dump(d,ns))("x",X)("k",static_cast<long>(k)+1).emit(); break; }
        case 5: { Pt c=x0; std::size_t k=r.below(n0); Prog kp; Node y; y.op="cst"; y.c=c[k]; kp.nd.push_back(y); tr(r,"vsubst",P,dump(substitute(q,s.vs[k],Real(c[k])),ns),X,{J{J(static_cast<long>(k)+1),kp.json()}}); break; }
        default: { std::vector<J> a; for(auto& z:q.arguments()) if(z.type()==VariableType::REAL) a.push_back(J(idx(ns,z.name()))); std::vector<long> used; Set<RealVariable> S; std::vector<long> ks; for(std::size_t k=0;k<n0;++k) if(r.chance(1,2)) { S.insert(s.vs[k]); ks.push_back(static_cast<long>(k)+1); } 
              std::vector<J> bx; for(auto& b:box) bx.push_back(J{J(str(b.l)),J(str(b.u))}); Ev("vqry")("p",dump(q,ns))("k",ks)("con",is_constant_in(q,S))("aff",is_affine_in(q,S))("x",X)("box",bx).emit(); break; }
    } }
// ---- predicates ----------------------------------------------------------------------------------------------------
static std::string kv(Kleenean k) { auto c=k.check(Effort::get_default()); return lstr(c); }
struct Pred { KE e; J j; };
static Pred mkpred(Rng& r, Sit const& s, std::vector<RE> const& v, int depth) { auto at=[&]{ return r.below(v.size()); };
    if(depth==0||r.chance(1,3)) { std::size_t a=at(), b=at(); auto c=[&](const char* o){ return J{J("cmp"),J(o),J(static_cast<long>(a)+1),J(static_cast<long>(b)+1)}; }; RE x=v[a], y=v[b];
        switch(r.below(9)) { case 0: case 1: return {x<y,c("lt")}; case 2: case 3: return {x>y,c("gt")}; case 4: return {x<=y,c("le")}; case 5: return {x>=y,c("ge")}; case 6: return {sgn(x),J{J("sgn"),J(static_cast<long>(a)+1)}};
            case 7: if(r.chance(1,2)) return {x==y,c("eq")}; else return {x!=y,c("ne")}; default: { int k=static_cast<int>(r.below(3)); if(k==0) return {KE(Kleenean(true)),J{J("k"),J("T")}}; if(k==1) return {KE(Kleenean(false)),J{J("k"),J("F")}}; return {KE(Kleenean(indeterminate)),J{J("k"),J("I")}}; } } }
    Pred p=mkpred(r,s,v,depth-1); if(r.chance(1,4)) return {!p.e,J{J("not"),p.j}}; Pred q=mkpred(r,s,v,depth-1); if(r.chance(1,2)) return {p.e&&q.e,J{J("and"),p.j,q.j}}; return {p.e||q.e,J{J("or"),p.j,q.j}}; }
static void ev_pred(Rng& r) { Sit s=mksit(r,P_SMOOTH); std::vector<RE> v; for(int i=1;i<=s.p.size();++i) v.push_back(mk(r,s.p,s,i)); Pred p=mkpred(r,s,v,static_cast<int>(r.range(0,3))); Pt x=mkpt(r,s); Valuation<Real> val; for(std::size_t i=0;i<s.ns.size();++i) val.insert(s.vs[i],Real(x[i]));
    Ev e("pred"); e("p",s.p.json())("f",p.j)("x",ptj(x)); e("v",kv(evaluate(p.e,val)))("s",kv(evaluate(simplify(p.e),val)));
    { Pt c=mkpt(r,s); std::size_t k=r.below(s.ns.size()); c=x; auto q=substitute(p.e,s.vs[k],Real(c[k])); e("u",kv(evaluate(q,val))); }
    auto ind=[&](Sign sg)->J { try { RE q=indicator(p.e,sg); return J{J("ok"),dump(q,s.ns)}; } catch(std::exception const& ex) { return J{J("no"),J(std::vector<J>())}; } }; e("ip",ind(Sign::POSITIVE))("in",ind(Sign::NEGATIVE)); 
    std::vector<long> a; for(auto& z:p.e.arguments()) a.push_back(idx(s.ns,z.name())); e("args",a).emit();
    // mutual negations
    std::size_t a1=r.below(v.size()), b1=r.below(v.size()); std::size_t a2=r.chance(1,2)?a1:b1, b2=a2==a1?b1:a1; if(r.chance(1,5)) b2=r.below(v.size()); auto mkc=[&](int o, RE const& l, RE const& g)->KE { switch(o) { case 0: return l<g; case 1: return l>g; case 2: return l<=g; case 3: return l>=g; case 4: return l==g; default: return l!=g; } }; static const char* on[]={"lt","gt","le","ge","eq","ne"}; int o1=static_cast<int>(r.below(r.chance(1,5)?6:4)), o2=r.chance(1,2)?o1:static_cast<int>(r.below(4)); 
    Ev("opp")("p",s.p.json())("a",J{J("cmp"),J(on[o1]),J(static_cast<long>(a1)+1),J(static_cast<long>(b1)+1)})("b",J{J("cmp"),J(on[o2]),J(static_cast<long>(a2)+1),J(static_cast<long>(b2)+1)})("r",[&]()->std::string{ try { return opposite(mkc(o1,v[a1],v[b1]),mkc(o2,v[a2],v[b2]))?"T":"F"; } catch(std::exception const& ex) { return "exc"; } }())("x",ptsj(r,s,3)).emit(); }
// ---- integers, strings, truth values ------------------------------------------------------------------------------
struct ZP { ZE e; J j; }; struct BP { BE e; J j; };
static ZP mkz(Rng& r, int d) { static const char* nm[]={"k","m","n"}; if(d==0||r.chance(1,4)) { if(r.chance(1,2)) { long c=r.range(-5,5); return {ZE(Integer(c)),J{J("z"),J(c)}}; } long i=r.range(0,2); return {ZE(Variable<Integer>(nm[i])),J{J("v"),J(nm[i])}}; }
    ZP a=mkz(r,d-1); switch(r.below(5)) { case 0: return {-a.e,J{J("neg"),a.j}}; case 1: return {+a.e,J{J("pos"),a.j}}; case 2: { ZP b=mkz(r,d-1); return {a.e+b.e,J{J("add"),a.j,b.j}}; } case 3: { ZP b=mkz(r,d-1); return {a.e-b.e,J{J("sub"),a.j,b.j}}; } default: { ZP b=mkz(r,d-1); return {a.e*b.e,J{J("mul"),a.j,b.j}}; } } }
static BP mkbz(Rng& r, int d) { if(d==0||r.chance(1,3)) { ZP a=mkz(r,2), b=mkz(r,2); switch(r.below(6)) { case 0: return {a.e==b.e,J{J("eq"),a.j,b.j}}; case 1: return {a.e!=b.e,J{J("ne"),a.j,b.j}}; case 2: return {a.e<=b.e,J{J("le"),a.j,b.j}}; case 3: return {a.e>=b.e,J{J("ge"),a.j,b.j}}; case 4: return {a.e<b.e,J{J("lt"),a.j,b.j}}; default: return {a.e>b.e,J{J("gt"),a.j,b.j}}; } }
    BP a=mkbz(r,d-1); switch(r.below(3)) { case 0: return {!a.e,J{J("not"),a.j}}; case 1: { BP b=mkbz(r,d-1); return {a.e&&b.e,J{J("and"),a.j,b.j}}; } default: { BP b=mkbz(r,d-1); return {a.e||b.e,J{J("or"),a.j,b.j}}; } } }
static BP mkbs(Rng& r, int d) { static const char* nm[]={"s","t"}; static const char* vl[]={"on","off","","idle"}; if(d==0||r.chance(1,3)) { long i=r.range(0,1), k=r.range(0,3); Variable<String> v(nm[i]); if(r.chance(1,2)) return {v==String(vl[k]),J{J("seq"),J(nm[i]),J(vl[k])}}; return {v!=String(vl[k]),J{J("sne"),J(nm[i]),J(vl[k])}}; }
    BP a=mkbs(r,d-1); switch(r.below(3)) { case 0: return {!a.e,J{J("not"),a.j}}; case 1: { BP b=mkbs(r,d-1); return {a.e&&b.e,J{J("and"),a.j,b.j}}; } default: { BP b=mkbs(r,d-1); return {a.e||b.e,J{J("or"),a.j,b.j}}; } } }
static void ev_discrete(Rng& r) { if(r.chance(2,3)) { Valuation<Integer> v; Obj o; for(const char* n:{"k","m","n"}) { long c=r.range(-6,6); v.insert(Variable<Integer>(n),Integer(c)); o.add(n,J(c)); }
      ZP z=mkz(r,3); BP b=mkbz(r,2); std::vector<std::string> a; for(auto& q:arguments(b.e)) a.push_back(q); Integer y=evaluate(z.e,v); Ev("zexp")("f",z.j)("v",o.j())("r",J::raw(str(y))).emit(); Ev("bexp")("f",b.j)("v",o.j())("r",bool(evaluate(b.e,v)))("args",a).emit(); }
    else { static const char* vl[]={"on","off","","idle"}; Valuation<String> v; Obj o; for(const char* n:{"s","t"}) { const char* c=vl[r.below(4)]; v.insert(Variable<String>(n),String(c)); o.add(n,J(c)); } BP b=mkbs(r,3); std::vector<std::string> a; for(auto& q:arguments(b.e)) a.push_back(q); Ev("bexp")("f",b.j)("v",o.j())("r",bool(evaluate(b.e,v)))("args",a).emit(); } }
// ---- spaces and valuations ------------------------------------------------------------------------------------------
static void ev_space(Rng& r) { static const Names pool={"x","y","z","x0","x1","x10","X"}; auto nm=[&]{ return r.pick(pool); }; RealSpace s; std::vector<J> ops; 
    for(int t=static_cast<int>(r.range(1,7));t>0;--t) { std::string v=nm(); switch(r.below(4)) { case 0: s.insert(RealVariable(v)); ops.push_back(J{J("ins"),J(v)}); break; case 1: { std::string st="ok"; try { s.append(RealVariable(v)); } catch(std::exception const&) { st="no"; } ops.push_back(J{J("app"),J(v),J(st)}); break; }
        case 2: { List<RealVariable> l; Names q; for(int k=static_cast<int>(r.range(0,3));k>0;--k) { std::string w=nm(); bool d=false; for(auto& z:q) d=d||z==w; if(!d) { q.push_back(w); l.append(RealVariable(w)); } } s.adjoin(RealSpace(l)); ops.push_back(J{J("adj"),J(q)}); break; }
        default: { std::string st="ok"; RealSpace u=s; try { if(r.chance(1,2)) { u=join(s,RealVariable(v)); ops.push_back(J{J("app"),J(v),J("ok")}); } else { u=join(s,RealSpace({RealVariable(v)})); ops.push_back(J{J("ins"),J(v)}); } s=u; } catch(std::exception const&) { ops.push_back(J{J("app"),J(v),J("no")}); } break; } } }
    std::vector<J> names, names2; for(auto& q:s.variable_names()) names.push_back(J(std::string(q))); for(SizeType i=0;i<s.size();++i) names2.push_back(J(std::string(s[i].name()))); std::vector<J> ix, ct; auto inds=s.indices_from_names(); auto inds2=s.indices(); std::vector<J> im;
    for(auto& q:pool) { long k=-1; try { k=static_cast<long>(s.index(RealVariable(q))); } catch(std::exception const&) {} long k2=-1; try { k2=static_cast<long>(s[Identifier(q)]); } catch(std::exception const&) {} ix.push_back(J{J(q),J(k),J(k2),J(bool(s.contains(RealVariable(q)))),J(static_cast<long>(inds.has_key(q)?long(inds[q]):-1)),J(static_cast<long>(inds2.has_key(RealVariable(q))?long(inds2[RealVariable(q)]):-1))}); }
    Ev("spc")("ops",ops)("names",names)("names2",names2)("size",static_cast<long>(s.dimension()))("ix",ix)("self",bool(s==s)&&!bool(s!=s)).emit(); }
int main(int argc, char** argv) {
    Args A(argc,argv); Rng r(A.seed); typedef void(*Fn)(Rng&); struct C { Fn f; unsigned w; const char* n; }; std::vector<C> cs={{ev_transform,6,"transform"},{ev_derivative,3,"derivative"},{ev_formula,4,"formula"},{ev_eval,4,"eval"},{ev_query,3,"query"},{ev_fquery,1,"fquery"},{ev_order,2,"order"},{ev_vector,3,"vector"},{ev_pred,3,"pred"},{ev_discrete,1,"discrete"},{ev_space,1,"space"}}; unsigned W=0; for(auto& c:cs) W+=c.w;
    for(long k=0;count()<A.n&&k<A.n*20;++k) { auto t=r.below(W); for(auto& c:cs) { if(t<c.w) { try { c.f(r); } catch(std::exception const& e) { if(std::string(e.what()).find("Assertion `x!=0.0' failed")!=std::string::npos) break; /* negative power of an approximation which has become zero */ Ev("fail")("what",std::string(c.n)+": "+std::string(e.what()).substr(0,160)).emit(); } break; } t-=c.w; } }
    return 0; }
