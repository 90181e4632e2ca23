// Constraint solving: reductions of boxes, feasibility tests
#include "enc.hpp"
#include "prog.hpp"
#include "algebra/algebra.hpp"
#include "algebra/vector.hpp"
#include "algebra/covector.hpp"
#include "algebra/sweeper.hpp"
#include "function/formula.hpp"
#include "function/function.hpp"
#include "function/taylor_model.hpp"
#include "function/taylor_function.hpp"
#include "function/procedure.hpp"
#include "function/constraint.hpp"
#include "geometry/interval.hpp"
#include "geometry/box.hpp"
#include "solvers/constraint_solver.hpp"
using namespace Ariadne;
VH_MAIN_SUPPORT
using namespace vh;
#include "constr.hpp"
static J boxj(UpperBoxType const& d) { std::vector<J> v; for(SizeType i=0;i<d.size();++i) v.push_back(J{J(str(d[i].lower_bound().raw())),J(str(d[i].upper_bound().raw()))}); return J(v); }
static const char* kl(ValidatedKleenean k) { return definitely(k)?"t":possibly(k)?"i":"f"; }
static IntervalDomainType iv(DI const& d) { return IntervalDomainType(FloatDP(ExactDouble(d.l),dp),FloatDP(ExactDouble(d.u),dp)); }
static ValidatedScalarMultivariateFunction sfn(std::size_t n, Formula<ValidatedNumber> const& f) { return ValidatedScalarMultivariateFunction(EuclideanDomain(n),f); }
static bool FE=true;
static void con(Rng& r) { std::size_t n=1+r.below(3); Bx b=mkbox(r,n); int what=static_cast<int>(r.below(FE?10:9)); bool smooth=what>=5; Prog p=mkprog(r,b,static_cast<int>(r.range(1,smooth?4:5)),P_SMOOTH|P_INV|(smooth?0:P_LAT));
    if(hasop(p,{"sqrt"})&&hasop(p,{"tan","asin","acos"})) return; if(smooth&&hasop(p,{"asin","acos","atan","abs","max","min"})) return;
    if(what==7||what==9) { if(hasop(p,{"div","rec","log","tan","sqrt"})) return; for(auto& q:p.nd) if(q.op=="pow"&&q.n<0) return; }
    auto f=forms<ValidatedNumber>(r,p); std::vector<Pt> xs; for(int i=0;i<6;++i) xs.push_back(mkpt(r,b));
    std::size_t m=(what==2||what==3||what==5||what==6)?1:1+r.below(2); std::vector<int> c; for(std::size_t k=0;k<m;++k) c.push_back(k==0?p.size():p.size()-static_cast<int>(r.below(static_cast<std::uint64_t>(p.size()-static_cast<int>(n)+1)))); 
    Pt x0=xs[0]; bool off=r.chance(1,4); Bx cd; for(std::size_t k=0;k<m;++k) { double y=evald(p,c[k],x0); if(!(std::fabs(y)<1e6)) return; double e=std::ldexp(1.0,-static_cast<int>(r.range(0,what>=7?6:40))); if(off) y+=(r.chance(1,2)?4*e:8.0); bool lo=r.chance(1,5)&&what!=9, hi=r.chance(1,5)&&what!=9; cd.push_back(DI{lo?-1.0/0.0:y-e*(r.chance(1,2)?1:1e-6)-1e-9,hi?1.0/0.0:y+e*(r.chance(1,2)?1:1e-6)+1e-9}); }
    ExactBoxType d(n,iv(b[0])); for(std::size_t i=0;i<n;++i) d[i]=iv(b[i]); UpperBoxType dom(d); ExactBoxType cb(m,iv(cd[0])); for(std::size_t k=0;k<m;++k) cb[k]=iv(cd[k]);
    Vector<Formula<ValidatedNumber>> fs(m,f[0]); for(std::size_t k=0;k<m;++k) fs[k]=f[static_cast<std::size_t>(c[k]-1)]; ValidatedVectorMultivariateFunction F(EuclideanDomain(n),fs); ValidatedScalarMultivariateFunction f0=sfn(n,fs[0]);
    List<ValidatedConstraint> cs; for(std::size_t k=0;k<m;++k) { ValidatedNumber lb(cb[k].lower_bound()), ub(cb[k].upper_bound()); cs.append(ValidatedConstraint(lb,sfn(n,fs[k]),ub)); }
    SizeType j=r.below(n); ConstraintSolver S; const char* o=""; bool ret=false; std::string st="ok", kr=""; J pj=J(std::vector<J>{}); bool feas=false;
    try { switch(what) {
      case 0: o="reduce"; ret=S.reduce(dom,F,cb); break;
      case 1: o="reducec"; ret=S.reduce(dom,cs); break;
      case 2: case 3: o="box"; ret=S.box_reduce(dom,f0,cb[0],j); if(r.chance(1,2)&&!ret) ret=S.box_reduce(dom,cs[0],r.below(n)); break;
      case 4: o="hull"; if(m==1&&r.chance(1,2)) ret=r.chance(1,2)?S.hull_reduce(dom,f0,cb[0]):S.hull_reduce(dom,cs[0]); else ret=S.hull_reduce(dom,F,cb); break;
      case 5: case 6: o="mono"; ret=S.monotone_reduce(dom,f0,cb[0],j); break;
      case 7: { o="lyap"; ThresholdSweeper<FloatDP> sw(dp,1e-10_pr); ValidatedVectorMultivariateTaylorFunctionModelDP T(d,F,sw); Vector<FloatDP> ce(n,dp), mu(m,dp); for(std::size_t i=0;i<n;++i) ce[i]=FloatDP(ExactDouble((b[i].l+b[i].u)/2),dp); for(std::size_t k=0;k<m;++k) mu[k]=FloatDP(ExactDouble(static_cast<double>(r.range(1,8))/4),dp); ret=S.lyapunov_reduce(dom,T,cb,ce,mu); break; }
      case 8: { o="chk"; feas=true; Vector<FloatDP> y(n,dp); std::vector<J> pv; for(std::size_t i=0;i<n;++i) { double v=r.chance(1,6)?b[i].u+0.5:qd(xs[0][i]); y[i]=FloatDP(ExactDouble(v),dp); pv.push_back(J(str(v))); } pj=J(pv); kr=kl(S.check_feasibility(d,F,cb,Point<FloatDP>(y))); break; }
      default: { o="feas"; feas=true; auto pr=r.chance(1,2)?S.feasible(d,F,cb):S.feasible(d,cs); kr=kl(pr.first); std::vector<J> pv; for(SizeType i=0;i<pr.second.size();++i) pv.push_back(J(str(pr.second[i]))); pj=J(pv); } } } catch(std::exception const& e) { st=std::string(e.what()).substr(0,150); }
    std::vector<J> db,cj,xj; for(auto& q:b) db.push_back(ivj(q.l,q.u)); for(auto& q:cd) cj.push_back(ivj(q.l,q.u)); for(auto& x:xs) xj.push_back(ptj(x));
    if(feas) Ev("feas")("o",o)("p",p.json())("c",c)("d",J(db))("cd",J(cj))("x",J(xj))("st",st)("r",kr)("y",pj).emit();
    else Ev("hull")("o",o)("p",p.json())("c",c)("d",J(db))("cd",J(cj))("x",J(xj))("st",st)("ret",ret)("j",static_cast<long>(j))("r",boxj(dom)).emit(); }
int main(int argc, char** argv) { Args A(argc,argv); Rng r(A.seed); FE=A.mode=="feas";
    for(long k=0;count()<A.n&&k<A.n*20;++k) { try { con(r); } catch(std::exception const& e) { Ev("fail")("what",std::string(e.what()).substr(0,200)).emit(); } }
    return 0; }
