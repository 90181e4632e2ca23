// Straight-line programs of real functions (see spec/Term.tla): random generation inside the domain of
// every operation on a given box, and interpretation in any algebra.
#ifndef VH_PROG_HPP
#define VH_PROG_HPP
#include "vh.hpp"
namespace vh {
using Ariadne::Rational;
struct DI { double l,u; double mag() const { return std::max(std::fabs(l),std::fabs(u)); } double w() const { return u-l; } bool has0(double m=0) const { return l<=m&&u>=-m; } };
inline DI di4(double a,double b,double c,double d) { return DI{std::min(std::min(a,b),std::min(c,d)),std::max(std::max(a,b),std::max(c,d))}; }
struct Node { std::string op; int a=0,b=0,n=0; Rational c; };
struct Prog {
    int nv=0; std::vector<Node> nd; std::vector<DI> rg;
    int size() const { return static_cast<int>(nd.size()); }
    J json() const { std::vector<J> v; for(auto const& x:nd) { 
        if(x.op=="cst") v.push_back(J{J("cst"),J(str(x.c))}); else if(x.op=="pi") v.push_back(J{J("pi")}); else if(x.op=="var") v.push_back(J{J("var"),J(x.a)});
        else if(x.op=="pow") v.push_back(J{J("pow"),J(x.a),J(x.n)}); else if(x.b) v.push_back(J{J(x.op),J(x.a),J(x.b)}); else v.push_back(J{J(x.op),J(x.a)}); } return J(v); }
};
enum { P_DIV=1, P_ELEM=2, P_LAT=4, P_PI=8, P_TRIG=16, P_INV=32, P_SMOOTH=P_DIV|P_ELEM|P_TRIG, P_ALL=P_DIV|P_ELEM|P_TRIG|P_INV|P_LAT|P_PI };
inline double qd(Rational const& q) { return mpq_get_d(q.get_mpq()); }
// a "nice" constant
inline Rational mkcst(Rng& r) { switch(r.below(6)) { case 0: return Rational(r.range(-3,3)); case 1: return Rational(r.range(-9,9),r.range(1,9)); case 2: return Rational(r.range(-20,20),8); case 3: return Rational(r.range(-300,300),100); case 4: return Rational(1); default: return Rational(r.range(1,5),r.range(1,4)); } }
inline Prog mkprog(Rng& r, std::vector<DI> const& box, int len, int flags, double big=50, double wmax=1e9) {
    Prog p; p.nv=static_cast<int>(box.size());
    auto put=[&](Node n, DI g) { p.nd.push_back(n); p.rg.push_back(g); };
    // every program begins with its variables, so that nodes 1..nv are the variables
    for(int i=0;i<p.nv;++i) { Node n; n.op="var"; n.a=i+1; put(n,box[static_cast<std::size_t>(i)]); }
    if(p.nv==0||r.chance(1,2)) { Node n; n.op="cst"; n.c=mkcst(r); double c=qd(n.c); put(n,DI{c,c}); }
    if((flags&P_PI)&&r.chance(1,8)) { Node n; n.op="pi"; put(n,DI{3.14159,3.1416}); }
    int tries=0;
    while(p.size()<p.nv+len && ++tries<400) {
        Node n; DI g{0,0}; 
        auto arg=[&]{ return p.size()>2&&r.chance(1,2) ? p.size()-static_cast<int>(r.below(2)) : 1+static_cast<int>(r.below(static_cast<std::uint64_t>(p.size()))); };
        n.a=arg(); DI x=p.rg[static_cast<std::size_t>(n.a-1)]; n.b=arg(); DI y=p.rg[static_cast<std::size_t>(n.b-1)];
        bool un=true;
        switch(r.below(24)) {
            case 0: case 1: case 2: n.op="add"; un=false; g=DI{x.l+y.l,x.u+y.u}; break;
            case 3: case 4: n.op="sub"; un=false; g=DI{x.l-y.u,x.u-y.l}; break;
            case 5: case 6: case 7: n.op="mul"; un=false; g=di4(x.l*y.l,x.l*y.u,x.u*y.l,x.u*y.u); break;
            case 8: if(!(flags&P_DIV)||y.has0(0.1)) continue; n.op="div"; un=false; g=di4(x.l/y.l,x.l/y.u,x.u/y.l,x.u/y.u); break;
            case 9: n.op="neg"; g=DI{-x.u,-x.l}; break;
            case 10: n.op="sqr"; g=di4(x.l*x.l,x.u*x.u,x.l*x.l,x.u*x.u); if(x.has0()) g.l=0; break;
            case 11: { n.op="pow"; n.n=static_cast<int>(r.range((flags&P_DIV)&&!x.has0(0.2)?-3:0,5)); double a=std::pow(x.l,n.n), b=std::pow(x.u,n.n); g=di4(a,b,a,b); if(n.n>0&&n.n%2==0&&x.has0()) g.l=0; break; }
            case 12: if(!(flags&P_DIV)||x.has0(0.1)) continue; n.op="rec"; g=di4(1/x.l,1/x.u,1/x.l,1/x.u); break;
            case 13: n.op=r.chance(1,2)?"hlf":"pos"; g= n.op=="hlf" ? DI{x.l/2,x.u/2} : x; break;
            case 14: if(!(flags&P_ELEM)||x.l<0.1) continue; n.op="sqrt"; g=DI{std::sqrt(x.l),std::sqrt(x.u)}; break;
            case 15: if(!(flags&P_ELEM)||x.u>3.5||x.l<-8) continue; n.op="exp"; g=DI{std::exp(x.l),std::exp(x.u)}; break;
            case 16: if(!(flags&P_ELEM)||x.l<0.1) continue; n.op="log"; g=DI{std::log(x.l),std::log(x.u)}; break;
            case 17: if(!(flags&P_TRIG)||x.mag()>20) continue; n.op="sin"; g=DI{-1,1}; if(x.w()<1e-9) g=DI{std::sin(x.l)-1e-8,std::sin(x.l)+1e-8}; break;
            case 18: if(!(flags&P_TRIG)||x.mag()>20) continue; n.op="cos"; g=DI{-1,1}; if(x.w()<1e-9) g=DI{std::cos(x.l)-1e-8,std::cos(x.l)+1e-8}; break;
            case 19: if(!(flags&P_TRIG)||x.mag()>1.2) continue; n.op="tan"; g=DI{std::tan(x.l),std::tan(x.u)}; break;
            case 20: if(!(flags&P_INV)) continue; n.op="atan"; g=DI{std::atan(x.l),std::atan(x.u)}; break;
            case 21: if(!(flags&P_INV)||x.mag()>0.85) continue; n.op=r.chance(1,2)?"asin":"acos"; g= n.op=="asin" ? DI{std::asin(x.l),std::asin(x.u)} : DI{std::acos(x.u),std::acos(x.l)}; break;
            case 22: if(!(flags&P_LAT)) continue; if(r.chance(1,2)) { n.op="abs"; g= x.l>=0?x:x.u<=0?DI{-x.u,-x.l}:DI{0,x.mag()}; } else { un=false; n.op=r.chance(1,2)?"max":"min"; g= n.op=="max" ? DI{std::max(x.l,y.l),std::max(x.u,y.u)} : DI{std::min(x.l,y.l),std::min(x.u,y.u)}; } break;
            default: n.op="cst"; n.c=mkcst(r); g=DI{qd(n.c),qd(n.c)}; n.a=0; break;
        }
        if(un) n.b=0;
        if(!(g.mag()<big) || g.w()>wmax) continue;
        double s=1e-12*(1+g.mag()); g.l-=s; g.u+=s;
        put(n,g);
    }
    // end with a node that is not a plain constant or variable, if there is one: combine the two last
    if(p.nd.back().op=="cst"||p.nd.back().op=="var"||p.nd.back().op=="pi") { Node n; n.op="add"; n.a=p.size(); n.b=1; DI x=p.rg.back(), y=p.rg.front(); put(n,DI{x.l+y.l,x.u+y.u}); }
    return p;
}
// interpretation: cst(Rational)->T, pi()->T; all node values
template<class T, bool LAT=true, class CST=void> std::vector<T> run_prog(Prog const& p, std::vector<T> const& vars, CST const& cst) {
    std::vector<T> v; v.reserve(p.nd.size());
    for(auto const& n:p.nd) { std::string const& o=n.op; std::size_t a=static_cast<std::size_t>(n.a>0?n.a-1:0), b=static_cast<std::size_t>(n.b>0?n.b-1:0);
        if(o=="cst") v.push_back(cst(n.c));
        else if(o=="pi") { if constexpr(requires { T(Ariadne::pi); }) v.push_back(T(Ariadne::pi)); else throw std::logic_error("pi"); }
        else if(o=="var") v.push_back(vars[a]);
        else if(o=="add") v.push_back(T(v[a]+v[b])); else if(o=="sub") v.push_back(T(v[a]-v[b])); else if(o=="mul") v.push_back(T(v[a]*v[b])); else if(o=="div") v.push_back(T(v[a]/v[b]));
        else if(o=="neg") v.push_back(T(-v[a])); else if(o=="pos") v.push_back(T(+v[a])); else if(o=="sqr") v.push_back(T(sqr(v[a]))); else if(o=="rec") v.push_back(T(rec(v[a]))); else if(o=="pow") v.push_back(T(pow(v[a],n.n)));
        else if(o=="hlf") { if constexpr(LAT && requires { T(hlf(v[a])); }) v.push_back(T(hlf(v[a]))); else v.push_back(T(v[a]*cst(Rational(1,2)))); }
        else if(o=="sqrt") v.push_back(T(sqrt(v[a]))); else if(o=="exp") v.push_back(T(exp(v[a]))); else if(o=="log") v.push_back(T(log(v[a]))); else if(o=="sin") v.push_back(T(sin(v[a]))); else if(o=="cos") v.push_back(T(cos(v[a]))); else if(o=="tan") v.push_back(T(tan(v[a])));
        else if(o=="atan") { if constexpr(LAT && requires { T(atan(v[a])); }) v.push_back(T(atan(v[a]))); else throw std::logic_error("atan"); }
        else if(o=="asin") { if constexpr(LAT && requires { T(asin(v[a])); }) v.push_back(T(asin(v[a]))); else throw std::logic_error("asin"); }
        else if(o=="acos") { if constexpr(LAT && requires { T(acos(v[a])); }) v.push_back(T(acos(v[a]))); else throw std::logic_error("acos"); }
        else if(o=="abs") { if constexpr(LAT && requires { T(abs(v[a])); }) v.push_back(T(abs(v[a]))); else throw std::logic_error("abs"); }
        else if(o=="max") { if constexpr(LAT && requires { T(max(v[a],v[b])); }) v.push_back(T(max(v[a],v[b]))); else throw std::logic_error("max"); }
        else if(o=="min") { if constexpr(LAT && requires { T(min(v[a],v[b])); }) v.push_back(T(min(v[a],v[b]))); else throw std::logic_error("min"); }
        else throw std::logic_error("node "+o); }
    return v; }
} // namespace vh
#endif
