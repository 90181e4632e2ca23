// shared by the drivers of procedures and of constraints: boxes, points, formulae of a program
#ifndef VH_CONSTR_HPP
#define VH_CONSTR_HPP
typedef std::vector<Rational> Pt; typedef std::vector<DI> Bx;
static Bx mkbox(Rng& r, std::size_t n) { Bx b; for(std::size_t i=0;i<n;++i) { double c=static_cast<double>(r.range(-24,24))/8, w=static_cast<double>(r.range(0,24))/16; b.push_back(DI{c-w,c+w}); } return b; }
static Pt mkpt(Rng& r, Bx const& bx) { Pt x; for(auto const& b:bx) { int k=static_cast<int>(r.below(4)); Rational l(ExactDouble(b.l)), u(ExactDouble(b.u)); x.push_back(k==0?l:k==1?u:Rational(l+(u-l)*Rational(r.range(0,16),16))); } return x; }
static J ptj(Pt const& x) { std::vector<J> v; for(auto const& q:x) v.push_back(J(str(q))); return J(v); }
template<class Y> Y num(Rational const& q) { return Y(EffectiveNumber(q)); }
template<class Y> std::vector<Formula<Y>> forms(Rng& r, Prog const& p) { typedef Formula<Y> FM; std::vector<FM> v; std::vector<bool> cs; 
    for(auto const& n:p.nd) { std::string const& o=n.op; std::size_t a=static_cast<std::size_t>(n.a>0?n.a-1:0), b=static_cast<std::size_t>(n.b>0?n.b-1:0);
        if(o=="var") { v.push_back(FM::coordinate(Nat(a))); continue; } if(o=="cst") { v.push_back(FM::constant(num<Y>(n.c))); continue; }
        if(n.b) { bool ca=p.nd[a].op=="cst"&&r.chance(1,2), cb=p.nd[b].op=="cst"&&r.chance(1,2);
            if(cb) { Y c=num<Y>(p.nd[b].c); if(o=="add") { v.push_back(v[a]+c); continue; } if(o=="sub") { v.push_back(v[a]-c); continue; } if(o=="mul") { v.push_back(v[a]*c); continue; } if(o=="div") { v.push_back(v[a]/c); continue; } }
            if(ca) { Y c=num<Y>(p.nd[a].c); if(o=="add") { v.push_back(c+v[b]); continue; } if(o=="sub") { v.push_back(c-v[b]); continue; } if(o=="mul") { v.push_back(c*v[b]); continue; } if(o=="div") { v.push_back(c/v[b]); continue; } 
                if constexpr(requires { FM::binary(Max(),c,v[b]); }) { if(o=="max") { v.push_back(FM::binary(Max(),c,v[b])); continue; } if(o=="min") { v.push_back(FM::binary(Min(),c,v[b])); continue; } } } }
        Prog q; q.nv=n.b?2:1; Node x1; x1.op="var"; x1.a=1; q.nd.push_back(x1); if(n.b) { x1.a=2; q.nd.push_back(x1); } Node m=n; m.a=1; if(n.b) m.b=2; q.nd.push_back(m); std::vector<FM> w{v[a]}; if(n.b) w.push_back(v[b]); v.push_back(run_prog<FM>(q,w,[](Rational const& c){return FM::constant(num<Y>(c));}).back()); }
    return v; }
static bool hasop(Prog const& p, std::set<std::string> const& s) { for(auto& n:p.nd) if(s.count(n.op)) return true; return false; }
static double evald(Prog const& p, int c, Pt const& x) { std::vector<double> v; for(auto const& n:p.nd) { std::string const& o=n.op; double a=n.a>0&&o!="var"?v[static_cast<std::size_t>(n.a-1)]:0, b=n.b>0?v[static_cast<std::size_t>(n.b-1)]:0, z=0;
    if(o=="var") z=qd(x[static_cast<std::size_t>(n.a-1)]); else if(o=="cst") z=qd(n.c); else if(o=="pi") z=M_PI; else if(o=="add") z=a+b; else if(o=="sub") z=a-b; else if(o=="mul") z=a*b; else if(o=="div") z=a/b; else if(o=="neg") z=-a; else if(o=="pos") z=a; else if(o=="sqr") z=a*a; else if(o=="rec") z=1/a; else if(o=="hlf") z=a/2; else if(o=="pow") z=std::pow(a,n.n); else if(o=="sqrt") z=std::sqrt(a); else if(o=="exp") z=std::exp(a); else if(o=="log") z=std::log(a); else if(o=="sin") z=std::sin(a); else if(o=="cos") z=std::cos(a); else if(o=="tan") z=std::tan(a); else if(o=="asin") z=std::asin(a); else if(o=="acos") z=std::acos(a); else if(o=="atan") z=std::atan(a); else if(o=="abs") z=std::fabs(a); else if(o=="max") z=std::max(a,b); else if(o=="min") z=std::min(a,b); v.push_back(z); } return v[static_cast<std::size_t>(c-1)]; }
static J ivj(double l, double u) { return J{J(str(l)),J(str(u))}; }
#endif
