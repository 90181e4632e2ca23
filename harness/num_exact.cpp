// Exact numbers: histories of assignments to registers holding integers, dyadics, decimals and rationals;
// comparisons, rounding to integers, text, refusals, bounds with exact end points, builtin integers.
#include "vh.hpp"
#include "numeric/int.hpp"
#include "numeric/integer.hpp"
#include "numeric/dyadic.hpp"
#include "numeric/decimal.hpp"
#include "numeric/rational.hpp"
#include "numeric/twoexp.hpp"
using namespace Ariadne; using namespace vh;
namespace Ariadne { Integer make_integer(unsigned long long int n); }
VH_MAIN_SUPPORT
static std::string strd(Decimal const& d) { Integer t=1; mpz_ui_pow_ui(t._mpz,10,d._q); return str(d._p.get_mpz())+"/"+str(t.get_mpz()); }
static std::string S(Integer const& x) { return str(x.get_mpz()); }
static std::string S(Dyadic const& x) { return str(x); }
static std::string S(Decimal const& x) { return strd(x); }
static std::string S(Rational const& x) { return str(x); }
static const int N=3;
static Integer Z[N]; static Dyadic W[N]; static Decimal D[N]; static Rational Q[N];
static bool lost[4*N];
typedef std::vector<std::string> VS;
static VS all() { VS v; for(int i=0;i<N;++i) v.push_back(lost[i]?"?":S(Z[i])); for(int i=0;i<N;++i) v.push_back(lost[N+i]?"?":S(W[i])); for(int i=0;i<N;++i) v.push_back(lost[2*N+i]?"?":S(D[i])); for(int i=0;i<N;++i) v.push_back(lost[3*N+i]?"?":S(Q[i])); return v; }
static const char* cn[]={"z","w","d","q"};
// an assignment d := f(s...)   (register indices 1.. in the order of all())
static void asg(const char* f, int d, std::vector<int> s, long n, std::string lit, std::function<void()> go) {
    std::string r="ok"; try { go(); lost[d]=false; } catch(std::exception const&) { r="exc"; }
    for(int& i:s) ++i; Ev("asg")("f",f)("d",d+1)("s",s)("n",n)("lit",lit)("r",r)("all",all()).emit(); }
static Rng* g;
static int pickreg(int c) { for(int t=0;t<50;++t) { int i=static_cast<int>(g->below(N)); if(!lost[c*N+i]) return i; } for(int i=0;i<N;++i) if(!lost[c*N+i]) return i; return 0; }
static bool big(int c, int i) { std::string s = c==0?S(Z[i]):c==1?S(W[i]):c==2?S(D[i]):S(Q[i]); return s.size()>260; }
static bool isinfreg(int c, int i) { return (c==1&&!is_finite(W[i]))||(c==3&&!is_finite(Q[i])); }
static Integer rz() { switch(g->below(6)) { case 0: return Integer(g->range(-12,12)); case 1: return Integer(g->range(-1000000000000l,1000000000000l)); case 2: { Integer z(g->range(-5,5)); mpz_mul_2exp(z._mpz,z._mpz,g->below(150)); return z; } case 3: { Integer z(static_cast<long>(g->next())); Integer y(static_cast<long>(g->next())); return z*y+Integer(g->range(-3,3)); } case 4: return Integer(g->range(-100,100)*10); default: return Integer(g->range(-30,30)); } }
static std::string rtext(Rng& r, bool point) { std::string s; if(r.chance(1,3)) s+=r.chance(3,4)?"-":""; int a=static_cast<int>(r.range(1,r.chance(1,6)?40:5)); for(int i=0;i<a;++i) s+=static_cast<char>('0'+(r.chance(1,4)?0:r.below(10)));
    if(point) { s+='.'; int b=static_cast<int>(r.range(1,r.chance(1,6)?40:5)); for(int i=0;i<b;++i) s+=static_cast<char>('0'+(r.chance(1,3)?0:r.below(10))); } return s; }
static void fresh(int c, int i) { Rng& r=*g; int d=c*N+i;
    if(c==0) { switch(r.below(8)) {
        case 0: { long n=r.range(-50,50); asg("const",d,{},0,std::to_string(n),[&]{ Z[i]=Integer(static_cast<int>(n)); }); break; }
        case 1: { static const long b[]={0,1,-1,2147483647l,-2147483648l,4294967295l,4294967296l,9223372036854775807l,-9223372036854775807l-1,-4294967297l,4611686018427387904l}; long n=r.chance(1,2)?b[r.below(11)]:static_cast<long>(r.next()); asg("const",d,{},1,std::to_string(n),[&]{ Z[i]=Integer(n); }); break; }
        case 2: { static const unsigned long b[]={0,1,4294967295ul,4294967296ul,18446744073709551615ul,9223372036854775808ul,13835058055282163712ul}; unsigned long n=r.chance(1,2)?b[r.below(7)]:r.next(); asg("const",d,{},2,std::to_string(n),[&]{ Z[i]=Integer(n); }); break; }
        case 3: { int n=static_cast<int>(r.next()); if(r.chance(1,2)) n=static_cast<int>(r.range(-9,9)); asg("const",d,{},3,std::to_string(n),[&]{ Z[i]=Integer(Int32(n)); }); break; }
        case 4: { unsigned n=static_cast<unsigned>(r.next()); asg("const",d,{},4,std::to_string(n),[&]{ Z[i]=Integer(Nat32(n)); }); break; }
        case 5: { std::string t=rtext(r,false); asg("parse",d,{},5,t,[&]{ Z[i]=Integer(String(t)); }); break; }
        case 6: { unsigned long n=r.next()>>r.below(64); asg("const",d,{},6,std::to_string(n),[&]{ Z[i]=make_integer(n); }); break; }
        default: { Integer z=rz(); asg("const",d,{},7,S(z),[&]{ Z[i]=Integer(z.get_mpz()); }); } } }
    else if(c==1) { switch(r.below(8)) {
        case 0: { double x=mkd(r); asg("const",d,{},0,str(x),[&]{ W[i]=Dyadic(ExactDouble(x)); }); break; }
        case 1: { int e=static_cast<int>(r.range(-200,200)); asg("const",d,{},1,"1b"+std::to_string(e),[&]{ W[i]=Dyadic(TwoExp(e)); }); break; }
        case 2: { Integer z=rz(); unsigned q=static_cast<unsigned>(r.below(90)); asg("const",d,{},2,S(z)+"b-"+std::to_string(q),[&]{ W[i]=Dyadic(z,q); }); break; }
        case 3: { Integer z=rz(); unsigned q=static_cast<unsigned>(r.below(90)); asg("const",d,{},3,S(z)+"b-"+std::to_string(q),[&]{ W[i]=Dyadic(z,Natural(q)); }); break; }
        case 4: { std::string t=rtext(r,false)+(r.chance(1,2)?".5":r.chance(1,2)?".125":r.chance(1,2)?".0":".3"); asg("parsew",d,{},4,t,[&]{ W[i]=Dyadic(String(t)); }); break; }
        case 5: { if(r.chance(2,3)) return; int k=static_cast<int>(r.below(3)); asg("const",d,{},5,k==0?"inf":k==1?"-inf":"nan",[&]{ W[i]=k==0?Dyadic::inf():k==1?Dyadic::inf(Sign::NEGATIVE):Dyadic::nan(); }); break; }
        case 6: { Integer z=rz(); mpf_t m; mpf_init2(m,600); mpf_set_z(m,z.get_mpz()); asg("const",d,{},6,S(z),[&]{ W[i]=Dyadic(m); }); mpf_clear(m); break; }
        default: { Integer z=rz(); asg("const",d,{},7,S(z),[&]{ W[i]=Dyadic(z); }); } } }
    else if(c==2) { switch(r.below(5)) {
        case 0: { Integer z=rz(); unsigned q=static_cast<unsigned>(r.below(14)); std::string p10="1"+std::string(q,'0'); asg("const",d,{},0,S(z)+"/"+p10,[&]{ D[i]=Decimal(z,q); }); break; }
        case 1: case 2: { std::string t=rtext(r,r.chance(4,5)); asg("parse",d,{},1,t,[&]{ D[i]=Decimal(String(t)); }); break; }
        case 3: { long p=r.range(-999999999,999999999); if(r.chance(1,2)) p=r.range(-9999,9999); int q=static_cast<int>(r.below(9)); std::string t=std::to_string(p)+"e-"+std::to_string(q); double x=std::stod(t); std::string p10="1"+std::string(static_cast<std::size_t>(q),'0'); asg("const",d,{},3,std::to_string(p)+"/"+p10,[&]{ D[i]=Decimal(x); }); break; }
        default: { long n=r.range(-1000,1000); asg("const",d,{},4,std::to_string(n),[&]{ D[i]=Decimal(n); }); } } }
    else { switch(r.below(7)) {
        case 0: { Integer a=rz(), b=rz(); if(b==0) b=7; asg("const",d,{},0,S(a)+"/"+S(b),[&]{ Q[i]=Rational(a,b); }); break; }
        case 1: { double x=mkd(r); asg("const",d,{},1,str(x),[&]{ Q[i]=Rational(ExactDouble(x)); }); break; }
        case 2: { std::string t=rtext(r,false); if(r.chance(2,3)) { std::string u=rtext(r,false); if(u[0]=='-') u=u.substr(1); u="1"+u; t=t+"/"+u; } asg("const",d,{},2,t,[&]{ Q[i]=Rational(String(t)); }); break; }
        case 3: { if(r.chance(2,3)) return; int k=static_cast<int>(r.below(5)); asg("const",d,{},3,k==0?"inf":k==1?"-inf":k==2?"nan":k==3?"inf":"-inf",[&]{ Q[i]=k==0?Rational::inf():k==1?Rational::inf(Sign::NEGATIVE):k==2?Rational::nan():k==3?Rational(Integer(3),Integer(0)):Rational(Integer(-5),Integer(0)); }); break; }
        case 4: { long a=r.range(-99,99), b=r.range(1,99); double x=static_cast<double>(a)/static_cast<double>(b); asg("const",d,{},4,std::to_string(a)+"/"+std::to_string(b),[&]{ Q[i]=operator""_q(static_cast<long double>(x)); }); break; }
        case 5: { long n=static_cast<long>(r.next())>>r.below(60); asg("const",d,{},5,std::to_string(n),[&]{ Q[i]=Rational(n); }); break; }
        default: { double x=mkd(r); asg("const",d,{},6,str(x),[&]{ Q[i]=Rational(FloatDP(ExactDouble(x),dp)); }); } } } }
template<class T> struct B; 
#define A1(F,E) asg(F,d,{s1},0,"",[&]{ E; })
#define A2(F,E) asg(F,d,{s1,s2},0,"",[&]{ E; })
static void op() { Rng& r=*g; int c=static_cast<int>(r.below(4)); int i=static_cast<int>(r.below(N)), j=pickreg(c), k=pickreg(c); int d=c*N+i, s1=c*N+j, s2=c*N+k;
    for(int t=0;t<N;++t) for(int cc=0;cc<4;++cc) if(!lost[cc*N+t]&&(big(cc,t)||(isinfreg(cc,t)&&r.chance(1,6)))) { fresh(cc,t); return; }
    unsigned m=static_cast<unsigned>(r.below(4));
    if(c==0) { Integer&x=Z[j]; Integer&y=Z[k]; Integer&v=Z[i];
        switch(r.below(18)) {
            case 0: A2("add",v=x+y); break; case 1: A2("sub",v=x-y); break; case 2: A2("mul",v=x*y); break; case 3: A1("neg",v=-x); break;
            case 4: A1("sqr",v=sqr(x)); break; case 5: A1("abs",v=abs(x)); break; case 6: A2("min",v=min(x,y)); break; case 7: A2("max",v=max(x,y)); break;
            case 8: asg("pow",d,{s1},m,"",[&]{ v=pow(x,m); }); break;
            case 9: if(y!=0) A2("quot",v=quot(x,y)); break; case 10: if(y!=0) A2("rem",v=rem(x,y)); break;
            case 11: if(!lost[d]) { s1=d; A2("add",v+=y); } break; case 12: if(!lost[d]) { s1=d; A2("sub",v-=y); } break; case 13: if(!lost[d]) { s1=d; A2("mul",v*=y); } break;
            case 14: if(!lost[d]) { s1=d; A1("inc",++v); } break; case 15: if(!lost[d]) { s1=d; A1("dec",--v); } break;
            case 16: A1("pos",v=+x); break; default: A1("nul",v=nul(x)); } }
    else if(c==1) { Dyadic&x=W[j]; Dyadic&y=W[k]; Dyadic&v=W[i]; const Dyadic& cx=x; int e=static_cast<int>(r.range(-70,70)); Integer& z=Z[pickreg(0)]; int sz=static_cast<int>(&z-Z);
        switch(r.below(20)) {
            case 0: A2("add",v=cx+y); break; case 1: A2("sub",v=cx-y); break; case 2: A2("mul",v=cx*y); break; case 3: A1("neg",v=-x); break;
            case 4: A1("sqr",v=sqr(x)); break; case 5: A1("abs",v=abs(x)); break; case 6: A2("min",v=min(x,y)); break; case 7: A2("max",v=max(x,y)); break;
            case 8: if(is_finite(x)||m>0) asg("pow",d,{s1},m,"",[&]{ v=pow(x,m); }); break; case 9: A1("hlf",v=hlf(x)); break;
            case 10: if(is_finite(x)) asg("shft",d,{s1},e,"",[&]{ v=x*TwoExp(e); }); break; case 11: if(is_finite(x)) asg("shft",d,{s1},-e,"",[&]{ v=x/TwoExp(e); }); break;
            case 12: if(!lost[d]) { s1=d; A2("add",v+=y); } break; case 13: if(!lost[d]) { s1=d; A2("sub",v-=y); } break; case 14: if(!lost[d]) { s1=d; A2("mul",v*=y); } break;
            case 15: s1=sz; A1("hlf",v=hlf(z)); break; case 16: s2=sz; A2("add",v=cx+z); break; case 17: s2=sz; A2("mul",v=z*cx); break; 
            case 18: A2("add",v=x+y); break; default: s1=sz; A1("pos",v=z); } }
    else if(c==2) { Decimal&x=D[j]; Decimal&y=D[k]; Decimal&v=D[i]; Dyadic& w=W[pickreg(1)]; int sw=N+static_cast<int>(&w-W);
        switch(r.below(12)) {
            case 0: A2("add",v=x+y); break; case 1: A2("sub",v=x-y); break; case 2: A2("mul",v=x*y); break; case 3: A1("neg",v=-x); break;
            case 4: A1("sqr",v=sqr(x)); break; case 5: A1("abs",v=abs(x)); break; case 6: A2("min",v=min(x,y)); break; case 7: A2("max",v=max(x,y)); break;
            case 8: A1("hlf",v=hlf(x)); break; case 9: if(!lost[d]) { s1=d; A2("add",v+=y); } break;
            case 10: if(is_finite(w) && S(w).size()<120) { s1=sw; A1("pos",v=Decimal(w)); } break; default: A1("nul",v=nul(x)); } }
    else { Rational&x=Q[j]; Rational&y=Q[k]; Rational&v=Q[i]; const Rational& cx=x; Integer& z=Z[pickreg(0)]; int sz=static_cast<int>(&z-Z); Integer& z2=Z[pickreg(0)]; int sz2=static_cast<int>(&z2-Z); Dyadic& w=W[pickreg(1)]; int sw=N+static_cast<int>(&w-W); Decimal& t=D[pickreg(2)]; Decimal& t2=D[pickreg(2)]; int st=2*N+static_cast<int>(&t-D), st2=2*N+static_cast<int>(&t2-D); int n=static_cast<int>(r.range(-3,3));
        bool fx=is_finite(x), fy=is_finite(y)&&y!=0;
        switch(r.below(28)) {
            case 0: A2("add",v=cx+y); break; case 1: A2("sub",v=cx-y); break; case 2: A2("mul",v=cx*y); break; case 3: A1("neg",v=-x); break;
            case 4: A1("sqr",v=sqr(x)); break; case 5: A1("abs",v=abs(x)); break; case 6: A2("min",v=min(x,y)); break; case 7: A2("max",v=max(x,y)); break;
            case 8: if(fx&&(n>=0||x!=0)) asg("pow",d,{s1},n,"",[&]{ v=pow(x,n); }); break; case 9: A1("hlf",v=hlf(x)); break;
            case 10: case 11: if(!is_zero(y)) A2("div",v=cx/y); break; case 12: if(!is_zero(x)) A1("rec",v=rec(x)); break;
            case 13: if(!lost[d]) { s1=d; A2("add",v+=y); } break; case 14: if(!lost[d]) { s1=d; A2("sub",v-=y); } break; case 15: if(!lost[d]) { s1=d; A2("mul",v*=y); } break; case 16: if(!lost[d]&&!is_zero(y)) { s1=d; A2("div",v/=y); } break;
            case 17: if(z2!=0) { s1=sz; s2=sz2; A2("div",v=z/z2); } break; case 18: if(z!=0) { s1=sz; A1("rec",v=rec(z)); } break;
            case 19: if(z!=0||n>=0) asg("pow",d,{sz},n,"",[&]{ v=pow(z,n); }); break; case 20: if(is_finite(w)&&(w!=0||n>=0)) asg("pow",d,{sw},n,"",[&]{ v=pow(w,n); }); break;
            case 21: s2=sw; A2("add",v=cx+w); break; case 22: if(!is_zero(w)) { s2=sw; A2("div",v=cx/w); } break;
            case 23: if(t2._p!=0) { s1=st; s2=st2; A2("div",v=t/t2); } break; case 24: s1=st; A1("pos",v=t); break; case 25: s1=sw; A1("pos",v=w); break; case 26: s1=sz; A1("pos",v=z); break;
            default: if(fx&&fy) { s2=sz; A2("mul",v=cx*z); } } } }
static void copymove() { Rng& r=*g; int c=static_cast<int>(r.below(4)), i=static_cast<int>(r.below(N)), j=pickreg(c); int d=c*N+i, s1=c*N+j;
    if(r.chance(1,2)||i==j) { A1("pos", if(c==0) Z[i]=Z[j]; else if(c==1) W[i]=W[j]; else if(c==2) D[i]=D[j]; else Q[i]=Q[j]); return; }
    bool ctor=r.chance(1,2); std::string rr="ok";
    if(c==0) { if(ctor) { Integer t(std::move(Z[j])); Z[i]=t; } else Z[i]=std::move(Z[j]); }
    else if(c==1) { if(ctor) { Dyadic t(std::move(W[j])); W[i]=t; } else W[i]=std::move(W[j]); }
    else if(c==2) { if(ctor) { Decimal t(std::move(D[j])); D[i]=t; } else D[i]=std::move(D[j]); }
    else { if(ctor) { Rational t(std::move(Q[j])); Q[i]=t; } else Q[i]=std::move(Q[j]); }
    lost[s1]=true; lost[d]=false;
    Ev("asg")("f","move")("d",d+1)("s",std::vector<int>{s1+1})("n",0)("lit","")("r",rr)("all",all()).emit(); }
static int c3(Comparison c) { return c==Comparison::EQUAL?0:c==Comparison::LESS?-1:c==Comparison::GREATER?1:7; }
static void query() { Rng& r=*g; std::vector<bool> o; int c=9; int s1=0,s2=0;
    int a=pickreg(0),b=pickreg(0),w=pickreg(1),x=pickreg(1),p=pickreg(2),q=pickreg(2),u=pickreg(3),v=pickreg(3);
    auto O=[&](auto const& l, auto const& k) { o={bool(l==k),bool(l!=k),bool(l<k),bool(l>k),bool(l<=k),bool(l>=k)}; };
    int n=static_cast<int>(r.range(-6,6)); if(r.chance(1,3)) n=static_cast<int>(r.next()); double y=mkd(r); std::string lit;
    auto C=[&](const char* f) { Ev("cmp")("f",f)("s",std::vector<int>{s1+1,s2+1})("lit",lit)("r",c)("o",o).emit(); };
    switch(r.below(22)) {
        case 0: s1=a; s2=b; c=c3(cmp(Z[a],Z[b])); O(Z[a],Z[b]); C("zz"); break;
        case 1: s1=N+w; s2=N+x; c=c3(cmp(W[w],W[x])); O(W[w],W[x]); C("ww"); break;
        case 2: s1=2*N+p; s2=2*N+q; c=c3(cmp(D[p],D[q])); O(D[p],D[q]); C("dd"); break;
        case 3: s1=3*N+u; s2=3*N+v; c=c3(cmp(Q[u],Q[v])); O(Q[u],Q[v]); C("qq"); break;
        case 4: s1=N+w; s2=3*N+v; O(W[w],Q[v]); C("wq"); break;
        case 5: s1=a; s2=3*N+v; O(Z[a],Q[v]); C("zq"); break;
        case 6: s1=a; s2=N+w; O(Z[a],W[w]); C("zw"); break;
        case 7: s1=2*N+p; s2=3*N+v; O(D[p],Q[v]); C("dq"); break;
        case 8: s1=a; lit=std::to_string(n); O(Z[a],n); C("zn"); break;
        case 9: s1=N+w; lit=std::to_string(n); O(W[w],n); C("wn"); break;
        case 10: s1=3*N+u; lit=std::to_string(n); O(Q[u],n); C("qn"); break;
        case 11: s1=3*N+u; lit=str(y); c=c3(cmp(Q[u],ExactDouble(y))); O(Q[u],ExactDouble(y)); C("qx"); break;
        case 12: { Ev("sgn")("f","z")("s",a+1)("r",static_cast<int>(sgn(Z[a])))("fin",std::vector<bool>{is_nan(Z[a]),is_inf(Z[a]),is_finite(Z[a]),is_zero(Z[a])}).emit(); break; }
        case 13: { Ev("sgn")("f","w")("s",N+w+1)("r",static_cast<int>(sgn(W[w])))("fin",std::vector<bool>{is_nan(W[w]),is_inf(W[w]),is_finite(W[w]),is_zero(W[w])}).emit(); break; }
        case 14: { Ev("sgn")("f","q")("s",3*N+u+1)("r",static_cast<int>(sgn(Q[u])))("fin",std::vector<bool>{is_nan(Q[u]),is_inf(Q[u]),is_finite(Q[u]),is_zero(Q[u])}).emit(); break; }
        case 15: if(is_finite(W[w])) { const char* f; Integer z; switch(r.below(3)) { case 0: f="floor"; z=floor(W[w]); break; case 1: f="ceil"; z=ceil(W[w]); break; default: f="round"; z=round(W[w]); } Ev("int")("f",f)("s",N+w+1)("r",S(z)).emit(); } break;
        case 16: if(is_finite(Q[u])) { const char* f; Integer z; switch(r.below(5)) { case 0: f="floor"; z=floor(Q[u]); break; case 1: f="ceil"; z=ceil(Q[u]); break; case 2: f="num"; z=Q[u].numerator(); break; case 3: f="den"; z=Q[u].denominator(); break; default: f="round"; z=round(Q[u]); } Ev("int")("f",f)("s",3*N+u+1)("r",S(z)).emit(); } break;
        case 17: if(is_finite(W[w])) Ev("parts")("f","w")("s",N+w+1)("m",S(W[w].mantissa()))("e",W[w].exponent()).emit(); break;
        case 18: { std::string t; try { t=std::to_string(Z[a].get<int>()); } catch(std::exception const&) { t="exc"; } Ev("get")("f","int")("s",a+1)("lo","-2147483648")("hi","2147483647")("r",t).emit(); break; }
        case 19: { std::string t; try { t=std::to_string(Z[a].get<unsigned char>()); } catch(std::exception const&) { t="exc"; } Ev("get")("f","uchar")("s",a+1)("lo","0")("hi","255")("r",t).emit(); break; }
        case 20: if(Z[a]>0) Ev("log2")("f","log2floor")("s",a+1)("r",log2floor(Natural(Z[a]))).emit(); break;
        default: { auto T=[&](const char* f, int s, auto const& val, std::function<std::string(std::string)> back) { std::stringstream ss; ss<<val; std::string bk; try { bk=back(ss.str()); } catch(std::exception const&) { bk="exc"; } Ev("text")("f",f)("s",s+1)("t",ss.str())("back",bk).emit(); };
            switch(r.below(7)) {
                case 0: T("z",a,Z[a],[](std::string t) { return S(Integer(String(t))); }); break;
                case 1: if(is_finite(W[w])) T("w",N+w,W[w],[](std::string t) { return S(Dyadic(String(t))); }); break;
                case 2: T("d",2*N+p,D[p],[](std::string t) { return S(Decimal(String(t))); }); break;
                case 3: if(is_finite(Q[u])) T("q",3*N+u,Q[u],[](std::string t) { return S(Rational(String(t))); }); break;
                case 4: Ev("text")("f","z.literal")("s",a+1)("t",Z[a].literal())("back",S(Z[a])).emit(); break;
                case 5: if(is_finite(W[w])) Ev("text")("f","w.literal")("s",N+w+1)("t",W[w].literal())("back",S(W[w])).emit(); break;
                default: Ev("text")("f","d.literal")("s",2*N+p+1)("t",D[p].literal())("back",S(D[p])).emit(); } } } }
static void writers() { Rng& r=*g; Dyadic w=mkw(r); if(r.chance(1,8)) w=Dyadic(0); std::stringstream ss; 
    if(r.chance(1,2)) { Writer<Dyadic> wr(new FractionWriter()); ss<<wr(w); std::string t=ss.str(); std::size_t k=t.find('/'); std::string m=t, e="0"; if(k!=std::string::npos) { m=t.substr(0,k); e=t.substr(k+1); e = e=="2"?"1":e.substr(2); } Ev("frac")("f","fraction")("a",S(w))("m",m)("e","-"+e).emit(); }
    else { Writer<Dyadic> wr(new ScientificWriter()); ss<<wr(w); std::string t=ss.str(); std::size_t k=t.find("*2^"); Ev("sci")("f","scientific")("a",S(w))("m",t.substr(0,k))("e",t.substr(k+3)).emit(); } }
static void refuse() { Rng& r=*g; std::string t=rtext(r,true), rr="ok"; const char* f="";
    auto tr=[&](std::function<void()> h) { try { h(); rr="ok"; } catch(std::exception const&) { rr="exc"; } };
    switch(r.below(6)) {
        case 0: f="Rational(text)"; t+=r.chance(1,2)?"x":"/"; tr([&]{ Rational q((String(t))); }); break;
        case 1: f="Decimal(text)"; t+=r.chance(1,2)?"e5":".1"; tr([&]{ Decimal q((String(t))); }); break;
        case 2: f="Dyadic(text)"; t=rtext(r,false)+(r.chance(1,2)?".1":r.chance(1,2)?".7":"x"); tr([&]{ Dyadic q((String(t))); }); break;
        case 3: f="Integer(text)"; t=rtext(r,false)+(r.chance(1,2)?".5":"x"); tr([&]{ Integer q((String(t))); }); break;
        case 4: { f="Decimal(double)"; double x=(r.unit()+0.1)*3.14159265358979; t=str(x); tr([&]{ Decimal q(x); }); if(rr=="ok") return; break; }
        default: f="Natural(negative)"; { Integer z=-abs(rz())-1; t=S(z); tr([&]{ Natural q(z); }); } }
    Ev("refuse")("f",f)("lit",t)("r",rr).emit(); }
static void builtin() { Rng& r=*g; std::string rr; unsigned n=static_cast<unsigned>(r.below(66)), k=static_cast<unsigned>(r.below(n+3)); int t=static_cast<int>(r.below(4)); const char* f;
    if(r.chance(1,3)) { f="fac"; try { rr = std::to_string(t==0?static_cast<unsigned long>(fac(static_cast<uint8_t>(n))):t==1?fac(static_cast<uint16_t>(n)):t==2?fac(static_cast<uint32_t>(n)):fac(static_cast<uint64_t>(n))); } catch(std::exception const&) { rr="exc"; } }
    else { f="bin"; if(t==2&&(n>=31||k>n)) return; try { rr = std::to_string(t==0?static_cast<unsigned long>(bin(static_cast<uint8_t>(n),static_cast<uint8_t>(k))):t==1?bin(static_cast<uint16_t>(n),static_cast<uint16_t>(k)):t==2?bin(static_cast<uint32_t>(n),static_cast<uint32_t>(k)):bin(static_cast<uint64_t>(n),static_cast<uint64_t>(k))); } catch(std::exception const&) { rr="exc"; } }
    Ev("comb")("f",f)("t",t)("n",static_cast<int>(n))("k",static_cast<int>(k))("r",rr).emit(); }
template<class T> VS bs(Bounds<T> const& b) { return {S(b.lower()),S(b.upper())}; }
static int kl(ValidatedKleenean k) { return definitely(k)?1:definitely(!k)?-1:0; }
template<class T> void bounds(const char* cls, std::function<T()> mk) { Rng& r=*g; auto mb=[&]{ T a=mk(), b=r.chance(1,6)?a:mk(); return a<=b?Bounds<T>(a,b):Bounds<T>(b,a); };
    Bounds<T> x=mb(), y=r.chance(1,8)?x:mb(); unsigned m=static_cast<unsigned>(r.below(6)); const char* f=""; Bounds<T> z=x; bool two=false;
    switch(r.below(16)) { case 0: f="add"; z=r.chance(1,2)?x+y:add(x,y); two=true; break; case 1: f="sub"; z=r.chance(1,2)?x-y:sub(x,y); two=true; break; case 2: case 3: f="mul"; z=r.chance(1,2)?x*y:mul(x,y); two=true; break; 
        case 4: f="neg"; z=-x; break; case 5: f="neg"; z=neg(x); break; case 6: f="hlf"; z=hlf(x); break; case 7: f="sqr"; z=sqr(x); break; case 8: f="abs"; z=abs(x); break; case 9: f="max"; z=max(x,y); two=true; break; case 10: f="min"; z=min(x,y); two=true; break;
        case 11: f="pow"; z=pow(x,m); break; case 12: f="pos"; z=r.chance(1,2)?+x:pos(x); break;
        case 13: { if(inconsistent(x,y)) { Ev("brel")("f","inconsistent")("a",std::vector<VS>{bs(x),bs(y)})("r",1).emit(); return; } f="refinement"; two=true; z=refinement(x,y); break; }
        case 14: f="coarsening"; z=coarsening(x,y); two=true; break;
        default: { const char* g2[]={"eq","ne","lt","gt","le","ge","refines","inconsistent"}; int q=static_cast<int>(r.below(8)); int v= q==0?kl(x==y):q==1?kl(x!=y):q==2?kl(x<y):q==3?kl(x>y):q==4?kl(x<=y):q==5?kl(x>=y):q==6?(refines(x,y)?1:-1):(inconsistent(x,y)?1:-1); Ev("brel")("f",g2[q])("a",std::vector<VS>{bs(x),bs(y)})("r",v).emit(); return; } }
    std::vector<VS> a{bs(x)}; if(two) a.push_back(bs(y)); Ev("bnd")("f",f)("cls",cls)("a",a)("n",static_cast<int>(m))("r",bs(z)).emit(); }
static void qbounds() { Rng& r=*g; auto mk=[&]{ return mkq(r,static_cast<int>(r.below(2))); }; auto mb=[&]{ Rational a=mk(), b=r.chance(1,6)?a:mk(); if(r.chance(1,6)) a=Rational(0); return a<=b?RationalBounds(a,b):RationalBounds(b,a); };
    RationalBounds x=mb(), y=mb(); int n=static_cast<int>(r.range(-3,4)); const char* f; RationalBounds z=x; bool two=false;
    switch(r.below(4)) { case 0: case 1: f="div"; two=true; z=r.chance(1,2)?x/y:div(x,y); break; case 2: f="rec"; z=rec(x); break; default: f="pow"; if(n<0&&!(x.lower()>0||x.upper()<0)) return; z=pow(x,n); }
    std::vector<VS> a{bs(x)}; if(two) a.push_back(bs(y)); Ev("bnd")("f",f)("cls","q")("a",a)("n",n)("r",bs(z)).emit(); }
static void dball() { Rng& r=*g; auto mk=[&]{ return DyadicBall(mkw(r,1),abs(mkw(r,1))); }; DyadicBall x=mk(), y=mk(), z=x; const char* f=""; bool two=true; 
    switch(r.below(6)) { case 0: f="add"; z=x+y; break; case 1: f="sub"; z=x-y; break; case 2: f="mul"; z=x*y; break; case 3: f="abs"; z=abs(x); two=false; break; case 4: f="coarsening"; z=coarsening(x,y); break;
        default: if(inconsistent(x,y)) { Ev("brel")("f","inconsistent")("a",std::vector<VS>{bs(DyadicBounds(x)),bs(DyadicBounds(y))})("r",1).emit(); return; } f="refinement"; z=refinement(x,y); }
    std::vector<VS> a{bs(DyadicBounds(x))}; if(two) a.push_back(bs(DyadicBounds(y))); Ev("bnd")("f",f)("cls","ball")("a",a)("n",0)("r",bs(DyadicBounds(z))).emit(); }
int main(int argc, char** argv) { Args args(argc,argv); Rng r(args.seed); g=&r;
    Ev("start")("f","start")("all",all()).emit();
    for(int c=0;c<4;++c) for(int i=0;i<N;++i) fresh(c,i);
    while(count()<args.n) { try {
        switch(r.below(24)) { case 0: case 1: fresh(static_cast<int>(r.below(4)),static_cast<int>(r.below(N))); break; case 2: case 3: copymove(); break;
            case 4: case 5: case 6: case 7: query(); break; case 8: if(r.chance(1,2)) writers(); else refuse(); break; case 9: builtin(); break;
            case 10: bounds<Dyadic>("w",[&]{ return mkw(r,static_cast<int>(r.below(2))); }); break; case 11: bounds<Rational>("q",[&]{ return mkq(r,static_cast<int>(r.below(2))); }); break; case 12: qbounds(); break; case 13: dball(); break;
            default: op(); } } catch(std::exception const& e) { Ev("fail")("f","unexpected exception")("what",std::string(e.what()).substr(0,200)).emit(); } }
}
