// Common parts of the conformance drivers: seeded choices, exact logging of values, NDJSON events.
#ifndef VH_HPP
#define VH_HPP
#include <cstdint>
#include <cstdio>
#include <cmath>
#include <cstring>
#include <string>
#include <vector>
#include <sstream>
#include <iostream>
#include <functional>
#include <stdexcept>
#include <gmp.h>
#include <mpfr.h>
#include "numeric/numeric.hpp"
#include "numeric/floatdp.hpp"
#include "numeric/floatmp.hpp"

namespace vh {
// ---- a failed assert() in the library is observed as an exception, like ARIADNE_ASSERT ------------
struct AssertFailure : public std::runtime_error { using std::runtime_error::runtime_error; };

// ---- seeded choices --------------------------------------------------------------------------------
struct Rng {
    std::uint64_t s;
    explicit Rng(std::uint64_t seed=1) : s(seed*0xD1342543DE82EF95ull+0x632BE59BD9B4E019ull) { std::uint64_t t=0; for(int i=0;i<4;++i) t=next()^(t<<7); s^=t*0x2545F4914F6CDD1Dull; }
    std::uint64_t next() { s+=0x9E3779B97F4A7C15ull; std::uint64_t z=s; z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31); }
    std::uint64_t below(std::uint64_t n) { return next()%n; }
    long range(long a, long b) { return a+static_cast<long>(below(static_cast<std::uint64_t>(b-a+1))); }   // inclusive
    bool chance(unsigned p, unsigned q) { return below(q)<p; }
    template<class T> T const& pick(std::vector<T> const& v) { return v[below(v.size())]; }
    double unit() { return static_cast<double>(next()>>11)*0x1p-53; }
};

// ---- exact values as strings: "n/d", "mbE" (= m*2^E), "inf", "-inf", "nan" ---------------------------
inline std::string str(double d) {
    if(std::isnan(d)) return "nan"; if(std::isinf(d)) return d>0?"inf":"-inf"; if(d==0) return "0";
    int e; double m=std::frexp(d,&e); long long n=static_cast<long long>(std::ldexp(m,53)); e-=53;
    while((n&1)==0) { n/=2; ++e; }
    return std::to_string(n)+"b"+std::to_string(e);
}
inline std::string str(mpz_t const z) { char* c=mpz_get_str(nullptr,10,z); std::string r(c); void (*f)(void*,size_t); mp_get_memory_functions(nullptr,nullptr,&f); f(c,std::strlen(c)+1); return r; }
inline std::string str(mpfr_t const x) {
    if(mpfr_nan_p(x)) return "nan"; if(mpfr_inf_p(x)) return mpfr_sgn(x)>0?"inf":"-inf"; if(mpfr_zero_p(x)) return "0";
    mpz_t z; mpz_init(z); mpfr_exp_t e=mpfr_get_z_2exp(z,x); unsigned long t=mpz_scan1(z,0); if(t>0) { mpz_fdiv_q_2exp(z,z,t); e+=static_cast<long>(t); }
    std::string r=str(z)+"b"+std::to_string(e); mpz_clear(z); return r;
}
inline std::string str(mpq_t const q) { // GMP's text of a rational, including Ariadne's 1/0, -1/0, 0/0
    if(mpz_sgn(mpq_denref(q))==0) { int s=mpz_sgn(mpq_numref(q)); return s>0?"inf":s<0?"-inf":"nan"; }
    return str(mpq_numref(q))+"/"+str(mpq_denref(q)); }
inline std::string str(mpf_t const f) { mpq_t q; mpq_init(q); mpq_set_f(q,f); std::string r=str(q); mpq_clear(q); return r; }
inline std::string str(Ariadne::FloatDP const& x) { return str(x.get_d()); }
inline std::string str(Ariadne::FloatMP const& x) { return str(x.get_mpfr()); }
inline std::string str(Ariadne::Integer const& z) { return str(z.get_mpz()); }
inline std::string str(Ariadne::Rational const& q) { return str(q.get_mpq()); }
inline std::string str(Ariadne::Dyadic const& w) {
    if(is_nan(w)) return "nan"; if(is_inf(w)) return w>0?"inf":"-inf"; return str(w.get_mpf()); }

// ---- JSON -------------------------------------------------------------------------------------------
inline std::string esc(std::string const& s) { std::string r; for(char c:s) { if(c=='"'||c=='\\') { r+='\\'; r+=c; } else if(c=='\n') r+="\\n"; else if((unsigned char)c<32) r+=' '; else r+=c; } return r; }
struct J {
    std::string s; J() {} 
    static J raw(std::string t) { J j; j.s=std::move(t); return j; }
    J(int i) : s(std::to_string(i)) {} J(long i) : s(std::to_string(i)) {} J(unsigned i) : s(std::to_string(i)) {} J(unsigned long i) : s(std::to_string(i)) {}
    J(bool b) : s(b?"true":"false") {}
    J(const char* c) : s("\""+esc(c)+"\"") {} J(std::string const& c) : s("\""+esc(c)+"\"") {}
    template<class T> J(std::vector<T> const& v) { s="["; for(std::size_t i=0;i<v.size();++i) { if(i) s+=","; s+=J(v[i]).s; } s+="]"; }
    J(std::initializer_list<J> l) { s="["; bool f=true; for(auto const& j:l) { if(!f) s+=","; f=false; s+=j.s; } s+="]"; }
};
struct Obj {
    std::string s="{"; bool f=true;
    Obj& add(const char* k, J const& v) { if(!f) s+=","; f=false; s+="\""; s+=k; s+="\":"; s+=v.s; return *this; }
    std::string done() const { return s+"}"; }
    J j() const { return J::raw(done()); }
};
// One event of the trace: {"ev":name, fields...}
inline std::FILE*& out() { static std::FILE* f=stdout; return f; }
inline long& count() { static long n=0; return n; }
inline std::string& only() { static std::string s; return s; }   // --mode only:name: record no other events
struct Ev : Obj { bool quiet; explicit Ev(const char* name) : quiet(!only().empty()&&only()!=name) { if(!quiet) add("ev",name); } 
    Ev& operator()(const char* k, J const& v) { if(!quiet) add(k,v); return *this; }
    void emit() { if(quiet) return; std::string t=done()+"\n"; std::fwrite(t.data(),1,t.size(),out()); ++count(); } };

// ---- driver arguments ---------------------------------------------------------------------------------
struct Args { std::uint64_t seed=1; long n=1000; std::string mode; std::string in, outfile; 
    Args(int argc, char** argv) {
        for(int i=1;i<argc;++i) { std::string a=argv[i]; auto v=[&]{ return std::string(argv[++i]); };
            if(a=="--seed") seed=std::stoull(v()); else if(a=="--n") n=std::stol(v()); else if(a=="--mode") mode=v(); else if(a=="--in") in=v(); else if(a=="--out") outfile=v();
            else { std::fprintf(stderr,"unknown argument %s\n",a.c_str()); std::exit(2); } }
        if(mode.rfind("only:",0)==0) { only()=mode.substr(5); mode.clear(); }
        if(!outfile.empty()) { out()=std::fopen(outfile.c_str(),"w"); if(!out()) { std::perror(outfile.c_str()); std::exit(2); } }
    }
    ~Args() { std::fflush(out()); if(out()!=stdout) std::fclose(out()); } };

// ---- doubles that matter: boundaries, ulp neighbours, random exponents --------------------------------
inline double mkd(Rng& r, int style=-1) {
    if(style<0) style=static_cast<int>(r.below(12));
    double x;
    switch(style) {
        case 0: x=static_cast<double>(r.range(-8,8)); break;
        case 1: x=static_cast<double>(r.range(-64,64))/8; break;
        case 2: x=(r.unit()*2-1); break;
        case 3: x=(r.unit()*2-1)*8; break;
        case 4: x=std::ldexp(r.unit()+0.5,static_cast<int>(r.range(-30,30))); break;
        case 5: { static const double b[]={0,1,-1,2,0.5,-0.5,3.141592653589793,1.5707963267948966,6.283185307179586,0.1,-0.1,1e-10,1e10,0.25,4,1.0/3}; x=b[r.below(16)]; 
                  long k=r.range(-2,2); for(long i=0;i<std::labs(k);++i) x=std::nextafter(x,k>0?INFINITY:-INFINITY); break; }
        case 6: x=std::ldexp(r.unit()+0.5,static_cast<int>(r.range(-300,300))); break;
        case 7: x=std::ldexp(1.0,static_cast<int>(r.range(-60,60))); break;
        case 8: x=static_cast<double>(r.range(-1000000,1000000))*0.001; break;
        case 9: x=std::ldexp(static_cast<double>((1ull<<53)-1-r.below(3)),static_cast<int>(r.range(-60,0))); break;
        case 10: x=static_cast<double>(r.range(-100,100))/10; break;
        case 12: x=std::ldexp(static_cast<double>(r.range(1,r.chance(1,2)?40:1l<<52)),-1074); break;                       // subnormal
        case 13: x=std::ldexp(static_cast<double>((1ull<<53)-1-r.below(4)),971-static_cast<int>(r.below(3))); break;     // next to the greatest
        case 14: x=std::ldexp(r.unit()+0.5,static_cast<int>(r.range(-1080,1023))); break;
        case 15: x=std::ldexp(r.unit()+0.5,static_cast<int>(r.range(-1040,-1000))); break;                                 // around the least normal
        default: x=std::ldexp(r.unit()+0.5,static_cast<int>(r.range(-6,4))); break;
    }
    if(style>=4 && style!=5 && r.chance(1,2)) x=-x;
    return x;
}
// exact numbers: a random rational, dyadic, integer of various shapes
inline Ariadne::Rational mkq(Rng& r, int st=-1) {
    if(st<0) st=static_cast<int>(r.below(7));
    switch(st) {
        case 0: return Ariadne::Rational(r.range(-9,9),r.range(1,9));
        case 1: return Ariadne::Rational(r.range(-1000,1000),r.range(1,1000));
        case 2: return Ariadne::Rational(Ariadne::ExactDouble(mkd(r)));
        case 3: return Ariadne::Rational(Ariadne::ExactDouble(mkd(r,4)))/Ariadne::Rational(Ariadne::ExactDouble(3.0*std::ldexp(r.unit()+0.5,3)));
        case 4: return Ariadne::Rational(Ariadne::ExactDouble(mkd(r,4)))+Ariadne::Rational(Ariadne::ExactDouble(std::ldexp(r.unit()-0.5,-static_cast<int>(r.below(120)))));
        case 5: return Ariadne::Rational(Ariadne::ExactDouble(mkd(r)))*Ariadne::Rational(Ariadne::ExactDouble(mkd(r)));
        default: return Ariadne::Rational(r.range(-100000,100000),100);
    }
}
inline Ariadne::Dyadic mkw(Rng& r, int st=-1) {
    if(st<0) st=static_cast<int>(r.below(4));
    switch(st) {
        case 0: return Ariadne::Dyadic(Ariadne::ExactDouble(mkd(r)));
        case 1: return Ariadne::Dyadic(Ariadne::Integer(r.range(-50,50)),static_cast<unsigned>(r.below(8)));
        case 2: return Ariadne::Dyadic(Ariadne::ExactDouble(mkd(r,4)))+Ariadne::Dyadic(Ariadne::ExactDouble(std::ldexp(r.unit()-0.5,-static_cast<int>(r.below(120)))));
        default: return Ariadne::Dyadic(Ariadne::ExactDouble(mkd(r,3)))*Ariadne::Dyadic(Ariadne::ExactDouble(mkd(r,3)));
    }
}
} // namespace vh
#define VH_MAIN_SUPPORT \
extern "C" void vh_assert_fail(const char* e, const char* f, unsigned int l, const char* fn) { throw vh::AssertFailure(std::string("assert(")+e+")"); }
#endif
