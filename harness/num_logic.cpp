// The logical types: complete tables, conversions, trees of questions with effort, choices.
#include "vh.hpp"
#include "numeric/logical.hpp"
#include "numeric/sequence.hpp"
#include "utility/array.hpp"
using namespace Ariadne; using namespace vh;
VH_MAIN_SUPPORT
static int lv(LogicalValue v) { return static_cast<int>(v); }
static LogicalValue mk(int v) { return static_cast<LogicalValue>(v); }
template<class T> int val(T const& t) { if constexpr(requires { t.check(Effort(0)); }) return lv(t.repr().check(Effort(3))); else return lv(t.repr()); }
// a handle-based value shows what it knows through check()
template<class T> int shown(T const& t) { if constexpr(requires { t.check(Effort(0)); }) return val(t.check(Effort(3))); else return val(t); }
template<class T> T make(int v) { if constexpr(requires { T(LogicalHandle::constant(mk(v))); } && requires (T t) { t.check(Effort(0)); }) return T(LogicalHandle::constant(mk(v))); else return T(mk(v)); }
template<class T> void table(const char* name, std::vector<int> vs) {
    for(int v:vs) { T x=make<T>(v); Ev("mk")("t",name)("a",v)("r",shown(x)).emit();
        Ev("not")("t",name)("a",v)("r",shown(!x)).emit();
        auto q=[&](const char* f, bool b) { Ev("query")("t",name)("f",f)("a",v)("r",b?1:0).emit(); };
        q("definitely",definitely(x)); q("possibly",possibly(x)); q("decide",decide(x)); q("probably",probably(x));
        if constexpr(requires { is_determinate(x); }) { q("is_determinate",is_determinate(x)); q("is_indeterminate",is_indeterminate(x)); }
        if constexpr(requires (T t) { t.check(Effort(0)); }) for(unsigned e:{0u,1u,7u}) { q("definitely",definitely(x,Effort(e))); q("possibly",possibly(x,Effort(e))); q("decide",decide(x,Effort(e))); q("probably",probably(x,Effort(e))); Ev("mk")("t",name)("a",v)("r",val(x.check(Effort(e)))).emit(); }
        if(v==2||v==-2) { if constexpr(requires { T(true); }) Ev("mk")("t",name)("a",v)("r",shown(T(v==2))).emit(); if constexpr(requires { T(Boolean(true)); }) Ev("mk")("t",name)("a",v)("r",shown(T(Boolean(v==2)))).emit(); }
        for(int w:vs) { T y=make<T>(w); auto b=[&](const char* f, int r) { Ev("bin")("t",name)("f",f)("a",v)("b",w)("r",r).emit(); };
            b("and",shown(x&&y)); b("or",shown(x||y)); b("xor",shown(x^y)); b("eq",shown(x==y)); b("ne",shown(x!=y)); } }
    if constexpr(requires { T(indeterminate); }) Ev("mk")("t",name)("a",0)("r",shown(T(indeterminate))).emit();
}
template<class S, class T> void conv(const char* name, int lo, int hi) { for(int v=lo;v<=hi;++v) { S s=make<S>(v); Ev("conv")("t",name)("a",v)("r",shown(T(s))).emit(); } }
template<class S, class T> void convb(const char* name) { for(int v:{-2,2}) Ev("conv")("t",name)("a",v)("r",shown(T(make<S>(v)))).emit(); }
struct Tree { J j; LogicalHandle h; };
static LogicalHandle handle(LowerKleenean const& k) { return k.repr(); }
static LogicalHandle handle(UpperKleenean const& k) { return k.repr(); }
static Tree tree(Rng& r, int d) {
    int c=static_cast<int>(r.below(d==0?3:9));
    if(c==0) { int v=static_cast<int>(r.range(-2,2)); return {J{J("c"),J(v)},LogicalHandle::constant(mk(v))}; }
    if(c==1) { int k=static_cast<int>(r.below(6)); Natural n(static_cast<unsigned>(k)); return {J{J("dj"),J(k)},handle(disjunction(Sequence<LowerKleenean>([n](Natural m){ return m==n?LowerKleenean(true):LowerKleenean(LogicalHandle::constant(LogicalValue::INDETERMINATE)); })))}; }
    if(c==2) { int k=static_cast<int>(r.below(6)); Natural n(static_cast<unsigned>(k)); return {J{J("cj"),J(k)},handle(conjunction(Sequence<UpperKleenean>([n](Natural m){ return m==n?UpperKleenean(false):UpperKleenean(LogicalHandle::constant(LogicalValue::INDETERMINATE)); })))}; }
    Tree a=tree(r,d-1);
    if(c==3) return {J{J("not"),a.j},r.chance(1,2)?!a.h:Detail::negation(a.h)};
    Tree b=tree(r,d-1);
    switch(c) { case 4: case 5: return {J{J("and"),a.j,b.j},r.chance(1,2)?a.h&&b.h:Detail::conjunction(a.h,b.h)}; case 6: return {J{J("or"),a.j,b.j},r.chance(1,2)?a.h||b.h:Detail::disjunction(a.h,b.h)};
        case 7: return {J{J("xor"),a.j,b.j},r.chance(1,2)?a.h^b.h:Detail::exclusive(a.h,b.h)}; default: return {J{J("eq"),a.j,b.j},r.chance(1,2)?(a.h==b.h):Detail::equality(a.h,b.h)}; }
}
int main(int argc, char** argv) {
    Args args(argc,argv); Rng r(args.seed);
    std::vector<int> all{-2,-1,0,1,2};
    table<Boolean>("Boolean",{-2,2});
    table<ValidatedSierpinskian>("ValidatedSierpinskian",all); table<ValidatedNegatedSierpinskian>("ValidatedNegatedSierpinskian",all); table<ValidatedKleenean>("ValidatedKleenean",all);
    table<ValidatedLowerKleenean>("ValidatedLowerKleenean",all); table<ValidatedUpperKleenean>("ValidatedUpperKleenean",all); table<ApproximateKleenean>("ApproximateKleenean",all);
    table<Kleenean>("Kleenean",all);
    // on the effective one-sided types, the values they can hold
    table<LowerKleenean>("LowerKleenean",{-1,0,1,2}); table<UpperKleenean>("UpperKleenean",{-2,-1,0,1}); table<NaiveKleenean>("NaiveKleenean",{-1,0,1});
    convb<Boolean,ValidatedKleenean>("ValidatedKleenean"); convb<Boolean,ValidatedLowerKleenean>("ValidatedLowerKleenean"); convb<Boolean,ValidatedUpperKleenean>("ValidatedUpperKleenean"); convb<Boolean,ApproximateKleenean>("ApproximateKleenean"); convb<Boolean,Kleenean>("Kleenean"); convb<Boolean,LowerKleenean>("LowerKleenean"); convb<Boolean,UpperKleenean>("UpperKleenean");
    conv<ValidatedKleenean,ValidatedLowerKleenean>("ValidatedLowerKleenean",-2,2); conv<ValidatedKleenean,ValidatedUpperKleenean>("ValidatedUpperKleenean",-2,2); conv<ValidatedKleenean,ApproximateKleenean>("ApproximateKleenean",-2,2);
    conv<ValidatedSierpinskian,ValidatedKleenean>("ValidatedKleenean",-1,2); conv<ValidatedNegatedSierpinskian,ValidatedKleenean>("ValidatedKleenean",-2,1); conv<ValidatedSierpinskian,ValidatedLowerKleenean>("ValidatedLowerKleenean",-1,2); conv<ValidatedNegatedSierpinskian,ValidatedUpperKleenean>("ValidatedUpperKleenean",-2,1);
    conv<ValidatedLowerKleenean,ApproximateKleenean>("ApproximateKleenean",-1,2); conv<ValidatedUpperKleenean,ApproximateKleenean>("ApproximateKleenean",-2,1);
    conv<Kleenean,LowerKleenean>("LowerKleenean",-2,2); conv<Kleenean,UpperKleenean>("UpperKleenean",-2,2); conv<Kleenean,NaiveKleenean>("NaiveKleenean",-2,2); conv<LowerKleenean,NaiveKleenean>("NaiveKleenean",-1,2); conv<UpperKleenean,NaiveKleenean>("NaiveKleenean",-2,1); conv<Sierpinskian,Kleenean>("Kleenean",-1,2); conv<NegatedSierpinskian,Kleenean>("Kleenean",-2,1); conv<Sierpinskian,LowerKleenean>("LowerKleenean",-1,2); conv<NegatedSierpinskian,UpperKleenean>("UpperKleenean",-2,1);
    for(int v:all) { std::stringstream s; s<<mk(v); Ev("text")("a",v)("r",s.str()).emit(); }
    for(bool b:{false,true}) { auto q=[&](const char* f, bool x) { Ev("query")("t","Boolean")("f",f)("a",b?2:-2)("r",x?1:0).emit(); }; q("definitely",definitely(b)); q("possibly",possibly(b)); q("decide",decide(b)); q("probably",probably(b)); }
    for(long i=0;i<args.n;++i) {
        Tree t=tree(r,static_cast<int>(r.range(0,4))); unsigned e=static_cast<unsigned>(r.below(8)); const char* ty; int v;
        switch(r.below(4)) { case 0: ty="Kleenean"; v=val(Kleenean(t.h).check(Effort(e))); break; case 1: ty="LowerKleenean"; v=val(LowerKleenean(t.h).check(Effort(e))); break; case 2: ty="UpperKleenean"; v=val(UpperKleenean(t.h).check(Effort(e))); break; default: ty="NaiveKleenean"; v=val(NaiveKleenean(t.h).check(Effort(e))); }
        Ev("tree")("t",ty)("a",t.j)("n",static_cast<int>(e))("r",v).emit();
        if(i%5==0) { // alternatives: -1 never true, otherwise true from that effort on
            std::vector<int> a; int n=static_cast<int>(r.range(2,4)); bool some=false; for(int k=0;k<n;++k) { int m=r.chance(1,3)?-1:static_cast<int>(r.below(6)); some=some||m>=0; a.push_back(m); }
            if(!some) a[0]=3;
            std::vector<LowerKleenean> ps; for(int m:a) { if(m<0) ps.push_back(LowerKleenean(LogicalHandle::constant(LogicalValue::INDETERMINATE))); else { Natural k(static_cast<unsigned>(m)); ps.push_back(disjunction(Sequence<LowerKleenean>([k](Natural j){ return j==k?LowerKleenean(true):LowerKleenean(LogicalHandle::constant(LogicalValue::INDETERMINATE)); }))); } }
            Ev("choose")("a",a)("r",static_cast<long>(nondeterministic_choose_index(Array<LowerKleenean>(ps.begin(),ps.end())))).emit();
            if(a[0]>=0||a[1]>=0) { std::vector<int> b{a[0],a[1]}; bool c=choose(ps[0],ps[1]); Ev("choose")("a",b)("r",c?0:1).emit(); }
        }
    }
    return 0;
}
