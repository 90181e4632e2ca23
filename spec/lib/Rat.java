// TLC evaluation of module Rat: exact rationals with unbounded integers.
import java.math.BigInteger;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.*;

public class Rat {
    // ---- representation -------------------------------------------------------------------
    static final class Q {
        final BigInteger n, d;            // d>0 reduced; or d==0 : n=1 inf, n=-1 -inf, n=0 nan
        private StringValue sv;
        Q(BigInteger n, BigInteger d) { this.n=n; this.d=d; }
        boolean fin() { return d.signum()!=0; }
        boolean nan() { return d.signum()==0 && n.signum()==0; }
        StringValue val() { if(sv==null) { sv=new StringValue(str()); } return sv; }
        String str() {
            if(!fin()) return n.signum()==0?"nan":(n.signum()>0?"inf":"-inf");
            if(d.equals(BigInteger.ONE)) return n.toString();
            return n.toString()+"/"+d.toString();
        }
    }
    static final BigInteger ONE=BigInteger.ONE, ZERO=BigInteger.ZERO, TWO=BigInteger.TWO;
    static final Q INF=new Q(ONE,ZERO), NINF=new Q(ONE.negate(),ZERO), NAN=new Q(ZERO,ZERO), Q0=new Q(ZERO,ONE), Q1=new Q(ONE,ONE);
    static Q mk(BigInteger n, BigInteger d) {
        if(d.signum()==0) return n.signum()==0?NAN:(n.signum()>0?INF:NINF);
        if(d.signum()<0) { n=n.negate(); d=d.negate(); }
        if(n.signum()==0) return Q0;
        if(!d.equals(ONE)) {
            if(d.bitCount()==1) { int s=Math.min(n.getLowestSetBit(),d.getLowestSetBit()); n=n.shiftRight(s); d=d.shiftRight(s); }
            else { BigInteger g=n.gcd(d); if(!g.equals(ONE)) { n=n.divide(g); d=d.divide(g); } }
        }
        return new Q(n,d);
    }
    static Q dy(BigInteger m, int e) { return e>=0 ? mk(m.shiftLeft(e),ONE) : mk(m,ONE.shiftLeft(-e)); }
    static final ConcurrentHashMap<String,Q> cache=new ConcurrentHashMap<>();
    static Q parse(String s) {
        Q q=cache.get(s); if(q!=null) return q;
        q=parse0(s);
        if(cache.size()>200000) cache.clear();
        cache.put(s,q); return q;
    }
    static Q parse0(String s) {
        if(s.equals("inf")||s.equals("+inf")) return INF;
        if(s.equals("-inf")) return NINF;
        if(s.equals("nan")||s.equals("-nan")) return NAN;
        int i=s.indexOf('b'); if(i>=0) return dy(new BigInteger(s.substring(0,i)),Integer.parseInt(s.substring(i+1)));
        i=s.indexOf('/'); if(i>=0) return mk(new BigInteger(s.substring(0,i)),new BigInteger(s.substring(i+1)));
        return mk(new BigInteger(s),ONE);
    }
    static Q q(Value v) {
        if(v instanceof StringValue) return parse(((StringValue)v).val.toString());
        if(v instanceof IntValue) return mk(BigInteger.valueOf(((IntValue)v).val),ONE);
        throw new RuntimeException("Rat: not a rational: "+v);
    }
    static int in(Value v) {
        if(v instanceof IntValue) return ((IntValue)v).val;
        Q a=q(v); if(!a.d.equals(ONE)) throw new RuntimeException("Rat: not an integer: "+v); return a.n.intValueExact(); }
    static Value b(boolean x) { return x?BoolValue.ValTrue:BoolValue.ValFalse; }
    // ---- field operations --------------------------------------------------------------------
    static Q add(Q a, Q b) {
        if(a.fin()&&b.fin()) { if(a.d.equals(b.d)) return mk(a.n.add(b.n),a.d); return mk(a.n.multiply(b.d).add(b.n.multiply(a.d)),a.d.multiply(b.d)); }
        if(a.nan()||b.nan()) return NAN;
        if(a.fin()) return b; if(b.fin()) return a;
        return a.n.equals(b.n)?a:NAN;
    }
    static Q neg(Q a) { return a.fin()? new Q(a.n.negate(),a.d) : (a.nan()?a:(a==INF?NINF:INF)); }
    static Q sub(Q a, Q b) { return add(a,neg(b)); }
    static Q mul(Q a, Q b) {
        if(a.fin()&&b.fin()) return mk(a.n.multiply(b.n),a.d.multiply(b.d));
        int s=a.n.signum()*b.n.signum(); if(a.nan()||b.nan()||s==0) return NAN; return s>0?INF:NINF;
    }
    static Q div(Q a, Q b) {
        if(a.nan()||b.nan()) return NAN;
        if(b.fin()) { if(b.n.signum()==0) return NAN; if(a.fin()) return mk(a.n.multiply(b.d),a.d.multiply(b.n)); return a.n.signum()*b.n.signum()>0?INF:NINF; }
        return a.fin()?Q0:NAN;
    }
    static int cmp(Q a, Q b) {
        if(a.fin()&&b.fin()) { if(a.d.equals(b.d)) return a.n.compareTo(b.n);
            int sa=a.n.signum(), sb=b.n.signum(); if(sa!=sb) return Integer.compare(sa,sb);
            return a.n.multiply(b.d).compareTo(b.n.multiply(a.d)); }
        int x=a.fin()?0:a.n.signum(), y=b.fin()?0:b.n.signum(); return Integer.compare(x,y);
    }
    static Q pow(Q a, int n) { if(n==0) return Q1; if(n<0) return div(Q1,pow(a,-n)); if(!a.fin()) return (a.nan()||n%2==1)?a:INF; return mk(a.n.pow(n),a.d.pow(n)); }
    static BigInteger floorDiv(BigInteger n, BigInteger d) { BigInteger[] qr=n.divideAndRemainder(d); return (qr[1].signum()!=0 && (qr[1].signum()!=d.signum()))?qr[0].subtract(ONE):qr[0]; }

    public static Value R(Value a) { return q(a).val(); }
    public static Value RInt(Value a) { return q(a).val(); }
    public static Value RFrac(Value a, Value b) { return div(q(a),q(b)).val(); }
    public static Value RIsFin(Value a) { return b(q(a).fin()); }
    public static Value RIsNan(Value a) { return b(q(a).nan()); }
    public static Value RAdd(Value a, Value b) { return add(q(a),q(b)).val(); }
    public static Value RSub(Value a, Value b) { return sub(q(a),q(b)).val(); }
    public static Value RMul(Value a, Value b) { return mul(q(a),q(b)).val(); }
    public static Value RDiv(Value a, Value b) { return div(q(a),q(b)).val(); }
    public static Value RNeg(Value a) { return neg(q(a)).val(); }
    public static Value RAbs(Value a) { Q x=q(a); return (x.n.signum()<0?neg(x):x).val(); }
    public static Value RMin(Value a, Value b) { Q x=q(a),y=q(b); if(x.nan()||y.nan()) return NAN.val(); return (cmp(x,y)<=0?x:y).val(); }
    public static Value RMax(Value a, Value b) { Q x=q(a),y=q(b); if(x.nan()||y.nan()) return NAN.val(); return (cmp(x,y)>=0?x:y).val(); }
    public static Value RPow(Value a, Value n) { return pow(q(a),in(n)).val(); }
    public static Value RCmp(Value a, Value b) { return IntValue.gen(cmp(q(a),q(b))); }
    public static Value RLe(Value a, Value b) { Q x=q(a),y=q(b); return b(!x.nan()&&!y.nan()&&cmp(x,y)<=0); }
    public static Value RLt(Value a, Value b) { Q x=q(a),y=q(b); return b(!x.nan()&&!y.nan()&&cmp(x,y)<0); }
    public static Value REq(Value a, Value b) { Q x=q(a),y=q(b); return b(!x.nan()&&!y.nan()&&cmp(x,y)==0); }
    public static Value RSgn(Value a) { return IntValue.gen(q(a).n.signum()); }
    public static Value RFloor(Value a) { Q x=q(a); return x.fin()?mk(floorDiv(x.n,x.d),ONE).val():x.val(); }
    public static Value RCeil(Value a) { Q x=q(a); return x.fin()?mk(floorDiv(x.n.negate(),x.d).negate(),ONE).val():x.val(); }
    public static Value RTwoExp(Value a) { return dy(ONE,in(a)).val(); }
    public static Value RDenPow2(Value a) { return b(q(a).d.bitCount()==1); }
    public static Value RNum(Value a) { return mk(q(a).n,ONE).val(); }
    public static Value RDen(Value a) { return mk(q(a).d,ONE).val(); }
    public static Value RToInt(Value a) { return IntValue.gen(in(a)); }
    static Value[] seq(Value v) { TupleValue t=(TupleValue)v.toTuple(); return t.elems; }
    public static Value RSum(Value s) { Q r=Q0; for(Value v:seq(s)) r=add(r,q(v)); return r.val(); }
    public static Value RDot(Value s, Value t) { Q r=Q0; Value[] x=seq(s),y=seq(t); if(x.length!=y.length) throw new RuntimeException("RDot: lengths differ"); for(int i=0;i<x.length;++i) r=add(r,mul(q(x[i]),q(y[i]))); return r.val(); }
    // ---- rounding to p-bit binary floats -------------------------------------------------------
    static Q round(Q a, int p, int emin, boolean up) {
        if(!a.fin()||a.n.signum()==0) return a;
        // exponent e with 2^(p-1) <= |a|/2^e < 2^p
        int e=a.n.abs().bitLength()-a.d.bitLength()-p;   // |a| < 2^(bl(n)-bl(d)+1) ; adjust below
        BigInteger m=null;
        for(int t=0;t<3;++t) {
            BigInteger num=a.n, den=a.d; int ee=Math.max(e,emin);
            if(ee>=0) den=den.shiftLeft(ee); else num=num.shiftLeft(-ee);
            BigInteger fl=floorDiv(num.abs(),den);
            if(fl.bitLength()>p) { ++e; continue; }
            e=ee;
            m = up ? floorDiv(num.negate(),den).negate() : floorDiv(num,den);
            return dy(m,e);
        }
        throw new RuntimeException("round");
    }
    public static Value RRoundDn(Value a, Value p, Value emin) { return round(q(a),in(p),in(emin),false).val(); }
    public static Value RRoundUp(Value a, Value p, Value emin) { return round(q(a),in(p),in(emin),true).val(); }
    // ---- rigorous real functions: interval arithmetic on fixed point numbers -------------------
    // An interval [lo,hi]*2^-w of BigIntegers.
    static final class I { BigInteger l,h; I(BigInteger l, BigInteger h){this.l=l;this.h=h;} }
    static BigInteger fd(BigInteger a, int w) { return a.shiftRight(w); }                       // floor
    static BigInteger cd(BigInteger a, int w) { return a.negate().shiftRight(w).negate(); }      // ceiling
    static I ofQ(Q a, int w) { BigInteger n=a.n.shiftLeft(w); return new I(floorDiv(n,a.d),floorDiv(n.negate(),a.d).negate()); }
    static I iadd(I a, I b) { return new I(a.l.add(b.l),a.h.add(b.h)); }
    static I isub(I a, I b) { return new I(a.l.subtract(b.h),a.h.subtract(b.l)); }
    static I ineg(I a) { return new I(a.h.negate(),a.l.negate()); }
    static I imul(I a, I b, int w) {
        BigInteger p=a.l.multiply(b.l),q=a.l.multiply(b.h),r=a.h.multiply(b.l),s=a.h.multiply(b.h);
        return new I(fd(p.min(q).min(r).min(s),w),cd(p.max(q).max(r).max(s),w)); }
    static I idivi(I a, BigInteger k) { return new I(floorDiv(a.l,k),floorDiv(a.h.negate(),k).negate()); }  // k>0
    static I idiv(I a, I b, int w) { // b of constant sign
        BigInteger[] n={a.l.shiftLeft(w),a.h.shiftLeft(w)}, d={b.l,b.h}; BigInteger lo=null,hi=null;
        for(BigInteger x:n) for(BigInteger y:d) { BigInteger f=floorDiv(x,y), c=floorDiv(x.negate(),y).negate(); if(lo==null||f.compareTo(lo)<0) lo=f; if(hi==null||c.compareTo(hi)>0) hi=c; }
        return new I(lo,hi); }
    static I widen(I a, BigInteger e) { return new I(a.l.subtract(e),a.h.add(e)); }
    // exp of |x|<=1 by series then squaring
    static I expSmall(I x, int w) { // |x| <= 1
        I t=new I(ONE.shiftLeft(w),ONE.shiftLeft(w)), s=t; int k=1;
        while(true) { t=idivi(imul(t,x,w),BigInteger.valueOf(k)); s=iadd(s,t); ++k; if(t.l.abs().max(t.h.abs()).bitLength()<=2) break; }
        // remainder of the series <= 2*|next term| <= 2*(max|t|)
        return widen(s,BigInteger.valueOf(16)); }
    static I iexp(Q a, int w0) {
        // a = n*ln2 + r ; use halving: exp(a) = exp(a/2^k)^(2^k)
        int k=Math.max(0,a.n.abs().bitLength()-a.d.bitLength()+2);
        double av=Math.abs(a.n.doubleValue()/a.d.doubleValue());
        int extra=(int)Math.min(4000,Math.ceil(av*1.4427*2))+k*2+40; int w=w0+extra;
        I x=expSmall(ofQ(mk(a.n,a.d.shiftLeft(k)),w),w);
        for(int i=0;i<k;++i) x=imul(x,x,w);
        return new I(fd(x.l,extra),cd(x.h,extra)); }
    static I atanhSeries(I y, int w) { // |y|<=1/2 : sum y^(2k+1)/(2k+1)
        I y2=imul(y,y,w), t=y, s=y; int k=1;
        while(t.l.abs().max(t.h.abs()).bitLength()>2) { t=imul(t,y2,w); s=iadd(s,idivi(t,BigInteger.valueOf(2L*k+1))); ++k; }
        return widen(s,BigInteger.valueOf(16)); }
    static I ln2(int w) { int e=20; I y=ofQ(mk(ONE,BigInteger.valueOf(3)),w+e); I s=atanhSeries(y,w+e); s=iadd(s,s); return new I(fd(s.l,e),cd(s.h,e)); }
    static I ilog(Q a, int w0) { // a>0 ; a = m*2^k, m in [1/2,2): ln a = 2 atanh((m-1)/(m+1)) + k ln2
        int w=w0+40; int k=a.n.bitLength()-a.d.bitLength(); Q m = k>=0? mk(a.n,a.d.shiftLeft(k)) : mk(a.n.shiftLeft(-k),a.d);
        Q y=div(sub(m,Q1),add(m,Q1)); I s=atanhSeries(ofQ(y,w),w); s=iadd(s,s);
        I l=ln2(w+16); BigInteger kk=BigInteger.valueOf(k); I kl= k>=0? new I(l.l.multiply(kk),l.h.multiply(kk)) : new I(l.h.multiply(kk),l.l.multiply(kk));
        kl=new I(fd(kl.l,16),cd(kl.h,16)); s=iadd(s,kl); return new I(fd(s.l,40),cd(s.h,40)); }
    static I atanSmall(I y, int w) { // |y|<=1/2 alternating series
        I y2=imul(y,y,w), t=y, s=y; int k=1;
        while(t.l.abs().max(t.h.abs()).bitLength()>2) { t=ineg(imul(t,y2,w)); s=iadd(s,idivi(t,BigInteger.valueOf(2L*k+1))); ++k; }
        return widen(s,BigInteger.valueOf(16)); }
    static I ipi(int w0) { int w=w0+20; // Machin: pi = 16 atan(1/5) - 4 atan(1/239)
        I a=atanSmall(ofQ(mk(ONE,BigInteger.valueOf(5)),w),w), b=atanSmall(ofQ(mk(ONE,BigInteger.valueOf(239)),w),w);
        I r=isub(new I(a.l.shiftLeft(4),a.h.shiftLeft(4)),new I(b.l.shiftLeft(2),b.h.shiftLeft(2))); return new I(fd(r.l,20),cd(r.h,20)); }
    static I iatan(Q a, int w0) { int w=w0+30; boolean ng=a.n.signum()<0; if(ng) a=neg(a); I r;
        Q half=mk(ONE,TWO);
        if(cmp(a,half)<=0) r=atanSmall(ofQ(a,w),w);
        else if(cmp(a,mk(TWO,ONE))>=0) { I p=ipi(w); p=new I(fd(p.l,1),cd(p.h,1)); r=isub(p,atanSmall(ofQ(div(Q1,a),w),w)); }
        else { // atan a = pi/4 + atan((a-1)/(a+1))
            I p=ipi(w); p=new I(fd(p.l,2),cd(p.h,2)); r=iadd(p,atanSmall(ofQ(div(sub(a,Q1),add(a,Q1)),w),w)); }
        if(ng) r=ineg(r); return new I(fd(r.l,30),cd(r.h,30)); }
    // sin and cos: reduce by multiples of pi/2
    static I[] isincos(Q a, int w0) {
        int big=Math.max(0,a.n.abs().bitLength()-a.d.bitLength()+2); int w=w0+40; int wp=w+big+10;
        I p=ipi(wp); // pi
        // k = round(a/(pi/2)) computed from the lower bound of pi
        BigInteger x2=floorDiv(a.n.shiftLeft(wp+2),a.d); // 4a * 2^wp (floor)
        BigInteger k=floorDiv(x2.add(p.l),p.l.shiftLeft(1)); // floor(2a/pi+1/2)
        I ax=ofQ(a,wp); I kp= k.signum()>=0? new I(p.l.multiply(k),p.h.multiply(k)) : new I(p.h.multiply(k),p.l.multiply(k));
        kp=new I(fd(kp.l,1),cd(kp.h,1)); I r=isub(ax,kp); int sh=wp-w; r=new I(fd(r.l,sh),cd(r.h,sh)); // |r| <= ~0.8
        I r2=imul(r,r,w); I one=new I(ONE.shiftLeft(w),ONE.shiftLeft(w));
        I t=r,s=r; int j=1; while(t.l.abs().max(t.h.abs()).bitLength()>2) { t=ineg(idivi(imul(t,r2,w),BigInteger.valueOf((2L*j)*(2L*j+1)))); s=iadd(s,t); ++j; }
        I sn=widen(s,BigInteger.valueOf(16));
        t=one; s=one; j=1; while(t.l.abs().max(t.h.abs()).bitLength()>2) { t=ineg(idivi(imul(t,r2,w),BigInteger.valueOf((2L*j-1)*(2L*j)))); s=iadd(s,t); ++j; }
        I cs=widen(s,BigInteger.valueOf(16));
        int m=k.mod(BigInteger.valueOf(4)).intValue(); I S,C;
        switch(m) { case 0: S=sn; C=cs; break; case 1: S=cs; C=ineg(sn); break; case 2: S=ineg(sn); C=ineg(cs); break; default: S=ineg(cs); C=sn; }
        return new I[]{S,C,new I(BigInteger.valueOf(w),ZERO)}; }
    static final Object[] NONE=null;
    static Q[] rf(String f, Q a, int k) {
        if(!a.fin() && !f.equals("pi")) {
            if(f.equals("exp")) { if(a==INF) return new Q[]{INF,INF}; if(a==NINF) return new Q[]{Q0,Q0}; }
            if(f.equals("log")||f.equals("sqrt")) { if(a==INF) return new Q[]{INF,INF}; }
            if(f.equals("atan") && a!=NAN) { I p=ipi(k); Q l=dy(p.l,-k-1), h=dy(p.h,-k-1); return a==INF? new Q[]{l,h} : new Q[]{neg(h),neg(l)}; }
            return new Q[]{NAN,NAN};
        }
        I r; int w=k;
        switch(f) {
            case "pi": r=ipi(k); break;
            case "exp": {
                double av=a.n.doubleValue()/a.d.doubleValue(); // negative arguments need absolute precision beyond k
                if(cmp(a,mk(BigInteger.valueOf(3000),ONE))>0) return new Q[]{dy(ONE,4320),INF};
                if(cmp(a,mk(BigInteger.valueOf(-3000),ONE))<0) return new Q[]{Q0,dy(ONE,-4320)};
                w=k+(av<0?(int)Math.ceil(-av*1.4427)+4:4); r=iexp(a,w); break; }
            case "log": if(a.n.signum()<=0) return a.n.signum()==0? new Q[]{NINF,NINF}:new Q[]{NAN,NAN}; w=k+ 8 + closeness(a); r=ilog(a,w); break;
            case "sqrt": { if(a.n.signum()<0) return new Q[]{NAN,NAN}; if(a.n.signum()==0) return new Q[]{Q0,Q0};
                int e=Math.max(0,a.d.bitLength()-a.n.bitLength()+2)/2; w=k+e; BigInteger n=floorDiv(a.n.shiftLeft(2*w),a.d); BigInteger s=n.sqrt();
                boolean ex=s.multiply(s).equals(n)&&s.multiply(s).multiply(a.d).equals(a.n.shiftLeft(2*w)); r=new I(s,ex?s:s.add(ONE)); break; }
            case "atan": w=k+small(a); r=iatan(a,w); break;
            case "sin": case "cos": case "tan": {
                w=k+small(a); I[] sc=isincos(a,w); int ww=w+40;
                if(f.equals("tan")) { if(sc[1].l.signum()*sc[1].h.signum()<=0) return new Q[]{NINF,INF}; I t=idiv(sc[0],sc[1],ww); return new Q[]{dy(t.l,-ww),dy(t.h,-ww)}; }
                I t=f.equals("sin")?sc[0]:sc[1]; BigInteger o=ONE.shiftLeft(ww); return new Q[]{dy(t.l.max(o.negate()),-ww),dy(t.h.min(o),-ww)}; }
            case "asin": case "acos": { // asin x = 2 atan( x/(1+sqrt(1-x^2)) ); acos x = pi/2 - asin x
                Q o=sub(Q1,mul(a,a)); if(o.n.signum()<0) return new Q[]{NAN,NAN}; Q[] s=rf("sqrt",o,k+10); Q d1=add(Q1,s[0]), d2=add(Q1,s[1]);
                Q u=div(a,d2), v=div(a,d1); if(cmp(u,v)>0) { Q t=u; u=v; v=t; }
                Q[] p=rf("atan",u,k+10), q2=rf("atan",v,k+10); Q two=mk(TWO,ONE); Q lo=mul(two,p[0]), hi=mul(two,q2[1]);
                if(f.equals("asin")) return new Q[]{lo,hi}; Q[] pi=rf("pi",Q0,k+10); Q h=mk(ONE,TWO); return new Q[]{sub(mul(h,pi[0]),hi),sub(mul(h,pi[1]),lo)}; }
            default: throw new RuntimeException("unknown function "+f);
        }
        return new Q[]{dy(r.l,-w),dy(r.h,-w)};
    }
    static int small(Q a) { return Math.max(0,a.d.bitLength()-a.n.abs().bitLength()+2); }
    static int closeness(Q a) { Q c=sub(a,Q1); return c.n.signum()==0?0:Math.max(0,c.d.bitLength()-c.n.abs().bitLength()+2); }
    static final ConcurrentHashMap<String,Q[]> fcache=new ConcurrentHashMap<>();
    static Q[] rfc(Value f, Value a, Value k) { String key=((StringValue)f).val+"|"+a+"|"+k; Q[] r=fcache.get(key);
        if(r==null) { r=rf(((StringValue)f).val.toString(),q(a),in(k)); if(fcache.size()>50000) fcache.clear(); fcache.put(key,r); } return r; }
    public static Value RLo(Value f, Value a, Value k) { return rfc(f,a,k)[0].val(); }
    public static Value RHi(Value f, Value a, Value k) { return rfc(f,a,k)[1].val(); }
    public static Value RDecimal(Value s) {
        String t=((StringValue)s).val.toString().trim(); int e=0; int i=t.indexOf('e'); if(i<0) i=t.indexOf('E');
        if(i>=0) { e=Integer.parseInt(t.substring(i+1).replace("+","")); t=t.substring(0,i); }
        int p=t.indexOf('.'); if(p>=0) { e-=t.length()-p-1; t=t.substring(0,p)+t.substring(p+1); }
        if(t.startsWith("+")) t=t.substring(1);
        BigInteger n=new BigInteger(t), ten=BigInteger.TEN; return (e>=0?mk(n.multiply(ten.pow(e)),ONE):mk(n,ten.pow(-e))).val(); }
}
