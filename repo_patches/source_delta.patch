From abc49d7efdc81bb0485852e1d2dd8623f007e025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:37 +0000
Subject: [PATCH 01/51] fix: rigorously rounded double-precision elementary
 functions

sqrt_rnd could fail to terminate in a directed rounding mode, cos_rnd/sin_rnd/tan_rnd/
atan_rnd/asin_rnd/acos_rnd returned values on the wrong side of the exact result (for
negative arguments cos by millions of ulps), exp_rnd failed an assertion or returned a
non-lower bound for large arguments, and log_rnd(0) returned +inf. Evaluate with MPFR in
the current rounding mode. The sine of a one-point Bounds is the sine of the point.
---
 source/numeric/double.cpp           | 426 ++--------------------------
 source/numeric/float_bounds.tpl.hpp |   1 +
 2 files changed, 30 insertions(+), 397 deletions(-)

diff --git a/source/numeric/double.cpp b/source/numeric/double.cpp
index b45cc4a..c455855 100644
--- a/source/numeric/double.cpp
+++ b/source/numeric/double.cpp
@@ -54,9 +54,7 @@ Void set_default_builtin_rounding() { set_builtin_rounding_upward(); }
 static const double _pi_up=3.1415926535897936;
 static const double _pi_down=3.1415926535897931;
 
-static const double _quarter_pi_approx=0.78539816339744828;
 static const double _pi_approx=3.1415926535897931;
-static const double _two_pi_approx=6.2831853071795862;
 static const double _sqrt2_approx=0.70710678118654757;
 static const double _log2_approx=0.6931471805599453094;
 
@@ -95,6 +93,26 @@ static inline double horner_opp(Int n, double x, const long long int* c)
     return -y;
 }
 
+// Evaluate a function using MPFR, rounding the result in the current builtin rounding mode.
+// The result is the correctly rounded value, so is a rigorous bound when using directed rounding.
+static inline double mpfr_rnd(Int(*fn)(mpfr_ptr,mpfr_srcptr,mpfr_rnd_t), double x)
+{
+    mpfr_rnd_t rnd=MPFR_RNDN;
+    switch(get_builtin_rounding_mode()) {
+        case ROUND_DOWNWARD: rnd=MPFR_RNDD; break;
+        case ROUND_UPWARD: rnd=MPFR_RNDU; break;
+        case ROUND_TOWARD_ZERO: rnd=MPFR_RNDZ; break;
+        default: break;
+    }
+    mpfr_t y;
+    mpfr_init2(y,std::numeric_limits<double>::digits);
+    mpfr_set_d(y,x,rnd);
+    fn(y,y,rnd);
+    double r=mpfr_get_d(y,rnd);
+    mpfr_clear(y);
+    return r;
+}
+
 // Rounded-fused multiple-and-add
 double fma_rnd(double x, double y, double z)
 {
@@ -123,32 +141,11 @@ double pow_rnd(double x, Int n)
 
 double sqrt_rnd(double x)
 {
-    // long int c[]={ 0, 6, -360, 15120, -604800, 23950080, -946218790, 37362124800 };
     ARIADNE_ASSERT_MSG(x>=0, " x = "<<x);
-
-    if(x==0.0) { return 0.0; }
-    Int n; volatile double y,a,b;
-    y=frexp(x,&n);
-    if(n%2) { y=y*2; n-=1; }
-    assert(y>=0.5 && y<=2.0);
-
-    a=0.0; b=y;
-    while(a!=b) {
-        a=b;
-        b=(a+y/a)/2;
-    }
-
-    return ldexp(b,n/2);
+    return mpfr_rnd(&mpfr_sqrt,x);
 }
 
 
-double pos_sin_rnd_series(double x);
-double neg_sin_rnd_series(double x);
-double pos_cos_rnd_series(double x);
-double neg_cos_rnd_series(double x);
-double tan_rnd_series(double x);
-
-
 double texp(double x) {
     double r=1.0; double t=1.0;
     for(Nat i=1; i!=20; ++i) {
@@ -160,56 +157,9 @@ double texp(double x) {
 // Correctly rounded exponential function
 double exp_rnd(double x)
 {
-    static const long long int c[7]={ 1LL, 6LL, -360LL, 15120LL, -604800LL, 23950080LL, -946218790LL };
-
-    // Set w=r(exp(r)+1)/(exp(r)-1).
-    // Then w=2 + s/c1 + s^2/c2 + ...
-    // where s=r^2, and
-    // and exp(r) = y = (w+r)/(w-r)
-    // The first six terms are sufficient to compute w
-    // Note that we always have w>0 and y>0
-
-    // Note that dy/dr = 2w/(w-e)^2 > 0
-    // and dy/dw = -2r/(w-r)^2, so if r<0 we need to under-approximate w
-
-    if(x==0.0) { return 1.0; }
-    double n=std::floor(x/_log2_approx+0.5);
-    volatile double r,s,t,w,y;
-    volatile double log2;
-    log2=(n>0.0) ? next_opp(_log2_approx) : next_rnd(_log2_approx);
-    r=x+(-n)*log2;
-
-    ARIADNE_ASSERT_MSG(r>=-0.4, " r = "<<r<<", x = "<<x);
-    ARIADNE_ASSERT_MSG(r<=+0.4, " r = "<<r<<", x = "<<x);
-
-    if(r<0) {
-        // Compute w by standard Horner's rule gives correct rounding since w is monotone increasing in s
-        s = r*r;
-        w = 1+horner_rnd(6,s,c);
-        //c[0] + s * (1./c[1] + s * (1./c[2] + s * (1./c[3] + s * (1./c[4] + s * (1./c[5] + s * (1./c[6]) ) ) ) ) );
-    } else {
-        // Compute -w by standard Horner's rule gives opposite rounding since w is monotone increasing in s
-        s = (-r)*r; s=-s;
-        w = horner_opp(6,s,c);
-        w = -1-w; w=-w;
-        //w = -c[0] + s * (-1./c[1] + s * (-1./c[2] + s * (-1./c[3] + s * (-1./c[4] + s * (-1./c[5] + s * (-1./c[6]) ) ) ) ) );
-        //w=-w;
-    }
-
-    t=r-w;
-    y=(w+r)/(-t);
-
-
-    long int m=static_cast<long int>(n);
-    Int e;
-    volatile double z=frexp(y,&e);
-    z=ldexp(z,m+e);
-    return z;
+    return mpfr_rnd(&mpfr_exp,x);
 }
 
-
-
-
 double log_rnd(double x) {
     static const long long int c[12]={ 1LL, 3LL, 5LL, 7LL, 9LL, 11LL, 13LL, 15LL, 17LL, 19LL, 21LL, 23LL };
 
@@ -225,7 +175,7 @@ double log_rnd(double x) {
     // Note that if z<0 (corresponding to y<1) then we need to use
     // opposite rounding to compute s and w.
 
-    if(x==0.0) { return std::numeric_limits<double>::infinity(); }
+    if(x==0.0) { return -std::numeric_limits<double>::infinity(); }
     if(x==1.0) { return 0.0; }
 
     Int n;
@@ -272,42 +222,7 @@ double pi_opp() {
 }
 
 double sin_rnd(double x) {
-    volatile double two_pi_rnd=2*pi_rnd();
-    volatile double two_pi_opp=2*pi_opp();
-
-    volatile double half_pi_rnd=two_pi_rnd/4;
-    volatile double half_pi_opp=two_pi_opp/4;
-
-    Int q = (long int)(std::floor(x/_quarter_pi_approx)) % 8;
-    if(q<-4) { q+=8; } if(q>=4) { q-=8; }
-    volatile double n=-std::floor(x/_two_pi_approx+0.5);
-
-    volatile double y,w,s;
-
-    // Set to true if sin is decreasing so we want opposite rounding
-    Bool want_opposite=(q<-2||q>=2);
-    // if n is negative then we need to switch rounding of two_pi
-    volatile double two_pi_corr=((n>=0.0) ^ want_opposite) ? two_pi_rnd : two_pi_opp;
-
-    // Scale onto interval from -pi to pi
-    if(want_opposite) { y=-x+(-n)*(two_pi_corr); y=-y; } else { y=x+n*two_pi_corr; }
-
-    assert(-_two_pi_approx<=y && y<=_two_pi_approx);
-
-
-    switch(q) {
-    case -4: { w = -y - 2*half_pi_opp; w=-w; s=neg_sin_rnd_series(w); break; }
-    case -3: { w = -y - 1*half_pi_rnd; w=+w; s=neg_cos_rnd_series(w); break; }
-    case -2: { w = +y + 1*half_pi_rnd; w=+w; s=neg_cos_rnd_series(w); break; }
-    case -1: { w = +y + 0*half_pi_opp; w=-w; s=neg_sin_rnd_series(w); break; }
-    case +0: { w = +y + 0*half_pi_opp; w=+w; s=pos_sin_rnd_series(w); break; }
-    case +1: { w = +y - 1*half_pi_opp; w=-w; s=pos_cos_rnd_series(w); break; }
-    case +2: { w = -y + 1*half_pi_rnd; w=-w; s=pos_cos_rnd_series(w); break; }
-    case +3: { w = -y + 2*half_pi_rnd; w=+w; s=pos_sin_rnd_series(w); break; }
-    default: { s=0; assert(false); }
-    }
-
-    return s;
+    return mpfr_rnd(&mpfr_sin,x);
 }
 
 inline double max(double x1, double x2) { return std::max(x1,x2); }
@@ -337,306 +252,23 @@ double neg_rec_opp(double x) { volatile double t=1.0/x; return -t; }
 
 
 double cos_rnd(double x) {
-    const double pi_rnd=Ariadne::pi_rnd();
-    const double pi_opp=Ariadne::pi_opp();
-    const double half_pi_rnd=pi_rnd/2;
-
-    if(x==0.0) { return 1.0; }
-
-    // Compute a constant n such that n*pi<x<(n+1)*pi
-    long int n_rnd=(long int)(std::floor(div_rnd(x,pi_opp)));
-    long int n_opp=(long int)(std::floor(div_opp(x,pi_rnd)));
-
-    if(n_rnd!=n_opp) {
-        if(n_rnd>n_opp) {
-            // Rounding upwards
-            if(n_rnd%2==0) { return 1.0; }
-            volatile double y1=sub_rnd(pi_rnd*n_rnd,x);
-            volatile double y2=sub_rnd(x,pi_opp*n_rnd);
-            assert(y1>=0 && y2>=0);
-            volatile double w=std::max(y1,y2);
-            return neg_cos_rnd_series(w);
-        } else {
-            // Rounding downwards
-            if(n_rnd%2==0) { return -1.0; }
-            volatile double y1=sub_opp(pi_opp*n_opp,x);
-            volatile double y2=sub_opp(x,pi_rnd*n_opp);
-            assert(y1>=0 && y2>=0);
-            volatile double w=std::max(y1,y2);
-            return pos_cos_rnd_series(w);
-        }
-    }
-
-
-    // Set y=x-n*pi (with opposite rounding) if n is even
-    // and to (n+1)*pi-x (with opposite rounding) if n is odd
-    volatile double y;
-    if(n_rnd%2==0) {
-        y=sub_opp(x,mul_rnd(n_rnd,pi_rnd));
-    } else {
-        y=sub_opp(mul_opp(n_rnd+1,pi_opp),x);
-    }
-
-    Int q = (long int)(std::floor(y/_quarter_pi_approx)) % 8;
-    assert(q<=4);
-
-    volatile double w,c;
-    if(q==0) {
-        w=y;
-        c=pos_cos_rnd_series(w);
-    } else if(q==1 || q==2) {
-        w=sub_rnd(pi_rnd/2,y);
-        if(w>=0.0) { c=pos_sin_rnd_series(w); }
-        else { c=neg_sin_rnd_series(-w); }
-    } else if(q==3 || q==4) {
-        w=sub_opp(pi_opp,y);
-        c=neg_cos_rnd_series(w);
-    } else {
-        w=0;c=0;
-        assert(false);
-    }
-
-    return c;
-
-
-
-    volatile double z=0.0;
-
-    ARIADNE_ASSERT(-_two_pi_approx<=y && y<=_two_pi_approx);
-    switch(q) {
-    case -4: { w = +y + 2*half_pi_rnd; w=+w; w=max(w,z); c=neg_cos_rnd_series(w); break; }
-    case -3: { w = +y + 1*half_pi_rnd; w=-w; w=max(w,z); c=neg_sin_rnd_series(w); break; }
-    case -2: { w = +y + 1*half_pi_rnd; w=+w; w=max(w,z); c=pos_sin_rnd_series(w); break; }
-    case -1: { w = +y + 0*half_pi_rnd; w=-w; w=max(w,z); c=pos_cos_rnd_series(w); break; }
-    case +0: { w = -y + 0*half_pi_rnd; w=-w; w=max(w,z); c=pos_cos_rnd_series(w); break; }
-    case +1: { w = -y + 1*half_pi_rnd; w=+w; w=max(w,z); c=pos_sin_rnd_series(w); break; }
-    case +2: { w = -y + 1*half_pi_rnd; w=-w; w=max(w,z); c=neg_sin_rnd_series(w); break; }
-    case +3: { w = -y + 2*half_pi_rnd; w=+w; w=max(w,z); c=neg_cos_rnd_series(w); break; }
-    default: { assert(false); }
-    }
-
-    return c;
-}
-
-
-double pos_sin_rnd_series(double x) {
-    ARIADNE_ASSERT(x>=0.0);
-    ARIADNE_ASSERT(x<=0.7853981634);
-    static const long long int c[9]={ 1LL, -6LL, 120LL, -5040LL, 362880LL, -39916800LL, 6227020800LL, -1307674368000LL, 355687428096000LL };
-
-    // Compute sin(x) by Taylor series
-    volatile double s,w,y;
-    // TODO: Use Horner's scheme. Need a different algorithm for the case that x is negative
-    s=x*x; w=horner_rnd(8,s,c); y=x*w;
-
-
-    return y;
-}
-
-double neg_sin_rnd_series(double x) {
-    ARIADNE_ASSERT(x>=0.0);
-    ARIADNE_ASSERT(x<=0.7853981634);
-    static const long long int c[9]={ 1LL, -6LL, 120LL, -5040LL, 362880LL, -39916800LL, 6227020800LL, -1307674368000LL, 355687428096000LL };
-
-    // Compute sin(x) by Taylor series
-    volatile double s,w,y;
-    // TODO: Use Horner's scheme. Need a different algorithm for the case that x is negative
-    s=(-x)*x; s=-s; w=horner_opp(8,s,c); y=x*(-w);
-
-
-    return y;
-}
-
-
-double pos_cos_rnd_series(double x) {
-    ARIADNE_ASSERT(x>=0.0);
-    ARIADNE_ASSERT(x<=0.7853981634);
-
-    static const long long int c[9]={ 1LL, -2LL, 24LL, -720LL, 40320LL, -3628800LL, 479001600LL, -87178291200LL, 20922789888000LL };
-
-    // Compute cos(x) by Taylor series. Since cos(x) is decreasing in x^2,
-    // we need to use opposite rounding for the computation of x^2
-
-    volatile double s,y;
-    s=(-x)*x;
-    s=-s;
-    y=0.0;
-    y=horner_rnd(8,s,c);
-    return y;
-}
-
-double neg_cos_rnd_series(double x) {
-    ARIADNE_ASSERT(x>=0.0);
-    ARIADNE_ASSERT(x<=0.7853981634);
-
-    static const long long int c[9]={ 1LL, -2LL, 24LL, -720LL, 40320LL, -3628800LL, 479001600LL, -87178291200LL, 20922789888000LL };
-    volatile double s,y;
-    s=x*x;
-    y=0.0;
-    y=horner_opp(8,s,c);
-    return -y;
+    return mpfr_rnd(&mpfr_cos,x);
 }
 
 double tan_rnd(double x) {
-
-    volatile double y,q,r,s,t,u,v;
-
-    double n=std::floor(x/_pi_approx+0.5);
-
-    volatile double pi_corr=(n>=0) ? next_opp(_pi_approx) : next_rnd(_pi_approx);
-    y=x-n*pi_corr;
-
-
-    ARIADNE_ASSERT(y>=-_pi_up/2);
-    ARIADNE_ASSERT(y<=+_pi_up/2);
-
-    // Use the double-angle formula tan(2x) = tan(x)/(1-tan^2(x))
-    // Note that the function y/(1-y^2) is monotone increasing for |y|<1
-    // To get enough accuracy, we use the double angle formula twice,
-    // ensuring that |x|<=pi/8.
-
-    q=y/4;
-    r=tan_rnd_series(q);
-    if(y>=0) {
-        u=r*r-1;
-        s=(2*r)/(-u);
-        v=s*s-1;
-        t=(2*s)/(-v);
-    } else {
-        u=(-r)*r;
-        u=1+u;
-        s=(2*r)/u;
-        v=(-s)*s;
-        v=1+v;
-        t=(2*s)/v;
-    }
-    return t;
-}
-
-double tan_rnd_series(double x) {
-    // Need |x|<=pi/8
-    ARIADNE_ASSERT(x>=-_pi_up/8);
-    ARIADNE_ASSERT(x<=+_pi_up/8);
-
-    // Numerators of Taylor coefficients
-    static const int64_t cn[13]={
-        1LL, 1LL, 2LL, 17LL, 62LL, 1382LL, 21844LL, 929569LL, 6404582LL, 443861162LL,
-        18888466084LL, 113927491862LL, 58870668456604LL };
-
-    // Denominators of Taylor coefficients
-    static const int64_t cd[13]={
-        1LL, 3LL, 15LL, 315LL, 2835LL, 155925LL, 6081075LL, 638512875LL, 10854718875LL, 1856156927625LL,
-        194896477400625LL, 2900518163668125LL, 3698160658676859375LL };
-
-
-    // To get enough accuracy, we need |x|<pi/8
-    // since we can't store the rational coefficients exactly.
-    // Note that we could in principle use approximations to the
-    // coesfficients, but this goes against the "spirit" of the code.
-
-    volatile double c,s,w,r;
-    if(x>=0) {
-        s=x*x;
-        w=double(cn[12])/cd[12];
-        for(Int i=11; i>=0; --i) {
-            c=double(cn[i])/cd[i];
-            w=c+s*w;
-        }
-        r=x*w;
-    } else {
-        s=(-x)*x; s=-s;
-        w=double(-cn[12])/cd[12];
-        for(Int i=12; i>=0; --i) {
-            c=double(-cn[i])/cd[i];
-            w=c+s*w;
-        }
-        r=x*(-w);
-    }
-    return r;
-}
-
-double atan_rnd_series(double x) {
-    // atan(x) = \sum_{n=0}^{\infty} (-1)^n/(2n+1) x^{2n+1}
-    // Relative trunctation error less than machine epsilon if |x|<=0.375 (this is not a tight bound)
-    assert(std::abs(x)<0.5);
-    static const long long int c[19]={ 1LL, -3LL, 5LL, -7LL, 9LL, -11LL, 13LL, -15LL, 17LL, -19LL, 21LL, -23LL, 25LL, -27LL, 29LL, -31LL, 33LL, -35LL, 37LL };
-
-    volatile double s,w,r;
-    if(x>=0) {
-        s=mul_rnd(x,x);
-        w=horner_rnd(18,s,c);
-        r=x*w;
-    } else {
-        s=mul_opp(x,x);
-        w=horner_opp(17,s,c);
-        r=x*w;
-    }
-    return r;
+    return mpfr_rnd(&mpfr_tan,x);
 }
 
 double atan_rnd(double x) {
-    // use range reduction
-    // atan(-x) = -atan(x)
-    // atan(1/x) = pi/2 - atan(x) for x>0
-    // atan(1/x) = -pi/2 - atan(x) for x<0
-    //
-    // atan(x) = sgn(x)*pi/2 + atan(-1/x)
-    // atan(x) = atan(c) + atan((x-c)/(1+x*c))
-    // atan(x) = 2*atan(c) where c = x/(1+sqrt(1+x^2))
-
-    // Find c,d such that atan(1)=atan(c)+atan(d), and atan(d)=atan(c)+atan(-d)
-    // Obtain c=1/sqrt(3), d=2-sqrt(3), with atan(c)=pi/6
-    // Take atan(x) = atan(c) + atan(x-c)/(1+x*c)
-    // In practice, take c to be an exact value, and d rounded upward
-
-    // Value to add to final series expansion
-    volatile double a=0.0;
-
-    // 1<x<2+sqrt(3)  c=sqrt(3)
-    // (x-c)/(1+c*x)
-
-    // Change x to range [-1:+1]
-    if (x>1.0) { x=-1.0/x; a=pi_rnd()/2; }
-    else if (x<-1.0) { x=-1.0/x; a=-pi_opp()/2; }
-
-    // Scale x to have |x|<pi/6~=0.26795 by shifting around c=1/sqrt(3)~=0.57735
-    // Note that the exact value of atan(c) lies in the range pi_rnd()/6
-    volatile double c = 0.577350269189625731058868041145615279674530029296875;
-    volatile double d = 0.267949192431122751312244645305327139794826507568359375;
-
-    if (x>d) {
-        x=(x-c)/(-(-1.0+(-c)*x));
-        a=a+pi_rnd()/6;
-    } else if (x<-d) {
-        x=(x+c)/(1.0+(-c)*x); // Check rounding
-        a=a+(-pi_opp())/6;
-    }
-    return a + atan_rnd_series(x);
+    return mpfr_rnd(&mpfr_atan,x);
 }
 
 double asin_rnd(double x) {
-    // WARNING: Correctness of rounding has not been properly checked
-    // asin(x)=atan(x/sqrt(1-x*x))=atan(x*sqrt(1/(1-x*x)))
-    if (x>=0) {
-        // y=atan(x*sqrt(v)), w=sqrt(v), v=-1/u, u=x^2-1
-        volatile double u=x*x-1.0;
-        volatile double v=(-1.0)/u;
-        volatile double w=sqrt_rnd(v);
-        return atan_rnd(x*w);
-    } else {
-        // y=atan(x/w), w=sqrt(v), v=1+x*u, u=-x
-        volatile double u=-x;
-        volatile double v=1.0+x*u;
-        volatile double w=sqrt_rnd(v);
-        return atan_rnd(x/w);
-    }
-    // Alternatively, use Newton iteration
-    // y=asin(x), sin(y)-x=0, y' = y-(sin(y)-x)/cos(y)=y+(sin(y)-x)/-cos(y)
-    // For x>0, starting with y=x gives increasing sequence
+    return mpfr_rnd(&mpfr_asin,x);
 }
 
 double acos_rnd(double x) {
-    return pi_rnd()/2.0+asin_rnd(-x);
+    return mpfr_rnd(&mpfr_acos,x);
 }
 
 } // namespace Ariadne
diff --git a/source/numeric/float_bounds.tpl.hpp b/source/numeric/float_bounds.tpl.hpp
index 4cfdb97..f4d664d 100644
--- a/source/numeric/float_bounds.tpl.hpp
+++ b/source/numeric/float_bounds.tpl.hpp
@@ -72,6 +72,7 @@ template<class F> auto Operations<Bounds<F>>::_pi(PR pr) -> Bounds<F> {
 }
 
 template<class F> auto Operations<Bounds<F>>::_sin(Bounds<F> const& x) -> Bounds<F> {
+    if(x.lower_raw()==x.upper_raw()) { return Bounds<F>(sin(down,x.lower_raw()),sin(up,x.upper_raw())); }
     return cos(x-hlf(_pi(x.precision())));
 }
 
-- 
2.43.0


From 4dff984c55126eb5532e713f37e88cbc98356ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:59 +0000
Subject: [PATCH 02/51] fix: terminate and round correctly when converting
 exact numbers to double precision

Conversion of a Dyadic or Rational beyond the double range with downward (or
negative with upward) rounding looped forever, conversion with rounding to
nearest truncated, and results near the subnormal range were not rounded
tightly. Use MPFR, which rounds correctly.
---
 source/numeric/floatdp.cpp | 69 +++++++++++++++++++++-----------------
 1 file changed, 39 insertions(+), 30 deletions(-)

diff --git a/source/numeric/floatdp.cpp b/source/numeric/floatdp.cpp
index b3062db..9eb6a38 100644
--- a/source/numeric/floatdp.cpp
+++ b/source/numeric/floatdp.cpp
@@ -88,22 +88,46 @@ FloatDP::Float(Integer const& x, RoundingModeType rnd, PrecisionType pr)
 {
 }
 
+namespace {
+
+mpfr_rnd_t to_mpfr_rnd(BuiltinRoundingModeType rnd) {
+    switch(rnd) {
+        case FloatDP::ROUND_UPWARD: return MPFR_RNDU;
+        case FloatDP::ROUND_DOWNWARD: return MPFR_RNDD;
+        case FloatDP::ROUND_TOWARD_ZERO: return MPFR_RNDZ;
+        default: return MPFR_RNDN;
+    }
+}
+
+double round_to_double(Dyadic const& w, BuiltinRoundingModeType rnd) {
+    mpfr_t x; mpfr_init2(x,static_cast<mpfr_prec_t>(std::max(mpf_size(w.get_mpf()),size_t(1u))*GMP_NUMB_BITS));
+    mpfr_set_f(x,w.get_mpf(),MPFR_RNDN); // exact, since the precision covers all limbs
+    double r=mpfr_get_d(x,to_mpfr_rnd(rnd));
+    mpfr_clear(x); return r;
+}
+
+double round_to_double(Rational const& q, mpfr_rnd_t rnd) {
+    mpfr_t x; mpfr_init2(x,std::numeric_limits<double>::digits);
+    mpfr_set_q(x,q.get_mpq(),rnd);
+    double r=mpfr_get_d(x,rnd);
+    mpfr_clear(x); return r;
+}
+
+double round_to_double(Rational const& q, BuiltinRoundingModeType rnd) {
+    double r=round_to_double(q,to_mpfr_rnd(rnd));
+    if (rnd==FloatDP::ROUND_TO_NEAREST && std::fabs(r)<=std::numeric_limits<double>::min()) {
+        // Avoid rounding twice for subnormal results
+        double l=round_to_double(q,MPFR_RNDD), u=round_to_double(q,MPFR_RNDU);
+        r = (q-Rational(ExactDouble(l))<=Rational(ExactDouble(u))-q) ? l : u;
+    }
+    return r;
+}
+
+} // namespace
+
 FloatDP::Float(Dyadic const& w, RoundingModeType rnd, PrecisionType pr)
-    : FloatDP(w.get_d())
+    : FloatDP(is_finite(w) ? round_to_double(w,rnd) : w.get_d())
 {
-    if (is_finite(w)) {
-         RoundingModeType old_rnd=get_rounding_mode();
-         if(rnd==ROUND_UPWARD) {
-             set_rounding_upward();
-             while (Dyadic(dbl)<w) { dbl=dbl+std::numeric_limits<double>::min(); }
-             set_rounding_mode(old_rnd);
-         }
-         if(rnd==ROUND_DOWNWARD) {
-             set_rounding_downward();
-             while (Dyadic(dbl)>w) { dbl=dbl-std::numeric_limits<double>::min(); }
-             set_rounding_mode(old_rnd);
-         }
-     }
 }
 
 FloatDP::Float(Decimal const& dec, RoundingModeType rnd, PrecisionType pr)
@@ -111,24 +135,9 @@ FloatDP::Float(Decimal const& dec, RoundingModeType rnd, PrecisionType pr)
 {
 }
 
-inline Rational cast_rational(double d) { return Rational(ExactDouble(d)); }
-
 FloatDP::Float(Rational const& q, RoundingModeType rnd, PrecisionType pr)
-    : FloatDP(q.get_d())
+    : FloatDP(is_finite(q) ? round_to_double(q,rnd) : q.get_d())
 {
-    if (is_finite(q)) {
-        RoundingModeType old_rnd=get_rounding_mode();
-        if(rnd==ROUND_UPWARD) {
-            set_rounding_upward();
-            while (cast_rational(dbl)<q) { dbl=dbl+std::numeric_limits<double>::min(); }
-            set_rounding_mode(old_rnd);
-        }
-        if(rnd==ROUND_DOWNWARD) {
-            set_rounding_downward();
-            while (cast_rational(dbl)>q) { dbl=dbl-std::numeric_limits<double>::min(); }
-            set_rounding_mode(old_rnd);
-        }
-    }
 }
 
 FloatDP::Float(FloatDP const& x, RoundingModeType rnd, PrecisionType)
-- 
2.43.0


From c2c2eb1edde80331ddb5ecc625e9137ab41220b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:59 +0000
Subject: [PATCH 03/51] fix: normalise GMP comparison results to Comparison
 values

GMP specifies only the sign of mpz_cmp_si, mpq_cmp, mpq_cmp_si and mpf_cmp.
Casting the result to Comparison gave values other than LESS, EQUAL and
GREATER, so that cmp(x,y)==Comparison::LESS failed although x<y.
---
 source/numeric/dyadic.cpp   | 2 +-
 source/numeric/integer.cpp  | 2 +-
 source/numeric/rational.cpp | 4 ++--
 source/numeric/sign.hpp     | 3 +++
 4 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/source/numeric/dyadic.cpp b/source/numeric/dyadic.cpp
index 03bac1d..56703b1 100644
--- a/source/numeric/dyadic.cpp
+++ b/source/numeric/dyadic.cpp
@@ -90,7 +90,7 @@ template<> class FiniteOperations<Dyadic> {
         if(mpf_cmp(x1._mpf,x2._mpf)<=0) { mpf_set(r._mpf,x1._mpf); } else { mpf_set(r._mpf,x2._mpf); } }
     static Void abs(Dyadic& r, Dyadic const& x) { mpf_abs(r._mpf,x._mpf); }
 
-    static Comparison cmp(Dyadic const& x1, Dyadic const& x2) { return static_cast<Comparison>(mpf_cmp(x1._mpf,x2._mpf)); }
+    static Comparison cmp(Dyadic const& x1, Dyadic const& x2) { return make_comparison(mpf_cmp(x1._mpf,x2._mpf)); }
 };
 
 
diff --git a/source/numeric/integer.cpp b/source/numeric/integer.cpp
index 374ee33..c9b05cb 100644
--- a/source/numeric/integer.cpp
+++ b/source/numeric/integer.cpp
@@ -260,7 +260,7 @@ Comparison cmp(Integer const& z1, Integer const& z2) {
 }
 
 Comparison cmp(Integer const& z1, Int const& n2) {
-    return Comparison(mpz_cmp_si(z1._mpz,n2));
+    return make_comparison(mpz_cmp_si(z1._mpz,n2));
 }
 
 Boolean eq(Integer const& z1, Integer const& z2) {
diff --git a/source/numeric/rational.cpp b/source/numeric/rational.cpp
index 711910c..6ca318b 100644
--- a/source/numeric/rational.cpp
+++ b/source/numeric/rational.cpp
@@ -100,7 +100,7 @@ template<> class FiniteOperations<Rational> {
         if(mpq_cmp(q1._mpq,q2._mpq)<=0) { mpq_set(r._mpq,q1._mpq); } else { mpq_set(r._mpq,q2._mpq); } }
     static Void abs(Rational& r, Rational const& q) { mpq_abs(r._mpq,q._mpq); }
 
-    static Comparison cmp(Rational const& q1, Rational const& q2) { return static_cast<Comparison>(mpq_cmp(q1._mpq,q2._mpq)); }
+    static Comparison cmp(Rational const& q1, Rational const& q2) { return make_comparison(mpq_cmp(q1._mpq,q2._mpq)); }
     static Boolean eq(Rational const& q1, Rational const& q2) { return mpq_equal(q1._mpq,q2._mpq); }
 };
 
@@ -463,7 +463,7 @@ Comparison cmp(ExactDouble const& x1, Rational const& q2) {
 }
 
 Comparison cmp(Rational const& q1, Int const& n2) {
-    return Comparison(mpq_cmp_si(q1._mpq,n2,1));
+    return make_comparison(mpq_cmp_si(q1._mpq,n2,1));
 }
 
 Comparison cmp(Int const& n1, Rational const& q2) {
diff --git a/source/numeric/sign.hpp b/source/numeric/sign.hpp
index f55a31a..d3e71a2 100644
--- a/source/numeric/sign.hpp
+++ b/source/numeric/sign.hpp
@@ -46,6 +46,9 @@ inline Sign operator*(Sign s1, Sign s2) { return Sign(static_cast<ComparableEnum
 //! \brief The result of a comparison operation.
 enum class Comparison : ComparableEnumerationType { LESS=-1, EQUAL=0, GREATER=+1, INCOMPARABLE=ComparableEnumerationType(-128) };
 
+//! \brief Convert the result of a three-way comparison, of which only the sign is specified, to a Comparison.
+inline Comparison make_comparison(int c) { return c==0 ? Comparison::EQUAL : c>0 ? Comparison::GREATER : Comparison::LESS; }
+
 inline OutputStream& operator<<(OutputStream& os, Comparison const& cmp) {
     switch(cmp) {
         case Comparison::LESS: os << "LESS";  break;
-- 
2.43.0


From 43cae49397ddc1c859a5ff747d2f1f7d77cf4b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:45 +0000
Subject: [PATCH 04/51] fix: ball arithmetic keeps its error bound for
 subnormals, division by balls containing zero, abs and low precision

---
 source/numeric/float_ball.hpp     | 28 ++++++++++++++++------------
 source/numeric/float_ball.tpl.hpp |  3 ++-
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/source/numeric/float_ball.hpp b/source/numeric/float_ball.hpp
index d965eb6..7b16d9d 100644
--- a/source/numeric/float_ball.hpp
+++ b/source/numeric/float_ball.hpp
@@ -191,7 +191,7 @@ template<class F, class FE> class Ball
     friend Ball<F,FE> neg(Ball<F,FE> const& x) {
         return Ball<F,FE>(neg(x._v),x._e); } //!< <p/>
     friend Ball<F,FE> hlf(Ball<F,FE> const& x) {
-        return Ball<F,FE>(hlf(x._v),hlf(x._e)); } //!< <p/>
+        return Operations<Ball<F,FE>>::_hlf(x); } //!< <p/>
     friend Ball<F,FE> sqr(Ball<F,FE> const& x) {
         return Operations<Ball<F,FE>>::_sqr(x); } //!< <p/>
     friend Ball<F,FE> rec(Ball<F,FE> const& x) {
@@ -469,19 +469,22 @@ template<class F, class FE> struct Operations<Ball<F,FE>> {
     }
 
     static Ball<F,FE> _hlf(Ball<F,FE> const& x) {
-        return Ball<F,FE>(hlf(x._v),hlf(x._e));
+        // Halving is inexact for subnormal numbers
+        auto re=_make_error(sub(up,hlf(up,x._v),hlf(down,x._v)));
+        return Ball<F,FE>(hlf(near,x._v),add(up,hlf(up,x._e),re));
     }
 
     static Ball<F,FE> _sqr(Ball<F,FE> const& x) {
         Ball<F,FE> r=x*x;
         if(r._e>r._v) {
-            r._e=hlf(add(up,r._e,_make_error(r._v)));
+            r._e=hlf(up,add(up,r._e,_make_error(r._v)));
             r._v=F(Dyadic(r._e),upward,x.precision());
         }
         return r;
     }
 
     static Ball<F,FE> _rec(Ball<F,FE> const& x) {
+        if(not (x._e<abs(x._v))) { return Ball<F,FE>(nul(x._v),FE::inf(x._e.precision())); }
         // Use this code to find value same as reciprocal value
         auto rv=rec(approx,x._v);
         auto ru=rec(up,sub(down,x._v,x._e));
@@ -503,7 +506,7 @@ template<class F, class FE> struct Operations<Ball<F,FE>> {
         auto ru=add(up,x._v,y._v);
         auto rl=add(down,x._v,y._v);
         auto se=add(up,x._e,y._e);
-        auto ae=hlf(FE(sub(up,ru,rl),up,se.precision()));
+        auto ae=hlf(up,FE(sub(up,ru,rl),up,se.precision()));
         auto re=add(up,ae,se);
         return Ball<F,FE>(rv,re);
     }
@@ -512,7 +515,7 @@ template<class F, class FE> struct Operations<Ball<F,FE>> {
         auto rv=sub(near,x._v,y._v);
         auto ru=sub(up,x._v,y._v);
         auto rl=sub(down,x._v,y._v);
-        auto ae=_make_error(hlf(sub(up,ru,rl)));
+        auto ae=_make_error(hlf(up,sub(up,ru,rl)));
         auto re=add(up,ae,add(up,x._e,y._e));
         return Ball<F,FE>(rv,re);
     }
@@ -521,7 +524,7 @@ template<class F, class FE> struct Operations<Ball<F,FE>> {
         auto rv=mul(near,x._v,y._v);
         auto ru=mul(up,x._v,y._v);
         auto rl=mul(down,x._v,y._v);
-        auto re0=_make_error(hlf(sub(up,ru,rl)));
+        auto re0=_make_error(hlf(up,sub(up,ru,rl)));
         auto re1=add(up,re0,mul(up,x._e,y._e));
         auto re2=add(up,mul(up,_make_error(abs(x._v)),y._e),mul(up,x._e,_make_error(abs(y._v))));
         auto re=add(up,re1,re2);
@@ -529,6 +532,7 @@ template<class F, class FE> struct Operations<Ball<F,FE>> {
     }
 
     static Ball<F,FE> _div(Ball<F,FE> const& x, Ball<F,FE> const& y) {
+        if(not (y._e<abs(y._v))) { return Ball<F,FE>(nul(y._v),FE::inf(y._e.precision())); }
         return x*rec(y);
     }
 
@@ -536,7 +540,7 @@ template<class F, class FE> struct Operations<Ball<F,FE>> {
         auto rv=add(near,x,y);
         auto ru=add(up,x,y);
         auto rl=add(down,x,y);
-        auto re=FE(hlf(sub(up,ru,rl)),up,pre);
+        auto re=FE(hlf(up,sub(up,ru,rl)),up,pre);
         return Ball<F,FE>(rv,re);
     }
 
@@ -544,7 +548,7 @@ template<class F, class FE> struct Operations<Ball<F,FE>> {
         auto rv=sub(near,x,y);
         auto ru=sub(up,x,y);
         auto rl=sub(down,x,y);
-        auto re=FE(hlf(sub(up,ru,rl)),up,pre);
+        auto re=FE(hlf(up,sub(up,ru,rl)),up,pre);
         return Ball<F,FE>(rv,re);
     }
 
@@ -552,7 +556,7 @@ template<class F, class FE> struct Operations<Ball<F,FE>> {
         auto rv=mul(near,x,y);
         auto ru=mul(up,x,y);
         auto rl=mul(down,x,y);
-        auto re=FE(hlf(sub(up,ru,rl)),up,pre);
+        auto re=FE(hlf(up,sub(up,ru,rl)),up,pre);
         return Ball<F,FE>(rv,re);
     }
 
@@ -560,7 +564,7 @@ template<class F, class FE> struct Operations<Ball<F,FE>> {
         auto rv=div(near,x,y);
         auto ru=div(up,x,y);
         auto rl=div(down,x,y);
-        auto re=FE(hlf(sub(up,ru,rl)),up,pre);
+        auto re=FE(hlf(up,sub(up,ru,rl)),up,pre);
         return Ball<F,FE>(rv,re);
     }
 
@@ -610,8 +614,8 @@ template<class F, class FE> struct Operations<Ball<F,FE>> {
 
 
     static Ball<F,FE> _abs(Ball<F,FE> const& x) {
-        if(x._e<abs(x._v)) { return x; }
-        else { auto rv=hlf(add(up,abs(x._v),x._e)); return Ball<F,FE>(rv,_make_error(rv)); }
+        if(x._e<abs(x._v)) { return Ball<F,FE>(abs(x._v),x._e); }
+        else { auto rv=hlf(up,add(up,abs(x._v),x._e)); return Ball<F,FE>(rv,_make_error(rv)); }
     }
 
     static Ball<F,FE> _max(Ball<F,FE> const& x1, Ball<F,FE> const& x2) {
diff --git a/source/numeric/float_ball.tpl.hpp b/source/numeric/float_ball.tpl.hpp
index 5bb60be..ef48f88 100644
--- a/source/numeric/float_ball.tpl.hpp
+++ b/source/numeric/float_ball.tpl.hpp
@@ -66,7 +66,8 @@ template<class F, class FE> Ball<F,FE>::Ball(Ball<F,FE> const& x, PR pr)
     F d = (this->_v>=x._v) ? sub(up,this->_v,x._v) : sub(up,x._v,this->_v); _e=add(up,_e,_make_error<FE>(d));
 }
 
-template<class F, class FE> Ball<F,FE>::Ball(ExactDouble const& d, PR pr) : _v(d,pr), _e(0,_error_precision<PRE>(pr)) {}
+template<class F, class FE> Ball<F,FE>::Ball(ExactDouble const& d, PR pr) : _v(d,near,pr), _e(0,_error_precision<PRE>(pr)) {
+    if(std::isfinite(d.get_d())) { _e=FE(abs(Dyadic(_v)-Dyadic(d)),up,_error_precision<PRE>(pr)); } }
 template<class F, class FE> Ball<F,FE>::Ball(TwoExp const& t, PR pr) : _v(t,pr), _e(0u,_error_precision<PRE>(pr)) {}
 template<class F, class FE> Ball<F,FE>::Ball(Integer const& z, PR pr) : _v(z,near,pr), _e(abs(Dyadic(_v)-z),up,_error_precision<PRE>(pr)) {}
 template<class F, class FE> Ball<F,FE>::Ball(Dyadic const& w, PR pr) : _v(w,near,pr), _e(abs(Dyadic(_v)-w),up,_error_precision<PRE>(pr)) {}
-- 
2.43.0


From 8c796fdf8bed76ab0fae61763a0919da45a13d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:45 +0000
Subject: [PATCH 05/51] fix: one-sided bounds divide instead of multiply and
 round in their own direction

---
 source/numeric/float_lower_bound.hpp | 8 ++++----
 source/numeric/float_upper_bound.hpp | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/source/numeric/float_lower_bound.hpp b/source/numeric/float_lower_bound.hpp
index 0249204..0f51083 100644
--- a/source/numeric/float_lower_bound.hpp
+++ b/source/numeric/float_lower_bound.hpp
@@ -70,7 +70,7 @@ template<class F> class LowerBound
     LowerBound(RawType const& l) : _l(l) { }
 
     template<BuiltinIntegral N> LowerBound(N n, PR pr) : LowerBound(ExactDouble(n),pr) { }
-    LowerBound(const ExactDouble& d, PR pr) : _l(d,pr) { }
+    LowerBound(const ExactDouble& d, PR pr) : _l(d,down,pr) { }
         LowerBound(const TwoExp& t, PR pr) : _l(t,pr) { }
         LowerBound(const Integer& z, PR pr) : _l(z,down,pr) { }
         LowerBound(const Dyadic& w, PR pr) : _l(w,down,pr) { }
@@ -158,7 +158,7 @@ template<class F> class LowerBound
     friend UpperBound<F> neg(LowerBound<F> const& x) {
         return UpperBound<F>(neg(x._l)); } //!< <p/>
     friend LowerBound<F> hlf(LowerBound<F> const& x) {
-        return LowerBound<F>(hlf(x._l)); } //!< <p/>
+        return LowerBound<F>(hlf(down,x._l)); } //!< <p/>
 
     friend LowerBound<F> add(LowerBound<F> const& x1, LowerBound<F> const& x2) {
         return LowerBound<F>(add(down,x1._l,x2._l)); } //!< <p/>
@@ -311,7 +311,7 @@ template<class F> class Positive<LowerBound<F>> : public LowerBound<F>
     friend PositiveLowerBound<F> operator*(PositiveLowerBound<F> const& x1, PositiveLowerBound<F> const& x2) {
         return PositiveLowerBound<F>(mul(down,x1.raw(),x2.raw())); }
     friend PositiveLowerBound<F> operator/(PositiveLowerBound<F> const& x1, PositiveUpperBound<F> const& x2) {
-        return PositiveLowerBound<F>(mul(down,x1.raw(),x2.raw())); }
+        return PositiveLowerBound<F>(div(down,x1.raw(),x2.raw())); }
     friend PositiveLowerBound<F>& operator+=(PositiveLowerBound<F>& x1, PositiveLowerBound<F> const& x2) {
         return x1=x1+x2; }
     friend PositiveLowerBound<F>& operator*=(PositiveLowerBound<F>& x1, PositiveLowerBound<F> const& x2) {
@@ -335,7 +335,7 @@ template<class F> class Positive<LowerBound<F>> : public LowerBound<F>
     friend PositiveLowerBound<F> operator/(Positive<F> const& x1, PositiveUpperBound<F> const& x2) {
         return PositiveLowerBound<F>(div(down,x1,x2.raw())); }
     friend PositiveLowerBound<F> operator/(PositiveLowerBound<F> const& x1, Nat m2) {
-        return PositiveLowerBound<F>(div(down,x1.raw(),F(m2,x1.precision()))); }
+        return PositiveLowerBound<F>(div(down,x1.raw(),F(m2,up,x1.precision()))); }
     friend PositiveUpperBound<F> operator/(Positive<F> const& x1, PositiveLowerBound<F> const& x2);
 };
 
diff --git a/source/numeric/float_upper_bound.hpp b/source/numeric/float_upper_bound.hpp
index 1180d6f..56567bf 100644
--- a/source/numeric/float_upper_bound.hpp
+++ b/source/numeric/float_upper_bound.hpp
@@ -70,7 +70,7 @@ template<class F> class UpperBound
     UpperBound(RawType const& u) : _u(u) { }
 
     template<BuiltinIntegral N> UpperBound(N n, PR pr) : UpperBound(ExactDouble(n),pr) { }
-    UpperBound(const ExactDouble& d, PR pr) : _u(d,pr) { }
+    UpperBound(const ExactDouble& d, PR pr) : _u(d,up,pr) { }
         UpperBound(const TwoExp& t, PR pr) : _u(t,pr) { }
         UpperBound(const Integer& z, PR pr) : _u(z,up,pr) { }
         UpperBound(const Dyadic& w, PR pr) : _u(w,up,pr) { }
@@ -158,7 +158,7 @@ template<class F> class UpperBound
     friend LowerBound<F> neg(UpperBound<F> const& x) {
         return LowerBound<F>(neg(x._u)); } //!< <p/>
     friend UpperBound<F> hlf(UpperBound<F> const& x) {
-        return UpperBound<F>(hlf(x._u)); } //!< <p/>
+        return UpperBound<F>(hlf(up,x._u)); } //!< <p/>
 
     friend UpperBound<F> add(UpperBound<F> const& x1, UpperBound<F> const& x2) {
         return UpperBound<F>(add(up,x1._u,x2._u)); } //!< <p/>
@@ -342,9 +342,9 @@ template<class F> class Positive<UpperBound<F>> : public UpperBound<F>
     friend PositiveUpperBound<F> operator/(PositiveUpperBound<F> const& x1, Positive<F> const& x2) {
         return PositiveUpperBound<F>(div(up,x1.raw(),x2)); }
     friend PositiveUpperBound<F> operator/(Positive<F> const& x1, PositiveLowerBound<F> const& x2) {
-        return PositiveUpperBound<F>(div(down,x1,x2.raw())); }
+        return PositiveUpperBound<F>(div(up,x1,x2.raw())); }
     friend PositiveUpperBound<F> operator/(PositiveUpperBound<F> const& x1, Nat m2) {
-        return PositiveUpperBound<F>(div(up,x1.raw(),F(m2,x1.precision()))); }
+        return PositiveUpperBound<F>(div(up,x1.raw(),F(m2,down,x1.precision()))); }
     friend PositiveLowerBound<F> operator/(Positive<F> const& x1, PositiveUpperBound<F> const& x2);
 };
 
-- 
2.43.0


From 3ec7016654bf57eeddbd9c4aba014de2a435ac1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:45 +0000
Subject: [PATCH 06/51] fix: outward rounding of bounds built from doubles,
 halved bounds and positive bounds

---
 source/numeric/float_bounds.hpp     | 16 ++++++++--------
 source/numeric/float_bounds.inl.hpp |  2 +-
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/source/numeric/float_bounds.hpp b/source/numeric/float_bounds.hpp
index d57ce50..f07c133 100644
--- a/source/numeric/float_bounds.hpp
+++ b/source/numeric/float_bounds.hpp
@@ -107,8 +107,8 @@ template<class F> class Bounds
     Bounds(ValidatedLowerNumber const& lower, UpperBound<F> const& upper);
     //! Construct from a lower bound \a lower and an upper bound \a upper, using precsion \a pr.
     Bounds(ValidatedLowerNumber const& lower, ValidatedUpperNumber const& upper, PR pr);
-    template<BuiltinIntegral N1, BuiltinIntegral N2> Bounds(N1 n1, N2 n2, PR pr) : _l(n1,pr), _u(n2,pr) { }
-    Bounds(ExactDouble const& dl, ExactDouble const& du, PrecisionType pr) : _l(dl,pr), _u(du,pr) { }
+    template<BuiltinIntegral N1, BuiltinIntegral N2> Bounds(N1 n1, N2 n2, PR pr) : _l(n1,down,pr), _u(n2,up,pr) { }
+    Bounds(ExactDouble const& dl, ExactDouble const& du, PrecisionType pr) : _l(dl,down,pr), _u(du,up,pr) { }
     Bounds(Dyadic const& wl, Dyadic const& wu, PrecisionType pr) : _l(wl,down,pr), _u(wu,up,pr) { }
     Bounds(Decimal const& dl, Decimal const& du, PrecisionType pr) : _l(dl,down,pr), _u(du,up,pr) { }
     Bounds(Rational const& ql, Rational const& qu, PrecisionType pr) : _l(ql,down,pr), _u(qu,up,pr) { }
@@ -118,7 +118,7 @@ template<class F> class Bounds
     Bounds(const Bounds<F>& x, PR pr) : _l(x._l,down,pr), _u(x._u,up,pr) { }
 
     template<BuiltinIntegral N> Bounds(N n, PR pr) : _l(n,down,pr), _u(n,up,pr) { }
-    Bounds(ExactDouble const& d, PR pr) : _l(d,pr), _u(d,pr) { }
+    Bounds(ExactDouble const& d, PR pr) : _l(d,down,pr), _u(d,up,pr) { }
         Bounds(TwoExp const& t, PR pr) : _l(t,pr), _u(t,pr) { }
         Bounds(const Integer& z, PR pr) : _l(z,down,pr), _u(z,up,pr) { }
         Bounds(const Dyadic& w, PR pr) : _l(w,down,pr), _u(w,up,pr) { }
@@ -210,7 +210,7 @@ template<class F> class Bounds
     friend Bounds<F> neg(Bounds<F> const& x) {
         return Bounds<F>(neg(x._u),neg(x._l)); } //!< <p/>
     friend Bounds<F> hlf(Bounds<F> const& x) {
-        return Bounds<F>(hlf(x._l),hlf(x._u)); } //!< <p/>
+        return Bounds<F>(hlf(down,x._l),hlf(up,x._u)); } //!< <p/>
     friend Bounds<F> sqr(Bounds<F> const& x) {
         if(x._l>0) { return Bounds<F>(mul(down,x._l,x._l),mul(up,x._u,x._u)); } //!< <p/>
         else if(x._u<0) { return Bounds<F>(mul(down,x._u,x._u),mul(up,x._l,x._l)); } //!< <p/>
@@ -522,17 +522,17 @@ template<class F> class Positive<Bounds<F>> : public Bounds<F>
     friend PositiveBounds<F> nul(PositiveBounds<F> const& x) {
         return PositiveBounds<F>(nul(x._l),nul(x._u)); }
     friend PositiveBounds<F> hlf(PositiveBounds<F> const& x) {
-        return PositiveBounds<F>(hlf(x._l),hlf(x._u)); }
+        return PositiveBounds<F>(hlf(down,x._l),hlf(up,x._u)); }
     friend PositiveBounds<F> sqr(PositiveBounds<F> const& x) {
         return PositiveBounds<F>(sqr(down,x._l),sqr(up,x._u)); }
     friend PositiveBounds<F> rec(PositiveBounds<F> const& x) {
-        return PositiveBounds<F>(rec(down,x._u),rec(up,x._l)); }
+        return PositiveBounds<F>(rec(down,abs(x._u)),rec(up,abs(x._l))); }
     friend PositiveBounds<F> add(PositiveBounds<F> const& x1, PositiveBounds<F> const& x2) {
         return PositiveBounds<F>(add(down,x1._l,x2._l),add(up,x1._u,x2._u)); }
     friend PositiveBounds<F> mul(PositiveBounds<F> const& x1, PositiveBounds<F> const& x2) {
         return PositiveBounds<F>(mul(down,x1._l,x2._l),mul(up,x1._u,x2._u)); }
     friend PositiveBounds<F> div(PositiveBounds<F> const& x1, PositiveBounds<F> const& x2) {
-        return PositiveBounds<F>(div(down,x1._l,x2._u),div(up,x1._u,x2._l)); }
+        return PositiveBounds<F>(div(down,x1._l,abs(x2._u)),div(up,x1._u,abs(x2._l))); }
     friend PositiveBounds<F> pow(PositiveBounds<F> const& x, Nat m) {
         return PositiveBounds<F>(pow(down,x._l,static_cast<Int>(m)),pow(up,x._u,static_cast<Int>(m))); }
     friend PositiveBounds<F> sqrt(PositiveBounds<F> const& x) {
@@ -546,7 +546,7 @@ template<class F> class Positive<Bounds<F>> : public Bounds<F>
     friend PositiveBounds<F> max(Bounds<F> const& x1, PositiveBounds<F> const& x2) {
         return PositiveBounds<F>(max(down,x1._l,x2._l),max(up,x1._u,x2._u)); }
     friend PositiveBounds<F> min(PositiveBounds<F> const& x1, PositiveBounds<F> const& x2) {
-        return PositiveBounds<F>(min(down,x1._l,x2._l),min(up,x2._u,x2._u)); }
+        return PositiveBounds<F>(min(down,x1._l,x2._l),min(up,x1._u,x2._u)); }
     friend PositiveBounds<F> abs(PositiveBounds<F> const& x) { return PositiveBounds<F>(abs(x._l),abs(x._u)); }
 
     friend Bounds<F> const& cast_unsigned(PositiveBounds<F> const& x) { return x; }
diff --git a/source/numeric/float_bounds.inl.hpp b/source/numeric/float_bounds.inl.hpp
index bc8b920..b0b64d1 100644
--- a/source/numeric/float_bounds.inl.hpp
+++ b/source/numeric/float_bounds.inl.hpp
@@ -35,7 +35,7 @@ template<class F> inline auto Operations<Bounds<F>>::_add(Bounds<F> const& x1, F
 }
 
 template<class F> inline auto Operations<Bounds<F>>::_add(F const& x1, Bounds<F> const& x2) -> Bounds<F> {
-    return Bounds<F>(add(down,x1,x2._l),add(down,x1,x2._u));
+    return Bounds<F>(add(down,x1,x2._l),add(up,x1,x2._u));
 }
 
 template<class F> inline auto Operations<Bounds<F>>::_sub(Bounds<F> const& x1, F const& x2) -> Bounds<F> {
-- 
2.43.0


From b9ad28ae13b37ff79f8c865f979b37e1de1052a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:45 +0000
Subject: [PATCH 07/51] fix: upper bound of cos on an interval reaching below
 -pi

---
 source/numeric/float_bounds.tpl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/numeric/float_bounds.tpl.hpp b/source/numeric/float_bounds.tpl.hpp
index f4d664d..905624e 100644
--- a/source/numeric/float_bounds.tpl.hpp
+++ b/source/numeric/float_bounds.tpl.hpp
@@ -94,7 +94,7 @@ template<class F> auto Operations<Bounds<F>>::_cos(Bounds<F> const& x) -> Bounds
 
     F rl(prec),ru(prec);
     if(y.lower_raw()<=-pi_val.lower_raw()) {
-        if(y.upper_raw()<=0.0_x) { rl=-one; ru=cos(up,y.upper_raw()); }
+        if(y.upper_raw()<=0.0_x) { rl=-one; ru=cos(up,min(F(0,prec),max(y.upper_raw(),sub(up,-two_pi_val.lower_raw(),y.lower_raw())))); }
         else { rl=-one; ru=+one; }
     } else if(y.lower_raw()<=0.0_x) {
         if(y.upper_raw()<=0.0_x) { rl=cos(down,y.lower_raw()); ru=cos(up,y.upper_raw()); }
-- 
2.43.0


From f663e9f0a05a9a7863e0495412a295778126d80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:45 +0000
Subject: [PATCH 08/51] fix: correctly rounded double-precision logarithm

---
 source/numeric/double.cpp | 39 +--------------------------------------
 1 file changed, 1 insertion(+), 38 deletions(-)

diff --git a/source/numeric/double.cpp b/source/numeric/double.cpp
index c455855..c57edfc 100644
--- a/source/numeric/double.cpp
+++ b/source/numeric/double.cpp
@@ -161,46 +161,9 @@ double exp_rnd(double x)
 }
 
 double log_rnd(double x) {
-    static const long long int c[12]={ 1LL, 3LL, 5LL, 7LL, 9LL, 11LL, 13LL, 15LL, 17LL, 19LL, 21LL, 23LL };
-
     ARIADNE_ASSERT_MSG(x>=0.0,"log(x): x="<<x);
-    // Write x=2^ny with 1/sqrt(2) <= y <= sqrt(2)
-    // Write log(y)=log(1+z)-log(1-z) where z=(y-1)/(y+1) and y=(1+z)/(1-z),
-    // Note that y is monotone increasing in z (and vice-versa)
-    // The constraints on y give |z| < 0.172.
-    // Use a Taylor expansion to compute log(1+z)-log(1-z), yielding
-    // We have log(y) = 2(z + 1/3 z^3 + 1/5 z^5+...)
-    // We obtain reasonable sufficient accuracy by taking terms up to z^19
-    // Let s=z^2 and w=(1+s/3+s^2/5+...+s^9/19), so log(y)=2*z*w
-    // Note that if z<0 (corresponding to y<1) then we need to use
-    // opposite rounding to compute s and w.
-
     if(x==0.0) { return -std::numeric_limits<double>::infinity(); }
-    if(x==1.0) { return 0.0; }
-
-    Int n;
-    volatile double y,z,s,t,w,ly;
-
-    y=frexp(x,&n);
-    if(y<_sqrt2_approx) { y=y*2; --n; }
-
-    if(y>=1.0) {
-        t=-1-y;
-        z=(y-1)/(-t);
-        s=z*z;
-        w=horner_rnd(10,s,c);
-        ly=2*z*w;
-    } else {
-        t=1-y;
-        z=(-t)/(1+y);
-        s=(-z)*z;
-        s=-s;
-        w=horner_opp(10,s,c);
-        ly=2*z*w;
-    }
-
-    volatile double log2rnd = (n>=0) ? next_rnd(_log2_approx) : next_opp(_log2_approx);
-    return log2rnd*n+ly;
+    return mpfr_rnd(&mpfr_log,x);
 }
 
 double pi_rnd() {
-- 
2.43.0


From 092e81e2aa7d9262acf530eeffbf6fcc54086667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:04 +0000
Subject: [PATCH 09/51] fix: decimal <= and > compared their arguments the
 wrong way round

---
 source/numeric/decimal.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/numeric/decimal.hpp b/source/numeric/decimal.hpp
index 73de284..8c465b1 100644
--- a/source/numeric/decimal.hpp
+++ b/source/numeric/decimal.hpp
@@ -82,10 +82,10 @@ class Decimal
     //! \name Comparison operators
     friend Boolean operator==(Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)==Comparison::EQUAL; } //!< <p/>
     friend Boolean operator!=(Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)!=Comparison::EQUAL; } //!< <p/>
-    friend Boolean operator<=(Decimal const& d1, Decimal const& d2) { return cmp(d2,d1)!=Comparison::GREATER; } //!< <p/>
+    friend Boolean operator<=(Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)!=Comparison::GREATER; } //!< <p/>
     friend Boolean operator>=(Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)!=Comparison::LESS; } //!< <p/>
     friend Boolean operator< (Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)==Comparison::LESS; } //!< <p/>
-    friend Boolean operator> (Decimal const& d1, Decimal const& d2) { return cmp(d2,d1)==Comparison::GREATER; } //!< <p/>
+    friend Boolean operator> (Decimal const& d1, Decimal const& d2) { return cmp(d1,d2)==Comparison::GREATER; } //!< <p/>
     //!@}
 
     //!@{
-- 
2.43.0


From b0c1c7b8af32bb5353889e818670705fdf7ef2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:04 +0000
Subject: [PATCH 10/51] fix: integers from negative Int32, large 64-bit values
 and invalid text; remainder consistent with quotient; 8-bit binomial overflow

---
 source/numeric/int.cpp     |  2 +-
 source/numeric/integer.cpp | 15 +++++++++------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/source/numeric/int.cpp b/source/numeric/int.cpp
index a90d480..1a5952a 100644
--- a/source/numeric/int.cpp
+++ b/source/numeric/int.cpp
@@ -46,7 +46,7 @@ fac(uint8_t n)
 uint32_t
 bin(uint8_t n, uint8_t k)
 {
-    ARIADNE_ASSERT(n<32);  // Maximum computable bin(n,n/2) using 32 bits
+    ARIADNE_ASSERT(n<31);  // Maximum computable bin(n,n/2) using 32 bits
                            // Note that this is shorter than the maximum representable factorial
     if(k>n+1) { ARIADNE_FAIL_MSG("bin("<<n<<","<<k<<")"); }
     if(k==n+1) { return 0; }
diff --git a/source/numeric/integer.cpp b/source/numeric/integer.cpp
index c9b05cb..e4dc906 100644
--- a/source/numeric/integer.cpp
+++ b/source/numeric/integer.cpp
@@ -55,7 +55,7 @@ Integer::Integer(Nat32 m) {
 
 Integer::Integer(Int32 n) {
     mpz_init(_mpz);
-    mpz_set_ui(_mpz,static_cast<long unsigned int>(n.get_si()));
+    mpz_set_si(_mpz,n.get_si());
 }
 
 Integer::Integer(Nat64 m) {
@@ -67,18 +67,17 @@ Integer::Integer(Nat64 m) {
     unsigned long long int lquot = larg / lmax;
     unsigned long long int lrem = larg % lmax;
     unsigned int rem = static_cast<unsigned int>(lrem);
-    unsigned int quot = static_cast<unsigned int>(lquot);
     ARIADNE_ASSERT(larg==lquot*lmax+lrem);
     mpz_set_ui(_mpz,rem);
     if(lquot!=0) {
-        *this += Integer(quot)*zmax;
+        *this += Integer(Nat64(lquot))*zmax;
     }
 }
 
 Integer::Integer(Int64 n) {
     mpz_init(_mpz);
     if(n.get_si()<0) {
-        *this = -Integer(Nat64(-n.get_si()));
+        *this = -Integer(Nat64(-static_cast<uint64_t>(n.get_si())));
     } else {
         *this = Integer(Nat64(n.get_si()));
     }
@@ -91,7 +90,11 @@ Integer::Integer(const mpz_t z) {
 
 Integer::Integer(String const& str) {
     mpz_init(_mpz);
-    mpz_set_str(_mpz,str.c_str(),10u);
+    int fail = mpz_set_str(_mpz,str.c_str(),10);
+    if (fail!=0) {
+        mpz_clear(_mpz);
+        ARIADNE_THROW(std::runtime_error,"Integer(String)","String \""<<str<<"\" does not have a valid integer number format.");
+    }
 }
 
 Integer::Integer(const Integer& z) {
@@ -199,7 +202,7 @@ Integer quot(Integer const& z1, Integer const& z2) {
 
 Integer rem(Integer const& z1, Integer const& z2) {
     Integer r;
-    mpz_cdiv_r(r._mpz,z1._mpz,z2._mpz);
+    mpz_fdiv_r(r._mpz,z1._mpz,z2._mpz);
     return r;
 }
 
-- 
2.43.0


From 5f62a44588f9ce41835bed5375e2a7ebd9b5ca83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:04 +0000
Subject: [PATCH 11/51] fix: dyadic from mpf, assignment to a moved-from
 dyadic, scientific writing of zero

---
 source/numeric/dyadic.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/numeric/dyadic.cpp b/source/numeric/dyadic.cpp
index 56703b1..4edc265 100644
--- a/source/numeric/dyadic.cpp
+++ b/source/numeric/dyadic.cpp
@@ -108,7 +108,7 @@ Dyadic::Dyadic() {
 
 Dyadic::Dyadic(mpf_t mpf) {
     mpf_init2(_mpf,maximum_precision);
-    mpf_set(_mpf,_mpf);
+    mpf_set(_mpf,mpf);
 }
 
 Dyadic::Dyadic(Integer const& p, Natural q) {
@@ -175,7 +175,7 @@ Dyadic::Dyadic(const Dyadic& x) {
 }
 
 Dyadic::Dyadic(Dyadic&& x) {
-    mpf_init(_mpf);
+    mpf_init2(_mpf,maximum_precision);
     mpf_swap(_mpf,x._mpf);
 }
 
@@ -456,7 +456,7 @@ auto ScientificWriter::_write(OutputStream& os, Dyadic const& x) const -> Output
         if(w<0) { os << "-"; w=-w; }
         int e=0;
         while (w>=2) { w=hlf(w); e=e+1; }
-        while (w<1) { w=w*2; e=e-1; }
+        while (w!=0 && w<1) { w=w*2; e=e-1; }
         os << DecimalWriter()(w);
         os << "*2^" << e;
     } else {
-- 
2.43.0


From e75d1434d94595c5185c77dde4fd0fea78acf698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:04 +0000
Subject: [PATCH 12/51] fix: negation, halving, absolute value and even powers
 of dyadic and rational bounds

---
 source/numeric/dyadic.hpp   | 4 ++--
 source/numeric/rational.cpp | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/numeric/dyadic.hpp b/source/numeric/dyadic.hpp
index 5c73f2a..4b7d779 100644
--- a/source/numeric/dyadic.hpp
+++ b/source/numeric/dyadic.hpp
@@ -305,14 +305,14 @@ template<> class Bounds<Dyadic> {
     friend Bounds<Dyadic> pos(Bounds<Dyadic> const& w) {
         return Bounds<Dyadic>(pos(w._l),pos(w._u)); }
     friend Bounds<Dyadic> neg(Bounds<Dyadic> const& w) {
-        return Bounds<Dyadic>(neg(w._l),neg(w._u)); }
+        return Bounds<Dyadic>(neg(w._u),neg(w._l)); }
     friend Bounds<Dyadic> sqr(Bounds<Dyadic> const& w) {
         if(w._l>0) { return Bounds<Dyadic>(sqr(w._l),sqr(w._u)); }
         else if(w._u<0) { return Bounds<Dyadic>(sqr(w._u),sqr(w._l)); }
         else { return Bounds<Dyadic>(nul(w._l),max(sqr(w._l),sqr(w._u))); } }
     friend Bounds<Dyadic> hlf(Bounds<Dyadic> const& w) { return Bounds<Dyadic>(hlf(w._l),hlf(w._u)); }
     friend Bounds<Rational> rec(Bounds<Rational> const& w);
-    friend Bounds<Dyadic> abs(Bounds<Dyadic> const& w) { return Bounds<Dyadic>(max(min(w._l,-w._u),0),max(-w._l,w._u)); }
+    friend Bounds<Dyadic> abs(Bounds<Dyadic> const& w) { return Bounds<Dyadic>(max(max(w._l,-w._u),0),max(-w._l,w._u)); }
     friend Bounds<Dyadic> max(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) { return Bounds<Dyadic>(max(w1._l,w2._l),max(w1._u,w2._u)); }
     friend Bounds<Dyadic> min(Bounds<Dyadic> const& w1, Bounds<Dyadic> const& w2) { return Bounds<Dyadic>(min(w1._l,w2._l),min(w1._u,w2._u)); }
 
diff --git a/source/numeric/rational.cpp b/source/numeric/rational.cpp
index 6ca318b..abfb647 100644
--- a/source/numeric/rational.cpp
+++ b/source/numeric/rational.cpp
@@ -663,7 +663,7 @@ RationalBounds pos(RationalBounds const& q) {
 RationalBounds neg(RationalBounds const& q) {
     return RationalBounds(neg(q._u),neg(q._l)); }
 RationalBounds hlf(RationalBounds const& q) {
-    return RationalBounds(hlf(q._u),hlf(q._l)); }
+    return RationalBounds(hlf(q._l),hlf(q._u)); }
 RationalBounds sqr(RationalBounds const& q) {
     return _sqr(RoundExact(),q); }
 RationalBounds rec(RationalBounds const& q) {
@@ -678,13 +678,13 @@ RationalBounds mul(RationalBounds const& q1, RationalBounds const& q2) {
 RationalBounds div(RationalBounds const& q1, RationalBounds const& q2) {
     return _div(RoundExact(),q1,q2); }
 RationalBounds pow(RationalBounds const& q, Nat m) {
-    RationalBounds r = (m%2==0) ? abs(q) : q;  Int n=static_cast<Int>(m); return RationalBounds(pow(q._l,n),pow(q._u,n)); }
+    RationalBounds r = (m%2==0) ? abs(q) : q;  Int n=static_cast<Int>(m); return RationalBounds(pow(r._l,n),pow(r._u,n)); }
 RationalBounds pow(RationalBounds const& q, Int n) {
     if(n<0) { return pow(rec(q),Nat(-n)); } else return pow(q,Nat(n));}
 
 static_assert(not Convertible<Int,PositiveRational>);
 RationalBounds abs(RationalBounds const& q) {
-    return RationalBounds(max(min(q._l,-q._u),0),max(-q._l,q._u)); }
+    return RationalBounds(max(max(q._l,-q._u),0),max(-q._l,q._u)); }
 RationalBounds max(RationalBounds const& q1, RationalBounds const& q2) {
     return RationalBounds(max(q1._l,q2._l),max(q1._u,q2._u)); }
 RationalBounds min(RationalBounds const& q1, RationalBounds const& q2) {
-- 
2.43.0


From c62908cd891a5c38ada40d8d69242fee64ee3c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:46 +0000
Subject: [PATCH 13/51] fix: width of limits of real sequences used exclusive
 or instead of a power of two

---
 source/numeric/real.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/numeric/real.cpp b/source/numeric/real.cpp
index 1b58473..b45433e 100644
--- a/source/numeric/real.cpp
+++ b/source/numeric/real.cpp
@@ -189,9 +189,9 @@ template<> struct RealLimit<Real> : RealBase {
     virtual DyadicBounds _compute_get(Effort eff) const {
         Nat n = eff.work()+1u; return _seq[n].compute_get(eff).pm(Dyadic(two^(-n))); }
     virtual FloatDPBounds _compute_get(Effort eff, DoublePrecision pr) const {
-        Nat n = eff.work()+1u; return _seq[n].compute_get(eff,pr)+(FloatDPBounds(-(two^(-n)),+two^(-n),pr)); }
+        Nat n = eff.work()+1u; return _seq[n].compute_get(eff,pr)+(FloatDPBounds(-(two^(-n)),+(two^(-n)),pr)); }
     virtual FloatMPBounds _compute_get(Effort eff, MultiplePrecision pr) const {
-        Nat n = eff.work()+1u; return _seq[n].compute_get(eff,pr)+FloatMPBounds(-(two^(-n)),+two^(-n),pr); }
+        Nat n = eff.work()+1u; return _seq[n].compute_get(eff,pr)+FloatMPBounds(-(two^(-n)),+(two^(-n)),pr); }
     virtual OutputStream& _write(OutputStream& os) const {
         return os << "{" << _seq[0u] << ", " << _seq[1u] << ", " <<_seq[2u] << ", ... }"; }
 };
-- 
2.43.0


From 422676d09f299f1b0bbc4a2ff06c196b24d5676d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:35 +0000
Subject: [PATCH 14/51] fix: Set::restrict removed instead of kept, Set::subset
 tested the converse

---
 source/utility/container.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/utility/container.hpp b/source/utility/container.hpp
index 6b3e6c2..52ddc3b 100644
--- a/source/utility/container.hpp
+++ b/source/utility/container.hpp
@@ -165,8 +165,8 @@ template<class T, class CMP> class Set : public std::set<T,CMP> {
     bool contains(const T& t) const {
         return this->find(t)!=this->end(); }
     bool subset(const std::set<T,CMP>& s) const {
-        for(auto iter=s.begin(); iter!=s.end(); ++iter) {
-            if(!this->contains(*iter)) { return false; } } return true; }
+        for(auto iter=this->begin(); iter!=this->end(); ++iter) {
+            if(s.find(*iter)==s.end()) { return false; } } return true; }
     bool disjoint(const std::set<T,CMP>& s) const {
         for(auto iter=s.begin(); iter!=s.end(); ++iter) {
             if(this->contains(*iter)) { return false; } } return true; }
@@ -185,7 +185,7 @@ template<class T, class CMP> class Set : public std::set<T,CMP> {
         return *this; }
     Set<T>& restrict(const std::set<T,CMP>& s) {
         auto iter=this->begin();
-        while(iter!=this->end()) { if(s.find(*iter)!=s.end()) { this->erase(iter++); } else { ++iter; } }
+        while(iter!=this->end()) { if(s.find(*iter)==s.end()) { this->erase(iter++); } else { ++iter; } }
         return *this; }
     template<class TT> Set<T>& remove(const std::vector<TT>& l) {
         for(auto iter=l.begin(); iter!=l.end(); ++iter) {
-- 
2.43.0


From 4561c94c7062ffb8f3bfe6139374d8ebe9b8d51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:01 +0000
Subject: [PATCH 15/51] fix: MultiIndex::operator++ wrote beyond its storage

---
 source/algebra/multi_index.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/algebra/multi_index.cpp b/source/algebra/multi_index.cpp
index ab139c9..7c8e721 100644
--- a/source/algebra/multi_index.cpp
+++ b/source/algebra/multi_index.cpp
@@ -30,12 +30,12 @@ namespace Ariadne {
 
 MultiIndex& MultiIndex::operator++() {
     assert(_n>0);
-    if(_n==1) { ++_p[0]; ++_p[_n]; return *this; }
+    if(_n==1) { ++_p[0]; return *this; }
     if(_p[_n-2]!=0) { --_p[_n-2]; ++_p[_n-1]; return *this; }
     else {
         IndexType li=_p[_n-1]; _p[_n-1]=0;
         for(SizeType k=_n-1; k!=0; --k) { if(_p[k-1]!=0) { --_p[k-1]; _p[k]=li+1u; return *this; } }
-        _p[0]=li+1u; ++_p[_n];
+        _p[0]=li+1u;
     }
     return *this;
 }
-- 
2.43.0


From a3d3d3194f9e0ddc276fa9bd6cdf00a5eefb0465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:26 +0000
Subject: [PATCH 16/51] fix: Horner evaluation of univariate expansions without
 constant term

---
 source/algebra/evaluate.tpl.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/algebra/evaluate.tpl.hpp b/source/algebra/evaluate.tpl.hpp
index 4686259..4547174 100644
--- a/source/algebra/evaluate.tpl.hpp
+++ b/source/algebra/evaluate.tpl.hpp
@@ -144,6 +144,9 @@ template<class X, class Y> ArithmeticType<X,Y> horner_evaluate(const Expansion<U
         a=na;
         ++iter;
     }
+    for(SizeType ii=0; ii!=a; ++ii) {
+        r=r*x;
+    }
     return r;
 }
 
-- 
2.43.0


From 443647e68266a3a974e92233b22538bcc5124285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:44 +0000
Subject: [PATCH 17/51] fix: constants in univariate polynomials

---
 source/function/polynomial.tpl.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/function/polynomial.tpl.hpp b/source/function/polynomial.tpl.hpp
index 859e248..0688abc 100644
--- a/source/function/polynomial.tpl.hpp
+++ b/source/function/polynomial.tpl.hpp
@@ -80,7 +80,7 @@ template<class I, class X> auto Polynomial<I,X>::variables(ArgumentSizeType as,
 template<class I, class X> Polynomial<I,X>& Polynomial<I,X>::operator=(const X& x) {
     this->_expansion.clear();
     if constexpr (Same<I,MultiIndex>) { this->_expansion.append(MultiIndex(this->argument_size()),x); }
-    if constexpr (Same<I,DegreeType>) { this->_expansion.append(DegreeType(0u),x); }
+    if constexpr (Same<I,UniIndex>) { this->_expansion.append(UniIndex(0u),x); }
     return *this;
 }
 
@@ -92,7 +92,7 @@ template<class I, class X> SizeType Polynomial<I,X>::number_of_terms() const { r
 template<class I, class X> DegreeType Polynomial<I,X>::degree() const {
     DegreeType deg=0u; for(auto iter=this->_expansion.begin(); iter!=this->_expansion.end(); ++iter) {
         if constexpr (Same<I,MultiIndex>) { deg=std::max(deg,iter->index().degree()); }
-        else if constexpr (Same<I,DegreeType>) { deg=std::max(deg,iter->index()); }
+        else if constexpr (Same<I,UniIndex>) { deg=std::max(deg,iter->index().degree()); }
     }
     return deg;
 }
@@ -232,12 +232,12 @@ template<class I, class X> Polynomial<I,X> AlgebraOperations<Polynomial<I,X>>::a
 
 
 template<class I, class X> Polynomial<I,X> AlgebraOperations<Polynomial<I,X>>::apply(Add, Polynomial<I,X> p, const X& c) {
-    p[IndexType(p.argument_size())]+=c;
+    p[zero_index(p.argument_size())]+=c;
     return p;
 }
 
 template<class I, class X> Polynomial<I,X>& AlgebraOperations<Polynomial<I,X>>::iapply(Add, Polynomial<I,X>& p, const X& c) {
-    p[IndexType(p.argument_size())]+=c;
+    p[zero_index(p.argument_size())]+=c;
     return p;
 }
 
-- 
2.43.0


From 9d07e398400189b4a3cb3a0888f2aab1f18fea1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:03 +0000
Subject: [PATCH 18/51] fix: polynomial derivative left zero terms out of
 order; partial evaluation of a constant wrote out of bounds

---
 source/function/polynomial.tpl.hpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/source/function/polynomial.tpl.hpp b/source/function/polynomial.tpl.hpp
index 0688abc..9cbe6e3 100644
--- a/source/function/polynomial.tpl.hpp
+++ b/source/function/polynomial.tpl.hpp
@@ -140,11 +140,17 @@ template<class I, class X> Void Polynomial<I,X>::clear() { this->_expansion.clea
 template<class I, class X>
 Polynomial<I,X>&
 Polynomial<I,X>::differentiate(VariableIndexType j) {
-    for(typename Polynomial<I,X>::Iterator iter=this->begin(); iter!=this->end(); ++iter) {
-        IndexReference a=iter->index();
-        CoefficientReference c=iter->coefficient();
-        c*=static_cast<Nat>(a[j]); if(a[j]!=0u) { --a[j]; }
+    Iterator curr=this->begin();
+    for(Iterator iter=this->begin(); iter!=this->end(); ++iter) {
+        if(iter->index()[j]!=0u) {
+            *curr=*iter;
+            IndexReference a=curr->index();
+            CoefficientReference c=curr->coefficient();
+            c*=static_cast<Nat>(a[j]); --a[j];
+            ++curr;
+        }
     }
+    this->_expansion.resize(static_cast<SizeType>(curr-this->begin()));
     return *this;
 }
 
@@ -406,7 +412,8 @@ Polynomial<I,X>::_partial_evaluate(const Polynomial<I,X>& x, SizeType k, const X
             Array< Polynomial<I,X> > p(x.degree()+1u,Polynomial<I,X>(x.argument_size()-1u,x.zero_coefficient()));
 
             Array<X> cpowers(x.degree()+1u,x.zero_coefficient());
-            cpowers[0]=1; cpowers[1]=c;
+            cpowers[0]=1;
+            if(x.degree()>=1) { cpowers[1]=c; }
             if(x.degree()>=2) { cpowers[2]=sqr(c); }
             for(DegreeType j=3; j<=x.degree(); ++j) {
                 cpowers[j]=cpowers[j-2u]*cpowers[2];
-- 
2.43.0


From 4b4fcf7c66c832ebd61f2e9b45e7bb7d0712a0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:44 +0000
Subject: [PATCH 19/51] fix: truncation and conversion of polynomials dropped
 interval coefficients containing zero

---
 source/algebra/expansion.inl.hpp   | 2 +-
 source/function/polynomial.tpl.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/algebra/expansion.inl.hpp b/source/algebra/expansion.inl.hpp
index 15f77d4..8ecebeb 100644
--- a/source/algebra/expansion.inl.hpp
+++ b/source/algebra/expansion.inl.hpp
@@ -262,7 +262,7 @@ Void Expansion<I,X>::_fill(Expansion<I,Y> const& other, PRS... prs)
     {
         a=iter->index();
         x=X(iter->coefficient(),prs...);
-        if(decide(x!=0)) { this->append(a,x); }
+        if(!decide(x==0)) { this->append(a,x); }
     }
 }
 
diff --git a/source/function/polynomial.tpl.hpp b/source/function/polynomial.tpl.hpp
index 9cbe6e3..2cd523e 100644
--- a/source/function/polynomial.tpl.hpp
+++ b/source/function/polynomial.tpl.hpp
@@ -170,7 +170,7 @@ template<class I, class X>
 Polynomial<I,X>& Polynomial<I,X>::truncate(DegreeType d) {
     Polynomial<I,X> r(this->argument_size(),this->zero_coefficient());
     for(typename Polynomial<I,X>::ConstIterator iter=this->begin(); iter!=this->end(); ++iter) {
-        if(degree_of(iter->index())<=d && decide(iter->coefficient()!=0)) {
+        if(degree_of(iter->index())<=d && !decide(iter->coefficient()==0)) {
             r._append(iter->index(),iter->coefficient());
         }
     }
-- 
2.43.0


From 5c9b206042e415d1f0a2a552cfac3ca69fd06c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:05 +0000
Subject: [PATCH 20/51] fix: derivative of a univariate differential wrote
 beyond its storage

---
 source/algebra/univariate_differential.tpl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/algebra/univariate_differential.tpl.hpp b/source/algebra/univariate_differential.tpl.hpp
index 6f39dba..fa7b4fd 100644
--- a/source/algebra/univariate_differential.tpl.hpp
+++ b/source/algebra/univariate_differential.tpl.hpp
@@ -119,7 +119,7 @@ UnivariateDifferential<X>
 UnivariateDifferential<X>::_derivative(const UnivariateDifferential<X>& x)
 {
     DegreeType n=x.degree(); DegreeType one=1u;
-    UnivariateDifferential<X> r(std::min(n,one)-one,x.zero_coefficient());
+    UnivariateDifferential<X> r(std::max(n,one)-one,x.zero_coefficient());
     if(n==0) { r[0]=x[0]*0; }
     for(DegreeType i=0; i<n; ++i) {
         r[i]=(i+1u)*x[i+1u];
-- 
2.43.0


From de76e861c8b26599b934d5a26ff5673a07c21ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:10 +0000
Subject: [PATCH 21/51] fix: degree-zero, affine, flow-parameter and
 second-order cases of differentials

---
 source/algebra/differential.tpl.hpp              | 15 +++++++--------
 source/algebra/fixed_univariate_differential.hpp |  7 +++++--
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/source/algebra/differential.tpl.hpp b/source/algebra/differential.tpl.hpp
index 7260603..0ab2139 100644
--- a/source/algebra/differential.tpl.hpp
+++ b/source/algebra/differential.tpl.hpp
@@ -96,7 +96,7 @@ template<class X> Differential<X> Differential<X>::variable(SizeType as, DegreeT
     r._expansion.append(a,v);
     a[j]=1;
     X one(v); one=1;
-    r._expansion.append(a,one);
+    if(deg>=1u) { r._expansion.append(a,one); }
     return r;
 }
 
@@ -105,7 +105,7 @@ template<class X> Differential<X> Differential<X>::affine(SizeType as, DegreeTyp
     Differential<X> r(as,deg,nul(x));
     MultiIndex a(as);
     r._expansion.append(a,x);
-    for (SizeType j=0; j!=as; ++j) {
+    for (SizeType j=0; j!=as && deg>=1u; ++j) {
         a[j]=1;
         r._expansion.append(a,g[j]);
         a[j]=0;
@@ -141,7 +141,7 @@ template<class X> Vector<Differential<X>> Differential<X>::variables(DegreeType
     MultiIndex a(v.size());
     for(SizeType i=0; i!=v.size(); ++i) {
         r[i]._expansion.append(a,v[i]);
-        a[i]=1; r[i]._expansion.append(a,one); a[i]=0;
+        if(deg>=1u) { a[i]=1; r[i]._expansion.append(a,one); a[i]=0; }
     }
     return r;
 }
@@ -154,7 +154,7 @@ template<class X> Vector<Differential<X>> Differential<X>::affine(DegreeType deg
         r[i]._expansion.append(a,v[i]);
         for(SizeType j=0; j!=r.argument_size(); ++j) {
             const X& gij=G[i][j];
-            if(decide(gij!=0)) { a[i]=1; r[i]._expansion.append(a,gij); a[i]=0; }
+            if(deg>=1u && !decide(gij==0)) { a[j]=1; r[i]._expansion.append(a,gij); a[j]=0; }
         }
     }
     return r;
@@ -538,7 +538,6 @@ template<class X> Differential<X> _evaluate(const Differential<X>& x, const Vect
     ARIADNE_ASSERT_MSG(x.argument_size()==a.size(), "x="<<x<<" a="<<a);
     DegreeType d=x.degree();
     SizeType ms=a.size();
-    ARIADNE_ASSERT(d>=1);
 
     Differential<X> zero = a.zero_element();
     X x_one=zero.zero_coefficient(); x_one=1;
@@ -548,7 +547,7 @@ template<class X> Differential<X> _evaluate(const Differential<X>& x, const Vect
     Array< Array< Differential<X> > > val(ms, Array< Differential<X> >(d+1u,zero));
     for(SizeType j=0; j!=ms; ++j) {
         val[j][0]=one;
-        val[j][1]=a[j];
+        if(d>=1u) { val[j][1]=a[j]; }
         for(SizeType k=2; k<=d; ++k) {
             val[j][k]=val[j][k-1u]*a[j];
         }
@@ -578,7 +577,7 @@ Differential<X> Differential<X>::_compose(const UnivariateDifferential<X>& x, co
     DegreeType d=min(x.degree(),y.degree());
 
     Differential<X> w=y;
-    if(w.begin()->index().degree()==0) { w.begin()->coefficient()=0; }
+    if(w.begin()!=w.end() && w.begin()->index().degree()==0) { w.begin()->coefficient()=0; }
     Differential<X> r(as,d,y.zero_coefficient());
     r[MultiIndex(as)]=x[d];
     for(SizeType n=1; n<=d; ++n) {
@@ -876,7 +875,7 @@ Vector<Differential<X>>::_flow(const Vector<Differential<X> >& df, Vector<X> con
 
     Vector<Differential<X>> dx0=Vector<Differential<X>>(n,[&](SizeType i){return Differential<X>::variable(n+1u+m,deg+1u,x0[i],i);});
     Vector<Differential<X>> da(m,n+1u+m,deg+1u,a.zero_element());
-    for (SizeType i=0; i!=m; ++i) { da[i]=Differential<X>::variable(n+1u+m,deg+1u,a[i],n+i); }
+    for (SizeType i=0; i!=m; ++i) { da[i]=Differential<X>::variable(n+1u+m,deg+1u,a[i],n+1u+i); }
 
     return _flow(df,dx0, da);
 }
diff --git a/source/algebra/fixed_univariate_differential.hpp b/source/algebra/fixed_univariate_differential.hpp
index a6e9448..7b29fcd 100644
--- a/source/algebra/fixed_univariate_differential.hpp
+++ b/source/algebra/fixed_univariate_differential.hpp
@@ -395,10 +395,13 @@ template<class X> struct AlgebraOperations<UnivariateSecondDifferential<X>,X> {
         return compose(UnivariateSecondDifferential<X>(op,x.value()),x); }
 
     static UnivariateSecondDifferential<X> apply(Sqr, const UnivariateSecondDifferential<X>& x) {
-        return UnivariateSecondDifferential<X>( sqr(x._value), (2*x._value)*x._gradient, (x._value)*x._half_hessian + sqr(x._gradient) ); }
+        return UnivariateSecondDifferential<X>( sqr(x._value), (2*x._value)*x._gradient, (2*x._value)*x._half_hessian + sqr(x._gradient) ); }
 
     static UnivariateSecondDifferential<X> apply(Pow, const UnivariateSecondDifferential<X>& x, Int n) {
-        return UnivariateSecondDifferential<X>( pow(x._value,n), (n*pow(x._value,n-1))*x._gradient, hlf(n*(n-1)*pow(x._value,n-2))*x._half_hessian ); }
+        if(n==0) { return UnivariateSecondDifferential<X>( nul(x._value)+1 ); }
+        if(n==1) { return x; }
+        X deriv = n*pow(x._value,n-1); X half_second_deriv = hlf(n*(n-1)*pow(x._value,n-2));
+        return UnivariateSecondDifferential<X>( pow(x._value,n), deriv*x._gradient, deriv*x._half_hessian + half_second_deriv*sqr(x._gradient) ); }
 
     //ddf(y)/dxdx = d/dx ( f'(y) dy/dx) = f''(y) dy/dx dy/dx + f'(y) ddy/dxdx
 
-- 
2.43.0


From 37b794ccad44c582329a77ec4471a5dcc5512e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:21 +0000
Subject: [PATCH 22/51] fix: Matrix::zero gave a square matrix

---
 source/algebra/matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/algebra/matrix.hpp b/source/algebra/matrix.hpp
index 19c62b3..209e932 100644
--- a/source/algebra/matrix.hpp
+++ b/source/algebra/matrix.hpp
@@ -488,7 +488,7 @@ template<class X> inline Matrix<X>::Matrix(SizeType m, SizeType n, const X& x)
 }
 
 template<class X> inline Matrix<X> Matrix<X>::zero(SizeType m, SizeType n, X const& z) {
-    return Matrix<X>(n,n,nul(z));
+    return Matrix<X>(m,n,nul(z));
 }
 
 template<class X> inline Matrix<X> Matrix<X>::identity(SizeType n, X const& z) {
-- 
2.43.0


From 9f402a5930bbfd5a74c241d5ee8bb478f472b2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:58 +0000
Subject: [PATCH 23/51] fix: truncation errors and final coefficients of series
 of elementary functions of Taylor models

---
 source/algebra/algebra_operations.tpl.hpp | 30 ++++++++++-------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/source/algebra/algebra_operations.tpl.hpp b/source/algebra/algebra_operations.tpl.hpp
index 9b9d391..11d0924 100644
--- a/source/algebra/algebra_operations.tpl.hpp
+++ b/source/algebra/algebra_operations.tpl.hpp
@@ -240,7 +240,7 @@ template<class A> A NormedAlgebraOperations<A>::apply(Sqrt, const A& x)
 
     A y=x/avg-1;
     A z=x.create();
-    z+=sqrt_series[d-1];
+    z+=sqrt_series[d];
     for(Nat i=0; i!=d; ++i) {
         z=sqrt_series[d-i-1] + z * y;
     }
@@ -270,7 +270,7 @@ template<class A> A NormedAlgebraOperations<A>::apply(Rec, const A& x)
 
     A y=1-x/avg;
     A z=x.create();
-    z+=(d%2?-1:+1);
+    z+=1;
     for(Nat i=0; i!=d; ++i) {
         z=1 + z * y;
     }
@@ -301,7 +301,7 @@ template<class A> A NormedAlgebraOperations<A>::apply(Log, const A& x)
 
     A y=x/avg-1;
     A z=x.create();
-    z+=X(d%2?-1:+1,pr)/d;
+    z+=X(d%2?+1:-1,pr)/d;
     for(Nat i=1; i!=d; ++i) {
         z=X((d-i)%2?+1:-1,pr)/(d-i) + z * y;
     }
@@ -358,11 +358,8 @@ template<class A> A NormedAlgebraOperations<A>::apply(Exp, const A& x)
 // and that the power series is of the form x*f(x^2)
 template<class A> A NormedAlgebraOperations<A>::apply(Sin, const A& x)
 {
-    // FIXME: Truncation error may be incorrect
-
     auto tol = cast_exact(x.tolerance());
     auto avg=x.average();
-    auto rad=x.radius();
     Int n=integer_cast<Int>( round(avg/pi) );
 
     // Range reduce; use sin(x)=sin(x-2*n*pi)=sin((2*n+1)*pi-x)
@@ -370,14 +367,14 @@ template<class A> A NormedAlgebraOperations<A>::apply(Sin, const A& x)
 
     A s=sqr(y);
 
-    // Find the required degree
+    // Find the required degree; the error is at most that of the first omitted term |y|^(2*deg+3)/(2*deg+3)!
+    auto nrm=norm(y);
     Nat deg = 0;
-    auto term_mag=pow(rad,0u);
-    auto trunc_err=term_mag;
+    auto trunc_err=nrm*(nrm/2u)*(nrm/3u);
     do {
         ++deg;
-        term_mag *= (rad/deg);
-        trunc_err = term_mag*(2u*deg+2u)/deg;
+        trunc_err *= (nrm/(2u*deg+2u));
+        trunc_err *= (nrm/(2u*deg+3u));
     } while(decide(trunc_err>tol));
 
     // Compute x(1-y/6+y^2/120-y^3/5040+... = x(1-y/6*(1-y/20*(1-y/42*...)
@@ -400,7 +397,6 @@ template<class A> A NormedAlgebraOperations<A>::apply(Cos, const A& x)
 {
     auto tol = cast_exact(x.tolerance());
     auto avg=x.average();
-    auto rad=x.radius();
 
     // Range reduce; use cos(x)=cos(x-2*n*pi)=-cos(x-pi)
     Int n=integer_cast<Int>( round(avg/pi) );
@@ -409,14 +405,14 @@ template<class A> A NormedAlgebraOperations<A>::apply(Cos, const A& x)
 
     A s=sqr(y);
 
-    // Find the required degree
+    // Find the required degree; the error is at most that of the first omitted term |y|^(2*deg+2)/(2*deg+2)!
+    auto nrm=norm(y);
     Nat deg = 0;
-    auto term_mag=pow(rad,0u);
-    auto trunc_err=term_mag;
+    auto trunc_err=nrm*(nrm/2u);
     do {
         ++deg;
-        term_mag *= (rad/deg);
-        trunc_err=term_mag*(2u*deg+2u)/deg;
+        trunc_err *= (nrm/(2u*deg+1u));
+        trunc_err *= (nrm/(2u*deg+2u));
     } while(decide(trunc_err>tol));
 
     // Compute 1-y/2+y^2/24-y^3/720+... = (1-y/2*(1-y/12*(1-y/30*...)
-- 
2.43.0


From bcc4335d2e45d9c8ac93f407543060ab8a4d4502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:00 +0000
Subject: [PATCH 24/51] fix: Taylor models lose roundoff and swept terms for
 inexact constants and interval coefficients

---
 source/function/taylor_model.tpl.hpp | 29 ++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/source/function/taylor_model.tpl.hpp b/source/function/taylor_model.tpl.hpp
index 2a42577..d88541e 100644
--- a/source/function/taylor_model.tpl.hpp
+++ b/source/function/taylor_model.tpl.hpp
@@ -249,7 +249,7 @@ Void SweeperBase<F>::_sweep(Expansion<MultiIndex,FloatBounds<PR>>& p, FloatError
     while(adv!=end) {
         if(this->_discard(adv->index(),mag(adv->coefficient()).raw())) {
             //te+=abs(adv->coefficient());
-            te+mag(adv->coefficient());
+            te+=mag(adv->coefficient());
         } else {
             *curr=*adv;
             ++curr;
@@ -294,7 +294,7 @@ Void SweeperBase<F>::_sweep(Expansion<MultiIndex,FloatUpperInterval<PR>>& p, Flo
     while(adv!=end) {
         if(this->_discard(adv->index(),mag(adv->coefficient()).raw())) {
             //te+=abs(adv->coefficient());
-            te+mag(adv->coefficient());
+            te+=mag(adv->coefficient());
         } else {
             *curr=*adv;
             ++curr;
@@ -472,8 +472,15 @@ template<class P, class F> TaylorModel<P,F>::TaylorModel(const Expansion<MultiIn
 template<class P, class F> TaylorModel<P,F> TaylorModel<P,F>::scaling(SizeType as, SizeType j, const IntervalDomainType& codom, SweeperType swp) {
     TaylorModel<P,F> r(as,swp);
     auto ivl=convert_interval(codom,r.precision());
-    r.set_gradient(j,1);
-    r*=ivl.radius();
+    if constexpr (Same<NumericType,Bounds<F>>) {
+        // Use the midpoint of the bounds for the radius, with half the width as error
+        NumericType rad=ivl.radius();
+        r.set_gradient(j,cast_exact(rad));
+        r.set_error(ErrorType(hlf(rad.upper()-rad.lower()).raw()));
+    } else {
+        r.set_gradient(j,1);
+        r*=ivl.radius();
+    }
     r+=static_cast<NumericType>(ivl.midpoint());
     return r;
 }
@@ -637,7 +644,7 @@ template<class F> F add_err(F const& x, ValidatedApproximation<F> const& c, Erro
     F::set_rounding_upward();
     Rounded<F> u=xv+cu;
     Rounded<F> ml=(-xv)-cl;
-    re += hlf(u+ml);
+    re += max(u-rv,ml+rv);
     return F(rv);
 }
 
@@ -723,12 +730,12 @@ template<class F> F mul_err(F const& x, ValidatedApproximation<F> const& c, Erro
         Rounded<F> mcl=-cl;
         Rounded<F> u=xv*cu;
         Rounded<F> ml=xv*mcl;
-        re+=hlf(u+ml);
+        re+=max(u-rv,ml+rv);
     } else {
         Rounded<F> mcu=-cu;
         Rounded<F> u=xv*cl;
         Rounded<F> ml=xv*mcu;
-        re+=hlf(u+ml);
+        re+=max(u-rv,ml+rv);
     }
     return F(rv);
 }
@@ -823,7 +830,7 @@ template<class F> F fma_err(F const& x, F const& y, F z, Error<F>& e) {
     Rounded<F> myv=-yv;
     Rounded<F> u=xv*yv+zv;
     Rounded<F> ml=xv*myv-zv;
-    re+=(u+ml)/2;
+    re+=max(u-rv,ml+rv);
     return F(rv);
 }
 
@@ -847,7 +854,7 @@ template<class F> F fma_err(ValidatedApproximation<F> const& c, F const& x, F y,
         u=xv*cl+yv;
         ml=xv*mcu-yv;
     }
-    re+=(u+ml)/2;
+    re+=max(u-rv,ml+rv);
     return F(rv);
 }
 
@@ -1770,7 +1777,7 @@ template<class P, class F> Void TaylorModel<P,F>::unscale(IntervalDomainType con
         //tm.clear(); tm.set_error(+inf);
     } else {
         auto c=ivl.centre();
-        auto s=rec(ivl.radius());
+        auto s=rec(hlf(ivl.upper_bound()-ivl.lower_bound()));
         tm-=c;
         tm*=s;
     }
@@ -1905,6 +1912,8 @@ template<class P, class F> auto TaylorModel<P,F>::radius() const -> NormType {
     for(ConstIterator iter=this->begin(); iter!=this->end(); ++iter) {
         if(iter->index().degree()!=0) {
             r+=mag(iter->coefficient());
+        } else {
+            r+=mag(iter->coefficient()-this->average());
         }
     }
     r+=this->error();
-- 
2.43.0


From a2dbb8ad9ab80f471ae2c011c1684f287d9b2a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:38 +0000
Subject: [PATCH 25/51] fix: widen_domain does not widen the lower end of an
 interval

---
 source/geometry/interval.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/geometry/interval.cpp b/source/geometry/interval.cpp
index 0a17da9..4303271 100644
--- a/source/geometry/interval.cpp
+++ b/source/geometry/interval.cpp
@@ -49,7 +49,7 @@ Interval<FloatDP> widen_domain(Interval<FloatDPUpperBound> const& ivl) {
     if(l==u) { neg_rl=neg_rl+min; ru=ru+min; }
     if(neg_rl<neg_l) { neg_rl=neg_rl+min; }
     if(ru<u) { ru=ru+min; }
-    volatile float rl=-neg_l;
+    volatile float rl=-neg_rl;
     Interval<FloatDP> res(ExactDouble(rl),ExactDouble(ru),dp);
     FloatDP::set_rounding_mode(rnd);
     return res;
-- 
2.43.0


From ed52b8dc59a9563247bb2108827418c610a98e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:17 +0000
Subject: [PATCH 26/51] fix: equal(Interval,Interval) did not compare the lower
 ends for equality

---
 source/geometry/interval.inl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/geometry/interval.inl.hpp b/source/geometry/interval.inl.hpp
index 2740e91..1b41f77 100644
--- a/source/geometry/interval.inl.hpp
+++ b/source/geometry/interval.inl.hpp
@@ -88,7 +88,7 @@ template<class U, class X> inline auto contains(Interval<U> const& ivl1, X const
     return ivl1.lower_bound()<=x2 && ivl1.upper_bound()>=x2; }
 
 template<class U> inline auto equal(Interval<U> const& ivl1, Interval<U> const& ivl2) -> decltype(ivl1.upper_bound()==ivl2.upper_bound()) {
-    return ivl1.lower_bound()<=ivl2.lower_bound() && ivl1.upper_bound()==ivl2.upper_bound(); }
+    return ivl1.lower_bound()==ivl2.lower_bound() && ivl1.upper_bound()==ivl2.upper_bound(); }
 
 template<class UB1, class UB2> inline auto subset(Interval<UB1> const& ivl1, Interval<UB2> const& ivl2) -> decltype(ivl1.upper_bound()<=ivl2.upper_bound()) {
     return ivl1.lower_bound()>=ivl2.lower_bound() && ivl1.upper_bound()<=ivl2.upper_bound(); }
-- 
2.43.0


From cdec24473bea9f57913cf06330896f45bb9f0fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:31 +0000
Subject: [PATCH 27/51] fix: intersection of unions of intervals dropped
 intersecting intervals

---
 source/geometry/union_of_intervals.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/geometry/union_of_intervals.hpp b/source/geometry/union_of_intervals.hpp
index 58fab8f..7695061 100644
--- a/source/geometry/union_of_intervals.hpp
+++ b/source/geometry/union_of_intervals.hpp
@@ -128,9 +128,9 @@ template<class U> UnionOfIntervals<U> UnionOfIntervals<U>::_intersection(UnionOf
     auto iter2=ivls2.begin();
     while (iter1!=ivls1.end() && iter2!=ivls2.end()) {
         if (iter1->lower_bound() >= iter2->upper_bound()) {
-            ++iter1;
-        } else if (iter2->lower_bound() >= iter1->upper_bound()) {
             ++iter2;
+        } else if (iter2->lower_bound() >= iter1->upper_bound()) {
+            ++iter1;
         } else {
             rivls.append(Interval<U>(max(iter1->lower_bound(),iter2->lower_bound()),min(iter1->upper_bound(),iter2->upper_bound())));
             if (iter1->upper_bound()<iter2->upper_bound()) { ++iter1; } else { ++iter2; }
-- 
2.43.0


From 78c6b1e40b1e1ca7a763afd9895db482b768e81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:52 +0000
Subject: [PATCH 28/51] fix: sort and combine intervals when a union is
 converted to another type

---
 source/geometry/union_of_intervals.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/source/geometry/union_of_intervals.hpp b/source/geometry/union_of_intervals.hpp
index 7695061..cf09ea7 100644
--- a/source/geometry/union_of_intervals.hpp
+++ b/source/geometry/union_of_intervals.hpp
@@ -52,10 +52,10 @@ template<class U> class UnionOfIntervals {
 
     template<class UU> requires Constructible<U,UU>
         UnionOfIntervals(UnionOfIntervals<UU> ivls)
-            : _data(ivls._data) { }
+            : _data(ivls._data) { this->_sort(); this->_combine(); }
     template<class UU, class... PRS> requires Constructible<U,UU,PRS...>
         UnionOfIntervals(List<Interval<UU>> ivls, PRS... prs)
-            : _data(Ariadne::apply([&](Interval<UU>const& ivl){return Interval<U>(ivl,prs...);},ivls)) { }
+            : _data(Ariadne::apply([&](Interval<UU>const& ivl){return Interval<U>(ivl,prs...);},ivls)) { this->_sort(); this->_combine(); }
 
     UnionOfIntervals(InitializerList<Interval<U>> ivls) : UnionOfIntervals(List<Interval<U>>(ivls)) { }
     template<class... PRS> requires Constructible<U,Dyadic,PRS...>
@@ -197,7 +197,6 @@ template<class U> Void UnionOfIntervals<U>::_sort() {
 }
 
 template<class U> Void UnionOfIntervals<U>::_combine() {
-    ConstIterator start=begin();
     Iterator curr=_data.begin();
     ConstIterator next=curr;
     while (next!=end()) {
@@ -210,7 +209,7 @@ template<class U> Void UnionOfIntervals<U>::_combine() {
         ++curr;
     }
 
-    _data.resize(static_cast<SizeType>(curr-start));
+    _data.erase(curr,_data.end());
 }
 
 } // namespace Ariadne
-- 
2.43.0


From 34480543db546dd851bf4acff1225371272386d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:07 +0000
Subject: [PATCH 29/51] fix: measure of an empty union of intervals read past
 the end of the list

---
 source/geometry/union_of_intervals.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/geometry/union_of_intervals.hpp b/source/geometry/union_of_intervals.hpp
index cf09ea7..97317c9 100644
--- a/source/geometry/union_of_intervals.hpp
+++ b/source/geometry/union_of_intervals.hpp
@@ -180,6 +180,8 @@ template<class U> Bool UnionOfIntervals<U>::_subset(UnionOfIntervals<U> const& i
 
 
 template<class U> auto UnionOfIntervals<U>::measure() const -> MeasureType {
+    if constexpr (DefaultConstructible<U>) { if (_data.empty()) { return MeasureType(); } }
+    ARIADNE_PRECONDITION(not _data.empty());
     MeasureType r(nul(_data[0].width()));
     for (auto ivl : this->_data) {
         r+=ivl.width();
-- 
2.43.0


From 2c859c26efc60dfd1ab1fcd3800496e15d0f1ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:00 +0000
Subject: [PATCH 30/51] fix: derivative of a component of a vector expression
 recursed for ever

---
 source/symbolic/expression.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/symbolic/expression.cpp b/source/symbolic/expression.cpp
index 6592b5c..85be6ea 100644
--- a/source/symbolic/expression.cpp
+++ b/source/symbolic/expression.cpp
@@ -483,6 +483,8 @@ Bool opposite(Expression<Kleenean> e1, Expression<Kleenean> e2) {
 namespace {
 Expression<Real> derivative(const Constant<Real>& e, Variable<Real> v) { return Expression<Real>(Real(0)); }
 Expression<Real> derivative(const Variable<Real>& e, Variable<Real> v) { return Expression<Real>(Real(e==v ?1:0)); }
+Expression<Real> derivative(const SymbolicType<Real(RealVector,SizeType)>& e, Variable<Real> v) {
+    return derivative(simplify_component(e._vec,e._ind),v); }
 }
 
 Expression<Real> derivative(const Expression<Real>& e, Variable<Real> v)
-- 
2.43.0


From 260c807c6990c42373b1642a1ba92facc68ffbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:00 +0000
Subject: [PATCH 31/51] fix: opposite() of comparison expressions always threw,
 and treated equalities with swapped arguments as opposites

---
 source/symbolic/expression.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/symbolic/expression.cpp b/source/symbolic/expression.cpp
index 85be6ea..9da5c29 100644
--- a/source/symbolic/expression.cpp
+++ b/source/symbolic/expression.cpp
@@ -470,10 +470,12 @@ Bool opposite(Expression<Kleenean> e1, Expression<Kleenean> e2) {
     auto* e2cp = std::get_if<BinaryExpressionNode<Kleenean,Real>>(&e2.node_ref());
 
     if (e1cp && e2cp) {
-        if (identical(e1cp->op(),e2cp->op())) {
-            return identical(e1.arg1(),e2.arg2()) && identical(e1.arg2(),e2.arg1());
+        if (e1cp->op().code()==OperatorCode::EQ || e1cp->op().code()==OperatorCode::NEQ) {
+            return false;
+        } else if (identical(e1cp->op(),e2cp->op())) {
+            return identical(e1cp->arg1(),e2cp->arg2()) && identical(e1cp->arg2(),e2cp->arg1());
         } else if (opposite(e1cp->op(),e2cp->op())) {
-            return identical(e1.arg1(),e2.arg1()) && identical(e1.arg2(),e2.arg2());
+            return identical(e1cp->arg1(),e2cp->arg1()) && identical(e1cp->arg2(),e2cp->arg2());
         }
     }
     return false;
-- 
2.43.0


From 4243dbfac0b6a8befdac84d6a9e7aab717c2a67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:00 +0000
Subject: [PATCH 32/51] fix: negative indicator of a conjunction or disjunction
 used the wrong one of min and max

---
 source/symbolic/expression.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/symbolic/expression.cpp b/source/symbolic/expression.cpp
index 9da5c29..7e2a3e5 100644
--- a/source/symbolic/expression.cpp
+++ b/source/symbolic/expression.cpp
@@ -320,8 +320,11 @@ RE _indicator(Less, RE e1, RE e2, Sign sign) { return _indicator(Leq(),e1,e2,sig
 RE _indicator(Equal op, RE e1, RE e2, Sign sign) { ARIADNE_FAIL_MSG("Cannot compute indicator function of expression " << op(e1,e2)); }
 RE _indicator(Unequal op, RE e1, RE e2, Sign sign) { ARIADNE_FAIL_MSG("Cannot compute indicator function of expression " << op(e1,e2)); }
 
-RE _indicator(AndOp, KE e1, KE e2, Sign sign) { return min(indicator(e1,sign),indicator(e2,sign)); }
-RE _indicator(OrOp, KE e1, KE e2, Sign sign) { return max(indicator(e1,sign),indicator(e2,sign)); }
+// With a negative sign, the result is the indicator of the negation, so conjunction and disjunction are interchanged
+RE _indicator(AndOp, KE e1, KE e2, Sign sign) {
+    RE i1=indicator(e1,sign); RE i2=indicator(e2,sign); if(sign==Sign::POSITIVE) { return min(i1,i2); } else { return max(i1,i2); } }
+RE _indicator(OrOp, KE e1, KE e2, Sign sign) {
+    RE i1=indicator(e1,sign); RE i2=indicator(e2,sign); if(sign==Sign::POSITIVE) { return max(i1,i2); } else { return min(i1,i2); } }
 RE _indicator(NotOp, KE e, Sign sign) { return neg(indicator(e,sign)); }
 
 Expression<Real> indicator(ConstantExpressionNode<Kleenean> e, Sign sign) {
-- 
2.43.0


From 4664209205f05829fdb96ee801e601f70bbdc714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:00 +0000
Subject: [PATCH 33/51] fix: simplify() replaced sqrt(sqr(x)) and atan(tan(x))
 by x

---
 source/numeric/operators.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/numeric/operators.hpp b/source/numeric/operators.hpp
index e5c7097..8d66294 100644
--- a/source/numeric/operators.hpp
+++ b/source/numeric/operators.hpp
@@ -499,15 +499,17 @@ struct TernaryArithmeticOperator : OperatorVariant<Fma> { using OperatorVariant:
 
 
 
+// The right-inverse of an operator, so op(inverse(op)(x))=x whenever defined.
+// Note that sqrt(sqr(x))=abs(x) and atan(tan(x))=x only up to a multiple of pi, so Sqrt and Atan have no inverse in this sense.
 constexpr Pos inverse(Pos) { return Pos(); }
 constexpr Neg inverse(Neg) { return Neg(); }
 constexpr Rec inverse(Rec) { return Rec(); }
 constexpr Sqrt inverse(Sqr) { return Sqrt(); }
-constexpr Sqr inverse(Sqrt) { return Sqr(); }
+
 constexpr Log inverse(Exp) { return Log(); }
 constexpr Exp inverse(Log) { return Exp(); }
 constexpr Atan inverse(Tan) { return Atan(); }
-constexpr Tan inverse(Atan) { return Tan(); }
+
 
 template<class OP> using InverseType = decltype(inverse(declval<OP>()));
 
-- 
2.43.0


From 47941dcdd23d97f1d426e39b06fe999c89b48770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:00 +0000
Subject: [PATCH 34/51] fix: kind() of the hlf, asin and acos operators threw

---
 source/numeric/operators.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/numeric/operators.cpp b/source/numeric/operators.cpp
index 49228bf..681bb0f 100644
--- a/source/numeric/operators.cpp
+++ b/source/numeric/operators.cpp
@@ -177,8 +177,9 @@ OperatorKind kind(OperatorCode op) {
             return OperatorKind::SCALAR;
         case OperatorCode::POS: case OperatorCode::NEG: case OperatorCode::REC: case OperatorCode::SQR:
         case OperatorCode::SQRT: case OperatorCode::EXP: case OperatorCode::LOG:
-        case OperatorCode::SIN: case OperatorCode::COS: case OperatorCode::TAN: case OperatorCode::ATAN:
-        case OperatorCode::ABS:
+        case OperatorCode::SIN: case OperatorCode::COS: case OperatorCode::TAN:
+        case OperatorCode::ASIN: case OperatorCode::ACOS: case OperatorCode::ATAN:
+        case OperatorCode::HLF: case OperatorCode::ABS:
             return OperatorKind::UNARY;
         case OperatorCode::POW: case OperatorCode::ROOT:
             return OperatorKind::GRADED;
-- 
2.43.0


From 172a05742626c218ead20ce9673fe72aa676f16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:37 +0000
Subject: [PATCH 35/51] fix: derivatives of asin and acos

---
 source/numeric/operators.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/numeric/operators.hpp b/source/numeric/operators.hpp
index 8d66294..8258695 100644
--- a/source/numeric/operators.hpp
+++ b/source/numeric/operators.hpp
@@ -385,13 +385,13 @@ struct Tan : OperatorObject<Tan> {
 struct Asin : OperatorObject<Asin> {
     static constexpr OperatorCode code() { return OperatorCode::ASIN; } static constexpr OperatorKind kind() { return OperatorKind::UNARY; }
     template<class A> auto operator()(A&& a) const -> decltype(asin(a)) { return asin(a); }
-    template<class X> X derivative(const X& a) const { return rec(1-sqrt(a)); }
+    template<class X> X derivative(const X& a) const { return rec(sqrt(1-sqr(a))); }
     template<class X,class D> D derivative(const X& a, const D& d) const { return derivative(a)*d; }
 };
 struct Acos : OperatorObject<Acos> {
     static constexpr OperatorCode code() { return OperatorCode::ACOS; } static constexpr OperatorKind kind() { return OperatorKind::UNARY; }
     template<class A> auto operator()(A&& a) const -> decltype(acos(a)) { return acos(a); }
-    template<class X> X derivative(const X& a) const { return rec(1-sqrt(a)); }
+    template<class X> X derivative(const X& a) const { return neg(rec(sqrt(1-sqr(a)))); }
     template<class X,class D> D derivative(const X& a, const D& d) const { return derivative(a)*d; }
 };
 struct Atan : OperatorObject<Atan> {
-- 
2.43.0


From 07b4f0c711edbb1104a7a4de80c11dfdebb125c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:49 +0000
Subject: [PATCH 36/51] fix: common subexpression elimination merged different
 constants which are too close to be ordered

---
 source/symbolic/expression.tpl.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/symbolic/expression.tpl.hpp b/source/symbolic/expression.tpl.hpp
index 27aca0c..84968b1 100644
--- a/source/symbolic/expression.tpl.hpp
+++ b/source/symbolic/expression.tpl.hpp
@@ -515,8 +515,9 @@ template<class OP, class A> Bool inline _before(Symbolic<OP,A> const& s1, Symbol
     else { return s1.op().code() < s2.op().code(); } }
 template<class OP, class A1, class A2> Bool inline _before(Symbolic<OP,A1,A2> const& s1, Symbolic<OP,A1,A2> const& s2) {
     if (s1.op().code() == s2.op().code()) {
-        if (identical(s1.arg1(),s2.arg1())) { return before(s1.arg2(),s2.arg2()); }
-        else { return before(s1.arg1(),s2.arg1()); }
+        if (before(s1.arg1(),s2.arg1())) { return true; }
+        else if (before(s2.arg1(),s1.arg1())) { return false; }
+        else { return before(s1.arg2(),s2.arg2()); }
     } else { return s1.op().code() < s2.op().code(); } }
 template<class OP, class A, class N> requires AGraded<OP> inline Bool _before(Symbolic<OP,A,N> const& s1, Symbolic<OP,A,N> const& s2) {
     if (s1.op().code() == s2.op().code()) {
@@ -596,7 +597,8 @@ template<class T> class CommonSubroutineEliminator {
 };
 template<class T> Expression<T> CommonSubroutineEliminator<T>::eliminate_common_subexpressions(const Expression<T>& e) {
     auto iter=this->_cache.find(e);
-    if (iter!=_cache.end()) {
+    // The ordering does not separate constants which are too close to be distinguished, so check expressions are really the same
+    if (iter!=_cache.end() && identical(*iter,e)) {
         return *iter; }
     else {
         return e.node_ref().accept([&](auto en){return this->operator()(en,e);});
-- 
2.43.0


From 91c3d4f90affb188d85eba1a5d04997cb107a571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:02 +0000
Subject: [PATCH 37/51] fix: kind() of the abs operator was binary

---
 source/numeric/operators.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/numeric/operators.hpp b/source/numeric/operators.hpp
index 8258695..6c98183 100644
--- a/source/numeric/operators.hpp
+++ b/source/numeric/operators.hpp
@@ -414,7 +414,7 @@ struct Min : OperatorObject<Min> {
 };
 
 struct Abs : OperatorObject<Abs> {
-    static constexpr OperatorCode code() { return OperatorCode::ABS; } static constexpr OperatorKind kind() { return OperatorKind::BINARY; }
+    static constexpr OperatorCode code() { return OperatorCode::ABS; } static constexpr OperatorKind kind() { return OperatorKind::UNARY; }
     template<class A> auto operator()(A&& a) const -> decltype(abs(a)) { return abs(a); }
     template<class X,class D> D derivative(const X& a, const D& d) const { return a>=0 ? a : -a; }
 };
-- 
2.43.0


From d3fc7c5df60a6c33ebdd4edb8156a240956daa14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:14 +0000
Subject: [PATCH 38/51] fix: derivative of the zeroth power evaluated a
 negative power

---
 source/numeric/operators.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/numeric/operators.hpp b/source/numeric/operators.hpp
index 6c98183..b6e9bfa 100644
--- a/source/numeric/operators.hpp
+++ b/source/numeric/operators.hpp
@@ -292,7 +292,7 @@ struct Div : OperatorObject<Div> {
 struct Pow : OperatorObject<Pow> {
     static constexpr OperatorCode code() { return OperatorCode::POW; } static constexpr OperatorKind kind() { return OperatorKind::GRADED; }
     template<class A, class N> auto operator()(A&& a, N&& n) const -> decltype(pow(a,n)) { return pow(a,n); }
-    template<class X, class N> X derivative(const X& a, N n) const { return n*pow(a,n-1); }
+    template<class X, class N> X derivative(const X& a, N n) const { return n*pow(a,n==0?0:n-1); }
     template<class X,class D, class N> D derivative(const X& a, const D& d, N n) const { return derivative(a,n)*d; }
 };
 struct Root : OperatorObject<Root> {
-- 
2.43.0


From ec101b2d29501ebdab0ee4bc0d0767576a4a2a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:14 +0000
Subject: [PATCH 39/51] fix: embedding of functions by sizes always threw

---
 source/function/symbolic_function.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/function/symbolic_function.hpp b/source/function/symbolic_function.hpp
index c37c596..8939bb5 100644
--- a/source/function/symbolic_function.hpp
+++ b/source/function/symbolic_function.hpp
@@ -565,7 +565,7 @@ class EmbeddedFunction
     typedef typename SignatureTraits<SIG>::ResultSizeType ResultSizeType;
 
     EmbeddedFunction(ElementSizeType<D1> as1, const Function<P,RES(ARG2)>& f2, ElementSizeType<D3> as3)
-        : _dom1((as1)), _f2(f2), _dom3(as3) { ARIADNE_NOT_IMPLEMENTED; }
+        : _dom1((as1)), _f2(f2), _dom3(as3) { }
     EmbeddedFunction(D1 dom1, const Function<P,RES(ARG2)>& f2, D3 dom3)
         : _dom1(dom1), _f2(f2), _dom3(dom3) { }
     DomainType domain() const { return product(_dom1,_f2.domain(),_dom3); }
-- 
2.43.0


From a5ce903feae86ae804cf90799629a2d28ad85dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:14 +0000
Subject: [PATCH 40/51] fix: join of a validated scalar and vector function
 used the wrong result size

---
 source/function/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/function/function.cpp b/source/function/function.cpp
index bd4027f..0c888b5 100644
--- a/source/function/function.cpp
+++ b/source/function/function.cpp
@@ -893,9 +893,9 @@ ValidatedVectorMultivariateFunction join(ValidatedScalarMultivariateFunction con
     } else if(f2ptr) {
         ValidatedVectorMultivariateFunctionPatch f2ptch(f2ptr); ValidatedScalarMultivariateFunctionPatch f1ptch=factory(f2ptch).create(f1); return join(f1ptch,f2ptch);
     } else {
-        VectorOfScalarMultivariateFunction<ValidatedTag> r(f1.result_size()+1u,f1.domain());
+        VectorOfScalarMultivariateFunction<ValidatedTag> r(f2.result_size()+1u,f1.domain());
         r[0u]=f1;
-        for(SizeType i=0; i!=f1.result_size(); ++i) { r[i+1]=f2[i]; }
+        for(SizeType i=0; i!=f2.result_size(); ++i) { r[i+1]=f2[i]; }
         return r;
     }
 }
-- 
2.43.0


From aa7edd53223d10561cd450d346e4806c3545da5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:14 +0000
Subject: [PATCH 41/51] fix: assigning a component of a vector function changed
 its copies

---
 source/function/function.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/function/function.cpp b/source/function/function.cpp
index 0c888b5..6f35000 100644
--- a/source/function/function.cpp
+++ b/source/function/function.cpp
@@ -403,8 +403,10 @@ template<class P, class SIG> Void Function<P,SIG>::set(SizeType i, ScalarFunctio
                           "Function<P,RealVector(ARGS...)>::set(SizeType i, Function<P,RealScalar(ARGS...)>)",
                           "Cannot assign to component of vector-valued function "<<(*this)<<" as it is not a VectorOfScalarFunction.");
         }
-        VectorOfScalarFunction<P,ARG>& vf = const_cast<VectorOfScalarFunction<P,ARG>&>(*cvf);
+        // Make a copy, since the implementation may be shared with other functions
+        VectorOfScalarFunction<P,ARG> vf = *cvf;
         vf[i]=sf;
+        *this=Function<P,SIG>(vf);
     } else {
         ARIADNE_ASSERT((Same<ResultSizeType,SizeType>));
         std::abort();
-- 
2.43.0


From 9226a41cafe4e2dfd1d8b968574aaaf01b363ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:14 +0000
Subject: [PATCH 42/51] fix: evaluation of an affine function ignored its
 constant

---
 source/function/affine.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/function/affine.hpp b/source/function/affine.hpp
index 7c5450d..4cdde90 100644
--- a/source/function/affine.hpp
+++ b/source/function/affine.hpp
@@ -183,7 +183,7 @@ class Affine
 };
 
 template<class X> template<class Y> Y Affine<X>::evaluate(const Vector<Y>& x) const {
-    Y r=x.zero_element(); for(SizeType j=0; j!=this->_g.size(); ++j) { r+=this->_g[j]*x[j]; } return r;
+    Y r=x.zero_element(); r+=this->_c; for(SizeType j=0; j!=this->_g.size(); ++j) { r+=this->_g[j]*x[j]; } return r;
 }
 
 template<class X> OutputStream& operator<<(OutputStream& os, const Affine<X>& f) {
-- 
2.43.0


From 421cefccf51e506c4a8d17e032f4f017b408e755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:14 +0000
Subject: [PATCH 43/51] fix: product of approximate affine models

---
 source/function/affine_model.tpl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/function/affine_model.tpl.hpp b/source/function/affine_model.tpl.hpp
index fa87488..5f2ccbe 100644
--- a/source/function/affine_model.tpl.hpp
+++ b/source/function/affine_model.tpl.hpp
@@ -99,9 +99,9 @@ template<class F> struct AlgebraOperations<AffineModel<ApproximateTag,F>> {
         PrecisionType prec=max(a1.precision(),a2.precision());
 
         AffineModelType r(n,prec);
-        r=a1.value()+a2.value();
+        r=a1.value()*a2.value();
         for(SizeType i=0; i!=n; ++i) {
-            r[i]=a1.value()*a2.gradient(i)+a1.gradient(i)+a2.value();
+            r[i]=a1.value()*a2.gradient(i)+a1.gradient(i)*a2.value();
         }
         return r;
     }
-- 
2.43.0


From df83041753125b5f0cbc86b3ad166784119313ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:14 +0000
Subject: [PATCH 44/51] fix: error of a product of validated affine models

---
 source/function/affine_model.tpl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/function/affine_model.tpl.hpp b/source/function/affine_model.tpl.hpp
index 5f2ccbe..4d29403 100644
--- a/source/function/affine_model.tpl.hpp
+++ b/source/function/affine_model.tpl.hpp
@@ -188,7 +188,7 @@ template<class F> struct AlgebraOperations<AffineModel<ValidatedTag,F>> {
         }
 
         r.error() = (r.error()+a1.error()*a2.error())
-                        + ( (mag(a1.value())+norm(a1.gradient()) * a2.error()) + a1.error()*(mag(a2.value())+norm(a2.gradient())) )
+                        + ( (mag(a1.value())+norm(a1.gradient()))*a2.error() + a1.error()*(mag(a2.value())+norm(a2.gradient())) )
                         + norm(a1.gradient()) * norm(a2.gradient());
 
         return r;
-- 
2.43.0


From 5f1f2f437d84347002583f1feb04e9cfbad3a295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:14 +0000
Subject: [PATCH 45/51] fix: errors of operations on affine models with inexact
 or negative constants

---
 source/function/model_utilities.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/source/function/model_utilities.hpp b/source/function/model_utilities.hpp
index 4724185..7c90add 100644
--- a/source/function/model_utilities.hpp
+++ b/source/function/model_utilities.hpp
@@ -51,6 +51,11 @@ template<class F> inline Void acc_err(F const& ml, F const& u, F& e) {
     e=add(rounded,e,hlf(add(rounded,ml,u)));
 }
 
+// Add to e the largest distance from r of the values between -ml and u
+template<class F> inline Void acc_err(F const& ml, F const& u, F const& r, F& e) {
+    e=add(rounded,e,max(sub(rounded,u,r),add(rounded,ml,r)));
+}
+
 template<class F, class PRE> Ball<F,RawFloatType<PRE>> add(F const& x1, F const& x2, PRE pre) {
     F mx1=-x1;
     F::set_rounding_to_nearest();
@@ -98,8 +103,8 @@ template<class F> F add_err(F const& x, ValidatedApproximation<F> const& c, Erro
     F rv=add(rounded,xv,cm);
     F::set_rounding_upward();
     F u=add(rounded,xv,cu);
-    F ml=add(rounded,(-xv),cl);
-    acc_err(ml,u,re);
+    F ml=sub(rounded,(-xv),cl);
+    acc_err(ml,u,rv,re);
     return F(rv);
 }
 
@@ -185,12 +190,12 @@ template<class F> F mul_err(F const& x, ValidatedApproximation<F> const& c, Erro
         F mcl=-cl;
         F u=mul(rounded,xv,cu);
         F ml=mul(rounded,xv,mcl);
-        acc_err(ml,u,re);
+        acc_err(ml,u,rv,re);
     } else {
         F mcu=-cu;
         F u=mul(rounded,xv,cl);
         F ml=mul(rounded,xv,mcu);
-        acc_err(ml,u,re);
+        acc_err(ml,u,rv,re);
     }
     return F(rv);
 }
@@ -311,7 +316,7 @@ template<class F> F fma_err(ValidatedApproximation<F> const& c, F const& x, F y,
         u=fma(xv,cl,yv);
         ml=fma(xv,mcu,myv);
     }
-    acc_err(ml,u,e);
+    acc_err(ml,u,rv,re);
     return F(rv);
 }
 
@@ -344,7 +349,7 @@ template<class F> F lin_err(F const& a1, F const& b1, F const& a2, F const& b2,
     F mb2=-b2;
     Rounded<F> u=cast_rounded(a1)*cast_rounded(b2)+cast_rounded(b1)*cast_rounded(a2);
     Rounded<F> ml=cast_rounded(a1)*cast_rounded(mb2)+cast_rounded(mb1)*cast_rounded(a2);
-    cast_rounded(e) += hlf(ml+u);
+    cast_rounded(e) += max(u-cast_rounded(r),ml+cast_rounded(r));
     return r;
 }
 
-- 
2.43.0


From 26580e1740f53a8015b5309e8316379a2bd86826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:20 +0000
Subject: [PATCH 46/51] fix: scalings of validated affine models ignored
 roundoff

---
 source/function/affine_model.tpl.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/source/function/affine_model.tpl.hpp b/source/function/affine_model.tpl.hpp
index 4d29403..7bf0541 100644
--- a/source/function/affine_model.tpl.hpp
+++ b/source/function/affine_model.tpl.hpp
@@ -301,12 +301,11 @@ template<class F> Vector<AffineModel<ApproximateTag,F>> AffineModel<ApproximateT
 template<class F> AffineModel<ValidatedTag,F> AffineModel<ValidatedTag,F>::scaling(SizeType n, SizeType j, const IntervalDomainType& codom, PrecisionType pr)
 {
     AffineModel<ValidatedTag,F> r(n,pr);
-    Float<PR> l(Dyadic(codom.lower_bound()),pr);
-    Float<PR> u(Dyadic(codom.upper_bound()),pr);
-    Interval<Float<PR>> ivl(l,u);
+    FloatBounds<PR> l(Dyadic(codom.lower_bound()),pr);
+    FloatBounds<PR> u(Dyadic(codom.upper_bound()),pr);
     r.set_gradient(j,1);
-    r*=ivl.radius();
-    r+=ivl.midpoint();
+    r*=hlf(u-l);
+    r+=hlf(l+u);
     return r;
 }
 
-- 
2.43.0


From 2c3d7f93e474f40f2e0a82d526b470e6957dff7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:29 +0000
Subject: [PATCH 47/51] fix: exponential of a Taylor model used a huge degree
 for large ranges

---
 source/algebra/algebra_operations.tpl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/algebra/algebra_operations.tpl.hpp b/source/algebra/algebra_operations.tpl.hpp
index 11d0924..26143c2 100644
--- a/source/algebra/algebra_operations.tpl.hpp
+++ b/source/algebra/algebra_operations.tpl.hpp
@@ -324,7 +324,7 @@ template<class A> A NormedAlgebraOperations<A>::apply(Exp, const A& x)
     while(decide(Dyadic(pow(two,static_cast<int>(sfp)))<rad)) { ++sfp; }
     Dyadic sf=pow(two,static_cast<int>(sfp));
     A y = (x-avg)/sf;
-    auto yrad=rad*mag((avg-avg)+sf);
+    auto yrad=rad*mag((avg-avg)+Dyadic(pow(two,-static_cast<int>(sfp))));
 
     // Find the required degree
     Nat deg = 0;
-- 
2.43.0


From 538b38c1e0054e6edfbbcb30eedb408247c029a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:39 +0000
Subject: [PATCH 48/51] fix: cosine of bounds with one infinite end is [-1,+1],
 not an assertion failure

---
 source/numeric/float_bounds.tpl.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/numeric/float_bounds.tpl.hpp b/source/numeric/float_bounds.tpl.hpp
index 905624e..0950c6f 100644
--- a/source/numeric/float_bounds.tpl.hpp
+++ b/source/numeric/float_bounds.tpl.hpp
@@ -85,6 +85,7 @@ template<class F> auto Operations<Bounds<F>>::_cos(Bounds<F> const& x) -> Bounds
     const Bounds<F> pi_val=_pi(prec);
     const Bounds<F> two_pi_val=2*pi_val;
     if(x.error().raw()>two_pi_val.lower().raw()) { return Bounds<F>(-one,+one); }
+    if(is_inf(x.lower_raw()) || is_inf(x.upper_raw())) { return Bounds<F>(-one,+one); }
 
     F n(round(div(near,x.value_raw(),(two_pi_val.value_raw()))));
     Bounds<F> y=x-2*(n*pi_val);
-- 
2.43.0


From 29f6d7aa5961e21bdb748717afeb02410631dbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:39 +0000
Subject: [PATCH 49/51] fix: set the argument size of a vector procedure made
 from a scalar procedure

---
 source/function/procedure.tpl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/function/procedure.tpl.hpp b/source/function/procedure.tpl.hpp
index 1ae9da6..7f07b83 100644
--- a/source/function/procedure.tpl.hpp
+++ b/source/function/procedure.tpl.hpp
@@ -182,7 +182,8 @@ Vector<Procedure<Y>>::Vector(VectorMultivariateFunction<P> const& f)
 
 template<class Y>
 Vector<Procedure<Y>>::Vector(const Procedure<Y>& f)
-    : _constants(f._constants)
+    : _argument_size(f._argument_size)
+    , _constants(f._constants)
     , _instructions(f._instructions)
     , _results(1u,f._instructions.size()-1u)
 {
-- 
2.43.0


From 55fcacf4370e6a836d567aa3c294784c8543ced7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:39 +0000
Subject: [PATCH 50/51] fix: backward propagation through a procedure does not
 discard solutions

---
 source/function/procedure.tpl.hpp | 68 +++++++++++++++++++++++++------
 1 file changed, 56 insertions(+), 12 deletions(-)

diff --git a/source/function/procedure.tpl.hpp b/source/function/procedure.tpl.hpp
index 7f07b83..d73f76c 100644
--- a/source/function/procedure.tpl.hpp
+++ b/source/function/procedure.tpl.hpp
@@ -242,42 +242,81 @@ template<class X, class Y> Void _execute(List<X>& v, const List<ProcedureInstruc
 }
 
 
+// Restrict a1 given that r=max(a1,a2): we have a1<=r, and a1>=r unless a2 may attain the maximum.
+template<class X> Void _restrict_max(X const& r, X& a1, X const& a2) {
+    a1.set_upper_bound(min(a1.upper_bound(),r.upper_bound()));
+    if(a2.upper_bound().raw()<r.lower_bound().raw()) { a1.set_lower_bound(max(a1.lower_bound(),r.lower_bound())); } }
+// Restrict a1 given that r=min(a1,a2): we have a1>=r, and a1<=r unless a2 may attain the minimum.
+template<class X> Void _restrict_min(X const& r, X& a1, X const& a2) {
+    a1.set_lower_bound(max(a1.lower_bound(),r.lower_bound()));
+    if(a2.lower_bound().raw()>r.upper_bound().raw()) { a1.set_upper_bound(min(a1.upper_bound(),r.upper_bound())); } }
+// Restrict a given that a^n=r.
+template<class X> Void _restrict_root(X const& r, X& a, Int n) {
+    if(n==0) { return; }
+    if(n<0) { _restrict_root(X(rec(r)),a,-n); return; }
+    // NOTE: For an interval r with r.l<=0<r.u, log(r)=[-inf,log(r.u)]
+    if(n%2==0) {
+        if(r.upper_bound().raw()>0 && is_finite(r.upper_bound().raw())) {
+            X s=exp(log(r)/n); restrict(a,X(neg(s).lower_bound(),s.upper_bound())); }
+    } else {
+        if(r.upper_bound().raw()>0 && is_finite(r.upper_bound().raw())) {
+            a.set_upper_bound(min(a.upper_bound(),X(exp(log(r)/n)).upper_bound())); }
+        if(r.lower_bound().raw()<0 && is_finite(r.lower_bound().raw())) {
+            a.set_lower_bound(max(a.lower_bound(),X(neg(exp(log(neg(r))/n))).lower_bound())); }
+        if(r.lower_bound().raw()>=0) { a.set_lower_bound(max(a.lower_bound(),X(nul(r)).lower_bound())); }
+        if(r.upper_bound().raw()<=0) { a.set_upper_bound(min(a.upper_bound(),X(nul(r)).upper_bound())); }
+    } }
+// Test whether a is a subset of the open interval (-pi/2,+pi/2).
+template<class X> Bool _in_sin_branch(X const& a) {
+    if(not (a.lower_bound().raw()<=a.upper_bound().raw() && a.lower_bound().raw()>-2 && a.upper_bound().raw()<2)) { return false; }
+    return X(cos(a)).lower_bound().raw()>0; }
+// Test whether a is a subset of the open interval (0,pi).
+template<class X> Bool _in_cos_branch(X const& a) {
+    if(not (a.lower_bound().raw()<=a.upper_bound().raw() && a.lower_bound().raw()>0 && a.upper_bound().raw()<4)) { return false; }
+    return X(sin(a)).lower_bound().raw()>0; }
+// Test whether r is a subset of [-1,+1].
+template<class X> Bool _in_unit_interval(X const& r) {
+    return r.lower_bound().raw()<=r.upper_bound().raw() && r.lower_bound().raw()>=-1 && r.upper_bound().raw()<=1; }
+
 template<class X> Void backpropagate(X const& r, Add, X& a1, X& a2) { restrict(a1,r-a2); restrict(a2,r-a1); }
 template<class X> Void backpropagate(X const& r, Sub, X& a1, X& a2) { restrict(a1,a2+r); restrict(a2,a1-r); }
 template<class X> Void backpropagate(X const& r, Mul, X& a1, X& a2) { restrict(a1,r/a2); restrict(a2,r/a1); }
 template<class X> Void backpropagate(X const& r, Div, X& a1, X& a2) { restrict(a1,a2*r); restrict(a2,a1/r); }
-template<class X> Void backpropagate(X const& r, Max, X& a1, X& a2) { restrict(a1,max(r,a2)); restrict(a2,max(r,a1)); }
-template<class X> Void backpropagate(X const& r, Min, X& a1, X& a2) { restrict(a1,min(r,a2)); restrict(a2,min(r,a1)); }
+template<class X> Void backpropagate(X const& r, Max, X& a1, X& a2) { _restrict_max(r,a1,a2); _restrict_max(r,a2,a1); }
+template<class X> Void backpropagate(X const& r, Min, X& a1, X& a2) { _restrict_min(r,a1,a2); _restrict_min(r,a2,a1); }
 
 template<class X, class Y> Void backpropagate(X const& r, Add, Y const& c1, X& a2) { restrict(a2,r-c1); }
 template<class X, class Y> Void backpropagate(X const& r, Sub, Y const& c1, X& a2) { restrict(a2,c1-r); }
 template<class X, class Y> Void backpropagate(X const& r, Mul, Y const& c1, X& a2) { restrict(a2,r/c1); }
 template<class X, class Y> Void backpropagate(X const& r, Div, Y const& c1, X& a2) { restrict(a2,c1/r); }
-template<class X, class Y> Void backpropagate(X const& r, Max, Y const& c1, X& a2) { restrict(a2,max(r,c1)); }
-template<class X, class Y> Void backpropagate(X const& r, Min, Y const& c1, X& a2) { restrict(a2,min(r,c1)); }
+template<class X, class Y> Void backpropagate(X const& r, Max, Y const& c1, X& a2) { _restrict_max(r,a2,X(nul(r)+c1)); }
+template<class X, class Y> Void backpropagate(X const& r, Min, Y const& c1, X& a2) { _restrict_min(r,a2,X(nul(r)+c1)); }
 
 template<class X, class Y> Void backpropagate(X const& r, Add, X& a1, Y const& c2) { restrict(a1,r-c2); }
 template<class X, class Y> Void backpropagate(X const& r, Sub, X& a1, Y const& c2) { restrict(a1,c2+r); }
 template<class X, class Y> Void backpropagate(X const& r, Mul, X& a1, Y const& c2) { restrict(a1,r/c2); }
 template<class X, class Y> Void backpropagate(X const& r, Div, X& a1, Y const& c2) { restrict(a1,c2*r); }
-template<class X, class Y> Void backpropagate(X const& r, Max, X& a1, Y const& c2) { restrict(a1,max(r,c2)); }
-template<class X, class Y> Void backpropagate(X const& r, Min, X& a1, Y const& c2) { restrict(a1,min(r,c2)); }
+template<class X, class Y> Void backpropagate(X const& r, Max, X& a1, Y const& c2) { _restrict_max(r,a1,X(nul(r)+c2)); }
+template<class X, class Y> Void backpropagate(X const& r, Min, X& a1, Y const& c2) { _restrict_min(r,a1,X(nul(r)+c2)); }
 
 template<class X> Void backpropagate(X const& r, Pos, X& a) { restrict(a,r); }
 template<class X> Void backpropagate(X const& r, Neg, X& a) { restrict(a,neg(r)); }
+template<class X> Void backpropagate(X const& r, Nul, X& a) { }
+template<class X> Void backpropagate(X const& r, Hlf, X& a) { restrict(a,r+r); }
+template<class X> Void backpropagate(X const& r, Abs, X& a) { restrict(a,X(neg(r).lower_bound(),r.upper_bound())); }
 template<class X> Void backpropagate(X const& r, Rec, X& a) { restrict(a,rec(r)); }
 template<class X> Void backpropagate(X const& r, Sqr, X& a) { restrict(a,sqrt(r)); }
-template<class X> Void backpropagate(X const& r, Pow, X& a, Int n) { restrict(a,exp(log(r)/n)); }
+template<class X> Void backpropagate(X const& r, Pow, X& a, Int n) { _restrict_root(r,a,n); }
 template<class X> Void backpropagate(X const& r, Sqrt, X& a) { restrict(a,sqr(r)); }
 template<class X> Void backpropagate(X const& r, Exp, X& a) { restrict(a,log(r)); }
 template<class X> Void backpropagate(X const& r, Log, X& a) { restrict(a,exp(r)); }
-    // FIXME: restricting asin/acos of interval should not be dependent on any branch of asin/acos
-template<class X> Void backpropagate(X const& r, Sin, X& a) { restrict(a,asin(r)); }
-template<class X> Void backpropagate(X const& r, Cos, X& a) { restrict(a,acos(r)); }
-template<class X> Void backpropagate(X const& r, Tan, X& a) { restrict(a,atan(r)); }
+    // NOTE: Only restrict by inverses of trigonometric functions on the principal branch
+template<class X> Void backpropagate(X const& r, Sin, X& a) { if(_in_sin_branch(a) && _in_unit_interval(r)) { restrict(a,asin(r)); } }
+template<class X> Void backpropagate(X const& r, Cos, X& a) { if(_in_cos_branch(a) && _in_unit_interval(r)) { restrict(a,acos(r)); } }
+template<class X> Void backpropagate(X const& r, Tan, X& a) { if(_in_sin_branch(a)) { restrict(a,atan(r)); } }
 template<class X> Void backpropagate(X const& r, Asin, X& a) { restrict(a,sin(r)); }
 template<class X> Void backpropagate(X const& r, Acos, X& a) { restrict(a,cos(r)); }
-template<class X> Void backpropagate(X const& r, Atan, X& a) { restrict(a,tan(r)); }
+template<class X> Void backpropagate(X const& r, Atan, X& a) { if(_in_sin_branch(r)) { restrict(a,tan(r)); } }
 
 template<class X> Void backpropagate(X const& r, Equal, X& a1, X& a2) {
     restrict(a1,r); restrict(a2,r); }
@@ -317,6 +356,11 @@ template<class X, class Y> Void _backpropagate(Vector<X>& x, List<X>& v, const L
     SizeType r=p.size();
     while(r!=0u) {
         --r;
+        if(v[r].lower_bound().raw()>v[r].upper_bound().raw()) {
+            // The constraints can not be satisfied
+            for(SizeType i=0; i!=x.size(); ++i) { restrict(x[i],X::empty_interval()); }
+            return;
+        }
         _backpropagate(r,x,v,p[r],c);
         //p[r].accept([r,&x,&v,&c](auto s){_backpropagate(r,x,v,s,c);}
     }
-- 
2.43.0


From 3fcde5ac5fb022f2e16b1d92767544ff29a513fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:37 +0000
Subject: [PATCH 51/51] fix: constraint reduction terminates and recognises
 infeasible constraints

---
 source/solvers/constraint_solver.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/source/solvers/constraint_solver.cpp b/source/solvers/constraint_solver.cpp
index daaaa25..8fdd2f5 100644
--- a/source/solvers/constraint_solver.cpp
+++ b/source/solvers/constraint_solver.cpp
@@ -274,8 +274,8 @@ Bool ConstraintSolver::reduce(UpperBoxType& domain, const List<ValidatedConstrai
     do {
         for(SizeType i=0; i!=constraints.size(); ++i) {
             this->hull_reduce(domain,constraints[i].function(),constraints[i].bounds());
+            if(definitely(domain.is_empty())) { return true; }
         }
-        if(definitely(domain.is_empty())) { return true; }
 
         if(USE_BOX_REDUCE) {
             for(SizeType i=0; i!=constraints.size(); ++i) {
@@ -358,7 +358,9 @@ Bool ConstraintSolver::monotone_reduce(UpperBoxType& domain, const ValidatedScal
 
     static const Int MAX_STEPS=3;
     const FloatDP threshold = div(near, lower.width().raw(), FloatDP(pow(two,MAX_STEPS),dp));
+    Bool reduced=true;
     do {
+        const FloatDP old_width = subdomain[variable].width().raw();
         FloatDPUpperBound ub(dp); FloatDPUpperInterval ivl(-ub,+ub); FloatDP val(dp); ub=val;
 
         // Apply Newton contractor on lower and upper strips
@@ -366,18 +368,21 @@ Bool ConstraintSolver::monotone_reduce(UpperBoxType& domain, const ValidatedScal
             splitpoint=lower.midpoint();
             slice[variable]=splitpoint;
             UpperIntervalType new_lower=splitpoint+(bounds-apply(function,slice))/apply(derivative,subdomain);
-            if(definitely(new_lower.upper_bound()<lower.lower_bound())) { lower=UpperIntervalType(lower.lower_bound().raw(),lower.lower_bound().raw()); }
-            else { lower=intersection(lower,new_lower); }
+            lower=intersection(lower,new_lower);
+            if(definitely(lower.is_empty())) { domain[variable]=UpperIntervalType::empty_interval(); return true; }
         }
         if(upper.width().raw()>threshold) {
             splitpoint=upper.midpoint();
             slice[variable]=splitpoint;
             UpperIntervalType new_upper=splitpoint+(bounds-apply(function,slice))/apply(derivative,subdomain);
-            if(definitely(new_upper.lower_bound()>upper.upper_bound())) { upper=UpperIntervalType(upper.upper_bound().raw(),upper.upper_bound().raw()); }
-            else { upper=intersection(upper,new_upper); }
+            upper=intersection(upper,new_upper);
+            if(definitely(upper.is_empty())) { domain[variable]=UpperIntervalType::empty_interval(); return true; }
         }
         subdomain[variable]=UpperIntervalType(lower.lower_bound(),upper.upper_bound());
-    } while(lower.width().raw()>threshold && upper.width().raw()>threshold);
+        if(definitely(subdomain[variable].is_empty())) { domain[variable]=UpperIntervalType::empty_interval(); return true; }
+        // Stop if no further progress is made
+        reduced = subdomain[variable].width().raw() < mul(near, old_width, FloatDP(0.75_x,dp));
+    } while(reduced && lower.width().raw()>threshold && upper.width().raw()>threshold);
     domain=subdomain;
 
     return definitely(domain.is_empty());
-- 
2.43.0

