#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
uint64_t sx_concrete(uint64_t v){return v;}
#include "softfp.c"
static uint64_t s=88172645463325252ull; static uint64_t rnd(){s^=s<<13;s^=s>>7;s^=s<<17;return s;}
static double D(uint64_t b){double d;memcpy(&d,&b,8);return d;} static uint64_t B(double d){uint64_t b;memcpy(&b,&d,8);return b;}
static uint32_t FB(float d){uint32_t b;memcpy(&b,&d,4);return b;} static float FF(uint32_t b){float d;memcpy(&d,&b,4);return d;}
#define CK(c) if(!(c)){printf("bad line %d it %ld\n",__LINE__,n);return 1;}
int main(){ 
 for(long n=0;n<3000000;n++){
  uint64_t v=rnd()>>(rnd()%64); if(n%7==0)v=(1ull<<(rnd()%64))+(rnd()%5)-2;
  CK(sxf_u2d(v)==B((double)v)); CK(sxf_i2d(v)==B((double)(int64_t)v)); CK(sxf_i2d(-v)==B((double)(int64_t)-v));
  uint64_t a=rnd(); int e=rnd()%2047; if(n%3)e=1023-70+rnd()%140; a=(a&~INFB)|((uint64_t)e<<52); if(n%5==0)a&=~msk(rnd()%52);
  if(n%1000==0)a|=INFB; uint64_t b=rnd()%3?rnd():rnd()%2?a:a^SIGN; if(n%50==0)a&=SIGN,b=a^SIGN;
  volatile double x=D(a),y=D(b);
  CK(sxf_d2i(a)==(uint64_t)(int64_t)x); volatile int iw=(int)x; CK((int)sxf_d2w(a)==iw);
  if(x>-1&&x<18446744073709551616.0) CK(sxf_d2u(a)==(uint64_t)x);
  int un=x!=x||y!=y;
  CK(sxf_cmp(a,b,1)==(x==y));CK(sxf_cmp(a,b,2)==(x>y));CK(sxf_cmp(a,b,3)==(x>=y));CK(sxf_cmp(a,b,4)==(x<y));CK(sxf_cmp(a,b,5)==(x<=y));CK(sxf_cmp(a,b,6)==(!un&&x!=y));CK(sxf_cmp(a,b,8)==un);CK(sxf_cmp(a,b,14)==(x!=y));
  volatile float f=(float)x; CK(sxf_trunc(a)==FB(f)); uint32_t fb=rnd(); if(n%4==0)fb&=0x807fffff; volatile float g=FF(fb); CK(sxf_ext(fb)==B((double)g));
  uint64_t t=a&~SIGN; if(n%11==0){ t=B((double)(rnd()%2000000)+(double)(rnd()%1000000)/(double)(1<<(1+rnd()%20))); }
  if(n%13==0) t=B((rnd()%100000000)/1e6); if(n%17==0) t=B((rnd()%1000000)/(double)(1<<20)); 
  if(D(t)<9e18){ int p=n%4?6:rnd()%10; char s1[400],s2[400]; uint64_t ip,fp; sxf_decimal(t,p,&ip,&fp); sprintf(s1,"%.*f",p,D(t)); if(p) sprintf(s2,"%lu.%0*lu",ip,p,fp); else sprintf(s2,"%lu",ip); if(strcmp(s1,s2)){printf("%s %s p %d\n",s1,s2,p);return 1;}
   CK(sxf_nearest(ip,fp,p)==B(strtod(s1,0)));
   uint64_t i=rnd()>>(rnd()%64), P=1; for(int k=0;k<p;k++)P*=10; uint64_t ff=n%3?rnd()%P:rnd()%P>>(rnd()%30); sprintf(s2,p?"%lu.%0*lu":"%lu%.0d%.0d",i,p,ff); if(p==0)sprintf(s2,"%lu",i),ff=0; if(sxf_nearest(i,ff,p)!=B(strtod(s2,0))){printf("near %s\n",s2);return 1;}
  }
 } puts("ok"); }
