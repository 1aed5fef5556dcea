// Executable reference model: GF(2^e) and dense matrices, independent of m4rie.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <algorithm>
typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef uint8_t u8;

static inline u64 mix64(u64 z){ z+=0x9e3779b97f4a7c15ULL; z=(z^(z>>30))*0xbf58476d1ce4e5b9ULL; z=(z^(z>>27))*0x94d049bb133111ebULL; return z^(z>>31); }
static inline u64 hcomb(u64 a,u64 b){ return mix64(a*0x9e3779b97f4a7c15ULL + (b^0x5851f42d4c957f2dULL)); }

struct Rng {
  u64 s; explicit Rng(u64 seed=1):s(mix64(seed^0xabcdef12345ULL)){}
  u64 next(){ s+=0x9e3779b97f4a7c15ULL; u64 z=s; z=(z^(z>>30))*0xbf58476d1ce4e5b9ULL; z=(z^(z>>27))*0x94d049bb133111ebULL; return z^(z>>31); }
  u32 below(u32 n){ return n? (u32)((next()>>32)*(u64)n>>32):0; }
  int range(int lo,int hi){ return hi<=lo? lo: lo+(int)below((u32)(hi-lo+1)); }
  bool chance(double p){ return (next()>>11)*(1.0/9007199254740992.0) < p; }
};

// GF(2)[x] helpers on plain integers
static inline int pdeg(u32 a){ return a? 31-__builtin_clz(a):-1; }
static inline u32 pmod(u32 a,u32 m){ int d=pdeg(m); for(int i=pdeg(a); i>=d; i=pdeg(a)) a^=m<<(i-d); return a; }
static inline u64 pmul(u32 a,u32 b){ u64 r=0; for(int i=0;i<32;i++) if(b>>i&1) r^=(u64)a<<i; return r; }
static bool pirreducible(u32 f){ int d=pdeg(f); if(d<1) return false; for(u32 g=2; pdeg(g)*2<=d; g++) if(pmod(f,g)==0) return false; return true; }
static const std::vector<u32>& irreducibles(int d){
  static std::vector<u32> tab[17];
  if(tab[d].empty()){
    // sieve out products
    std::vector<u8> comp((size_t)2<<d,0);
    for(int a=1;a*2<=d;a++) for(u32 f=1u<<a; f<(2u<<a); f++){
      for(u32 g=1u<<(d-a); g<(2u<<(d-a)); g++) comp[(size_t)pmul(f,g)]=1; }
    for(u32 f=1u<<d; f<(2u<<d); f++) if(!comp[f]) tab[d].push_back(f);
  }
  return tab[d];
}

struct FM { // field model
  int e; u32 poly; u32 q; std::vector<u16> ex; std::vector<u32> lg; u32 zlog;
  u16 slow(u32 a,u32 b) const { u32 r=0; for(int i=e-1;i>=0;i--){ r<<=1; if(r>>e&1) r^=poly; if(b>>i&1) r^=a; } return (u16)r; }
  FM(u32 p):poly(p){ e=pdeg(p); q=1u<<e; u32 n=q-1; ex.assign(4*n+4,0); lg.assign(q,0); zlog=2*n; lg[0]=zlog;
    for(u32 g=2; g<q || q==2; g++){ u32 x=1,k=0; std::vector<u16> t; do{ t.push_back((u16)x); x=slow(x,g); k++; }while(x!=1 && k<=n);
      if(k==n){ for(u32 i=0;i<n;i++){ ex[i]=ex[i+n]=t[i]; lg[t[i]]=i; } break; } }
  }
  u16 mul(u32 a,u32 b) const { return ex[lg[a]+lg[b]]; }
  u16 inv(u32 a) const { return ex[(q-1-lg[a])%(q-1)]; }
};
static FM* get_fm(u32 poly){ static std::map<u32,FM*> c; auto it=c.find(poly); if(it!=c.end()) return it->second; FM* f=new FM(poly); c[poly]=f; return f; }

struct Mat { int r=0,c=0; std::vector<u16> a; Mat(){} Mat(int r_,int c_):r(r_),c(c_),a((size_t)r_*c_,0){}
  u16& at(int i,int j){ return a[(size_t)i*c+j]; } u16 at(int i,int j) const { return a[(size_t)i*c+j]; }
  bool operator==(const Mat&o) const { return r==o.r&&c==o.c&&a==o.a; } };

static void m_addmul(const FM*f,Mat&C,const Mat&A,const Mat&B){
  const u16*ex=f->ex.data(); const u32*lg=f->lg.data();
  std::vector<u32> lb(B.a.size()); for(size_t i=0;i<lb.size();i++) lb[i]=lg[B.a[i]];
  for(int i=0;i<A.r;i++) for(int k=0;k<A.c;k++){ u16 x=A.at(i,k); if(!x) continue; const u16*e=ex+lg[x]; u16*c=&C.a[(size_t)i*C.c]; const u32*b=&lb[(size_t)k*B.c];
    for(int j=0;j<B.c;j++) c[j]^=e[b[j]]; }
}
static Mat m_mul(const FM*f,const Mat&A,const Mat&B){ Mat C(A.r,B.c); if(A.c) m_addmul(f,C,A,B); return C; }
// reduced row echelon form, returns rank, pivots
static int m_rref(const FM*f,Mat&A,std::vector<int>*piv=nullptr){
  int r=0; for(int j=0;j<A.c&&r<A.r;j++){ int p=-1; for(int i=r;i<A.r;i++) if(A.at(i,j)){p=i;break;} if(p<0) continue;
    if(p!=r) for(int k=0;k<A.c;k++) std::swap(A.at(p,k),A.at(r,k));
    u16 iv=f->inv(A.at(r,j)); if(iv!=1) for(int k=j;k<A.c;k++) A.at(r,k)=f->mul(iv,A.at(r,k));
    for(int i=0;i<A.r;i++) if(i!=r){ u16 x=A.at(i,j); if(!x) continue; u32 lx=f->lg[x]; for(int k=j;k<A.c;k++) A.at(i,k)^=f->ex[lx+f->lg[A.at(r,k)]]; }
    if(piv) piv->push_back(j); r++; }
  return r;
}
