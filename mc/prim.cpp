#include "prim.hpp"
#include <cstring>
#include <vector>
#include <immintrin.h>
extern "C" {
unsigned char *SHA256(const unsigned char *d, size_t n, unsigned char *md);
unsigned char *SHA512(const unsigned char *d, size_t n, unsigned char *md);
typedef struct evp_md_ctx_st EVP_MD_CTX; typedef struct evp_md_st EVP_MD; typedef struct engine_st ENGINE;
EVP_MD_CTX *EVP_MD_CTX_new(void); void EVP_MD_CTX_free(EVP_MD_CTX *);
const EVP_MD *EVP_shake128(void); const EVP_MD *EVP_shake256(void);
int EVP_DigestInit_ex(EVP_MD_CTX *, const EVP_MD *, ENGINE *);
int EVP_DigestUpdate(EVP_MD_CTX *, const void *, size_t);
int EVP_DigestFinalXOF(EVP_MD_CTX *, unsigned char *, size_t);
}
static const uint32_t K256[64] = {
0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,
0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,
0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,
0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,
0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2};
static const uint32_t IV256[8]={0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19};
static inline uint32_t ror(uint32_t x,int n){return (x>>n)|(x<<(32-n));}
static inline uint64_t ror64(uint64_t x,int n){return (x>>n)|(x<<(64-n));}
static void comp256_c(uint32_t s[8], const uint8_t *p){
  uint32_t w[64]; for(int i=0;i<16;i++) w[i]=(uint32_t)p[4*i]<<24|p[4*i+1]<<16|p[4*i+2]<<8|p[4*i+3];
  for(int i=16;i<64;i++){uint32_t a=w[i-15],b=w[i-2]; w[i]=w[i-16]+(ror(a,7)^ror(a,18)^(a>>3))+w[i-7]+(ror(b,17)^ror(b,19)^(b>>10));}
  uint32_t a=s[0],b=s[1],c=s[2],d=s[3],e=s[4],f=s[5],g=s[6],h=s[7];
  for(int i=0;i<64;i++){uint32_t t1=h+(ror(e,6)^ror(e,11)^ror(e,25))+((e&f)^(~e&g))+K256[i]+w[i];
    uint32_t t2=(ror(a,2)^ror(a,13)^ror(a,22))+((a&b)^(a&c)^(b&c)); h=g;g=f;f=e;e=d+t1;d=c;c=b;b=a;a=t1+t2;}
  s[0]+=a;s[1]+=b;s[2]+=c;s[3]+=d;s[4]+=e;s[5]+=f;s[6]+=g;s[7]+=h;
}
__attribute__((target("sha,sse4.1"))) static void comp256_ni(uint32_t st[8], const uint8_t *p){
  const __m128i MASK=_mm_set_epi64x(0x0c0d0e0f08090a0bULL,0x0405060700010203ULL);
  __m128i T=_mm_loadu_si128((const __m128i*)&st[0]), S1=_mm_loadu_si128((const __m128i*)&st[4]), S0;
  T=_mm_shuffle_epi32(T,0xB1); S1=_mm_shuffle_epi32(S1,0x1B);
  S0=_mm_alignr_epi8(T,S1,8); S1=_mm_blend_epi16(S1,T,0xF0);
  __m128i a0=S0,a1=S1, M[4];
  for(int i=0;i<4;i++) M[i]=_mm_shuffle_epi8(_mm_loadu_si128((const __m128i*)(p+16*i)),MASK);
  #pragma GCC unroll 16
  for(int r=0;r<16;r++){
    __m128i m=M[r&3];
    __m128i k=_mm_add_epi32(m,_mm_loadu_si128((const __m128i*)&K256[4*r]));
    S1=_mm_sha256rnds2_epu32(S1,S0,k);
    S0=_mm_sha256rnds2_epu32(S0,S1,_mm_shuffle_epi32(k,0x0E));
    if(r<12){ // schedule word group r+4
      __m128i x=_mm_sha256msg1_epu32(M[r&3],M[(r+1)&3]);
      x=_mm_add_epi32(x,_mm_alignr_epi8(M[(r+3)&3],M[(r+2)&3],4));
      M[r&3]=_mm_sha256msg2_epu32(x,M[(r+3)&3]);
    }
  }
  S0=_mm_add_epi32(S0,a0); S1=_mm_add_epi32(S1,a1);
  T=_mm_shuffle_epi32(S0,0x1B); S1=_mm_shuffle_epi32(S1,0xB1);
  S0=_mm_blend_epi16(T,S1,0xF0); S1=_mm_alignr_epi8(S1,T,8);
  _mm_storeu_si128((__m128i*)&st[0],S0); _mm_storeu_si128((__m128i*)&st[4],S1);
}
static const bool have_ni = __builtin_cpu_supports("sse4.1") && [](){unsigned a,b,c,d; __asm__ volatile("cpuid":"=a"(a),"=b"(b),"=c"(c),"=d"(d):"a"(7),"c"(0)); return (b>>29)&1;}();
static inline void comp256(uint32_t s[8], const uint8_t*p){ if(have_ni) comp256_ni(s,p); else comp256_c(s,p); }
// cheap stand-in (same one on both sides) for enumerations that need millions of chain steps
bool o_stub = false;
static void stub(const uint8_t *in, uint64_t len, uint8_t *out, unsigned n){
    uint64_t a=0x243F6A8885A308D3ull^len,b=0x13198A2E03707344ull; uint64_t v;
    while(len>=8){ memcpy(&v,in,8); unsigned __int128 r=(unsigned __int128)(a^v)*(b|1); a=(uint64_t)r^(uint64_t)(r>>64); b=b*0x5851F42D4C957F2Dull+v+1; in+=8; len-=8; }
    v=0; memcpy(&v,in,len); unsigned __int128 r=(unsigned __int128)(a^v^0x9E3779B97F4A7C15ull)*(b|1); a=(uint64_t)r^(uint64_t)(r>>64);
    for(unsigned i=0;i<n;i+=8){ r=(unsigned __int128)(a+i)*0xD1B54A32D192ED03ull; v=(uint64_t)r^(uint64_t)(r>>64)^b; memcpy(out+i,&v,8); }
}
void o_sha256(const uint8_t *in, uint64_t len, uint8_t out[32]){
    if(o_stub){ uint8_t t[32]; stub(in,len,t,32); memcpy(out,t,32); return; }
  static thread_local uint8_t cb[4][64]; static thread_local uint32_t cs[4][8]; static thread_local bool cv[4]; static thread_local unsigned cn;
  uint32_t s[8]; uint64_t n=len; memcpy(s,IV256,32);
  if(n>=64){ // midstate of the first block: almost all calls share it
    int hit=-1; for(int i=0;i<4;i++) if(cv[i]&&!memcmp(cb[i],in,64)){hit=i;break;}
    if(hit>=0) memcpy(s,cs[hit],32);
    else { comp256(s,in); int i=cn++&3; memcpy(cb[i],in,64); memcpy(cs[i],s,32); cv[i]=true; }
    in+=64;n-=64;
  }
  while(n>=64){comp256(s,in);in+=64;n-=64;}
  uint8_t b[128]; memset(b,0,128); memcpy(b,in,n); b[n]=0x80; int t=n<56?64:128; uint64_t bits=len*8;
  for(int i=0;i<8;i++) b[t-1-i]=(uint8_t)(bits>>(8*i));
  comp256(s,b); if(t==128) comp256(s,b+64);
  for(int i=0;i<8;i++){out[4*i]=s[i]>>24;out[4*i+1]=s[i]>>16;out[4*i+2]=s[i]>>8;out[4*i+3]=s[i];}
}
static const uint64_t K512[80]={
0x428a2f98d728ae22ULL,0x7137449123ef65cdULL,0xb5c0fbcfec4d3b2fULL,0xe9b5dba58189dbbcULL,0x3956c25bf348b538ULL,0x59f111f1b605d019ULL,0x923f82a4af194f9bULL,0xab1c5ed5da6d8118ULL,
0xd807aa98a3030242ULL,0x12835b0145706fbeULL,0x243185be4ee4b28cULL,0x550c7dc3d5ffb4e2ULL,0x72be5d74f27b896fULL,0x80deb1fe3b1696b1ULL,0x9bdc06a725c71235ULL,0xc19bf174cf692694ULL,
0xe49b69c19ef14ad2ULL,0xefbe4786384f25e3ULL,0x0fc19dc68b8cd5b5ULL,0x240ca1cc77ac9c65ULL,0x2de92c6f592b0275ULL,0x4a7484aa6ea6e483ULL,0x5cb0a9dcbd41fbd4ULL,0x76f988da831153b5ULL,
0x983e5152ee66dfabULL,0xa831c66d2db43210ULL,0xb00327c898fb213fULL,0xbf597fc7beef0ee4ULL,0xc6e00bf33da88fc2ULL,0xd5a79147930aa725ULL,0x06ca6351e003826fULL,0x142929670a0e6e70ULL,
0x27b70a8546d22ffcULL,0x2e1b21385c26c926ULL,0x4d2c6dfc5ac42aedULL,0x53380d139d95b3dfULL,0x650a73548baf63deULL,0x766a0abb3c77b2a8ULL,0x81c2c92e47edaee6ULL,0x92722c851482353bULL,
0xa2bfe8a14cf10364ULL,0xa81a664bbc423001ULL,0xc24b8b70d0f89791ULL,0xc76c51a30654be30ULL,0xd192e819d6ef5218ULL,0xd69906245565a910ULL,0xf40e35855771202aULL,0x106aa07032bbd1b8ULL,
0x19a4c116b8d2d0c8ULL,0x1e376c085141ab53ULL,0x2748774cdf8eeb99ULL,0x34b0bcb5e19b48a8ULL,0x391c0cb3c5c95a63ULL,0x4ed8aa4ae3418acbULL,0x5b9cca4f7763e373ULL,0x682e6ff3d6b2b8a3ULL,
0x748f82ee5defb2fcULL,0x78a5636f43172f60ULL,0x84c87814a1f0ab72ULL,0x8cc702081a6439ecULL,0x90befffa23631e28ULL,0xa4506cebde82bde9ULL,0xbef9a3f7b2c67915ULL,0xc67178f2e372532bULL,
0xca273eceea26619cULL,0xd186b8c721c0c207ULL,0xeada7dd6cde0eb1eULL,0xf57d4f7fee6ed178ULL,0x06f067aa72176fbaULL,0x0a637dc5a2c898a6ULL,0x113f9804bef90daeULL,0x1b710b35131c471bULL,
0x28db77f523047d84ULL,0x32caab7b40c72493ULL,0x3c9ebe0a15c9bebcULL,0x431d67c49c100d4cULL,0x4cc5d4becb3e42b6ULL,0x597f299cfc657e2aULL,0x5fcb6fab3ad6faecULL,0x6c44198c4a475817ULL};
static const uint64_t IV512[8]={0x6a09e667f3bcc908ULL,0xbb67ae8584caa73bULL,0x3c6ef372fe94f82bULL,0xa54ff53a5f1d36f1ULL,0x510e527fade682d1ULL,0x9b05688c2b3e6c1fULL,0x1f83d9abfb41bd6bULL,0x5be0cd19137e2179ULL};
static void comp512(uint64_t s[8], const uint8_t *p){
  uint64_t w[80]; for(int i=0;i<16;i++){uint64_t v; memcpy(&v,p+8*i,8); w[i]=__builtin_bswap64(v);}
  for(int i=16;i<80;i++){uint64_t a=w[i-15],b=w[i-2]; w[i]=w[i-16]+(ror64(a,1)^ror64(a,8)^(a>>7))+w[i-7]+(ror64(b,19)^ror64(b,61)^(b>>6));}
  uint64_t a=s[0],b=s[1],c=s[2],d=s[3],e=s[4],f=s[5],g=s[6],h=s[7];
  for(int i=0;i<80;i++){uint64_t t1=h+(ror64(e,14)^ror64(e,18)^ror64(e,41))+((e&f)^(~e&g))+K512[i]+w[i];
    uint64_t t2=(ror64(a,28)^ror64(a,34)^ror64(a,39))+((a&b)^(a&c)^(b&c)); h=g;g=f;f=e;e=d+t1;d=c;c=b;b=a;a=t1+t2;}
  s[0]+=a;s[1]+=b;s[2]+=c;s[3]+=d;s[4]+=e;s[5]+=f;s[6]+=g;s[7]+=h;
}
void o_sha512(const uint8_t *in, uint64_t len, uint8_t out[64]){
    if(o_stub){ uint8_t t[64]; stub(in,len,t,64); memcpy(out,t,64); return; }
  static thread_local uint8_t cb[4][128]; static thread_local uint64_t cs[4][8]; static thread_local bool cv[4]; static thread_local unsigned cn;
  uint64_t s[8]; uint64_t n=len; memcpy(s,IV512,64);
  if(n>=128){
    int hit=-1; for(int i=0;i<4;i++) if(cv[i]&&!memcmp(cb[i],in,128)){hit=i;break;}
    if(hit>=0) memcpy(s,cs[hit],64);
    else { comp512(s,in); int i=cn++&3; memcpy(cb[i],in,128); memcpy(cs[i],s,64); cv[i]=true; }
    in+=128;n-=128;
  }
  while(n>=128){comp512(s,in);in+=128;n-=128;}
  uint8_t b[256]; memset(b,0,256); memcpy(b,in,n); b[n]=0x80; int t=n<112?128:256; uint64_t bits=len*8;
  for(int i=0;i<8;i++) b[t-1-i]=(uint8_t)(bits>>(8*i));
  comp512(s,b); if(t==256) comp512(s,b+128);
  for(int i=0;i<8;i++){uint64_t v=__builtin_bswap64(s[i]); memcpy(out+8*i,&v,8);}
}
struct KT { uint64_t rc[24]; int rho[25], pi[25]; };
static constexpr KT mkkt(){
  // round constants from the LFSR of FIPS 202, rotation offsets from the walk (t+1)(t+2)/2
  KT k{}; unsigned R=1;
  for(int r=0;r<24;r++) for(int j=0;j<7;j++){ bool b=R&1; R=(R&0x80)?(((R<<1)^0x71)&0xff):((R<<1)&0xff); if(b) k.rc[r]^=1ULL<<((1<<j)-1); }
  int x=1,y=0; for(int t=0;t<24;t++){k.rho[x+5*y]=((t+1)*(t+2)/2)%64; int nx=y,ny=(2*x+3*y)%5; x=nx;y=ny;}
  for(int X=0;X<5;X++)for(int Y=0;Y<5;Y++) k.pi[Y+5*((2*X+3*Y)%5)]=X+5*Y;
  return k;
}
static constexpr KT kt=mkkt();
#define ROL(v,n) (((v)<<(n))|((v)>>((64-(n))&63)))
static void keccakf(uint64_t A[25]){
  for(int r=0;r<24;r++){
    uint64_t C[5],D[5],B[25];
    #pragma GCC unroll 5
    for(int x=0;x<5;x++) C[x]=A[x]^A[x+5]^A[x+10]^A[x+15]^A[x+20];
    #pragma GCC unroll 5
    for(int x=0;x<5;x++) D[x]=C[(x+4)%5]^ROL(C[(x+1)%5],1);
    #pragma GCC unroll 25
    for(int i=0;i<25;i++){ uint64_t v=A[kt.pi[i]]^D[kt.pi[i]%5]; B[i]=ROL(v,kt.rho[kt.pi[i]]); }
    #pragma GCC unroll 25
    for(int i=0;i<25;i++){ int y=i/5*5, x=i%5; A[i]=B[i]^(~B[y+(x+1)%5]&B[y+(x+2)%5]); }
    A[0]^=kt.rc[r];
  }
}
void o_shake(int bits,const uint8_t*in,uint64_t len,uint8_t*out,uint64_t outlen){
  uint64_t A[25]; memset(A,0,sizeof A); uint64_t rate=200-bits/4; uint8_t blk[200];
  while(len>=rate){ memset(blk,0,200); memcpy(blk,in,rate); for(unsigned i=0;i<25;i++){uint64_t v;memcpy(&v,blk+8*i,8);A[i]^=v;} keccakf(A); in+=rate;len-=rate; }
  memset(blk,0,200); memcpy(blk,in,len); blk[len]^=0x1f; blk[rate-1]^=0x80;
  for(unsigned i=0;i<25;i++){uint64_t v;memcpy(&v,blk+8*i,8);A[i]^=v;} keccakf(A);
  while(outlen){ memcpy(blk,A,200); uint64_t k=outlen<rate?outlen:rate; memcpy(out,blk,k); out+=k;outlen-=k; if(outlen) keccakf(A); }
}
bool prim_selftest(){
  std::vector<uint8_t> d(700); for(size_t i=0;i<d.size();i++) d[i]=(uint8_t)(i*167+i/256*31+5);
  uint8_t a[64],b[64]; std::vector<uint8_t> x(500),y(500);
  for(int rep=0;rep<2;rep++) for(size_t n=0;n<=d.size();n++){
    o_sha256(d.data(),n,a); SHA256(d.data(),n,b); if(memcmp(a,b,32)) return false;
    o_sha512(d.data(),n,a); SHA512(d.data(),n,b); if(memcmp(a,b,64)) return false;
    for(int bits:{128,256}){ size_t ol=(n*7)%500; o_shake(bits,d.data(),n,x.data(),ol);
      EVP_MD_CTX*c=EVP_MD_CTX_new(); EVP_DigestInit_ex(c,bits==128?EVP_shake128():EVP_shake256(),nullptr); EVP_DigestUpdate(c,d.data(),n);
      if(ol){EVP_DigestFinalXOF(c,y.data(),ol); if(memcmp(x.data(),y.data(),ol)){EVP_MD_CTX_free(c);return false;}} EVP_MD_CTX_free(c); }
  }
  uint32_t s1[8],s2[8]; memcpy(s1,IV256,32); memcpy(s2,IV256,32); comp256_c(s1,d.data()); comp256(s2,d.data()); return !memcmp(s1,s2,32);
}
