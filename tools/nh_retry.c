// Searches for the entries of harness/nh_retry.inc: prints n such that SHA3-256(n as 8 bytes, then 24 zeros)
// is a NewHope seed whose uniform polynomial needs a second round of SHAKE128 output.
// With bad|=g[i]==64 (and no g[i]<64) instead it finds those of nh_tight.
//   gcc -O3 -march=native tools/nh_retry.c -o /tmp/nh_retry && /tmp/nh_retry START
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#define R(x,n) ((x)<<(n)|(x)>>(64-(n)))
static const uint64_t RC[24]={1,0x8082,0x800000000000808aULL,0x8000000080008000ULL,0x808b,0x80000001,0x8000000080008081ULL,0x8000000000008009ULL,0x8a,0x88,0x80008009,0x8000000a,0x8000808b,0x800000000000008bULL,0x8000000000008089ULL,0x8000000000008003ULL,0x8000000000008002ULL,0x8000000000000080ULL,0x800a,0x800000008000000aULL,0x8000000080008081ULL,0x8000000000008080ULL,0x80000001,0x8000000080008008ULL};
static const int ro[24]={1,3,6,10,15,21,28,36,45,55,2,14,27,41,56,8,25,43,62,18,39,61,20,44};
static const int pi[24]={10,7,11,17,18,3,5,16,8,21,24,4,15,23,19,13,12,2,20,14,22,9,6,1};
static void kf(uint64_t*s){for(int r=0;r<24;r++){uint64_t b[5];
#pragma GCC unroll 5
for(int i=0;i<5;i++)b[i]=s[i]^s[i+5]^s[i+10]^s[i+15]^s[i+20];
#pragma GCC unroll 5
for(int i=0;i<5;i++){uint64_t t=b[(i+4)%5]^R(b[(i+1)%5],1);for(int j=0;j<25;j+=5)s[j+i]^=t;}
uint64_t t=s[1];
#pragma GCC unroll 24
for(int i=0;i<24;i++){uint64_t u=s[pi[i]];s[pi[i]]=R(t,ro[i]);t=u;}
#pragma GCC unroll 5
for(int j=0;j<25;j+=5){uint64_t c[5];memcpy(c,s+j,40);for(int i=0;i<5;i++)s[j+i]=c[i]^(~c[(i+1)%5]&c[(i+2)%5]);}
s[0]^=RC[r];}}
int main(int c,char**v){uint64_t k=strtoull(v[1],0,0);for(;;k++){uint64_t s[25]={0};s[0]=k;s[4]=6;s[16]=1ull<<63;kf(s);uint64_t h[4];memcpy(h,s,32);
memset(s,0,200);memcpy(s,h,32);s[4]=0x1f;s[20]^=1ull<<63;int g[16]={0};int n=0;
for(int b=0;b<16;b++){kf(s);uint16_t*x=(uint16_t*)s;for(int i=0;i<84;i++,n++)g[n&15]+=x[i]<=61444;}
int bad=0;for(int i=0;i<16;i++)bad|=g[i]<64;
if(bad){printf("%llu\n",(unsigned long long)k);fflush(stdout);}}}
