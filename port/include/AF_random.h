#pragma once
#include <cstdint>
#include <random>
namespace AFog {
  static constexpr int GEN_ERROR = INT32_MIN;
  template<class T> struct has_FRandom : std::false_type{};
  class RngBase_ {
    // stand-in for the generators of Agner Fog (not part of the repository): splitmix64 with a cheap, well mixed seeding
    struct G { uint64_t s = 0; static uint64_t mix(uint64_t z){ z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
      explicit G(uint64_t v){ seed(v); } void seed(uint64_t v){ s = mix(v + 0x9e3779b97f4a7c15ull); }
      void seed(int const* a, int n){ s = 0x1234567ull + (uint64_t)n; for(int i = 0; i < n; i++) s = mix(s + 0x9e3779b97f4a7c15ull) ^ mix((uint32_t)a[i] + 0x5851f42d4c957f2dull); }
      uint64_t operator()(){ return mix(s += 0x9e3779b97f4a7c15ull); } } g;
  public:
    RngBase_(int s):g((uint32_t)s){}
    void RandomInit(int s){ g.seed((uint32_t)s); }
    void RandomInitByArray(int const s[], int n){ g.seed(s,n); }
    uint32_t BRandom(){ return (uint32_t)g(); }
    double Random(){ return (g()>>11)*(1.0/9007199254740992.0);}    
    int IRandomX(int mn,int mx){ if(mx<=mn){ return mx==mn?mn:GEN_ERROR;} uint64_t w=(uint64_t)((int64_t)mx-mn+1); return (int)(mn + (int64_t)(( (unsigned __int128)g()*w)>>64)); }
    int IRandom(int mn,int mx){return IRandomX(mn,mx);}
    template<typename T> double FPRandom(){ return Random(); }
  };
  struct CRandomMersenne : RngBase_ { using RngBase_::RngBase_; };
  struct CRandomSFMT0 : RngBase_ { using RngBase_::RngBase_; };
  struct CRandomSFMT1 : RngBase_ { using RngBase_::RngBase_; };
}
