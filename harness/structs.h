// Aggregates of 0..40 fields of two alternating types, and where their fields are.
#pragma once
#include <cstdint>
struct P0 {  };
struct P1 { uint8_t f0; };
struct P2 { uint8_t f0; int16_t f1; };
struct P3 { uint8_t f0; int16_t f1; uint8_t f2; };
struct P4 { uint8_t f0; int16_t f1; uint8_t f2; int16_t f3; };
struct P5 { uint8_t f0; int16_t f1; uint8_t f2; int16_t f3; uint8_t f4; };
struct P6 { uint8_t f0; int16_t f1; uint8_t f2; int16_t f3; uint8_t f4; int16_t f5; };
struct P7 { uint8_t f0; int16_t f1; uint8_t f2; int16_t f3; uint8_t f4; int16_t f5; uint8_t f6; };
struct P8 { uint8_t f0; int16_t f1; uint8_t f2; int16_t f3; uint8_t f4; int16_t f5; uint8_t f6; int16_t f7; };
struct P9 { uint8_t f0; int16_t f1; uint8_t f2; int16_t f3; uint8_t f4; int16_t f5; uint8_t f6; int16_t f7; uint8_t f8; };
struct P10 { uint8_t f0; int16_t f1; uint8_t f2; int16_t f3; uint8_t f4; int16_t f5; uint8_t f6; int16_t f7; uint8_t f8; int16_t f9; };
struct P11 { uint8_t f0; int16_t f1; uint8_t f2; int16_t f3; uint8_t f4; int16_t f5; uint8_t f6; int16_t f7; uint8_t f8; int16_t f9; uint8_t f10; };
struct P12 { uint8_t f0; int16_t f1; uint8_t f2; int16_t f3; uint8_t f4; int16_t f5; uint8_t f6; int16_t f7; uint8_t f8; int16_t f9; uint8_t f10; int16_t f11; };
struct P13 { uint8_t f0; int16_t f1; uint8_t f2; int16_t f3; uint8_t f4; int16_t f5; uint8_t f6; int16_t f7; uint8_t f8; int16_t f9; uint8_t f10; int16_t f11; uint8_t f12; };
struct P14 { uint8_t f0; int16_t f1; uint8_t f2; int16_t f3; uint8_t f4; int16_t f5; uint8_t f6; int16_t f7; uint8_t f8; int16_t f9; uint8_t f10; int16_t f11; uint8_t f12; int16_t f13; };
struct P15 { uint8_t f0; int16_t f1; uint8_t f2; int16_t f3; uint8_t f4; int16_t f5; uint8_t f6; int16_t f7; uint8_t f8; int16_t f9; uint8_t f10; int16_t f11; uint8_t f12; int16_t f13; uint8_t f14; };
struct P16 { uint8_t f0; int16_t f1; uint8_t f2; int16_t f3; uint8_t f4; int16_t f5; uint8_t f6; int16_t f7; uint8_t f8; int16_t f9; uint8_t f10; int16_t f11; uint8_t f12; int16_t f13; uint8_t f14; int16_t f15; };
struct P17 { uint8_t f0; int16_t f1; uint8_t f2; int16_t f3; uint8_t f4; int16_t f5; uint8_t f6; int16_t f7; uint8_t f8; int16_t f9; uint8_t f10; int16_t f11; uint8_t f12; int16_t f13; uint8_t f14; int16_t f15; uint8_t f16; };
struct P18 { uint8_t f0; int16_t f1; uint8_t f2; int16_t f3; uint8_t f4; int16_t f5; uint8_t f6; int16_t f7; uint8_t f8; int16_t f9; uint8_t f10; int16_t f11; uint8_t f12; int16_t f13; uint8_t f14; int16_t f15; uint8_t f16; int16_t f17; };
struct P19 { uint8_t f0; int16_t f1; uint8_t f2; int16_t f3; uint8_t f4; int16_t f5; uint8_t f6; int16_t f7; uint8_t f8; int16_t f9; uint8_t f10; int16_t f11; uint8_t f12; int16_t f13; uint8_t f14; int16_t f15; uint8_t f16; int16_t f17; uint8_t f18; };
struct P20 { uint8_t f0; int16_t f1; uint8_t f2; int16_t f3; uint8_t f4; int16_t f5; uint8_t f6; int16_t f7; uint8_t f8; int16_t f9; uint8_t f10; int16_t f11; uint8_t f12; int16_t f13; uint8_t f14; int16_t f15; uint8_t f16; int16_t f17; uint8_t f18; int16_t f19; };
struct P21 { uint8_t f0; int16_t f1; uint8_t f2; int16_t f3; uint8_t f4; int16_t f5; uint8_t f6; int16_t f7; uint8_t f8; int16_t f9; uint8_t f10; int16_t f11; uint8_t f12; int16_t f13; uint8_t f14; int16_t f15; uint8_t f16; int16_t f17; uint8_t f18; int16_t f19; uint8_t f20; };
struct P22 { uint8_t f0; int16_t f1; uint8_t f2; int16_t f3; uint8_t f4; int16_t f5; uint8_t f6; int16_t f7; uint8_t f8; int16_t f9; uint8_t f10; int16_t f11; uint8_t f12; int16_t f13; uint8_t f14; int16_t f15; uint8_t f16; int16_t f17; uint8_t f18; int16_t f19; uint8_t f20; int16_t f21; };
struct P23 { uint8_t f0; int16_t f1; uint8_t f2; int16_t f3; uint8_t f4; int16_t f5; uint8_t f6; int16_t f7; uint8_t f8; int16_t f9; uint8_t f10; int16_t f11; uint8_t f12; int16_t f13; uint8_t f14; int16_t f15; uint8_t f16; int16_t f17; uint8_t f18; int16_t f19; uint8_t f20; int16_t f21; uint8_t f22; };
struct P24 { uint8_t f0; int16_t f1; uint8_t f2; int16_t f3; uint8_t f4; int16_t f5; uint8_t f6; int16_t f7; uint8_t f8; int16_t f9; uint8_t f10; int16_t f11; uint8_t f12; int16_t f13; uint8_t f14; int16_t f15; uint8_t f16; int16_t f17; uint8_t f18; int16_t f19; uint8_t f20; int16_t f21; uint8_t f22; int16_t f23; };
struct P25 { uint8_t f0; int16_t f1; uint8_t f2; int16_t f3; uint8_t f4; int16_t f5; uint8_t f6; int16_t f7; uint8_t f8; int16_t f9; uint8_t f10; int16_t f11; uint8_t f12; int16_t f13; uint8_t f14; int16_t f15; uint8_t f16; int16_t f17; uint8_t f18; int16_t f19; uint8_t f20; int16_t f21; uint8_t f22; int16_t f23; uint8_t f24; };
struct P26 { uint8_t f0; int16_t f1; uint8_t f2; int16_t f3; uint8_t f4; int16_t f5; uint8_t f6; int16_t f7; uint8_t f8; int16_t f9; uint8_t f10; int16_t f11; uint8_t f12; int16_t f13; uint8_t f14; int16_t f15; uint8_t f16; int16_t f17; uint8_t f18; int16_t f19; uint8_t f20; int16_t f21; uint8_t f22; int16_t f23; uint8_t f24; int16_t f25; };
struct P27 { uint8_t f0; int16_t f1; uint8_t f2; int16_t f3; uint8_t f4; int16_t f5; uint8_t f6; int16_t f7; uint8_t f8; int16_t f9; uint8_t f10; int16_t f11; uint8_t f12; int16_t f13; uint8_t f14; int16_t f15; uint8_t f16; int16_t f17; uint8_t f18; int16_t f19; uint8_t f20; int16_t f21; uint8_t f22; int16_t f23; uint8_t f24; int16_t f25; uint8_t f26; };
struct P28 { uint8_t f0; int16_t f1; uint8_t f2; int16_t f3; uint8_t f4; int16_t f5; uint8_t f6; int16_t f7; uint8_t f8; int16_t f9; uint8_t f10; int16_t f11; uint8_t f12; int16_t f13; uint8_t f14; int16_t f15; uint8_t f16; int16_t f17; uint8_t f18; int16_t f19; uint8_t f20; int16_t f21; uint8_t f22; int16_t f23; uint8_t f24; int16_t f25; uint8_t f26; int16_t f27; };
struct P29 { uint8_t f0; int16_t f1; uint8_t f2; int16_t f3; uint8_t f4; int16_t f5; uint8_t f6; int16_t f7; uint8_t f8; int16_t f9; uint8_t f10; int16_t f11; uint8_t f12; int16_t f13; uint8_t f14; int16_t f15; uint8_t f16; int16_t f17; uint8_t f18; int16_t f19; uint8_t f20; int16_t f21; uint8_t f22; int16_t f23; uint8_t f24; int16_t f25; uint8_t f26; int16_t f27; uint8_t f28; };
struct P30 { uint8_t f0; int16_t f1; uint8_t f2; int16_t f3; uint8_t f4; int16_t f5; uint8_t f6; int16_t f7; uint8_t f8; int16_t f9; uint8_t f10; int16_t f11; uint8_t f12; int16_t f13; uint8_t f14; int16_t f15; uint8_t f16; int16_t f17; uint8_t f18; int16_t f19; uint8_t f20; int16_t f21; uint8_t f22; int16_t f23; uint8_t f24; int16_t f25; uint8_t f26; int16_t f27; uint8_t f28; int16_t f29; };
struct P31 { uint8_t f0; int16_t f1; uint8_t f2; int16_t f3; uint8_t f4; int16_t f5; uint8_t f6; int16_t f7; uint8_t f8; int16_t f9; uint8_t f10; int16_t f11; uint8_t f12; int16_t f13; uint8_t f14; int16_t f15; uint8_t f16; int16_t f17; uint8_t f18; int16_t f19; uint8_t f20; int16_t f21; uint8_t f22; int16_t f23; uint8_t f24; int16_t f25; uint8_t f26; int16_t f27; uint8_t f28; int16_t f29; uint8_t f30; };
struct P32 { uint8_t f0; int16_t f1; uint8_t f2; int16_t f3; uint8_t f4; int16_t f5; uint8_t f6; int16_t f7; uint8_t f8; int16_t f9; uint8_t f10; int16_t f11; uint8_t f12; int16_t f13; uint8_t f14; int16_t f15; uint8_t f16; int16_t f17; uint8_t f18; int16_t f19; uint8_t f20; int16_t f21; uint8_t f22; int16_t f23; uint8_t f24; int16_t f25; uint8_t f26; int16_t f27; uint8_t f28; int16_t f29; uint8_t f30; int16_t f31; };
struct P33 { uint8_t f0; int16_t f1; uint8_t f2; int16_t f3; uint8_t f4; int16_t f5; uint8_t f6; int16_t f7; uint8_t f8; int16_t f9; uint8_t f10; int16_t f11; uint8_t f12; int16_t f13; uint8_t f14; int16_t f15; uint8_t f16; int16_t f17; uint8_t f18; int16_t f19; uint8_t f20; int16_t f21; uint8_t f22; int16_t f23; uint8_t f24; int16_t f25; uint8_t f26; int16_t f27; uint8_t f28; int16_t f29; uint8_t f30; int16_t f31; uint8_t f32; };
struct P34 { uint8_t f0; int16_t f1; uint8_t f2; int16_t f3; uint8_t f4; int16_t f5; uint8_t f6; int16_t f7; uint8_t f8; int16_t f9; uint8_t f10; int16_t f11; uint8_t f12; int16_t f13; uint8_t f14; int16_t f15; uint8_t f16; int16_t f17; uint8_t f18; int16_t f19; uint8_t f20; int16_t f21; uint8_t f22; int16_t f23; uint8_t f24; int16_t f25; uint8_t f26; int16_t f27; uint8_t f28; int16_t f29; uint8_t f30; int16_t f31; uint8_t f32; int16_t f33; };
struct P35 { uint8_t f0; int16_t f1; uint8_t f2; int16_t f3; uint8_t f4; int16_t f5; uint8_t f6; int16_t f7; uint8_t f8; int16_t f9; uint8_t f10; int16_t f11; uint8_t f12; int16_t f13; uint8_t f14; int16_t f15; uint8_t f16; int16_t f17; uint8_t f18; int16_t f19; uint8_t f20; int16_t f21; uint8_t f22; int16_t f23; uint8_t f24; int16_t f25; uint8_t f26; int16_t f27; uint8_t f28; int16_t f29; uint8_t f30; int16_t f31; uint8_t f32; int16_t f33; uint8_t f34; };
struct P36 { uint8_t f0; int16_t f1; uint8_t f2; int16_t f3; uint8_t f4; int16_t f5; uint8_t f6; int16_t f7; uint8_t f8; int16_t f9; uint8_t f10; int16_t f11; uint8_t f12; int16_t f13; uint8_t f14; int16_t f15; uint8_t f16; int16_t f17; uint8_t f18; int16_t f19; uint8_t f20; int16_t f21; uint8_t f22; int16_t f23; uint8_t f24; int16_t f25; uint8_t f26; int16_t f27; uint8_t f28; int16_t f29; uint8_t f30; int16_t f31; uint8_t f32; int16_t f33; uint8_t f34; int16_t f35; };
struct P37 { uint8_t f0; int16_t f1; uint8_t f2; int16_t f3; uint8_t f4; int16_t f5; uint8_t f6; int16_t f7; uint8_t f8; int16_t f9; uint8_t f10; int16_t f11; uint8_t f12; int16_t f13; uint8_t f14; int16_t f15; uint8_t f16; int16_t f17; uint8_t f18; int16_t f19; uint8_t f20; int16_t f21; uint8_t f22; int16_t f23; uint8_t f24; int16_t f25; uint8_t f26; int16_t f27; uint8_t f28; int16_t f29; uint8_t f30; int16_t f31; uint8_t f32; int16_t f33; uint8_t f34; int16_t f35; uint8_t f36; };
struct P38 { uint8_t f0; int16_t f1; uint8_t f2; int16_t f3; uint8_t f4; int16_t f5; uint8_t f6; int16_t f7; uint8_t f8; int16_t f9; uint8_t f10; int16_t f11; uint8_t f12; int16_t f13; uint8_t f14; int16_t f15; uint8_t f16; int16_t f17; uint8_t f18; int16_t f19; uint8_t f20; int16_t f21; uint8_t f22; int16_t f23; uint8_t f24; int16_t f25; uint8_t f26; int16_t f27; uint8_t f28; int16_t f29; uint8_t f30; int16_t f31; uint8_t f32; int16_t f33; uint8_t f34; int16_t f35; uint8_t f36; int16_t f37; };
struct P39 { uint8_t f0; int16_t f1; uint8_t f2; int16_t f3; uint8_t f4; int16_t f5; uint8_t f6; int16_t f7; uint8_t f8; int16_t f9; uint8_t f10; int16_t f11; uint8_t f12; int16_t f13; uint8_t f14; int16_t f15; uint8_t f16; int16_t f17; uint8_t f18; int16_t f19; uint8_t f20; int16_t f21; uint8_t f22; int16_t f23; uint8_t f24; int16_t f25; uint8_t f26; int16_t f27; uint8_t f28; int16_t f29; uint8_t f30; int16_t f31; uint8_t f32; int16_t f33; uint8_t f34; int16_t f35; uint8_t f36; int16_t f37; uint8_t f38; };
struct P40 { uint8_t f0; int16_t f1; uint8_t f2; int16_t f3; uint8_t f4; int16_t f5; uint8_t f6; int16_t f7; uint8_t f8; int16_t f9; uint8_t f10; int16_t f11; uint8_t f12; int16_t f13; uint8_t f14; int16_t f15; uint8_t f16; int16_t f17; uint8_t f18; int16_t f19; uint8_t f20; int16_t f21; uint8_t f22; int16_t f23; uint8_t f24; int16_t f25; uint8_t f26; int16_t f27; uint8_t f28; int16_t f29; uint8_t f30; int16_t f31; uint8_t f32; int16_t f33; uint8_t f34; int16_t f35; uint8_t f36; int16_t f37; uint8_t f38; int16_t f39; };
template <class S> const void* addr(const S& s, unsigned i, unsigned n) {  // the layout of the fields in order of declaration
  const char* p = reinterpret_cast<const char*>(&s); uint64_t off = 0;
  for (unsigned k = 0; k < n; ++k) { const unsigned z = k % 2 ? 2 : 1; off = (off + z - 1) / z * z; if (k == i) break; off += z; }
  return p + off;
}
