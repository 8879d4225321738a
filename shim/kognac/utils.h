// Stand-in for kognac/utils.h (not part of this repository): the number codecs used by the trees. With VP_CONTRACTS they
// are body-less functions whose contract the verifier supplies.
#pragma once
#include <inttypes.h>
#include <kognac/consts.h>
#ifdef VP_CONTRACTS
extern "C" {
int vp_dec_int(const char*, int); int64_t vp_dec_long(const char*, int); int64_t vp_dec_vlong(const char*, int*); int64_t vp_dec_vlong2(const char*, int*);
void vp_enc_int(char*, int, int); void vp_enc_long(char*, int, int64_t); int vp_enc_vlong(char*, int, int64_t); int vp_enc_vlong2(char*, int, int64_t);
int vp_dec_short(const char*, int); void vp_enc_short(char*, int, int); int vp_enc_vint2(char*, int, int); int vp_dec_vint2(const char*, int*);
}
class Utils { public:
   static int decode_int(const char* b, int p) { return vp_dec_int(b, p); }
   static int64_t decode_long(const char* b, int p) { return vp_dec_long(b, p); }
   static int64_t decode_vlong(const char* b, int* p) { return vp_dec_vlong(b, p); }
   static int64_t decode_vlong2(const char* b, int* p) { return vp_dec_vlong2(b, p); }
   static int decode_vint2(const char* b, int* p) { return vp_dec_vint2(b, p); }
   static short decode_short(const char* b, int p) { return (short)vp_dec_short(b, p); }
   static void encode_int(char* b, int p, int v) { vp_enc_int(b, p, v); }
   static void encode_long(char* b, int p, int64_t v) { vp_enc_long(b, p, v); }
   static void encode_short(char* b, int p, int v) { vp_enc_short(b, p, v); }
   static int encode_vlong(char* b, int p, int64_t v) { return vp_enc_vlong(b, p, v); }
   static int encode_vlong2(char* b, int p, int64_t v) { return vp_enc_vlong2(b, p, v); }
   static int encode_vint2(char* b, int p, int v) { return vp_enc_vint2(b, p, v); }
};
#else
#include <string.h>
class Utils { public:
   static int decode_int(const char* b, int p) { int v; memcpy(&v, b + p, 4); return v; }
   static int64_t decode_long(const char* b, int p) { int64_t v; memcpy(&v, b + p, 8); return v; }
   static int64_t decode_vlong(const char* b, int* p) { uint64_t v = 0; int s = 0; while (true) { unsigned char c = b[(*p)++]; v |= (uint64_t)(c & 127) << s; if (!(c & 128)) break; s += 7; } return (int64_t)v; }
   static int64_t decode_vlong2(const char* b, int* p) { return decode_vlong(b, p); }
   static int decode_vint2(const char* b, int* p) { return (int)decode_vlong(b, p); }
   static short decode_short(const char* b, int p) { short v; memcpy(&v, b + p, 2); return v; }
   static void encode_int(char* b, int p, int v) { memcpy(b + p, &v, 4); }
   static void encode_long(char* b, int p, int64_t v) { memcpy(b + p, &v, 8); }
   static void encode_short(char* b, int p, int v) { short w = (short)v; memcpy(b + p, &w, 2); }
   static int encode_vlong(char* b, int p, int64_t v) { uint64_t u = (uint64_t)v; while (u >= 128) { b[p++] = (char)((u & 127) | 128); u >>= 7; } b[p++] = (char)u; return p; }
   static int encode_vlong2(char* b, int p, int64_t v) { return encode_vlong(b, p, v); }
   static int encode_vint2(char* b, int p, int v) { return encode_vlong(b, p, v); }
};
#endif
